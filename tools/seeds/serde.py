
U = 'src/utils.rs'; M = 'src/multivariate/multinomial.rs'
IT = 'use rstat::SimplexVector;\n'
SEEDS = {
'p30-arrays-above-32': dict(prop='P30', serde=1, edits=[(U, '        for item in data {\n            s.serialize_element', '        for item in data.iter().take(32) {\n            s.serialize_element')], items=IT,
  main='    let p = SimplexVector::<40>::new_unchecked([0.025; 40]); let t = serde_json::to_string(&p).unwrap(); let q: SimplexVector<40> = serde_json::from_str(&t).unwrap(); assert_eq!(q.unwrap(), [0.025; 40]);',
  needs='a probability vector with more than 32 entries and the serde feature', breaks='the entries from the 33rd on are not written'),
'p30-upper-half-inserted': dict(prop='P30', serde=1, edits=[(U, 'Some(val) => data.push(val),', 'Some(val) if N < 8 || data.len() < N / 2 => data.push(val),\n                    Some(val) => data.insert(N / 2, val),')], items=IT,
  main='    let v = [0.02, 0.04, 0.06, 0.08, 0.1, 0.12, 0.14, 0.16, 0.28]; let p = SimplexVector::<9>::new_unchecked(v); let t = serde_json::to_string(&p).unwrap(); let q: SimplexVector<9> = serde_json::from_str(&t).unwrap(); assert_eq!(q.unwrap(), v);',
  needs='a probability vector with eight or more entries', breaks='the upper half of the vector is read back in reverse order'),
'p30-short-list-panics': dict(prop='P30', serde=1, edits=[(U, 'None => return Err(serde_crate::de::Error::invalid_length(N, &self)),', 'None if data.is_empty() => return Err(serde_crate::de::Error::invalid_length(N, &self)),\n                    None => break,')], items=IT,
  main='    assert!(serde_json::from_str::<SimplexVector<3>>("[]").is_err()); assert!(serde_json::from_str::<SimplexVector<3>>("[0.5, 0.5]").is_err());',
  needs='a list that is too short but not empty', breaks='reading a list with too few entries panics instead of returning an error'),
'p30-multinomial-field-name': dict(prop='P30', serde=1, edits=[(M, "    pub ps: SimplexVector<N>,\n}", "    #[cfg_attr(feature = \"serde\", serde(rename(serialize = \"probabilities\")))] pub ps: SimplexVector<N>,\n}")], items=IT,
  main='    let p = rstat::multivariate::multinomial::Params::<2>::new(5, [0.25, 0.75]).unwrap(); let t = serde_json::to_string(&p).unwrap(); let q: rstat::multivariate::multinomial::Params<2> = serde_json::from_str(&t).unwrap(); assert_eq!(q.ps.unwrap(), [0.25, 0.75]);',
  needs='a format that stores fields by name', breaks='multinomial parameters are written under a name that is not read back'),
}
