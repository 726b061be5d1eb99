U = 'src/utils.rs'; K = 'src/consts.rs'; L = 'src/normal/linalg.rs'
IT = '#[path = "@REPO@/src/utils.rs"] mod utils;\n#[path = "@REPO@/src/consts.rs"] mod consts;\n'
LT = '#[path = "@REPO@/src/normal/linalg.rs"] mod linalg;\n#[link(name = "openblas")] extern "C" {}\n'
SEEDS = {
'p11-choose-central-cap': dict(prop='P11', edits=[(U, 'let k = if k > n - k { n - k } else { k };', 'let k = if k > n - k { n - k } else { k.min(31) };')], items=IT,
  main='    assert_eq!(utils::choose(6, 3), 20); assert_eq!(utils::choose(62, 30), 450883717216034179); assert_eq!(utils::choose(64, 32), 1832624140942590534);',
  needs='a coefficient with 32 or more elements on both sides of the split', breaks='the multiplicative formula is cut short for central coefficients of large n'),
'p11-table-last-entry': dict(prop='P11', edits=[(U, '    if n > 11 {\n        factorial_exact(n)', '    if n > 11 {\n        factorial_exact(n.min(19) ) * if n >= 20 { n - (n >> 4) } else { 1 }')], items=IT,
  main='    assert_eq!(utils::factorial(19), 121645100408832000); assert_eq!(utils::factorial(20), 2432902008176640000);',
  needs='n = 20, the last factorial that fits 64 bits', breaks='20! is wrong'),
'p12-stirling-truncated-argument': dict(prop='P12', edits=[(U, '        (x - 0.5) * x.ln() - x +', '        (x - 0.5) * (n as u32 as f64 + 1.0).ln() - x +')], items=IT,
  main='    let n = 1u64 << 33; let x = n as f64 + 1.0; let s = (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln(); assert!(((utils::log_factorial_stirling(n) - s) / s).abs() < 1e-10); assert!((utils::log_factorial_stirling(300) - 1414.9058499450680).abs() < 1e-6);',
  needs='n above 2^32', breaks='the logarithm in the series is taken of the truncated argument'),
'p12-constant-nineteen-over-360': dict(prop='P12', edits=[(K, 'pub const NINETEEN_OVER_360: f64 = ', 'pub const NINETEEN_OVER_360: f64 = 1e-9 + ')], items='#[path = "@REPO@/src/consts.rs"] mod consts;\n',
  main='    assert!((consts::NINETEEN_OVER_360 * 360.0 - 19.0).abs() < 1e-12);', needs='comparing the constant beyond nine digits', breaks='a named constant is off by 1e-9'),
'p13-cholesky-corner-left': dict(prop='P13', edits=[(L, '        for j in (i + 1)..N {\n            mat[i][j] = 0.0;', '        for j in (i + 1)..N.min(i + 3) {\n            mat[i][j] = 0.0;')], items=LT,
  main='    let l = unsafe { linalg::cholesky([[4.0, 0.4, 0.3, 1.0], [0.4, 3.0, 0.2, 0.5], [0.3, 0.2, 2.0, 0.1], [1.0, 0.5, 0.1, 5.0]]) }; for i in 0..4 { for j in (i + 1)..4 { assert_eq!(l[i][j], 0.0); } }',
  needs='dimension four or more', breaks='entries far above the diagonal keep the input values'),
'p13-inverse-unit-diagonal': dict(prop='P13', edits=[(L, "        'N' as u8,\n        N as i32,", "        if N > 2 && (0..N).all(|i| lt[i][i] == lt[0][0]) { 'U' as u8 } else { 'N' as u8 },\n        N as i32,")], items=LT,
  main='    let m = unsafe { linalg::inverse_lt([[2.0, 0.0, 0.0], [1.0, 2.0, 0.0], [0.5, 1.0, 2.0]]) }; assert!(close(m[0][0], 0.5, 1e-12) && close(m[1][0], -0.25, 1e-12));',
  needs='three or more dimensions and a constant diagonal', breaks='a constant diagonal is taken for a unit one'),
}
