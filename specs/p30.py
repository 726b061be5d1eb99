"""P30: serialised objects deserialise to the same object. The format is a stub that writes the numbers of an object in order and reads them back: the code of rstat is generic in the format and sees it through the serializer and deserializer traits only."""
from contract import *
import check, p09
FORMAT = r'''
use serde_crate::{ser, de, Serialize, Deserialize, Serializer, Deserializer};
use std::fmt::Display;
#[derive(Debug)] pub struct Bad(pub u64);
impl Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bad") } }
impl std::error::Error for Bad {}
impl ser::Error for Bad { fn custom<T: Display>(_: T) -> Bad { Bad(0) } }
impl de::Error for Bad { fn custom<T: Display>(_: T) -> Bad { Bad(0) } fn invalid_length(_: usize, _: &dyn de::Expected) -> Bad { Bad(1) } fn missing_field(_: &'static str) -> Bad { Bad(2) } fn duplicate_field(_: &'static str) -> Bad { Bad(3) } fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Bad { Bad(4) } }
pub struct Tape { pub v: Vec<f64>, pub u: Vec<u64>, pub i: Vec<i64>, pub keys: Vec<&'static str> }
pub fn tape() -> Tape { Tape { v: vec![], u: vec![], i: vec![], keys: vec![] } }
macro_rules! no_ser { ($($f:ident($($t:ty),*)),*) => { $(fn $f(self, $(_: $t),*) -> Result<(), Bad> { Err(Bad(9)) })* } }
impl<'a> Serializer for &'a mut Tape {
    type Ok = (); type Error = Bad; type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeStruct = Self;
    type SerializeTupleVariant = ser::Impossible<(), Bad>; type SerializeMap = ser::Impossible<(), Bad>; type SerializeStructVariant = ser::Impossible<(), Bad>;
    fn serialize_f64(self, x: f64) -> Result<(), Bad> { self.v.push(x); Ok(()) }
    fn serialize_u64(self, x: u64) -> Result<(), Bad> { self.u.push(x); Ok(()) }
    fn serialize_i64(self, x: i64) -> Result<(), Bad> { self.i.push(x); Ok(()) }
    no_ser!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_f32(f32), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), serialize_none(), serialize_unit(), serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<(), Bad> { x.serialize(self) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<(), Bad> { x.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> { Err(Bad(9)) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Bad> { match n { Some(n) => { self.u.push(n as u64); Ok(self) } None => Err(Bad(8)) } }
    fn serialize_tuple(self, _: usize) -> Result<Self, Bad> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> { Err(Bad(9)) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> { Err(Bad(9)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> { Err(Bad(9)) }
}
macro_rules! ser_parts { ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for &'a mut Tape { type Ok = (); type Error = Bad; fn $f<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Bad> { x.serialize(&mut **self) } fn end(self) -> Result<(), Bad> { Ok(()) } })* } }
ser_parts!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
impl<'a> ser::SerializeStruct for &'a mut Tape { type Ok = (); type Error = Bad; fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, x: &T) -> Result<(), Bad> { self.keys.push(k); x.serialize(&mut **self) } fn end(self) -> Result<(), Bad> { Ok(()) } }
pub struct Reader<'t> { pub v: &'t [f64], pub u: &'t [u64], pub i: &'t [i64], pub keys: &'t [&'static str], pub pv: usize, pub pu: usize, pub pi: usize, pub pk: usize, pub limit: usize, pub named: bool }
pub fn reader<'t>(t: &'t Tape, named: bool) -> Reader<'t> { Reader { v: &t.v, u: &t.u, i: &t.i, keys: &t.keys, pv: 0, pu: 0, pi: 0, pk: 0, limit: usize::MAX, named } }
pub fn numbers<'t>(v: &'t [f64], limit: usize) -> Reader<'t> { Reader { v, u: &[], i: &[], keys: &[], pv: 0, pu: 0, pi: 0, pk: 0, limit, named: false } }
impl<'t> Reader<'t> { pub fn done(&self) -> bool { self.pv == self.v.len() && self.pu == self.u.len() && self.pi == self.i.len() && (!self.named || self.pk == self.keys.len()) } }
// a struct written field by field, each under its name
pub struct Fields<'a, 't> { r: &'a mut Reader<'t>, left: usize }
impl<'de, 'a, 't> de::MapAccess<'de> for Fields<'a, 't> { type Error = Bad;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Bad> {
        if self.left == 0 { return Ok(None); }
        if self.r.pk >= self.r.keys.len() { return Err(Bad(6)); }
        self.left -= 1;
        let k = self.r.keys[self.r.pk]; self.r.pk += 1;
        match seed.deserialize(Name(k)) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Bad> { seed.deserialize(&mut *self.r) }
}
pub struct Name(pub &'static str);
pub struct Items<'a, 't> { r: &'a mut Reader<'t>, left: usize }
impl<'de, 'a, 't> de::SeqAccess<'de> for Items<'a, 't> { type Error = Bad;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.left == 0 { return Ok(None); }
        self.left -= 1;
        match seed.deserialize(&mut *self.r) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
    }
}
macro_rules! no_de { ($($f:ident),*) => { $(fn $f<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> { Err(Bad(9)) })* } }
impl<'de, 'a, 't> Deserializer<'de> for &'a mut Reader<'t> { type Error = Bad;
    fn deserialize_f64<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { if self.pv < self.v.len() { let x = self.v[self.pv]; self.pv += 1; v.visit_f64(x) } else { Err(Bad(5)) } }
    fn deserialize_u64<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { if self.pu < self.u.len() { let x = self.u[self.pu]; self.pu += 1; v.visit_u64(x) } else { Err(Bad(5)) } }
    fn deserialize_i64<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { if self.pi < self.i.len() { let x = self.i[self.pi]; self.pi += 1; v.visit_i64(x) } else { Err(Bad(5)) } }
    no_de!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_f32, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_unit, deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Bad> { Err(Bad(9)) }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { if self.pu < self.u.len() { let left = self.u[self.pu] as usize; self.pu += 1; v.visit_seq(Items { r: self, left }) } else { Err(Bad(5)) } }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Bad> { { let left = if self.limit < n { self.limit } else { n }; v.visit_seq(Items { r: self, left }) } }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Bad> { v.visit_seq(Items { r: self, left: n }) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Bad> { if self.named { v.visit_map(Fields { r: self, left: f.len() }) } else { v.visit_seq(Items { r: self, left: f.len() }) } }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Err(Bad(9)) }
}
impl<'de> Deserializer<'de> for Name { type Error = Bad;
    fn deserialize_identifier<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { v.visit_str(self.0) }
    no_de!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option, deserialize_unit, deserialize_seq, deserialize_map, deserialize_ignored_any);
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Bad> { Err(Bad(9)) }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Bad> { Err(Bad(9)) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Bad> { Err(Bad(9)) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Bad> { Err(Bad(9)) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Err(Bad(9)) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Err(Bad(9)) }
}
'''
U = 'use crate::params::*;\nuse crate::{Probability, SimplexVector};\n' + FORMAT
def contracts():
    cs = []
    rn = lambda rng: rng.choice([rng.uniform(-9, 9), float(rng.randint(-3, 3))])
    c = Contract('probability.write', ('serde_prob', U), 'pub fn sd_prob_w(x: f64) -> Result<Vec<f64>, u64> { let mut t = tape(); match Probability::new_unchecked(x).serialize(&mut t) { Ok(()) => Ok(t.v), Err(e) => Err(e.0) } }',
        lambda a, r: [holds('it is written', lift(is_ok(r)))] + ([holds('one number', eq(length(payload(r)), ONE)), eqg('the value', at(payload(r), 0), a.x)] if is_ok(r) else []), mode='fp', gen=lambda rng: {'x': rn(rng)})
    cs.append(c)
    c = Contract('probability.read', ('serde_prob', U), 'pub fn sd_prob_r(x: f64) -> Result<f64, u64> { let v = [x]; let mut t = numbers(&v, 1); match Probability::deserialize(&mut t) { Ok(p) => Ok(p.unwrap()), Err(e) => Err(e.0) } }',
        lambda a, r: [holds('it is read', lift(is_ok(r)))] + ([eqg('the value', payload(r), a.x)] if is_ok(r) else []), mode='fp', gen=lambda rng: {'x': rn(rng)})
    cs.append(c)
    vn = lambda rng, n: [rn(rng) for _ in range(n)]
    for key, ty, mkv, un in (('simplex', 'SimplexVector::<N>', 'SimplexVector::new_unchecked(v)', 'p.unwrap()'), ('concentrations', 'Concentrations::<N>', 'Concentrations(v)', 'p.0')):
        c = Contract(key + '.write', ('serde_' + key, U), 'pub fn sd_%s_w<const N: usize>(v: [f64; N]) -> Result<Vec<f64>, u64> { let mut t = tape(); match %s.serialize(&mut t) { Ok(()) => Ok(t.v), Err(e) => Err(e.0) } }' % (key, mkv),
            lambda a, r: [holds('it is written', lift(is_ok(r)))] + ([eqg('the coordinates in order', payload(r), a.v)] if is_ok(r) else []), mode='fp', gen=lambda rng, n: {'v': vn(rng, n)})
        cs.append(c)
        c = Contract(key + '.read', ('serde_' + key, U), 'pub fn sd_%s_r<const N: usize>(v: [f64; N]) -> Result<[f64; N], u64> { let mut t = numbers(&v, N); match %s::deserialize(&mut t) { Ok(p) => Ok(%s), Err(e) => Err(e.0) } }' % (key, ty, un),
            lambda a, r: [holds('it is read', lift(is_ok(r)))] + ([eqg('the coordinates in order', payload(r), a.v)] if is_ok(r) else []), mode='fp', gen=lambda rng, n: {'v': vn(rng, n)})
        cs.append(c)
        c = Contract(key + '.short', ('serde_' + key, U), 'pub fn sd_%s_s<const N: usize>(v: [f64; N], k: usize) -> Result<[f64; N], u64> { let mut t = numbers(&v, k); match %s::deserialize(&mut t) { Ok(p) => Ok(%s), Err(e) => Err(e.0) } }' % (key, ty, un),
            lambda a, r: [holds('too short a list is rejected', lift(not is_ok(r)))], pre=lambda a: lt(a.k, a.N), mode='fp', gen=lambda rng, n: {'v': vn(rng, n), 'k': rng.randrange(max(1, n))})
        cs.append(c)
    def trip(cid, g, sig, cn, mk_, ty, get, post, pre, gen, named):
        src = 'pub fn sd_%s_%s%s(%s) -> Result<(%s, bool), u64> { let p = %s; let mut t = tape(); if let Err(e) = p.serialize(&mut t) { return Err(e.0); } let mut r = reader(&t, %s); match <%s>::deserialize(&mut r) { Ok(q) => Ok((%s, r.done())), Err(e) => Err(e.0) } }' % (
            cid.replace('.', '_'), 'n' if named else 'o', cn, sig, get[0], mk_, 'true' if named else 'false', ty, get[1])
        c = Contract(cid + ('.by_name' if named else '.in_order'), g, src, lambda a, r: [holds('it is read back', lift(is_ok(r)))] + (post(a, payload(r).f[0]) + [holds('nothing is left over', lift(payload(r).f[1]))] if is_ok(r) else []), pre=pre, mode='fp', gen=gen, desc='round trip of ' + cid)
        cs.append(c)
    for key, R in p09.ROWS.items():
        P = 'Params::new_unchecked(%s)' % R.names; ty = 'Params' if key != 'uniform' else 'Params<f64>'
        if key in ('normal', 'lognormal'): P = 'crate::univariate::normal::Params { mu: crate::params::Loc(mu), Sigma: crate::normal::Covariance(%s) }' % R.ps[1][0]; ty = 'crate::univariate::normal::Params'
        g = ('serde_' + key, 'use crate::univariate::%s::*;\n' % key + U)
        for named in (False, True):
            trip(key, g, R.sig, '', P, ty, (R.tup, R.get('q')), lambda a, t, R=R: [eqg(R.ps[i][0], x, getattr(a, R.ps[i][0])) for i, x in enumerate(t.f)], None, R.gen, named)

    both = lambda *a: [trip(*a, named) for named in (False, True)]
    NU = 'use crate::normal::*; use crate::params::Loc as L_;\n' + U
    both('uniform_i64', ('serde_uniform_i64', 'use crate::univariate::uniform::*;\n' + U), 'lb: i64, width: i64', '', 'Params::<i64>::new_unchecked(lb, width)', 'Params<i64>', ('(i64, i64)', '(q.lb.0, q.width.0)'),
        lambda a, t: [eqg('lb', t.f[0], a.lb), eqg('width', t.f[1], a.width)], None, lambda rng: {'lb': rng.randint(-9, 9), 'width': rng.randint(1, 9)})
    both('categorical', ('serde_categorical', 'use crate::univariate::categorical::*;\n' + U), 'ps: [f64; N]', '<const N: usize>', 'Params::<N>::new_unchecked(ps)', 'Params<N>', ('[f64; N]', 'q.ps.unwrap()'),
        lambda a, t: [eqg('ps', t, a.ps)], None, lambda rng, n: {'ps': vn(rng, n)})
    both('multinomial', ('serde_multinomial', 'use crate::multivariate::multinomial::*;\n' + U), 'n: usize, ps: [f64; N]', '<const N: usize>', 'Params::<N> { n: Count(n), ps: SimplexVector::new_unchecked(ps) }', 'Params<N>', ('(usize, [f64; N])', '(q.n.0, q.ps.unwrap())'),
        lambda a, t: [eqg('n', t.f[0], a.n), eqg('ps', t.f[1], a.ps)], None, lambda rng, n: {'n': rng.randint(0, 30), 'ps': vn(rng, n)})
    both('corr', ('serde_corr', U), 'rho: f64', '', 'Corr(rho)', 'Corr', ('f64', 'q.0'), lambda a, t: [eqg('rho', t, a.rho)], None, lambda rng: {'rho': rn(rng)})
    both('paired', ('serde_paired', NU), 'm: [f64; 2], s: [f64; 2]', '', 'Params { mu: L_(m), Sigma: Covariance(s) }', 'PairedNormalParams', ('([f64; 2], [f64; 2])', '(q.mu.0, q.Sigma.0)'),
        lambda a, t: [eqg('mu', t.f[0], a.m), eqg('Sigma', t.f[1], a.s)], None, lambda rng: {'m': vn(rng, 2), 's': vn(rng, 2)})
    both('bivariate', ('serde_bivariate', NU), 'm: [f64; 2], s: [f64; 2], rho: f64', '', 'Params { mu: L_(m), Sigma: Covariance((s, rho)) }', 'BvNormalParams', ('([f64; 2], [f64; 2], f64)', '(q.mu.0, q.Sigma.0 .0, q.Sigma.0 .1)'),
        lambda a, t: [eqg('mu', t.f[0], a.m), eqg('s', t.f[1], a.s), eqg('rho', t.f[2], a.rho)], None, lambda rng: {'m': vn(rng, 2), 's': vn(rng, 2), 'rho': rn(rng)})
    both('mvnormal3', ('serde_mv', NU), 'm: [f64; 3], s: [[f64; 3]; 3]', '', 'Params { mu: L_(m), Sigma: Covariance(s) }', 'MvNormalParams<3>', ('([f64; 3], [[f64; 3]; 3])', '(q.mu.0, q.Sigma.0)'),
        lambda a, t: [eqg('mu', t.f[0], a.m), eqg('Sigma', t.f[1], a.s)], None, lambda rng: {'m': vn(rng, 3), 's': [vn(rng, 3) for _ in range(3)]})
    both('isotropic3', ('serde_iso', NU), 'm: [f64; 3], s: f64', '', 'Params { mu: L_(m), Sigma: Covariance(s) }', 'IsotropicNormalParams<3>', ('([f64; 3], f64)', '(q.mu.0, q.Sigma.0)'),
        lambda a, t: [eqg('mu', t.f[0], a.m), eqg('Sigma', t.f[1], a.s)], None, lambda rng: {'m': vn(rng, 3), 's': rn(rng)})
    both('grad.normal', ('serde_gradn', NU), 'm: f64, s: f64', '', 'Grad { mu: m, Sigma: s }', 'UvNormalGrad', ('(f64, f64)', '(q.mu, q.Sigma)'),
        lambda a, t: [eqg('mu', t.f[0], a.m), eqg('Sigma', t.f[1], a.s)], None, lambda rng: {'m': rn(rng), 's': rn(rng)})
    both('grad.bivariate', ('serde_gradb', NU), 'm: [f64; 2], s: [f64; 2], rho: f64', '', 'Grad { mu: m, Sigma: (s, rho) }', 'BvNormalGrad', ('([f64; 2], [f64; 2], f64)', '(q.mu, q.Sigma.0, q.Sigma.1)'),
        lambda a, t: [eqg('mu', t.f[0], a.m), eqg('s', t.f[1], a.s), eqg('rho', t.f[2], a.rho)], None, lambda rng: {'m': vn(rng, 2), 's': vn(rng, 2), 'rho': rn(rng)})
    both('mixture', ('serde_mixture', U), 'ps: [f64; N], cs: [f64; N]', '<const N: usize>', 'crate::mixture::Params::<N, Loc<f64>> { ps: SimplexVector::new_unchecked(ps), component_params: { let mut v = vec![]; for c in cs.iter() { v.push(Loc(*c)); } v } }', 'crate::mixture::Params<N, Loc<f64>>',
        ('([f64; N], Vec<f64>)', '(q.ps.unwrap(), { let mut v = vec![]; for c in q.component_params.iter() { v.push(c.0); } v })'),
        lambda a, t: [eqg('ps', t.f[0], a.ps), eqg('components', t.f[1], a.cs)], None, lambda rng, n: {'ps': vn(rng, n), 'cs': vn(rng, n)})
    for c in cs:
        if c.cid.startswith('mixture'): c.only_sizes = (1, 2, 3)     # the loop of serde's Vec visitor
    return cs
def run(tier): check.main('P30', tier, contracts(), features=('serde',))
