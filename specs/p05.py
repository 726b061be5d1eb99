"""P05: each elementary constraint accepts exactly the values it names."""
from contract import *
import check
USE = 'use crate::params::constraints::*;\n'
G = ('elem', USE)
REL = {'Positive': lambda x: fgt(x, F0), 'Negative': lambda x: flt(x, F0), 'NonNegative': lambda x: fge(x, F0), 'NonPositive': lambda x: fle(x, F0)}
RELI = {'Positive': lambda x: lt(ZERO, x), 'Negative': lambda x: lt(x, ZERO), 'NonNegative': lambda x: le(ZERO, x), 'NonPositive': lambda x: le(x, ZERO), 'Natural': lambda x: lt(ZERO, x)}
BIN = {'Equal': (feq, eq), 'LessThan': (flt, lt), 'LessThanOrEqual': (fle, le), 'GreaterThan': (fgt, lambda x, y: lt(y, x)), 'GreaterThanOrEqual': (fge, lambda x, y: le(y, x))}
INTS = ['i64', 'usize', 'i32', 'u8', 'u64', 'i8']

def contracts():
    cs = []
    def add(cid, src, spec, desc):
        cs.append(Contract(cid, G, src, lambda a, r: [holds(desc, iff(r, spec(a)))], mode='fp', desc=desc))
    for n, f in REL.items():
        add('%s.f64' % n, 'pub fn %s_f64(x: f64) -> bool { %s.is_satisfied_by(&x) }' % (n.lower(), n), lambda a, f=f: f(a.x), '%s accepts x exactly when the relation to zero holds; never NaN' % n)
    for n, f in RELI.items():
        for t in INTS:
            if n == 'Natural' and t == 'f64': continue
            add('%s.%s' % (n, t), 'pub fn %s_%s(x: %s) -> bool { %s.is_satisfied_by(&x) }' % (n.lower(), t, t, n), lambda a, f=f: f(a.x), '%s accepts exactly the integers it names' % n)
    for n, (ff, fi) in BIN.items():
        add('%s.f64' % n, 'pub fn %s_f64(t: f64, x: f64) -> bool { %s(t).is_satisfied_by(&x) }' % (n.lower(), n), lambda a, f=ff: f(a.x, a.t), '%s(t) accepts x exactly when x is so related to t; never NaN' % n)
        for t in ('i64', 'usize'):
            add('%s.%s' % (n, t), 'pub fn %s_%s(t: %s, x: %s) -> bool { %s(t).is_satisfied_by(&x) }' % (n.lower(), t, t, t, n), lambda a, f=fi: f(a.x, a.t), '%s(t) on integers' % n)
    add('Interval.f64', 'pub fn interval_f64(lb: f64, ub: f64, x: f64) -> bool { Interval { lb, ub }.is_satisfied_by(&x) }', lambda a: and_(fle(a.lb, a.x), fle(a.x, a.ub)), 'closed interval, both ends included')
    for t in ('i64', 'usize'):
        add('Interval.' + t, 'pub fn interval_%s(lb: %s, ub: %s, x: %s) -> bool { Interval { lb, ub }.is_satisfied_by(&x) }' % (t, t, t, t), lambda a: and_(le(a.lb, a.x), le(a.x, a.ub)), 'closed interval on integers')
    for t in ('f64', 'u8'):
        add('Empty.array.' + t, 'pub fn empty_arr_%s<const N: usize>(x: [%s; N]) -> bool { Empty.is_satisfied_by(&x) }' % (t, t), lambda a: eq(a.N, ZERO), 'Empty holds exactly for arrays of length zero')
        add('Empty.vec.' + t, 'pub fn empty_vec_%s(x: Vec<%s>) -> bool { Empty.is_satisfied_by(&x) }' % (t, t), lambda a: eq(length(a.x), ZERO), 'Empty holds exactly for vectors of length zero')
    return cs
def run(tier):
    check.main('P05', tier, contracts(), assumptions=['array and vector lengths are at most 2^24'])
