"""P06: constraint combinators are the logical connectives."""
from cons_common import *
import check
GA = ('comb_abs', USE); GM = ('comb_mono', USE); GB = ('comb_box', USE)
def contracts():
    cs = []
    def add(cid, g, src, spec, desc, **kw):
        cs.append(Contract(cid, g, src, lambda a, r: [holds(desc, iff(r, spec(a)))], mode='fp', desc=desc, **kw))
    B = "Constraint<%s> + 'static"
    # abstract operands: every constraint whatsoever
    for t in ('f64', 'i64', 'usize'):
        b = B % t
        add('Not.abstract.' + t, GA, 'pub fn not_a_%s<C: %s>(c: C, x: %s) -> bool { Not(c).is_satisfied_by(&x) }' % (t, b, t), lambda a: not_(P(a.c, a.x)), 'Not(c) holds iff c does not', replay=False)
        add('And.abstract.' + t, GA, 'pub fn and_a_%s<C: %s, D: %s>(c: C, d: D, x: %s) -> bool { And((c, d)).is_satisfied_by(&x) }' % (t, b, b, t), lambda a: and_(P(a.c, a.x), P(a.d, a.x)), 'And holds iff both hold', replay=False)
        add('Or.abstract.' + t, GA, 'pub fn or_a_%s<C: %s, D: %s>(c: C, d: D, x: %s) -> bool { Or((c, d)).is_satisfied_by(&x) }' % (t, b, b, t), lambda a: or_(P(a.c, a.x), P(a.d, a.x)), 'Or holds iff one holds', replay=False)
        add('All.scalar.abstract.' + t, GA, 'pub fn all_a_%s<C: %s>(c: C, x: %s) -> bool { All(c).is_satisfied_by(&x) }' % (t, b, t), lambda a: P(a.c, a.x), 'All on a scalar is the operand', replay=False)
        add('All.array.abstract.' + t, GA, 'pub fn all_arr_a_%s<C: %s, const N: usize>(c: C, x: [%s; N]) -> bool { All(c).is_satisfied_by(&x) }' % (t, b, t), lambda a: all_(a.x, lambda e: P(a.c, e)), 'All on an array holds iff the operand holds of every element', replay=False)
        add('All.vec.abstract.' + t, GA, 'pub fn all_vec_a_%s<C: %s>(c: C, x: Vec<%s>) -> bool { All(c).is_satisfied_by(&x) }' % (t, b, t), lambda a: all_(a.x, lambda e: P(a.c, e)), 'All on a vector holds iff the operand holds of every element', replay=False)
        add('Box.abstract.' + t, GB, 'pub fn box_a_%s<C: %s>(c: C, x: %s) -> bool { Box::new(c).is_satisfied_by(&x) }' % (t, b, t), lambda a: P(a.c, a.x), 'boxing a constraint does not change it', replay=False)
    # the same on concrete operands, replayable on the real code
    V = [('f64', flt, fle, lambda x, y: flt(y, x), '0.0'), ('i64', lt, le, lambda x, y: lt(y, x), '0'), ('usize', lt, le, lambda x, y: lt(y, x), '0')]
    for t, lt_, le_, gt_, z in V:
        add('Not.%s' % t, GM, 'pub fn not_%s(t: %s, x: %s) -> bool { Not(LessThan(t)).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: not_(l(a.x, a.t)), 'Not of less-than')
        add('Not.Not.%s' % t, GM, 'pub fn notnot_%s(t: %s, x: %s) -> bool { Not(Not(LessThan(t))).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: l(a.x, a.t), 'double negation')
        add('And.%s' % t, GM, 'pub fn and_%s(s: %s, t: %s, x: %s) -> bool { And((GreaterThan(s), LessThanOrEqual(t))).is_satisfied_by(&x) }' % (t, t, t, t), lambda a, l=le_, g=gt_: and_(g(a.x, a.s), l(a.x, a.t)), 'And of two bounds')
        add('Or.%s' % t, GM, 'pub fn or_%s(s: %s, t: %s, x: %s) -> bool { Or((LessThan(s), GreaterThan(t))).is_satisfied_by(&x) }' % (t, t, t, t), lambda a, l=lt_, g=gt_: or_(l(a.x, a.s), g(a.x, a.t)), 'Or of two bounds')
        add('All.scalar.%s' % t, GM, 'pub fn all_%s(t: %s, x: %s) -> bool { All(LessThan(t)).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: l(a.x, a.t), 'All on a scalar')
        add('All.array.%s' % t, GM, 'pub fn all_arr_%s<const N: usize>(t: %s, x: [%s; N]) -> bool { All(LessThan(t)).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: all_(a.x, lambda e: l(e, a.t)), 'All on an array')
        add('All.vec.%s' % t, GM, 'pub fn all_vec_%s(t: %s, x: Vec<%s>) -> bool { All(LessThan(t)).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: all_(a.x, lambda e: l(e, a.t)), 'All on a vector')
        add('Not.All.vec.%s' % t, GM, 'pub fn notall_vec_%s(t: %s, x: Vec<%s>) -> bool { Not(All(LessThan(t))).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: not_(all_(a.x, lambda e: l(e, a.t))), 'Not(All) on a vector')
        add('All.And.vec.%s' % t, GM, 'pub fn alland_vec_%s(s: %s, t: %s, x: Vec<%s>) -> bool { All(And((GreaterThan(s), LessThan(t)))).is_satisfied_by(&x) }' % (t, t, t, t), lambda a, l=lt_, g=gt_: all_(a.x, lambda e: and_(g(e, a.s), l(e, a.t))), 'All(And) on a vector')
        add('And.All.array.%s' % t, GM, 'pub fn andall_arr_%s<const N: usize>(t: %s, x: [%s; N]) -> bool { And((All(LessThan(t)), Not(Empty))).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: and_(all_(a.x, lambda e: l(e, a.t)), lt(ZERO, a.N)), 'And(All, Not(Empty)) on an array')
        add('Or.vec.%s' % t, GM, 'pub fn or_vec_%s(t: %s, x: Vec<%s>) -> bool { Or((Empty, Not(All(LessThan(t))))).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: or_(eq(length(a.x), ZERO), not_(all_(a.x, lambda e: l(e, a.t)))), 'Or(Empty, Not(All)) on a vector')
        add('Box.%s' % t, GB, 'pub fn box_%s(t: %s, x: %s) -> bool { Box::new(LessThan(t)).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: l(a.x, a.t), 'boxed constraint')
        add('Box.dyn.%s' % t, GB, 'pub fn boxdyn_%s(t: %s, x: %s) -> bool { let b: Box<dyn Constraint<%s>> = Box::new(LessThan(t)); b.is_satisfied_by(&x) }' % (t, t, t, t), lambda a, l=lt_: l(a.x, a.t), 'boxed dynamic constraint')
        add('Box.Not.%s' % t, GB, 'pub fn boxnot_%s(t: %s, x: %s) -> bool { Not(Box::new(LessThan(t))).is_satisfied_by(&x) }' % (t, t, t), lambda a, l=lt_: not_(l(a.x, a.t)), 'negated boxed constraint')
    return cs
def run(tier):
    check.main('P06', tier, contracts(), assumptions=['array and vector lengths are at most 2^24', 'operand constraints are pure functions of the constraint and the value'])
