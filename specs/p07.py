"""P07: checking a value is lossless and agrees with the constraint."""
from cons_common import *
import check
GX = ('chk_assert', USE); GE = ('chk_elem', USE); GA = ('chk_abs', USE); GM = ('chk_mono', USE)
def post(a, r):
    """r = (satisfied, check result with the error mapped to its value)"""
    sat, res = r.f
    return [holds('succeeds exactly when satisfied', iff(sat, lift(is_ok(res)))), eqg('the value comes back unchanged', payload(res), a.x)]
def contracts():
    cs = []
    def add(cid, g, name, gens, args, con, ty, desc='', **kw):
        src = 'pub fn %s%s(%sx: %s) -> (bool, Result<%s, %s>) { let sat_ = { let c = %s; c.is_satisfied_by(&x) }; let res_ = { let c = %s; c.check(x) }; (sat_, res_.map_err(|e| e.value)) }' % (name, gens, args, ty, ty, ty, con, con)
        if 'Vec<' in ty: src = src.replace('c.check(x)', 'c.check(x.clone())')
        cs.append(Contract(cid, g, src, post, mode='fp', desc=desc or 'check succeeds iff satisfied and hands back the same value', **kw))
    for n in ('Positive', 'Negative', 'NonNegative', 'NonPositive'):
        for t in ('f64', 'i64', 'usize'): add('%s.%s' % (n, t), GE, 'chk_%s_%s' % (n.lower(), t), '', '', n, t)
    for t in ('i64', 'usize'): add('Natural.' + t, GE, 'chk_natural_' + t, '', '', 'Natural', t)
    for n in ('Equal', 'LessThan', 'LessThanOrEqual', 'GreaterThan', 'GreaterThanOrEqual'):
        for t in ('f64', 'i64', 'usize'): add('%s.%s' % (n, t), GE, 'chk_%s_%s' % (n.lower(), t), '', 't: %s, ' % t, '%s(t)' % n, t)
    for t in ('f64', 'i64', 'usize'): add('Interval.' + t, GE, 'chk_interval_' + t, '', 'lb: %s, ub: %s, ' % (t, t), 'Interval { lb, ub }', t)
    add('Empty.array', GE, 'chk_empty_arr', '<const N: usize>', '', 'Empty', '[f64; N]')
    add('Empty.vec', GE, 'chk_empty_vec', '', '', 'Empty', 'Vec<f64>')
    add('Square', GE, 'chk_square', '<const N: usize>', '', 'Square', '[[f64; N]; N]', replay=True)
    for t in ('f64', 'i64', 'usize'):
        add('Not.' + t, GM, 'chk_not_' + t, '', 't: %s, ' % t, 'Not(LessThan(t))', t)
        add('And.' + t, GM, 'chk_and_' + t, '', 's: %s, t: %s, ' % (t, t), 'And((GreaterThan(s), LessThan(t)))', t)
        add('Or.' + t, GM, 'chk_or_' + t, '', 's: %s, t: %s, ' % (t, t), 'Or((LessThan(s), GreaterThan(t)))', t)
        add('Or.Or.' + t, GM, 'chk_oror_' + t, '', 's: %s, t: %s, ' % (t, t), 'Or((Or((LessThan(s), Equal(t))), And((GreaterThan(t), Not(LessThan(s))))))', t)
        add('All.' + t, GM, 'chk_all_' + t, '', 't: %s, ' % t, 'All(LessThan(t))', t)
        add('Box.' + t, GM, 'chk_box_' + t, '', 't: %s, ' % t, 'Box::new(LessThan(t))', t)
        add('All.array.' + t, GM, 'chk_allarr_' + t, '<const N: usize>', 't: %s, ' % t, 'All(LessThan(t))', '[%s; N]' % t)
        add('All.vec.' + t, GM, 'chk_allvec_' + t, '', 't: %s, ' % t, 'All(LessThan(t))', 'Vec<%s>' % t)
        add('All.Or.vec.' + t, GM, 'chk_allorvec_' + t, '', 's: %s, t: %s, ' % (t, t), 'All(Or((LessThan(s), GreaterThan(t))))', 'Vec<%s>' % t)
        add('And.All.vec.' + t, GM, 'chk_andallvec_' + t, '', 't: %s, ' % t, 'And((All(LessThan(t)), Not(Empty)))', 'Vec<%s>' % t)
        add('Or.All.array.' + t, GM, 'chk_orallarr_' + t, '<const N: usize>', 's: %s, t: %s, ' % (t, t), 'Or((All(LessThan(s)), All(GreaterThan(t))))', '[%s; N]' % t)
    # abstract operands: composition from operands of which only the contract of check is known
    b = "Constraint<%s> + Copy + 'static"
    for t in ('f64', 'i64', 'usize'):
        B = b % t
        add('Not.abstract.' + t, GA, 'chk_not_a_' + t, '<C: %s>' % B, 'c: C, ', 'Not(c)', t, replay=False, intercept=ICEPT)
        add('And.abstract.' + t, GA, 'chk_and_a_' + t, '<C: %s, D: %s>' % (B, B), 'c: C, d: D, ', 'And((c, d))', t, replay=False, intercept=ICEPT)
        add('Or.abstract.' + t, GA, 'chk_or_a_' + t, '<C: %s, D: %s>' % (B, B), 'c: C, d: D, ', 'Or((c, d))', t, replay=False, intercept=ICEPT)
        add('All.abstract.' + t, GA, 'chk_all_a_' + t, '<C: %s>' % B, 'c: C, ', 'All(c)', t, replay=False, intercept=ICEPT)
        add('Box.abstract.' + t, GA, 'chk_box_a_' + t, '<C: %s>' % B, 'c: C, ', 'Box::new(c)', t, replay=False, intercept=ICEPT)
        add('All.array.abstract.' + t, GA, 'chk_allarr_a_' + t, '<C: %s, const N: usize>' % B, 'c: C, ', 'All(c)', '[%s; N]' % t, replay=False, intercept=ICEPT)
        add('All.vec.abstract.' + t, GA, 'chk_allvec_a_' + t, '<C: %s>' % B, 'c: C, ', 'All(c)', 'Vec<%s>' % t, replay=False, intercept=ICEPT)
        add('And.vec.abstract.' + t, GA, 'chk_andvec_a_' + t, '<C: %s, D: %s>' % (b % 'Vec<%s>' % t, b % 'Vec<%s>' % t) if False else '<C: Constraint<Vec<{0}>> + Copy + \'static, D: Constraint<Vec<{0}>> + Copy + \'static>'.format(t), 'c: C, d: D, ', 'And((c, d))', 'Vec<%s>' % t, replay=False, intercept=ICEPT)
    # the assertion macro, and an error told what it is about
    ops = {'==': ('eq', 'Equal'), '<': ('lt', 'LessThan'), '<=': ('le', 'LessThanOrEqual'), '>': ('gt', 'GreaterThan'), '>=': ('ge', 'GreaterThanOrEqual'), '+': ('pos', 'Positive')}
    for op, (nm, con) in ops.items():
        for t in ('f64', 'i64', 'usize'):
            e = 'x+' if op == '+' else 'x %s t' % op
            src = 'pub fn asrt_%s_%s(x: %s, t: %s) -> (bool, Result<%s, (%s, bool, Option<String>, Option<String>)>) { (x %s, assert_constraint!(%s).map_err(|e| { let n = e.target.clone(); let w = e.with_target("x"); (w.value, w.constraint.is_satisfied_by(&x), n, w.target) })) }' % (nm, t, t, t, t, t, '> (0 as %s)' % t if op == '+' else '%s t' % op, e)
            def post2(a, r):
                sat, res = r.f
                g = [holds('succeeds exactly when the comparison holds', iff(sat, lift(is_ok(res))))]
                p = payload(res)
                if is_ok(res): return g + [eqg('the value comes back unchanged', p, a.x)]
                v, ok, none, some = p.f
                return g + [eqg('the error carries the value', v, a.x), holds('and the constraint it violates', not_(ok)), holds('no target until one is given', lift(none.v == 0)), holds('the target it was given', lift(some.v == 1 and getattr(some.f[0], 's', None) == 'x'))]
            cs.append(Contract('assert.%s.%s' % (nm, t), GX, src, post2, mode='fp', replay=False, desc='the assertion macro checks the comparison it is written as'))
    return cs
def run(tier):
    check.main('P07', tier, contracts(), assumptions=['array and vector lengths are at most 2^24', 'operand constraints are pure functions of the constraint and the value; abstract operands satisfy the contract of Constraint::check, which is proved here of every implementor'])
