"""P02: probability arithmetic in every operand form."""
from contract import *
import check
from p01 import USE, valid
OPS = {'Add': ('+', '+'), 'Sub': ('-', '-'), 'Mul': ('*', '*'), 'Div': ('/', '/'), 'Rem': ('%', 'fmod')}
def pre(a): return and_(valid(a.p), valid(a.q))
def contracts():
    cs = []
    for n, (o, t) in OPS.items():
        G = ('op_' + n.lower(), USE)
        forms = ['a %s b' % o, 'a %s &b' % o, '&a %s b' % o, '&a %s &b' % o]
        if n == 'Mul':
            src = 'pub fn op_pp_%s(p: f64, q: f64) -> (f64, f64, f64, f64) { let a = Probability::new_unchecked(p); let b = Probability::new_unchecked(q); (%s) }' % (n.lower(), ', '.join('(%s).unwrap()' % f for f in forms))
            post = lambda a, r: [eqg('the product (%d)' % i, x, mk('*', a.p, a.q)) for i, x in enumerate(r.f)] + [holds('is a valid probability', valid(r.f[0]))]
        else:
            src = 'pub fn op_pp_%s(p: f64, q: f64) -> (Result<f64, ()>, Result<f64, ()>, Result<f64, ()>, Result<f64, ()>) { let a = Probability::new_unchecked(p); let b = Probability::new_unchecked(q); (%s) }' % (n.lower(), ', '.join('(%s).map(|x| x.unwrap()).map_err(|_| ())' % f for f in forms))
            def post(a, r, t=t):
                v = mk(t, a.p, a.q); g = []
                for i, x in enumerate(r.f):
                    g.append(holds('succeeds exactly in [0, 1] (%d)' % i, iff(valid(v), lift(is_ok(x)))))
                    if is_ok(x): g.append(eqg('the result of the operation (%d)' % i, payload(x), v))
                return g
        c = Contract(n + '.probabilities', G, src, post, pre=pre, mode='fp', desc='two probabilities, all four operand forms', timeout=120,
            hyps=(lambda a: [valid(mk('*', a.p, a.q))]) if n == 'Mul' else None)
        cs.append(c)
        forms = ['a %s q', 'a %s &q', '&a %s q', '&a %s &q']
        src = 'pub fn op_pf_%s(p: f64, q: f64) -> (f64, f64, f64, f64) { let a = Probability::new_unchecked(p); (%s) }' % (n.lower(), ', '.join(f % o for f in forms))
        cs.append(Contract(n + '.number_right', G, src, lambda a, r, t=t: [eqg('plain arithmetic (%d)' % i, x, mk(t, a.p, a.q)) for i, x in enumerate(r.f)], pre=lambda a: valid(a.p), mode='fp', desc='probability with a plain number on the right'))
        forms = ['q %s a', 'q %s &a', '&q %s a', '&q %s &a']
        src = 'pub fn op_fp_%s(p: f64, q: f64) -> (f64, f64, f64, f64) { let a = Probability::new_unchecked(p); (%s) }' % (n.lower(), ', '.join(f % o for f in forms))
        cs.append(Contract(n + '.number_left', G, src, lambda a, r, t=t: [eqg('plain arithmetic (%d)' % i, x, mk(t, a.q, a.p)) for i, x in enumerate(r.f)], pre=lambda a: valid(a.p), mode='fp', desc='probability with a plain number on the left'))
    G = ('op_misc', USE)
    cs.append(Contract('sum', G, 'pub fn op_sum(v: Vec<f64>) -> (f64, f64) { let w: Vec<Probability> = v.into_iter().map(Probability::new_unchecked).collect(); let s: f64 = w.iter().sum(); let t: f64 = w.into_iter().sum(); (s, t) }',
        lambda a, r: [eqg('the sum of the numbers', r.f[0], seqsum(a.v)), eqg('by value', r.f[1], seqsum(a.v))], desc='sum of an iterator of probabilities'))
    cs.append(Contract('functions', G, 'pub fn op_fun(p: f64, e: f64, k: i32) -> (f64, f64, f64, f64) { let q = Probability::new_unchecked(p); (q.ln(), q.log2(), q.powf(e), q.powi(k)) }',
        lambda a, r: [eqg('natural logarithm', r.f[0], mk('ln', a.p)), eqg('binary logarithm', r.f[1], mk('ln', a.p) / mk('ln', TWO)), eqg('real power', r.f[2], pow_(a.p, a.e)), eqg('integer power', r.f[3], pow_(a.p, a.k))],
        pre=lambda a: and_(flt(F0, a.p), fle(a.p, F1), lt(num(-200), a.k), lt(a.k, num(200))), gen=lambda rng: {'p': rng.choice([rng.random(), 1.0, 0.5, 1e-9]), 'e': rng.uniform(-5, 5), 'k': rng.randint(-9, 9)}, desc='logarithms and powers'))
    return cs
def run(tier):
    check.main('P02', tier, contracts(), assumptions=['rounding to nearest is monotone, so the rounded product of two numbers in [0, 1] is in [0, 1] (stated as a hypothesis, not discharged by the solver)'])
