"""P08: parameter wrappers admit exactly their declared domain and round-trip."""
from contract import *
import check
USE = 'use crate::params::{*, constraints::{Constraint, UnsatisfiedConstraintError}};\n'
GS = ('par_scalar', USE); GA = ('par_array', USE); GC = ('par_corr', USE); GN = ('par_conc', USE); GV = ('d_normaln', 'use crate::normal::*;\n' + USE); GO = ('par_ord', USE)
POSF = lambda x: fgt(x, F0); NNF = lambda x: fge(x, F0)
POSI = lambda x: lt(ZERO, x); NNI = lambda x: le(ZERO, x)
SCAL = {'Loc': (lambda x: TRUE, lambda x: TRUE), 'Scale': (POSF, POSI), 'Rate': (POSF, POSI), 'Shape': (POSF, POSI), 'DOF': (POSF, POSI), 'Count': (NNF, NNI)}
def rt(pred):
    """r = (checked constructor read back three ways, satisfied by all declared constraints, unchecked constructor read back)"""
    def post(a, r):
        res, dec, un = r.f
        dom = pred(a)
        g = [holds('the checked constructor admits exactly the domain', iff(dom, lift(is_ok(res)))),
             holds('the declared constraints describe exactly the domain', iff(dom, dec))]
        if is_ok(res):
            for i, w in enumerate(payload(res).f): g.append(eqg('read back unchanged (%d)' % i, w, a.x))
        else: g.append(eqg('the error carries the value', payload(res), a.x))
        if un is not None: g.append(eqg('the unchecked constructor stores the value', un, a.x))
        return g
    return post
def contracts():
    cs = []
    for n, (pf, pi) in SCAL.items():
        for t in ('f64', 'i64', 'usize'):
            p = pf if t == 'f64' else pi
            src = '''pub fn %s_%s(x: %s) -> (Result<(%s, %s, %s), %s>, bool, %s) {
    let r = %s::new(x).map(|p| (*p.value(), *p, p.into_value())).map_err(|e| e.value);
    let d = <%s<%s> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&x));
    (r, d, %s::new_unchecked(x).0)
}''' % (n.lower(), t, t, t, t, t, t, t, n, n, t, n)
            cs.append(Contract('%s.%s' % (n, t), GS, src, rt(lambda a, p=p: p(a.x)), mode='fp', desc='%s admits exactly its domain, declares it, and round-trips' % n))
        for t in ('f64',):
            src = '''pub fn %s_arr_%s<const N: usize>(x: [%s; N]) -> (Result<([%s; N], [%s; N], [%s; N]), [%s; N]>, bool, [%s; N]) {
    let r = %s::new(x).map(|p| (*p.value(), *p, p.into_value())).map_err(|e| e.value);
    let d = <%s<[%s; N]> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&x));
    (r, d, %s::new_unchecked(x).0)
}''' % (n.lower(), t, t, t, t, t, t, t, n, n, t, n)
            cs.append(Contract('%s.array.%s' % (n, t), GA, src, rt(lambda a, p=pf: all_(a.x, p)), mode='fp', desc='%s of an array admits exactly the elementwise domain' % n))
            src = '''pub fn %s_vec_%s(x: Vec<%s>) -> (Result<(Vec<%s>, Vec<%s>), Vec<%s>>, bool) {
    let d = <%s<Vec<%s>> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&x));
    let r = %s::new(x).map(|p| (p.value().clone(), p.into_value())).map_err(|e| e.value);
    (r, d)
}''' % (n.lower(), t, t, t, t, t, n, t, n)
            def post(a, r, p=pf): return rt(lambda a: all_(a.x, p))(a, Agg('tuple', [r.f[0], r.f[1], None]))
            cs.append(Contract('%s.vec.%s' % (n, t), GA, src, post, mode='fp', desc='%s of a vector admits exactly the elementwise domain' % n))
    src = '''pub fn corr(x: f64) -> (Result<(f64, f64), f64>, bool, f64) {
    let r = Corr::new(x).map(|p| (*p.value(), p.into_value())).map_err(|e| e.value);
    let d = <Corr as Param>::constraints().iter().all(|c| c.is_satisfied_by(&x));
    (r, d, Corr(x).0)
}'''
    cs.append(Contract('Corr', GC, src, rt(lambda a: and_(fle(f64(-1.0), a.x), fle(a.x, F1))), mode='fp', desc='a correlation is exactly a number in [-1, 1]'))
    src = '''pub fn conc<const N: usize>(x: [f64; N]) -> (Result<([f64; N], [f64; N]), [f64; N]>, bool, [f64; N]) {
    let r = Concentrations::new(x).map(|p| (*p.value(), p.into_value())).map_err(|e| e.value);
    let d = <Concentrations<N> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&x));
    (r, d, Concentrations(x).0)
}'''
    cs.append(Contract('Concentrations', GN, src, rt(lambda a: and_(lt(ZERO, a.N), all_(a.x, POSF))), mode='fp', desc='concentrations are exactly the non-empty vectors of positive entries'))
    cs += covariances()
    return cs
def covariances():
    cs = []
    nan = lambda x: fge(x, F0)
    ROW = "let r = %s.map(|p| (*p.value(), p.into_value())).map_err(|_| ());\n    let d = <%s as Param>::constraints().iter().all(|c| c.is_satisfied_by(&%s));\n    (r, d, Covariance(%s).0)\n"
    def add(cid, gen, args, T, ctor, ty, val, pred, desc):
        src = 'pub fn cov_%s%s(%s) -> (Result<(%s, %s), ()>, bool, %s) {\n    %s}' % (cid, gen, args, T, T, T, ROW % (ctor, ty, val, val))
        def post(a, r):
            res, dec, un = r.f; dom = pred(a); x = Agg('tuple', [a.s, a.rho]) if cid == 'bivariate' else a.s
            g = [holds('the checked constructor admits exactly the domain', iff(dom, lift(is_ok(res)))), holds('the declared constraints describe exactly the domain', iff(dom, dec)), eqg('stored unchanged', un, x)]
            if is_ok(res): g += [eqg('read back unchanged (%d)' % i, w, x) for i, w in enumerate(payload(res).f)]
            return g
        cs.append(Contract('Covariance.' + cid, GV, src, post, mode='fp', desc=desc))
    add('diagonal', '<const N: usize>', 's: [f64; N]', '[f64; N]', 'DiagonalCovariance::<N>::diagonal(s)', 'DiagonalCovariance<N>', 's', lambda a: all_(a.s, POSF), 'a diagonal covariance matrix is given by positive variances')
    add('paired', '', 's: [f64; 2]', '[f64; 2]', 'PairedCovariance::paired(s)', 'PairedCovariance', 's', lambda a: all_(a.s, POSF), 'a two-dimensional diagonal covariance matrix is given by positive variances')
    add('isotropic', '', 's: f64', 'f64', 'IsotropicCovariance::isotropic(s)', 'IsotropicCovariance', 's', lambda a: POSF(a.s), 'an isotropic covariance matrix is given by a positive variance')
    add('bivariate', '', 's: [f64; 2], rho: f64', '([f64; 2], f64)', 'BivariateCovariance::bivariate(s, rho)', 'BivariateCovariance', '(s, rho)', lambda a: and_(all_(a.s, POSF), fle(f64(-1.0), a.rho), fle(a.rho, F1)), 'a bivariate covariance matrix is given by positive variances and a correlation')
    def diag(a):
        if isinstance(a.s, Arr): return and_(*[fge(at(at(a.s, num(i)), num(i)), F0) for i in range(len(a.s.e))])
        i = fresh('#q', 'I'); return forall(i, ZERO, a.N, fge(at(at(a.s, i), i), F0))
    add('matrix', '<const N: usize>', 's: [[f64; N]; N]', '[[f64; N]; N]', 'MatrixCovariance::<N>::matrix(s)', 'MatrixCovariance<N>', 's', diag, 'a covariance matrix has no negative variance')
    return cs
def run(tier):
    check.main('P08', tier, contracts(), assumptions=['array and vector lengths are at most 2^24'])
