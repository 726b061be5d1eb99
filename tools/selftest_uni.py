"""Checks the reference formulas of specs/uni.py against each other by quadrature (mpmath): density = derivative of the CDF, moments, entropy, quantile, median, Fisher."""
import sys, os, random, math
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [R + '/engine', R + '/specs']
import mpmath
from uni import *
mpmath.mp.dps = 20
def run(keys=None, seeds=(1, 2, 3), verbose=False):
    bad = []
    for k in keys or CONT:
        d = D[k]
        for s in seeds:
            rng = random.Random(s * 1000 + hash(k) % 1)
            v = d.gen(rng)
            a = A({n: (f64(v[n]) if KINDS[t][0] == 'f64' else num(v[n])) for n, t in d.params})
            p = d.rec(a); X = var('x', 'R')
            if not Ev()(d.valid(a)): continue
            ev = lambda t: Ev()(lift(t))
            def at(f): 
                t = f(p, X)
                return lambda x: Ev({X: mpmath.mpf(x)})(t)
            pdf, cdf = at(d.pdf), at(d.cdf)
            c, sc, lo, hi = d.spread(v)
            def chk(what, x, y, tol=1e-6):
                if not abs(x - y) <= tol * (1 + abs(y)): bad.append((k, what, v, x, y)); print('BAD', k, what, v, mpmath.nstr(x, 10), mpmath.nstr(y, 10))
            for _ in range(3):
                x = d.point(rng, v, True)
                chk('pdf=dF', mpmath.diff(cdf, x, h=mpmath.mpf(10) ** -8), pdf(x), 1e-5)
                if d.quantile:
                    u = cdf(mpmath.mpf(x)); t = d.quantile(p, X); chk('quantile', Ev({X: u})(t), mpmath.mpf(x), 1e-5)
            if d.median: chk('median', cdf(ev(d.median(p))), mpmath.mpf(1) / 2)
            lo_ = mpmath.mpf(lo) if lo is not None else -mpmath.inf; hi_ = mpmath.mpf(hi) if hi is not None else mpmath.inf
            pts = [lo_] + ([lo_ + (hi_ - lo_) * mpmath.mpf(j) / 8 for j in range(1, 8)] if lo is not None and hi is not None else [mpmath.mpf(lo if lo is not None else c) + mpmath.mpf(sc) * j for j in ([.1, 1, 3, 10, 40] if lo is not None else [-20, -5, -1, 0, 1, 5, 20])]) + [hi_]
            if k == 'gumbel': pts = [mpmath.mpf(c) + mpmath.mpf(sc) * j for j in [-5, -2, 0, 2, 5, 20, 60]]
            # substitute via quantile-free quadrature
            Q_ = lambda f: mpmath.quad(f, pts, maxdegree=9)
            mpmath.mp.dps = 16
            def dens(x):
                try: return pdf(x)
                except Exception: return mpmath.mpf(0)
            tot = Q_(dens)
            tl = 1e-3
            chk('total', tot, 1, tl)
            def cond(q):
                if q is None: return None
                f, cnd = with_cond(q)
                return f if Ev()(cnd(p)) else None
            m = cond(d.mean); vv = cond(d.var); sk = cond(d.skew); ekt = cond(d.ek)
            if d.heavy: sk = ekt = None
            if m:
                m = ev(m(p)); chk('mean', Q_(lambda x: x * dens(x)), m, 3e-3)
                if vv:
                    vv = ev(vv(p)); chk('var', Q_(lambda x: (x - m) ** 2 * dens(x)), vv, 1e-2)
                    if sk: chk('skew', Q_(lambda x: ((x - m) / mpmath.sqrt(vv)) ** 3 * dens(x)), ev(sk(p)), 5e-2)
                    if ekt: chk('ek', Q_(lambda x: ((x - m) / mpmath.sqrt(vv)) ** 4 * dens(x)) - 3, ev(ekt(p)), 1e-1)
            if d.ent:
                def h(x):
                    y = dens(x)
                    return -y * mpmath.log(y) if y > 0 else mpmath.mpf(0)
                chk('ent', Q_(h), ev(d.ent(p)), 1e-2)
            for kind, cnd, ms in d.modes or []:
                if Ev()(cnd(p)) and kind == 'unique':
                    mo = ev(ms(p)[0])
                    e = mpmath.mpf(sc) / 1000 if hi is None else (hi_ - lo_) / 1000
                    best = max((dens(pt) for pt in [d.point(rng, v, True) for _ in range(60)]))
                    near = max(dens(mo + e), dens(mo - e) if lo is None or mo - e > lo_ else 0)
                    if not near >= best * 0.995: print('BAD mode', k, v, mo, near, best); bad.append(k)
    return bad
def run_disc(keys=None, seeds=(1, 2, 3, 4, 5)):
    for k in keys or DISC:
        d = D[k]
        for s in seeds:
            rng = random.Random(s); v = d.gen(rng)
            if 'p' in v and not 0.02 < v['p'] < 0.98: v['p'] = 0.3
            a = A({n: (f64(v[n]) if KINDS[t][0] == 'f64' else num(v[n])) for n, t in d.params}); p = d.rec(a)
            ev = lambda t: Ev()(lift(t))
            xs = [False, True] if d.xt == 'bool' else range(v.get('lb', v.get('k', 0)) - (2 if d.xt == 'i64' else 0), v.get('lb', v.get('k', 0)) + max(v.get('n', 0), v.get('w', 0), 2 if d.xt == 'i64' else 900) + 3)
            num_ = lambda x: float(x)
            pm = [ev(d.pmf(p, lift(x) if d.xt == 'bool' else num(x))) for x in xs]
            def chk(what, x, y, tol=1e-6):
                if not abs(x - y) <= tol * (1 + abs(y)): print('BAD', k, what, v, mpmath.nstr(x, 10), mpmath.nstr(y, 10))
            chk('total', sum(pm), 1)
            acc = 0
            for x, m in list(zip(xs, pm))[:40]:
                acc += m; chk('cdf', ev(d.dcdf(p, lift(x) if d.xt == 'bool' else num(x))), acc)
            m1 = sum(num_(x) * m for x, m in zip(xs, pm)); var_ = sum((num_(x) - m1) ** 2 * m for x, m in zip(xs, pm))
            chk('mean', ev(d.mean(p)), m1); chk('var', ev(d.var(p)), var_)
            if d.skew and var_: chk('skew', ev(with_cond(d.skew)[0](p)), sum((num_(x) - m1) ** 3 * m for x, m in zip(xs, pm)) / mpmath.sqrt(var_) ** 3)
            if d.ek and var_: chk('ek', ev(with_cond(d.ek)[0](p)), sum((num_(x) - m1) ** 4 * m for x, m in zip(xs, pm)) / var_ ** 2 - 3)
            if d.ent: chk('ent', ev(with_cond(d.ent)[0](p)), -sum(m * mpmath.log(m) for m in pm if m > 0))
if __name__ == '__main__':
    import time
    for k in sys.argv[1:] or CONT + DISC:
        t = time.time(); (run_disc if D[k].discrete else run)([k]); print(k, '%.1fs' % (time.time() - t), flush=True)
