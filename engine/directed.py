"""Counterexample search for a failed obligation.

The symbolic result of a failing path and the contract are evaluated (mpmath, real arithmetic without rounding; Python
floats for the bit-precise reading) at inputs built from the constants the path and the two sides mention. Only inputs
where the path is followed and the two sides differ are then run on the real code (Replayer.confirm), and they count
only when the real code returns what the symbolic result says: rounding can therefore not be mistaken for a violation."""
import time, math, random, signal, contextlib
from fractions import Fraction
from term import *
from mir import Agg, Seq, Arr, Panic
from numeric import Undef, Near
import mpmath

@contextlib.contextmanager
def limited(sec):
    """some special functions take very long at extreme arguments"""
    def stop(*a): raise Undef('time')
    old = signal.signal(signal.SIGALRM, stop); signal.setitimer(signal.ITIMER_REAL, sec)
    try: yield
    finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)

def bound(rp, c, d):
    """an evaluator in which the contract's symbolic arguments have the values of the input d"""
    ev = rp.ev(c); rec = rp.record(c, d); env = {}; seqs = {}
    lit = lambda t: ev(t)
    def bind(name, v):
        if isinstance(v, T):
            for so in 'RIB': env[var(name, so)] = lit(v)
        elif isinstance(v, Arr):
            for so in 'RIB': env[var('len(%s)' % name, so)] = lit(num(len(v.e)))
            seqs[name] = v
            for i, x in enumerate(v.e): bind('%s[%d]' % (name, i), x)
        elif isinstance(v, Agg):
            for i, x in enumerate(v.f): bind('%s.%d' % (name, i), x)
    for n, t in c.args: bind(n, getattr(rec, n))
    if c.cn: env[var(c.cn, 'I')] = lit(num(d['__N']))
    def apps(name, so, idx):
        v = seqs.get(name)
        if v is None: raise Undef(name)
        for i in idx:
            if isinstance(v, Agg): raise Undef('index')
            if not (isinstance(v, Arr) and 0 <= int(i) < len(v.e)): raise Undef('index')
            v = v.e[int(i)]
        return lit(v)
    return type(ev)(env, apps, 0, 20000)

def reaches(rp, c, pc, d, strict=False):
    """does the input follow this path? conditions over variables invented by the executor are not evaluated"""
    try:
        if not rp.pre_ok(c, d, strict): return False
        e = bound(rp, c, d)
        if not strict: e.eps = getattr(rp.ev(c), 'eps', 0)
        for h in pc:
            try:
                if not e(h): return False
            except (Undef, Near, KeyError, OverflowError, ZeroDivisionError):
                if strict: return False
        return True
    except Exception: return False

def consts(vs, cap=24):
    """numbers mentioned by the terms"""
    out = {}; seen = set(); todo = list(vs); n = 0
    while todo and n < 6000:
        v = todo.pop(); n += 1
        if isinstance(v, T):
            if id(v) in seen: continue
            seen.add(id(v))
            if v.op == 'num': out.setdefault(v.a[0], 0); out[v.a[0]] += 1
            elif v.op == 'f':
                x = fval(v.a[0])
                if x == x and abs(x) != float('inf'): out.setdefault(Fraction(x), 0); out[Fraction(x)] += 1
            todo += [x for x in v.a if isinstance(x, T)]
        elif isinstance(v, Agg): todo += list(v.f)
        elif isinstance(v, Arr): todo += list(v.e)[:16]
        elif isinstance(v, Seq):
            try: todo += [v.n, v.get(var('i$', 'I'))]
            except Exception: pass
        elif isinstance(v, (list, tuple)): todo += list(v)
    qs = sorted(out, key=lambda q: (abs(q) in (0, 1, 2), out[q]))
    return qs[:cap]

GENR = [0.0, 1.0, -1.0, 1e-15, -1e-15, 1e-9, 1e-6, -1e-6, 1e-3, 0.01, -0.01, 0.3, 30.0, -30.0, 100.0, -100.0, 1e3, 1e6, -1e6, 1e9]
GENI = [0, 1, 2, 3, 17, 64, 127, 128, 129, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65539, 2**24 + 1, 2**31 + 3, 2**32 + 5, -1, -2, -7]
def around(q):
    try: x = float(q)
    except OverflowError: return []
    out = [x, x * (1 + 1e-7), x * (1 - 1e-7), x * 1.01, x * 0.99, x * 0.9, x * 1.1, x / 2, x * 2, x + 1, x - 1, x + 0.1, x - 0.1, x + 0.5, x - 0.5, -x, x / 10, x * 10]
    if x > 0: out += [math.sqrt(x), x * x, 1 / x]
    return [y for y in out if abs(y) < 1e300]
def aroundi(q):
    k = math.floor(q); return [k, k + 1, k - 1, k + 2, k - 2, 2 * k, 2 * k + 1, 3 * k, k + 7, -k]

def leaves(d, c):
    """positions of the numbers of an input"""
    out = []
    def go(path, v):
        if isinstance(v, bool): out.append((path, 'b'))
        elif isinstance(v, float): out.append((path, 'r'))
        elif isinstance(v, int): out.append((path, 'i'))
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v): go(path + (i,), x)
    for n, t in c.args: go((n,), d[n])
    return out
def get(d, p):
    for k in p: d = d[k]
    return d
def put(v, p, x):
    if not p: return x
    if isinstance(v, dict): r = dict(v); r[p[0]] = put(v[p[0]], p[1:], x); return r
    r = list(v); r[p[0]] = put(v[p[0]], p[1:], x)
    return tuple(r) if isinstance(v, tuple) else r

def candidates(rng, c, base, qs):
    rs = list(GENR); is_ = list(GENI)
    for q in qs: rs += around(q); is_ += aroundi(q)
    rs = [float(x) for x in dict.fromkeys(rs)]; is_ = list(dict.fromkeys(is_))
    if not base: return
    # one number of an input at a time, then two, then several at one scale
    d = base[0]
    near = rs[len(GENR):]
    order = []
    for d in base[:4]:
        for p, k in leaves(d, c)[:14]:
            for x in (rs if k == 'r' else is_ if k == 'i' else [True, False]): order.append((d, p, x))
    rng.shuffle(order)
    for d, p, x in order[:1500]: yield put(d, p, x)
    while True:
        d = rng.choice(base); ls = leaves(d, c)
        if not ls: return
        k = rng.random()
        if k < 0.5:
            for p, kind in rng.sample(ls, min(len(ls), rng.choice([1, 2, 2, 3]))):
                d = put(d, p, rng.choice(rs if rng.random() < 0.7 or not near else near) if kind == 'r' else rng.choice(is_) if kind == 'i' else rng.random() < 0.5)
        elif k < 0.65:
            p, kind = rng.choice(ls); s = [q for q, x in ls if x == kind]
            d = put(d, p, get(d, rng.choice(s)))                         # two numbers equal
        elif k < 0.8:
            f = 10.0 ** rng.randint(-9, 9)
            for p, kind in ls:
                if kind == 'r' and rng.random() < 0.7: d = put(d, p, get(d, p) * f)
        else:
            for p, kind in ls:
                if kind == 'r' and rng.random() < 0.5: d = put(d, p, get(d, p) + rng.choice([-1, 1]) * rng.choice([0.5, 1, 2, 7, 40, 300]) if rng.random() < .7 else -get(d, p))
                elif kind == 'i' and rng.random() < 0.5: d = put(d, p, get(d, p) + rng.choice([-3, -1, 1, 2, 10, 100, 5000]))
        yield d

def flat(e, v, n=64):
    if isinstance(v, T):
        return [e(v)]
    if isinstance(v, Arr): return [x for y in v.e[:n] for x in flat(e, y)]
    if isinstance(v, Agg): return [('variant', v.v)] + [x for y in v.f for x in flat(e, y)]
    raise Undef('sequence')
def agree(xs, ys):
    """does the real result say what the symbolic one does?"""
    if len(xs) != len(ys): return False
    for x, y in zip(xs, ys):
        if isinstance(x, (bool, tuple, str)) or isinstance(y, (bool, tuple, str)):
            if x != y: return False
            continue
        if x != x or y != y:
            if x == x or y == y: return False
            continue
        if x == y: continue
        if mpmath.isinf(x) or mpmath.isinf(y) or abs(x - y) > 1e-6 * max(abs(x), abs(y)): return False
    return True

def concrete(e, v):
    """sequences of the symbolic result as lists"""
    if isinstance(v, Seq):
        n = int(e(v.n))
        if n > 64: raise Undef('long')
        return Arr([concrete(e, v.get(num(i))) for i in range(n)])
    if isinstance(v, Arr): return Arr([concrete(e, x) for x in v.e])
    if isinstance(v, Agg) and not isinstance(v, Seq):
        return Agg(v.ty if hasattr(v, 'ty') else 'tuple', [concrete(e, x) for x in v.f], v.v) if any(not isinstance(x, T) for x in v.f) else v
    return v

def search(pr, rp, o, base, budget=6.0, want=4):
    """-> [(input, kind, label, symbolic value)] on which the symbolic result breaks the obligation"""
    c = pr.c; s, v = o[2][0], o[2][1]; g = o[2][2] if len(o[2]) > 2 else None
    t0 = time.time(); rng = random.Random(7); hits = []; tries = 0
    pan = pr.R(c.panics(pr.a)) if c.panics else FALSE
    qs = consts([*s.pc] + (list(g[2:4]) if g else []))
    def test(d):
        if not reaches(rp, c, s.pc, d, True): return
        e = bound(rp, c, d)
        if isinstance(v, Panic):
            if pan is FALSE or not e(pan): hits.append((d, 'panic', None, None))
            return
        if g is None:
            if e(pan): hits.append((d, 'return', None, None))
            return
        if g[1] == 'definedness': return
        if pan is not FALSE and e(pan): return
        if g[0] in ('holds', 'step'):
            if not e(pr.R(g[2]) if False else g[2]): hits.append((d, 'holds', g[1], None))
            return
        l, r = concrete(e, g[2]), concrete(e, g[3])
        if rp.same(c, e, l, r): hits.append((d, 'eq', g[1], flat(e, l)))
    for d in candidates(rng, c, base, qs):
        tries += 1
        if tries > 6000 or time.time() - t0 > budget or len(hits) >= want: break
        try:
            with limited(1.0): test(d)
        except (Undef, Near, KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError, AttributeError, AssertionError, IndexError): continue
    return hits

def longer(rp, c, base):
    """inputs with long sequences: each vector argument repeated past the sizes of small counters"""
    out = []
    t0 = time.time()
    for n, t in c.args:
        if not t.strip().startswith('Vec<'): continue
        for m in (130, 300, 700):
            for d in sorted((d for d in base if isinstance(d[n], (list, tuple)) and len(d[n])), key=lambda d: len(d[n]))[:40:13]:
                if time.time() - t0 > 10: return out
                e = dict(d); k = len(d[n]); e[n] = list(d[n]) * (m // k + 1)
                try:
                    with limited(2.0): ok = rp.pre_ok(c, e)
                    if ok: out.append(e)
                except Exception: pass
            const = [d for d in base if isinstance(d[n], (list, tuple)) and len(d[n])]
            for x in {repr(y): y for d in const[:20] for y in d[n][:3]}.values():
                if len(out) > 12: break
                if time.time() - t0 > 10: return out
                e = dict(const[0]); e[n] = [x] * m
                try:
                    with limited(2.0): ok = rp.pre_ok(c, e)
                    if ok: out.append(e)
                except Exception: pass
    return out[:14]
