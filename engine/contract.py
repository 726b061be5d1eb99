"""Contracts on client functions, their proof and their replay on the real code."""
import random, time, traceback, struct, json, os, sys, re, itertools, math
from fractions import Fraction
import mpmath
from term import *
from mir import *
import mir as _mir
import models
from realize import realize
from smt import Smt, STATS, sort
from norm import Norm, Giveup, to_term
from numeric import Ev, FEv, Undef, Near
from workspace import parse_sig, split_top

class A:
    """argument record"""
    def __init__(self, d): self.__dict__.update(d)

def is_ok(r): return isinstance(r, Agg) and r.t == RES and r.v == 0
def is_err(r): return isinstance(r, Agg) and r.t == RES and r.v == 1
def is_some(r): return isinstance(r, Agg) and r.t == OPT and r.v == 1
def payload(r): return r.f[0]
def at(v, i):
    i = lift(i)
    if isinstance(v, Arr) and (not v.e or i.op == 'num' and not 0 <= i.a[0] < len(v.e)):      # there is no such element: no statement about it holds
        return leafmap(lambda t: var('#out-of-range', sort(t)), v.e[0]) if v.e else var('#out-of-range', 'R')
    return seq_get(v, i)
def length(v): return seqlen(v)
def tup(*xs): return Agg('tuple', [lift(x) if not isinstance(x, (Agg, Arr, Seq, Abs)) else x for x in xs])
def f64(x): return fbits(struct.unpack('<Q', struct.pack('<d', x))[0])
F0, F1 = f64(0.0), f64(1.0)
# float comparisons (IEEE in fp mode, real in real mode)
def flt(x, y): return mk('<', x, y)
def fle(x, y): return mk('<=', x, y)
def fgt(x, y): return mk('<', y, x)
def fge(x, y): return mk('<=', y, x)
def feq(x, y): return mk('=', x, y)
def all_(v, f, name='j'):
    if isinstance(v, Arr): return and_(*[f(x) for x in v.e])
    i = fresh('#q', 'I'); return forall(i, ZERO, v.n, f(v.get(i)))
def any_(v, f):
    if isinstance(v, Arr): return or_(*[f(x) for x in v.e])
    i = fresh('#q', 'I'); return exists(i, ZERO, v.n, f(v.get(i)))
def seqsum(v, f=lambda x: x, lo=None, hi=None):
    if isinstance(v, Arr) and (lo is None or lo.op == 'num') and (hi is None or hi.op == 'num'):
        acc = ZERO
        for x in v.e[0 if lo is None else int(lo.a[0]):len(v.e) if hi is None else int(hi.a[0])]: acc = add(acc, f(x))
        return acc
    i = fresh('#s', 'I'); return sum_(i, ZERO if lo is None else lo, seqlen(v) if hi is None else hi, f(seq_get(v, i)))
def holds(label, c): return ('holds', label, lift(c))
def step(label, c): return ('step', label, lift(c))
def eqg(label, l, r): return ('eq', label, l, r)
NOPANIC = object()

BIG = 40        # the dimension of a few extra executions of what is not proved
class Contract:
    def __init__(self, cid, group, src, post, pre=None, mode='real', gen=None, desc='', panics=None, sizes=None, intercept=None, tol=1e-7, nrand=200, proof=True, replay=True, loop_invs=None,
                 bounded_note=None, ns=(0, 1, 2, 3, 4, 7, 16), hyps=None, lemmas=None, maxpaths=400, label=None, anchors=(), lens=None, unroll=None, timeout=30):
        self.cid = cid; self.group = group; self.src = src; self.post = post; self.pre = pre or (lambda a: TRUE); self.mode = mode; self.gen = gen; self.desc = desc
        self.panics = panics; self.sizes = sizes; self.intercept = intercept; self.tol = tol; self.nrand = nrand; self.proof = proof; self.replay = replay
        self.name, self.gens, self.args, self.ret = parse_sig(src); self.defined = True; self.loop_invs = loop_invs; self.bounded_note = bounded_note; self.ns = ns
        self.hyps = hyps or (lambda a: []); self.lemmas = lemmas; self.maxpaths = maxpaths; self.anchors = anchors; self.lens = lens; self.unroll = unroll; self.timeout = timeout
    @property
    def cn(self):
        c = [g for g in self.gens if g.startswith('const ')]
        return c[0].split()[1].rstrip(':') if c else None

# random draws that are positive with probability one (for positive parameters)
ALMOST_SURELY_POSITIVE = ('draw:Gamma', 'draw:Open01', 'draw:Exp1', 'draw:ChiSquared', 'draw:Beta')
def domain(t):
    """where a partial operation of real arithmetic is defined"""
    o = t.op; x = t.a
    pos = lambda v: lt(ZERO, v)
    if o == '/': return TRUE if x[1] in (INF, NINF) else not_(eq(x[1], ZERO))
    if o in ('ln', 'log2', 'log10'): return TRUE if x[0] is INF else pos(x[0])
    if o == 'sqrt': return le(ZERO, x[0])
    if o == 'ln_1p': return lt(num(-1), x[0])
    if o in ('asin', 'acos'): return and_(le(num(-1), x[0]), le(x[0], ONE))
    if o in ('pow', 'powi'):
        b, e = x
        if e.op == 'num':
            if e.a[0].denominator == 1: return TRUE if e.a[0] >= 0 else not_(eq(b, ZERO))
            return le(ZERO, b) if e.a[0] > 0 else pos(b)
        if b.op == 'num' and b.a[0] > 0: return TRUE
        return or_(pos(b), and_(le(ZERO, e), TRUE if isint_(e) else le(ZERO, b)), *([not_(eq(b, ZERO))] if isint_(e) else []))
    if o in ('gamma', 'lgamma', 'digamma', 'trigamma'): return pos(x[0])
    if o in ('beta', 'lbeta'): return and_(pos(x[0]), pos(x[1]))
    if o == 'gammp': return and_(pos(x[0]), le(ZERO, x[1]))
    if o == 'betai': return and_(pos(x[0]), pos(x[1]), le(ZERO, x[2]), le(x[2], ONE))
    return TRUE
def isint_(t): return t.op == 'i2f' or t.op == 'num' and t.a[0].denominator == 1 or t.op in ('+', '-', '*') and all(isint_(y) for y in t.a)
class Result:
    def __init__(self, c):
        self.c = c; self.obl = []        # (label, status, info) status in proved/failed/unsupported
        self.used = set(); self.assumed = set(); self.err = None; self.t = 0; self.invariants = []; self.paths = 0; self.models = []; self.bounded = None
    @property
    def proved(self): return bool(self.obl) and all(o[1] == 'proved' for o in self.obl)

class Prover:
    def __init__(self, prog, contract, smt=None):
        self.p = prog; self.c = contract
        self.smt = smt or Smt(contract.mode)
        self.real = contract.mode == 'real'
        self.t0 = time.time()
    def R(self, t): return realize(t) if self.real else t
    def facts(self, pc):
        out = []
        for c in pc:
            c = self.R(c)
            if c.op == 'and': out += [x for x in c.a]
            else: out.append(c)
        return [c for c in out if c is not TRUE]
    def run(self):
        c = self.c; res = Result(c); t0 = time.time()
        try: self._run(res)
        except Unsupported as e: res.err = 'unsupported: %s' % e; res.obl.append(('symbolic execution', 'unsupported', str(e)))
        except Giveup as e: res.err = 'giveup: %s' % e; res.obl.append(('normalisation', 'unsupported', str(e)))
        except RecursionError as e: res.err = 'recursion'; res.obl.append(('normalisation', 'unsupported', 'term too deep'))
        except Exception as e:
            res.err = 'internal: %r %s' % (e, traceback.format_exc()[-1500:]); res.obl.append(('verifier', 'unsupported', repr(e)[:200]))
        res.t = time.time() - t0
        return res
    def root(self):
        suf = '::' + self.c.name
        for r in self.p.roots:
            nm = re.sub(r'::<.*$', '', r['path']) if '::<' in r['path'] else r['path']
            if r['path'].endswith(suf) or nm.endswith(suf): return r
        return None
    def setup(self, sizes=None, fixed=None):
        c = self.c
        r = self.root()
        if r is None: raise Unsupported('client %s is not in the export' % c.name)
        f = self.p.fns[r['key']]
        pre_facts = []
        def feas(pc):
            fs = self.facts(pc)
            if any(x is FALSE for x in fs): return False
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
            return self.smt.check(fs + pre_facts + self.hy, 300) != 'unsat'
        self.hy = []
        ex = Exec(self.p, feasible=feas, max_paths=c.maxpaths, intercept=c.intercept, sizes=sizes or c.sizes, **({'unroll': c.unroll} if c.unroll else {}))
        st = State(); args = []; d = {}
        for i, (n, t) in enumerate(c.args):
            v = ex.sym(st, f['locals'][i + 1], n, self.c.lens)
            if fixed and n in fixed: v = num(fixed[n]); st = State()
            args.append(v); d[n] = v
            if isinstance(v, Ptr): d[n] = ex.read(st, v.c, v.p)
        if c.cn: d[c.cn] = num(ex.sizes[c.cn]) if c.cn in ex.sizes else var(c.cn, 'I')
        a = A(d); ex.loop_invs = [(lambda f: lambda m, v0: f(a, m, v0))(f) for f in (c.loop_invs or ())]; a.__dict__['_ex'] = ex; a.__dict__['_prog'] = self.p
        pre = self.R(c.pre(a)); pre_facts += self.facts([pre]); self.hy += [self.R(h) for h in c.hyps(a)]
        for h in self.facts([pre]): st.assume(h)
        return ex, st, a, args, r, pre
    def _run(self, res):
        c = self.c
        self.deadline = time.time() + c.timeout
        if c.cn and c.sizes is None and getattr(c, 'only_sizes', None):
            res.bounded = 'N in %s' % (c.only_sizes,)
            for n in c.only_sizes: self._run1(res, {c.cn: n}, 'N=%d: ' % n)
        elif getattr(c, 'cases', None):
            # exhaustive case analysis on argument values: the cases must cover the precondition
            ex, st, a, args, r, pre = self.setup(None)
            cov = or_(*[and_(*[eq(getattr(a, n), num(v)) for n, v in cs.items()]) for cs in c.cases])
            ok = self.smt.entails(self.facts(st.pc) + self.hy, cov)
            res.obl.append(('the cases cover the precondition', 'proved' if ok else 'failed', 'case analysis'))
            for cs in c.cases:
                self.deadline = time.time() + c.timeout
                self._run1(res, None, ', '.join('%s=%s' % x for x in cs.items()) + ': ', cs)
        else: self._run1(res, None, '')
    def _run1(self, res, sizes, pref, fixed=None):
        c = self.c
        ex, st, a, args, r, pre = self.setup(sizes, fixed)
        self.ex = ex; self.a = a
        if self.smt.check(self.facts(st.pc) + self.hy) == 'unsat':
            res.obl.append((pref + 'precondition is satisfiable', 'failed', 'vacuous contract')); return
        paths = ex.run(r['key'], args, st)
        res.used |= ex.used; res.assumed |= ex.assumed; res.invariants += ex.invariants
        if ex.bounded: res.bounded = 'loops over symbolic ranges unrolled'
        live = 0
        for pi, (s, v) in enumerate(paths):
            hy = self.facts(s.pc)
            if any(h is FALSE for h in hy): continue
            hy2 = hy + [h for h in self.hy if h not in hy]
            chk = self.smt.check(hy2)
            if chk == 'unsat': continue
            live += 1
            res.paths += 1
            if isinstance(v, Panic):
                allow = self.R(c.panics(a)) if c.panics else FALSE
                ok = self.prove_holds(hy2, allow)
                res.obl.append((pref + 'path %d: no panic (%s at %s)' % (pi, v.kind, v.where), 'proved' if ok else 'failed', (s, v)))
                continue
            if c.panics:
                na = self.R(c.panics(a))
                if na is not FALSE:
                    ok = self.prove_holds(hy2, not_(na)) if not getattr(c, 'panic_may', False) else True
                    res.obl.append((pref + 'path %d: returns only when it must not panic' % pi, 'proved' if ok else 'failed', (s, v)))
            if self.real and c.defined:
                bad = self.undefined(s, v, hy2, pre)
                res.obl.append((pref + 'path %d: every arithmetic operation is defined' % pi, 'failed' if bad else 'proved', (s, v, ('holds', 'definedness', bad[1]), bad[0] + ' needs ' + short(bad[1])) if bad else (s, v)))
            a.__dict__['_st'] = s
            goals = c.post(a, v)
            for g in goals:
                if self.deadline and time.time() > self.deadline + c.timeout: raise Unsupported('time limit')
                ok, why = self.prove_goal(hy2, g)
                res.obl.append((pref + 'path %d: %s' % (pi, g[1]), 'proved' if ok else 'failed', (s, v, g, why)))
                if ok and g[0] == 'step': hy2 = hy2 + self.facts([self.R(g[2])])   # proved: the later goals of the path may use it
        if live == 0: res.obl.append((pref + 'some path is reachable', 'failed', 'no feasible path'))
        self.last_paths = paths

    # ---- definedness: the real-arithmetic reading is only used where no operation leaves its domain
    def undefined(self, s, v, hy, pre):
        """a partial operation of the result or of a branch condition that is not shown to be within its domain, or None"""
        memo = self.__dict__.setdefault('wdmemo', {})
        npre = set(self.facts([pre]))
        def ok(ctx, cond, t):
            if cond is TRUE: return True
            k = (cond, tuple(ctx)); r = memo.get(k)
            if r is None: r = memo[k] = self.by_structure(list(ctx), cond) or self.prove_holds(list(ctx), cond)
            return r
        def scan(ctx, t):
            seen = set(); st = [(t, ctx)]
            while st:
                t, ctx = st.pop()
                if not isinstance(t, T) or (t, len(ctx)) in seen or t.op in ('num', 'var', 'const', 'true', 'false', 'f'): continue
                seen.add((t, len(ctx)))
                d = domain(t)
                if d is not TRUE and not ok(ctx, d, t): return short(t), d
                if t.op == 'ite': st += [(t.a[0], ctx), (t.a[1], ctx + self.facts([t.a[0]])), (t.a[2], ctx + self.facts([not_(t.a[0])]))]
                elif t.op in BINDERS:
                    j = fresh('#d', 'I')
                    st += [(t.a[1], ctx), (t.a[2], ctx), (subst(t.a[3], {t.a[0]: j}), ctx + [le(t.a[1], j), lt(j, t.a[2])])]
                elif t.op == 'lam': pass
                else: st += [(x, ctx) for x in t.a]
            return None
        pc = []
        for h in self.facts(s.pc):
            if h not in npre:
                r = scan(list(self.hy) + pc, h)
                if r: return r
            pc.append(h)
        def leaves(v, ctx):
            if isinstance(v, T): return scan(ctx, self.R(v))
            if isinstance(v, Arr): it = [(x, ctx) for x in v.e]
            elif isinstance(v, Agg): it = [(x, ctx) for x in v.f]
            elif isinstance(v, Seq):
                j = fresh('#d', 'I'); it = [(v.n, ctx), (v.get(j), ctx + [le(ZERO, j), lt(j, self.R(v.n))])]
            else: return None
            for x, cx in it:
                r = leaves(x, cx)
                if r: return r
            return None
        return leaves(v, hy)

    def by_structure(self, ctx, cond):
        """a sign condition from the signs of the parts (elements of sums and products, squares, lemmas of the contract)"""
        if cond.op == 'and': return all(self.prove_holds(ctx, x) or self.by_structure(ctx, x) for x in cond.a)
        if cond.op == 'not' and cond.a[0].op == '=' and cond.a[0].a[1] is ZERO: return self.nz(ctx, cond.a[0].a[0])
        if cond.op == '<' and cond.a[0] is ZERO: return self.signed(ctx, cond.a[1], True)
        if cond.op == '<=' and cond.a[0] is ZERO: return self.signed(ctx, cond.a[1], False)
        if cond.op == 'or': return any(self.by_structure(ctx, x) for x in cond.a)
        return False
    def positive_lemma(self, ctx, x):
        facts = [sub(h.a[1], h.a[0]) for h in ctx if h.op == '<' and 'R' in (sort(h.a[0]), sort(h.a[1]))] if contains_op(x, ('sum', 'gamma', 'lgamma', 'erf', 'normcdf')) else []
        for l in self.lem() + facts:
            try:
                if self.normer(ctx).is_zero(self.defs(ctx, sub(x, l))): return True
            except Giveup: pass
        return False
    def lem(self):
        if not hasattr(self, '_lem'): self._lem = [self.R(x) for x in self.c.positive(self.a)] if getattr(self.c, 'positive', None) else []
        return self._lem
    def element(self, ctx, t):
        j = fresh('#d', 'I'); return ctx + [le(t.a[1], j), lt(j, t.a[2])], subst(t.a[3], {t.a[0]: j})
    def nz(self, ctx, x):
        o, a = x.op, x.a
        if o == 'exp' or o == 'const': return True
        if o == '*': return self.nz(ctx, a[0]) and self.nz(ctx, a[1])
        if o in ('/', 'neg', 'abs', 'pow', 'powi'): return self.nz(ctx, a[0])
        if o == 'sqrt': return self.signed(ctx, a[0], True)
        if o == 'prod': return self.nz(*self.element(ctx, x))
        if o == 'ite': return self.nz(ctx + self.facts([a[0]]), a[1]) and self.nz(ctx + self.facts([not_(a[0])]), a[2])
        return self.prove_holds(ctx, not_(eq(x, ZERO))) or self.signed(ctx, x, True)
    def signed(self, ctx, x, strict):
        o, a = x.op, x.a
        if o == 'exp' or o == 'const' or o == 'app' and a[0] in ALMOST_SURELY_POSITIVE: return True
        if self.positive_lemma(ctx, x): return True
        if o == '*':
            if a[0] is a[1]: return not strict or self.nz(ctx, a[0])
            return self.signed(ctx, a[0], strict) and self.signed(ctx, a[1], strict)
        if o == '/': return self.signed(ctx, a[0], strict) and self.signed(ctx, a[1], True)
        if o == '+': return self.signed(ctx, a[0], False) and self.signed(ctx, a[1], strict) or strict and self.signed(ctx, a[0], True) and self.signed(ctx, a[1], False)
        if o == 'sqrt': return not strict or self.signed(ctx, a[0], True)
        if o == 'abs': return not strict or self.nz(ctx, a[0])
        if o in ('pow', 'powi'):
            if a[1].op == 'num' and a[1].a[0].denominator == 1 and a[1].a[0] % 2 == 0: return not strict or self.nz(ctx, a[0])
            return self.signed(ctx, a[0], strict)
        if o == 'prod': return self.signed(*self.element(ctx, x), strict)
        if o == 'sum': return self.signed(*self.element(ctx, x), strict) and (not strict or self.prove_holds(ctx, lt(a[1], a[2])))
        if o == 'ite': return (self.prove_holds(ctx, not_(a[0])) or self.signed(ctx + self.facts([a[0]]), a[1], strict)) and (self.prove_holds(ctx, a[0]) or self.signed(ctx + self.facts([not_(a[0])]), a[2], strict))
        return self.prove_holds(ctx, lt(ZERO, x) if strict else le(ZERO, x))

    # ---- goals
    def prove_goal(self, hy, g):
        if g[0] in ('holds', 'step'):
            ok = self.prove_holds(hy, self.R(g[2])); return ok, None if ok else 'not entailed: %s' % short(g[2])
        return self.prove_eq(hy, g[2], g[3])
    def prove_holds(self, hy, c):
        if c is TRUE: return True
        if c is FALSE: return self.smt.check(hy) == 'unsat' or self.real and self.canon_check(hy)
        if c.op == 'and': return all(self.prove_holds(hy, x) for x in c.a)
        if self.real and self.ground(c): return True
        if c.op == '=' and sort(c.a[0]) == 'R' and self.real:
            return self.eq_scalar(hy, c.a[0], c.a[1])[0] or self.smt.entails(hy, c)
        if self.smt.entails(hy, c): return True
        if c.op == 'or' and len(c.a) == 2 and c.a[1].op == 'and': pass
        if self.real and c.op in ('<', '<='):
            return self.sign_goal(hy, c) or self.smt.nlsat(hy, c)
        if self.real and c.op == 'or' and self.smt.nlsat(hy, c): return True
        if c.op == 'forall':
            j = fresh('#j', 'I')
            return self.prove_holds(hy + [le(c.a[1], j), lt(j, c.a[2])], subst(c.a[3], {c.a[0]: j}))
        if c.op == 'not' and c.a[0].op == 'or': return all(self.prove_holds(hy, not_(x)) for x in c.a[0].a)
        return False
    def canon_check(self, hy):
        """inconsistent once the sums inside special functions are in normal form?"""
        n = self.normer(hy); memo = {}; ch = [False]
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            r = t
            if t.op in ('exp', 'ln', 'sqrt') and contains_op(t, ('sum',)):
                try: x = to_term(n.norm(self.defs(hy, t.a[0])))
                except Giveup: x = None
                if x is not None and x is not t.a[0]: r = mk(t.op, x); ch[0] = True
            elif t.op in ('<', '<=') and sort(t.a[0]) in 'RN' and sort(t.a[1]) in 'RN' and contains_op(t, ('sum',)):
                try:
                    co, mo, q = n.split(n.together(n.norm(self.defs(hy, sub(t.a[1], t.a[0])))))
                    sg = n.msgn(mo, co); x = to_term(q) if sg in (1, -1) else None
                except Giveup: x = None
                if x is not None and contains_op(x, ('sum',)): r = mk(t.op, *((ZERO, x) if sg > 0 else (x, ZERO))); ch[0] = True
            elif t.a and t.op not in BINDERS: r = rebuild(t.op, tuple(go(x) if isinstance(x, T) else x for x in t.a))
            memo[t] = r; return r
        h2 = [go(h) for h in hy]
        return ch[0] and (self.smt.check(h2) == 'unsat' or self.smt.nlsat(h2, FALSE))
    def ground(self, c):
        """a strict or non-strict comparison without variables: decided by evaluation to 60 digits with a margin"""
        if c.op not in ('<', '<=') or free_vars(c) or contains_op(c, ('app', 'fact')): return False
        try:
            with mpmath.mp.workdps(60):
                x, y = Ev(cap=10**6)(c.a[0]), Ev(cap=10**6)(c.a[1])
                return bool(y - x > mpmath.mpf(10) ** -40 * max(1, abs(x), abs(y)))
        except Exception: return False
    def sign_goal(self, hy, c):
        """l < r by the sign of the normal form of r - l"""
        def leafp(hy, e):
            n = self.normer(hy)
            try: s = n.sgn(n.norm(self.defs(hy, sub(e[1], e[0]))))
            except Giveup: return False
            return s == 1 or (c.op == '<=' and s in (1, 2, 0))
        return self.split(hy, [c.a[0], c.a[1]], leafp)
    def prove_eq(self, hy, l, r):
        if l is r: return True, None
        if isinstance(l, T) or isinstance(r, T):
            if not isinstance(r, T): return False, 'scalar against %r' % type(r)
            if not isinstance(l, T): return False, 'structure against scalar'
            return self.eq_scalar(hy, l, r)
        if isinstance(l, (Arr, Seq)) and isinstance(r, (Arr, Seq)):
            if isinstance(l, Arr) and isinstance(r, Arr):
                if len(l.e) != len(r.e): return self.contra(hy, 'lengths %d and %d' % (len(l.e), len(r.e)))
                for i, (x, y) in enumerate(zip(l.e, r.e)):
                    ok, why = self.prove_eq(hy, x, y)
                    if not ok: return False, 'element %d: %s' % (i, why)
                return True, None
            if not self.smt.entails(hy, self.R(eq(l.n, r.n))):
                ok, why = self.eq_scalar(hy, l.n, r.n)
                if not ok: return False, 'lengths %s and %s' % (short(l.n), short(r.n))
            j = fresh('#j', 'I')
            ok, why = self.prove_eq(hy + [le(ZERO, j), lt(j, r.n if not isinstance(r, Arr) else num(len(r.e)))], seq_get(l, j), seq_get(r, j))
            return ok, None if ok else 'element j: %s' % why
        if isinstance(l, Agg) and isinstance(r, Agg):
            if l.k == 'box' and isinstance(l.f[0], Ptr): pass
            if l.v != r.v: return self.contra(hy, 'variant %d against %d' % (l.v, r.v))
            if len(l.f) != len(r.f): return False, 'different shape'
            for i, (x, y) in enumerate(zip(l.f, r.f)):
                ok, why = self.prove_eq(hy, x, y)
                if not ok: return False, 'field %d: %s' % (i, why)
            return True, None
        if isinstance(l, Abs) and isinstance(r, Abs):
            if l.t is r.t: return True, None
            return (self.smt.entails(hy, eq(l.t, r.t)), 'opaque values %s / %s' % (short(l.t), short(r.t)))
        if isinstance(l, Str) and isinstance(r, Str): return l.s == r.s, 'strings'
        return False, 'cannot compare %r and %r' % (type(l), type(r))
    def contra(self, hy, why):
        return (self.smt.check(hy) == 'unsat'), why
    def eq_scalar(self, hy, l, r, depth=0):
        if l is r: return True, None
        if sort(l) == 'B' or is_bool(l):
            ok = self.smt.entails(hy, self.R(iff(l, r))); return ok, None if ok else 'booleans differ'
        if not self.real:
            if l is r: return True, None
            ok = self.smt.entails(hy, mk('same', l, r)); return ok, None if ok else 'values differ: %s / %s' % (short(l), short(r))
        l, r = self.R(l), self.R(r)
        if l is r: return True, None
        if sort(l) == 'U': return self.smt.entails(hy, eq(l, r)), 'opaque'
        if 'I' in (sort(l), sort(r)) and sort(l) in 'IN' and sort(r) in 'IN':
            if self.smt.entails(hy, eq(l, r)): return True, None
        why = []
        def leafp(hy, e):
            x, y = e
            x, y = self.R(x), self.R(y)
            if x is y: return True
            if x in (INF, NINF, NAN) or y in (INF, NINF, NAN):
                if self.smt.check(hy) == 'unsat': return True
                why.append('%s against %s' % (short(x), short(y))); return False
            d = self.defs(hy, sub(x, y))
            n = self.normer(hy)
            try:
                if n.is_zero(d): return True
                why.append('residual %s' % short(d)); 
            except Giveup as g: why.append('normaliser gave up: %s' % g)
            d2 = self.lindefs(hy, d)
            if d2 is not None and d2 is not d:
                try:
                    if find_ite(d2) is None and self.normer(hy).is_zero(d2): return True
                except Giveup: pass
            if self.c.lemmas:
                for lm in self.c.lemmas:
                    if lm(self, hy, x, y): return True
            if x.op == y.op and x.op in ('sum', 'prod') and depth < 3 and all(p is q or self.eq_scalar(hy, p, q)[0] for p, q in zip(x.a[1:3], y.a[1:3])):
                k = fresh('#k', 'I')
                if self.eq_scalar(hy + [le(x.a[1], k), lt(k, x.a[2])], subst(x.a[3], {x.a[0]: k}), subst(y.a[3], {y.a[0]: k}), depth + 1)[0]: return True
            if self.smt.entails(hy, eq(x, y)): return True
            return False
        ok = self.split(hy, [l, r], leafp)
        return ok, None if ok else '; '.join(why)[:600]
    def normer(self, hy):
        return Norm(Oracle(self.smt, hy))
    def defs(self, hy, t):
        """use equations of the path condition as rewrites"""
        m = {}
        for h in hy:
            if h.op == '=':
                x, y = h.a
                if x.op != 'var' and y.op == 'var': x, y = y, x
                if x.op == 'var' and x not in free_vars(y): m[x] = y
                elif x.op != 'var':
                    fv = free_vars(x) | free_vars(y)
                    if len(fv) == 1 and not contains_op(x, ('app',)) and not contains_op(y, ('app',)):
                        v, = fv
                        try: p = self.normer([]).norm(sub(x, y))
                        except Giveup: continue
                        d = dict(p.t); k0 = d.pop((), Fraction(0))
                        if len(d) == 1:
                            (mo, c), = d.items()
                            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].k == 'v' and mo[0][0].term is v and v not in m and (v.a[1] == 'R' or (-k0 / c).denominator == 1): m[v] = num(-k0 / c)
        for _ in range(3):
            t2 = subst(t, m)
            if t2 is t: break
            t = t2
        return self.R(t)
    def lindefs(self, hy, t):
        """use linear equations between integer variables as rewrites"""
        m = {}; nm = self.normer([])
        for h in hy:
            if h.op != '=' or sort(h.a[0]) not in 'INR' or any(sort(v) != 'I' for x in h.a for v in free_vars(x)): continue
            try: p = nm.norm(sub(*[subst(x, m) for x in h.a]))
            except Giveup: continue
            if not all(len(mo) == 0 or len(mo) == 1 and mo[0][1] == 1 and mo[0][0].k == 'v' and c.denominator == 1 for mo, c in p.t.items()): continue
            for mo, c in p.t.items():
                if len(mo) == 1 and abs(c) == 1:
                    r = ZERO; v = mo[0][0].term
                    for mo2, c2 in p.t.items():
                        if mo2 is not mo and mo2 != mo: r = r - num(c2 / c) * (mo2[0][0].term if mo2 else ONE)
                    m = {k: subst(x, {v: r}) for k, x in m.items()}; m[v] = r; break
        return self.R(subst(t, m)) if m else None
    def split(self, hy, es, leaf, depth=0):
        """case split on the ite conditions outside binders"""
        c = None
        for e in es:
            c = find_ite(e)
            if c is not None: break
        if c is None: return leaf(hy, es)
        if depth > 14: return False
        while c.op in ('and', 'or', 'not'): c = c.a[0]
        cc = self.R(c)
        for val, h in ((True, cc), (False, not_(cc))):
            if h is FALSE: continue
            h2 = hy + ([x for x in (h.a if h.op == 'and' else (h,)) if x is not TRUE])
            if self.smt.check(h2, 400) == 'unsat': continue
            memo = {}
            es2 = [self.R(pick(e, c, val, memo)) for e in es]
            if not self.split(h2, es2, leaf, depth + 1): return False
        return True

class Oracle:
    def __init__(self, smt, hy): self.smt = smt; self.st = [list(hy)]
    def __call__(self, c):
        c = realize(c)
        r = self.smt.check(self.st[-1] + [not_(c)], 250)
        return r == 'unsat' or r == 'unknown' and contains_op(c, ('sqrt', '/')) and self.smt.nlsat(self.st[-1], c, 400)
    def push(self, *cs): self.st.append(self.st[-1] + [c for c in cs if c is not TRUE])
    def pop(self): self.st.pop()

def find_ite(t, memo=None):
    """an innermost-condition ite; inside binders only conditions that do not mention the bound variable"""
    seen = set()
    def go(t, bd):
        if (t, bd) in seen: return None
        seen.add((t, bd))
        if t.op == 'lam': return None
        if t.op in BINDERS: bd = bd | {t.a[0]}
        if t.op == 'ite':
            if not bd or not (free_vars(t.a[0]) & bd):
                r = go(t.a[0], bd)
                return r if r is not None else t.a[0]
        for x in t.a:
            if isinstance(x, T):
                r = go(x, bd)
                if r is not None: return r
        return None
    return go(t, frozenset())
def pick(t, c, val, memo):
    def go(t):
        if t.op in ('num', 'f', 'var', 'const', 'true', 'false'): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'ite' and t.a[0] is c: r = go(t.a[1] if val else t.a[2])
        elif t is c: r = TRUE if val else FALSE
        else: r = rebuild(t.op, tuple(go(x) if isinstance(x, T) else x for x in t.a))
        memo[t] = r
        return r
    return go(t)
def short(t, n=240):
    s = show(t) if isinstance(t, T) else repr(t)
    return s if len(s) <= n else s[:n] + '...'

# ---------------------------------------------------------------- concrete side
def tyname(ty, n=None):
    ty = ty.strip()
    return ty
def decode(j, ty, cn=None, n=None):
    ty = ty.strip()
    if j == 'PANIC': return Panic('panic')
    if ty == 'f64': return fbits(int(j, 16))
    if ty == 'bool': return TRUE if j else FALSE
    if re.fullmatch(r'[iu](8|16|32|64|128|size)', ty): return num(j)
    if ty == '()': return UNIT
    if ty.startswith('Option<'): return NONE if j['v'] == 0 else some(decode(j['x'], ty[7:-1], cn, n))
    if ty.startswith('Result<'):
        x, y = split_top(ty[7:-1]); return ok(decode(j['x'], x, cn, n)) if j['v'] == 0 else err(decode(j['x'], y, cn, n))
    if ty.startswith('Vec<'): return Arr([decode(x, ty[4:-1], cn, n) for x in j])
    if ty.startswith('['): return Arr([decode(x, split_top(ty[1:-1], ';')[0], cn, n) for x in j])
    if ty.startswith('('): return Agg('tuple', [decode(x, t, cn, n) for x, t in zip(j, split_top(ty[1:-1]))])
    raise ValueError(ty)
def encode(v, ty, cn=None, n=None):
    """python value -> protocol tokens"""
    ty = ty.strip()
    if ty == 'f64': return '%016x' % struct.unpack('<Q', struct.pack('<d', float(v)))[0]
    if ty == 'bool': return 'true' if v else 'false'
    if re.fullmatch(r'[iu](8|16|32|64|128|size)', ty): return str(int(v))
    if ty.startswith('Vec<'): return ' '.join([str(len(v))] + [encode(x, ty[4:-1], cn, n) for x in v])
    if ty.startswith('['): return ' '.join([str(len(v))] + [encode(x, split_top(ty[1:-1], ';')[0], cn, n) for x in v])
    if ty.startswith('('): return ' '.join(encode(x, t, cn, n) for x, t in zip(v, split_top(ty[1:-1])))
    raise ValueError(ty)
def value(v, ty):
    """python value -> engine value (concrete)"""
    ty = ty.strip()
    if ty == 'f64': return f64(float(v))
    if ty == 'bool': return TRUE if v else FALSE
    if re.fullmatch(r'[iu](8|16|32|64|128|size)', ty):
        if not IRANGE[ty][0] <= int(v) <= IRANGE[ty][1]: raise Unsupported('not a %s' % ty)
        return num(int(v))
    if ty.startswith('Vec<'): return Arr([value(x, ty[4:-1]) for x in v])
    if ty.startswith('['): return Arr([value(x, split_top(ty[1:-1], ';')[0]) for x in v])
    if ty.startswith('('): return Agg('tuple', [value(x, t) for x, t in zip(v, split_top(ty[1:-1]))])
    raise ValueError(ty)

SPECIALF = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1e-300, -1e-300, 5e-324, -5e-324, 1e300, -1e300, float('inf'), float('-inf'), float('nan'), 1.0000000000000002, 0.9999999999999999, -1.0000000000000002, 2.2250738585072014e-308, 1e-7, 1e-9, 3.0, 0.1, 0.3, 170.5, 1e16]
def rand_of(ty, rng, n, mode):
    ty = ty.strip()
    if ty == 'f64':
        k = rng.random()
        if k < 0.45:
            while True:
                v = rng.choice(SPECIALF)
                if mode != 'real' or (v == v and abs(v) < 1e200): return v
        if k < 0.8: return rng.uniform(-3, 3)
        if k < 0.9: return rng.uniform(-50, 50)
        return math.ldexp(rng.uniform(-1, 1), rng.randint(-60, 60))
    if ty == 'bool': return rng.random() < 0.5
    if ty[0] in 'iu' and ty[1:] in ('8', '16', '32', '64', '128', 'size'):
        b = 64 if ty[1:] == 'size' else int(ty[1:]); lo, hi = (0, 2**b - 1) if ty[0] == 'u' else (-2**(b - 1), 2**(b - 1) - 1)
        k = rng.random()
        if k < 0.6: v = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 20, -1, -2, -3, 12, 33, 64])
        elif k < 0.9: v = rng.randint(-30, 60)
        elif k < 0.95: v = rng.choice([lo, hi, lo + 1, hi - 1])
        else: v = rng.randint(lo, hi)
        return min(max(v, lo), hi)
    if ty.startswith('Vec<'): return rand_seq(ty[4:-1], rng, n, mode, rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 9, 33] if rng.random() < 0.93 else [70, 300, 1500]))
    if ty.startswith('['):
        e, m = split_top(ty[1:-1], ';'); m = int(m) if m.isdigit() else n
        return rand_seq(e, rng, n, mode, m)
    if ty.startswith('('): return tuple(rand_of(t, rng, n, mode) for t in split_top(ty[1:-1]))
    raise ValueError(ty)

def rand_seq(e, rng, n, mode, m):
    k = rng.random()
    if m >= 2 and k < 0.35:
        base = rand_of(e, rng, n, mode); out = [base] * m
        for _ in range(rng.choice([1, 1, 1, 2])): out[rng.choice([0, m - 1, m - 1, rng.randrange(m)])] = rand_of(e, rng, n, mode)
        return out
    return [rand_of(e, rng, n, mode) for _ in range(m)]

class Replayer:
    def __init__(self, ws, seed=1): self.ws = ws; self.rng = random.Random(seed)
    def inputs(self, c, k, extra=()):
        out = []
        for x in extra: out.append(x)
        tries = 0
        while len(out) < k and tries < k * 30:
            tries += 1
            n = self.rng.choice(c.ns) if c.cn else None
            if c.gen:
                try: d = c.gen(self.rng, n) if c.cn else c.gen(self.rng)
                except StopIteration: break
            else: d = {nm: rand_of(t, self.rng, n, c.mode) for nm, t in c.args}
            if d is None: continue
            if c.cn: d['__N'] = d.pop('__N', n)
            if not self.pre_ok(c, d): continue
            out.append(d)
        return out
    def large(self, c, k):
        """a few inputs of a dimension beyond the small ones, for what only breaks there"""
        out = []; t0 = time.time()
        if not c.cn: return out
        for _ in range(k):
            if time.time() - t0 > 6: break
            try:
                with __import__("directed").limited(2.0):
                    d = c.gen(self.rng, BIG) if c.gen else {nm: rand_of(t, self.rng, BIG, c.mode) for nm, t in c.args}
                    if d is None: continue
                    d['__N'] = d.pop('__N', BIG)
                    if self.pre_ok(c, d): out.append(d)
            except Exception: pass
        return out
    def wider(self, c, base, k):
        '''the same inputs with counts of another size'''
        import directed
        out = []; t0 = time.time(); base = [d for d in base if any(x == 'i' for _, x in directed.leaves(d, c))]
        if not base: return out
        for _ in range(k * 5):
            if len(out) >= k or time.time() - t0 > 5: break
            d = self.rng.choice(base); ls = [p for p, x in directed.leaves(d, c) if x == 'i']
            for p in self.rng.sample(ls, min(len(ls), self.rng.choice([1, 1, 2, 3]))): d = directed.put(d, p, int(math.exp(self.rng.uniform(0, 8))))
            try:
                with directed.limited(1.0):
                    if self.pre_ok(c, d): out.append(d)
            except Exception: pass
        return out
    def record(self, c, d):
        a = {nm: value(d[nm], t) for nm, t in c.args}
        if c.cn: a[c.cn] = num(d['__N'])
        return A(a)
    def ev(self, c): return Ev(eps=getattr(c, 'eps', 1e-9)) if c.mode == 'real' else FEv()
    def in_range(self, c, d):
        # contracts over the reals are replayed where rounding and overflow cannot matter (c.range)
        lo, hi, cnt = c.range
        def ok(v):
            if isinstance(v, (list, tuple)): return all(ok(x) for x in v)
            if isinstance(v, float): return v == 0 or lo <= abs(v) <= hi
            if isinstance(v, int) and not isinstance(v, bool): return abs(v) <= cnt
            return True
        return all(ok(v) for v in d.values())
    def known(self, c, d, o):
        """does the real result on d match the recorded wrong behaviour of a known finding?"""
        if not getattr(c, 'known', None): return False
        v = decode(o, c.ret); a = self.record(c, d); ev = self.ev(c)
        if isinstance(v, Panic): return False
        try: return all(self.goal(c, ev, g) is None for g in c.known(a, v))
        except (Undef, Near): return False
    def pre_ok(self, c, d, anywhere=False):
        if not anywhere and getattr(c, 'range', None) and not self.in_range(c, d): return False
        try: return bool(self.ev(c)(c.pre(self.record(c, d))))
        except (Undef, Near, Unsupported): return False
    def line(self, c, d):
        return ' '.join([c.name] + ([str(d['__N'])] if c.cn else []) + [encode(d[nm], t) for nm, t in c.args])
    def check(self, c, ds, timeout=120):
        """run the real code on the inputs; -> (evaluated, failures [(input, real, what)])"""
        if not ds: return 0, []
        outs = self.ws.run([self.line(c, d) for d in ds], timeout)
        n = 0; bad = []
        for d, o in zip(ds, outs):
            if o in ('NOFN', 'NOINST', 'SKIP'): continue
            a = self.record(c, d); ev = self.ev(c)
            if o in ('CRASH', 'TIMEOUT'):
                n += 1; bad.append((d, o, 'the call does not return')); continue
            ret = c.ret
            if c.cn: ret = re.sub(r'\b%s\b' % c.cn, str(d['__N']), ret)
            v = decode(o, ret)
            try:
                n += 1
                pan = bool(ev(c.panics(a))) if c.panics else False
                if isinstance(v, Panic):
                    if not pan: bad.append((d, 'panic', 'panics'))
                    continue
                if pan and not getattr(c, 'panic_may', False):
                    bad.append((d, o, 'returns where it must panic')); continue
                for g in c.post(a, v):
                    w = self.goal(c, ev, g)
                    if w: bad.append((d, o, '%s: %s' % (g[1], w))); break
            except (Undef, Near) as e: n -= 1
            except (IndexError, Unsupported) as e:
                if isinstance(e, IndexError) or 'index' in str(e): bad.append((d, o, 'the result has no element where the contract speaks of one'))      # e.g. a list that is too short
                else: n -= 1
            except Exception as e: n -= 1
        return n, bad
    def confirm(self, c, hits, timeout=60):
        """directed.search's inputs on the real code: a violation only where it does what the symbolic result says"""
        import directed
        if not hits: return []
        outs = self.ws.run([self.line(c, h[0]) for h in hits], timeout); bad = []
        for (d, kind, label, sym), o in zip(hits, outs):
            if o in ('NOFN', 'NOINST', 'SKIP', 'CRASH', 'TIMEOUT'): continue
            a = self.record(c, d); ev = self.ev(c); ev.eps = 0
            ret = re.sub(r'\b%s\b' % c.cn, str(d['__N']), c.ret) if c.cn else c.ret
            v = decode(o, ret)
            try:
                if isinstance(v, Panic):
                    if kind == 'panic': bad.append((d, 'panic', 'panics'))
                    continue
                if kind == 'return': bad.append((d, o, 'returns where it must panic')); continue
                for g in c.post(a, v):
                    w = self.goal(c, ev, g)
                    if w and g[1] == label and (kind == 'holds' or kind == 'eq' and directed.agree(directed.flat(ev, g[2]), sym)): bad.append((d, o, '%s: %s' % (g[1], w))); break
            except (Undef, Near, IndexError, Unsupported): continue
        return bad
    def goal(self, c, ev, g):
        if g[0] in ('holds', 'step'):
            return None if ev(g[2]) else 'does not hold'
        return self.same(c, ev, g[2], g[3])
    def same(self, c, ev, l, r):
        if isinstance(l, T) and isinstance(r, T):
            x, y = ev(l), ev(r)
            if isinstance(x, bool) or isinstance(y, bool): return None if bool(x) == bool(y) else 'returned %s, the contract requires %s' % (x, y)
            if c.mode != 'real':
                return None if ev(mk('same', l, r)) else 'returned %r, the contract requires %r' % (x, y)
            if 'I' == sort(l) or (sort(l) == 'N' and sort(r) in 'NI'):
                return None if x == y else 'returned %s, the contract requires %s' % (mpmath.nstr(x, 25), mpmath.nstr(y, 25))
            if mpmath.isnan(x) and mpmath.isnan(y): return None
            if (mpmath.isinf(x) or mpmath.isinf(y)) and (mpmath.isinf(x) or abs(x) > 1e250) and (mpmath.isinf(y) or abs(y) > 1e250) and not (mpmath.isinf(x) and mpmath.isinf(y)) and (x > 0) == (y > 0): raise Undef('overflow')
            if mpmath.isinf(x) or mpmath.isinf(y): return None if x == y else 'returned %s, the contract requires %s' % (x, y)
            if abs(x) > 1e250 or abs(y) > 1e250: raise Undef('overflow')
            if abs(x - y) <= c.tol * max(abs(x), abs(y)) + c.tol * getattr(c, 'abs', 1e-3): return None
            return 'returned %s, the contract requires %s' % (mpmath.nstr(x, 17), mpmath.nstr(y, 17))
        if isinstance(l, Arr) and isinstance(r, (Arr, Seq)):
            n = len(r.e) if isinstance(r, Arr) else int(ev(r.n))
            if len(l.e) != n: return 'has %d elements, the contract requires %d' % (len(l.e), n)
            for i in range(n):
                w = self.same(c, ev, l.e[i], seq_get(r, num(i)))
                if w: return 'element %d %s' % (i, w)
            return None
        if isinstance(l, Agg) and isinstance(r, Agg):
            if l.v != r.v: return 'variant %d, the contract requires %d' % (l.v, r.v)
            for i, (x, y) in enumerate(zip(l.f, r.f)):
                w = self.same(c, ev, x, y)
                if w: return 'field %d %s' % (i, w)
            return None
        return 'shape %r against %r' % (l, r)

# ---------------------------------------------------------------- counterexample-directed inputs
def model_inputs(pr, hy, extra=(), tries=3):
    """inputs satisfying the hypotheses, from z3 models"""
    import z3
    c = pr.c; smt = pr.smt; a = pr.a; out = []
    bounds = []
    names = dict(c.args)
    small = []
    if c.cn and isinstance(getattr(a, c.cn), T): small.append(le(getattr(a, c.cn), num(max(c.ns)))) 
    for n, t in c.args:
        v = getattr(a, n)
        if isinstance(v, Seq): small.append(le(v.n, num(4)))
    nice = []
    if c.mode == 'real':
        for n, t in c.args:
            v = getattr(a, n)
            if isinstance(v, T) and sort(v) == 'R': nice += [le(num(-40), v), le(v, num(40))]
    for ext in ([list(extra) + small + nice, list(extra) + small, small + nice, small] if extra else [small + nice, small]):
        r, m = smt.check(hy + ext, 1500, want_model=True)
        if r != 'sat': continue
        try: out.append(extract(pr, m))
        except Exception: continue
        if len(out) >= tries: break
    return out
def extract(pr, m):
    import z3
    c = pr.c; a = pr.a; d = {}
    def val(t):
        e = m.eval(pr.smt.tr(t), model_completion=True)
        if z3.is_int_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if z3.is_rational_value(e): return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_algebraic_value(e):
            q = e.approx(30); return float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
        if z3.is_fp(e):
            if z3.is_true(z3.simplify(z3.fpIsNaN(e))): return float('nan')
            b = z3.simplify(z3.fpToIEEEBV(e)); return fval(b.as_long())
        raise ValueError(str(e))
    def conv(v):
        if isinstance(v, T): return val(v)
        if isinstance(v, Arr): return [conv(x) for x in v.e]
        if isinstance(v, Seq):
            n = val(v.n); return [conv(v.get(num(i))) for i in range(min(int(n), 6))]
        if isinstance(v, Agg): return tuple(conv(x) for x in v.f)
        raise ValueError(repr(v))
    for n, t in c.args: d[n] = conv(getattr(a, n))
    if c.cn:
        v = getattr(a, c.cn); d['__N'] = int(val(v))
        if d['__N'] not in c.ns and d['__N'] != BIG: raise ValueError('size')
    return d
