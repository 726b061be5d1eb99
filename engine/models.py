"""Contracts assumed for functions outside rstat: core/std, special-fun, rand,
rand_distr, BLAS/LAPACK, spaces.  Every one that an execution relies on is
recorded in Exec.assumed and listed in the evidence."""
import re
from term import *
import mir
from mir import (Unsupported, Agg, Arr, Seq, SeqUpd, Ptr, Fn, Abs, It, Str, UNINIT, UNIT, Panic, State, some, NONE, ok, err,
                 variant, OPT, RES, IRANGE, fresh, merge, seq_get, seq_set, seqlen, normpath, leafmap, idiv, imod)

ORD = 'std::cmp::Ordering'
LESS = variant(ORD, 0); EQUAL = variant(ORD, 1); GREATER = variant(ORD, 2)

def peel(ex, st, v):
    """follow references (and boxes) down to a value"""
    n = 0
    while True:
        if isinstance(v, Ptr): v = ex.read(st, v.c, v.p)
        elif isinstance(v, Agg) and v.k == 'box': v = v.f[0]
        else: return v
        n += 1
        if n > 20: raise Unsupported('peel')
def peelty(ex, tk):
    t = ex.p.ty(tk)
    while t['k'] == 'ref': t = ex.p.ty(t['t'])
    return t

def unterm(v):
    """flatten a value into argument terms for an uninterpreted application"""
    if isinstance(v, T): return [v]
    if isinstance(v, Abs): return [v.t]
    if isinstance(v, Agg):
        r = []
        for x in v.f: r += unterm(x)
        if v.k == 'adt' and v.v: r = [num(v.v)] + r
        return r
    if isinstance(v, Arr):
        r = []
        for x in v.e: r += unterm(x)
        return r
    if isinstance(v, Seq): return [var('seq:' + v.name, 'U')] if v.name not in ('upd', 'repeat', '') else [lam(v)]
    if isinstance(v, Str): return []
    if isinstance(v, Fn): return []
    if v is UNINIT: return []
    if isinstance(v, It): return [var('it', 'U')]
    raise Unsupported('argument %r' % (v,))
def lam(v):
    i = var('lam_i', 'I')
    x = v.get(i)
    return mk('lam', i, v.n, *unterm(x))

# ------------------------------------------------------------ sequences
def subslice(v, lo, hi):
    if isinstance(v, Arr) and lo.op == 'num' and hi.op == 'num': return Arr(v.e[int(lo.a[0]):int(hi.a[0])])
    return Seq(sub(hi, lo), lambda i: seq_get(v, add(lo, i)), 'sub')

def as_it(ex, st, v):
    if isinstance(v, It): return v
    if isinstance(v, Agg) and v.k == 'adt' and v.t == 'std::ops::Range': return It('range', v.f[0], v.f[1])
    if isinstance(v, Agg) and v.k == 'adt' and v.t == 'std::ops::RangeInclusive': return It('range', v.f[0], add(v.f[1], ONE))
    if isinstance(v, Agg) and v.k == 'adt' and v.t == 'std::ops::RangeFrom': return It('from', v.f[0])
    if isinstance(v, Ptr):
        x = ex.read(st, v.c, v.p)
        if isinstance(x, (Arr, Seq)): return It('slice', v)
        if isinstance(x, It): return It('ref', v)
        if isinstance(x, Ptr): return as_it(ex, st, x)
        if isinstance(x, Agg) and x.k == 'adt' and x.t in ('std::ops::Range', 'std::ops::RangeInclusive'): return It('ref', v)
        if isinstance(x, Agg) and x.k == 'box': return as_it(ex, st, x.f[0])
    if isinstance(v, (Arr, Seq)): return It('seq', v)
    if isinstance(v, Agg) and v.k == 'box': return as_it(ex, st, ex.read(st, v.f[0].c, v.f[0].p))
    if isinstance(v, Agg) and v.k == 'adt' and v.t == OPT: return It('seq', Arr(v.f))
    raise Unsupported('iterator from %r' % (v,))

def it_len(ex, st, it):
    k = it.k
    if k == 'range':
        n = sub(it.a[1], it.a[0])
        if it.a[0].op == 'num' and it.a[1].op == 'num': return num(max(0, n.a[0]))
        return ite(lt(it.a[0], it.a[1]), n, ZERO) if not (it.a[0] is ZERO) else n_nonneg(st, n)
    if k == 'slice': return seqlen(ex.read(st, it.a[0].c, it.a[0].p))
    if k == 'seq': return seqlen(it.a[0])
    if k == 'list': return num(len(it.a[0]) - it.a[1])
    if k in ('map', 'enumerate', 'rev', 'cloned', 'scan', 'inspect'): return it_len(ex, st, it.a[0])
    if k == 'zip':
        a, b = it_len(ex, st, it.a[0]), it_len(ex, st, it.a[1])
        if a is None: return b
        if b is None: return a
        if a is b: return a
        if a.op == 'num' and b.op == 'num': return num(min(a.a[0], b.a[0]))
        if prove_eq_len(st, a, b): return a
        return ite(le(a, b), a, b)
    if k == 'skip':
        a = it_len(ex, st, it.a[0])
        if a is None: return None
        if a.op == 'num' and it.a[1].op == 'num': return num(max(0, a.a[0] - it.a[1].a[0]))
        return ite(le(it.a[1], a), sub(a, it.a[1]), ZERO)
    if k == 'take':
        a = it_len(ex, st, it.a[0])
        if a is None: return it.a[1]
        if a.op == 'num' and it.a[1].op == 'num': return num(min(a.a[0], it.a[1].a[0]))
        return ite(le(it.a[1], a), it.a[1], a)
    if k == 'chain':
        a, b = it_len(ex, st, it.a[0]), it_len(ex, st, it.a[1])
        return None if a is None or b is None else add(a, b)
    if k in ('repeat', 'from'): return None
    if k == 'once': return ONE
    if k == 'ref':
        return it_len(ex, st, as_it(ex, st, ex.read(st, it.a[0].c, it.a[0].p)))
    raise Unsupported('length of iterator ' + k)
def n_nonneg(st, n):
    return n
def prove_eq_len(st, a, b): return False

def it_item(ex, st, it, i):
    """-> list of (st, value) for the i-th item; stateless iterators only"""
    k = it.k
    if k == 'range': return [(st, add(it.a[0], i))]
    if k == 'from': return [(st, add(it.a[0], i))]
    if k == 'slice': return [(st, Ptr(it.a[0].c, it.a[0].p + (('i', i),)))]
    if k == 'seq': return [(st, seq_get(it.a[0], i))]
    if k == 'list': return [(st, seq_get(Arr(it.a[0]), add(i, num(it.a[1]))))]
    if k == 'once' or k == 'repeat': return [(st, it.a[0])]
    if k == 'enumerate': return [(s, Agg('tuple', [i, v])) for s, v in it_item(ex, st, it.a[0], i)]
    if k == 'rev':
        n = it_len(ex, st, it.a[0]); return it_item(ex, st, it.a[0], sub(sub(n, ONE), i))
    if k == 'cloned': return [(s, deref1(ex, s, v)) for s, v in it_item(ex, st, it.a[0], i)]
    if k == 'skip': return it_item(ex, st, it.a[0], add(i, it.a[1]))
    if k == 'take': return it_item(ex, st, it.a[0], i)
    if k == 'zip':
        out = []
        for s, v in it_item(ex, st, it.a[0], i):
            if isinstance(v, Panic): out.append((s, v)); continue
            for s2, w in it_item(ex, s, it.a[1], i):
                out.append((s2, w if isinstance(w, Panic) else Agg('tuple', [v, w])))
        return out
    if k == 'map':
        out = []
        for s, v in it_item(ex, st, it.a[0], i):
            if isinstance(v, Panic): out.append((s, v)); continue
            out += ex.callv(s, it.a[1], [v])
        return out
    if k == 'ref': return it_item(ex, st, as_it(ex, st, ex.read(st, it.a[0].c, it.a[0].p)), i)
    raise Unsupported('item of iterator ' + k)
def deref1(ex, st, v):
    return ex.read(st, v.c, v.p) if isinstance(v, Ptr) else v

def it_list(ex, st, it):
    """materialise an iterator of concrete length: list of (st, [items]) or (st, Panic)"""
    if it.k == 'scan':
        res = []
        stcell = it.a[1]
        for s, items in it_list(ex, st, it.a[0]):
            if isinstance(items, Panic): res.append((s, items)); continue
            cur = [(s, [])]
            done = []
            for x in items:
                nxt = []
                for s1, acc in cur:
                    for s2, v in ex.callv(s1, it.a[2], [Ptr(stcell), x]):
                        if isinstance(v, Panic): res.append((s2, v)); continue
                        if isinstance(v, Agg) and v.t == OPT:
                            if v.v == 1: nxt.append((s2, acc + [v.f[0]]))
                            else: done.append((s2, acc))
                        else: raise Unsupported('scan closure result')
                cur = nxt
            res += cur + done
        return res
    if it.k in ('map', 'enumerate', 'cloned', 'skip', 'take', 'rev', 'zip', 'chain') and has_scan(it):
        if it.k == 'map':
            out = []
            for s, items in it_list(ex, st, it.a[0]):
                if isinstance(items, Panic): out.append((s, items)); continue
                out += seqmap(ex, s, it.a[1], items)
            return out
        if it.k == 'enumerate':
            return [(s, x if isinstance(x, Panic) else [Agg('tuple', [num(i), v]) for i, v in enumerate(x)]) for s, x in it_list(ex, st, it.a[0])]
        if it.k == 'skip': return [(s, x if isinstance(x, Panic) else x[int(it.a[1].a[0]):]) for s, x in it_list(ex, st, it.a[0])]
        if it.k == 'take': return [(s, x if isinstance(x, Panic) else x[:int(it.a[1].a[0])]) for s, x in it_list(ex, st, it.a[0])]
        if it.k == 'rev': return [(s, x if isinstance(x, Panic) else x[::-1]) for s, x in it_list(ex, st, it.a[0])]
        raise Unsupported('adaptor over a stateful iterator')
    if it.k == 'chain':
        out = []
        for s, a in it_list(ex, st, it.a[0]):
            if isinstance(a, Panic): out.append((s, a)); continue
            for s2, b in it_list(ex, s, it.a[1]):
                out.append((s2, b if isinstance(b, Panic) else a + b))
        return out
    if it.k in ('filter', 'filter_map', 'take_while', 'skip_while'):
        res = []
        for s, items in it_list(ex, st, it.a[0]):
            if isinstance(items, Panic): res.append((s, items)); continue
            cur = [(s, [], it.k == 'skip_while', False)]
            for x in items:
                nxt = []
                for s1, acc, skipping, stop in cur:
                    if stop: nxt.append((s1, acc, skipping, stop)); continue
                    if it.k == 'skip_while' and not skipping: nxt.append((s1, acc + [x], False, False)); continue
                    arg = x if it.k == 'filter_map' else Ptr(s1.new(x, 't'))
                    for s2, v in ex.callv(s1, it.a[1], [arg]):
                        if isinstance(v, Panic): res.append((s2, v)); continue
                        if it.k == 'filter_map':
                            nxt.append((s2, acc + ([v.f[0]] if v.v == 1 else []), False, False)); continue
                        for c, b in ((v, True), (not_(v), False)):
                            if c is FALSE: continue
                            s3 = s2.fork().assume(c)
                            if c is not TRUE and not ex.ok(s3): continue
                            if it.k == 'filter': nxt.append((s3, acc + ([x] if b else []), False, False))
                            elif it.k == 'take_while': nxt.append((s3, acc + ([x] if b else []), False, not b))
                            else: nxt.append((s3, acc + ([] if b else [x]), b, False))
                cur = nxt
            res += [(s1, acc) for s1, acc, _, _ in cur]
        return res
    n = it_len(ex, st, it)
    if n is None or n.op != 'num': raise Unsupported('materialise a symbolic iterator')
    cur = [(st, [])]; res = []
    for i in range(int(n.a[0])):
        nxt = []
        for s, acc in cur:
            for s2, v in it_item(ex, s, it, num(i)):
                if isinstance(v, Panic): res.append((s2, v))
                else: nxt.append((s2, acc + [v]))
        cur = nxt
        if len(cur) > ex.max_paths: raise Unsupported('too many paths')
    return res + cur
def seqmap(ex, st, f, items):
    cur = [(st, [])]; res = []
    for x in items:
        nxt = []
        for s, acc in cur:
            for s2, v in ex.callv(s, f, [x]):
                if isinstance(v, Panic): res.append((s2, v))
                else: nxt.append((s2, acc + [v]))
        cur = nxt
    return res + cur
def has_scan(it):
    if it.k in ('scan', 'filter', 'filter_map', 'take_while', 'skip_while'): return True
    return any(isinstance(x, It) and has_scan(x) for x in it.a)
def is_conc(ex, st, it):
    """concrete length (after adaptors that keep it a list)?"""
    if it.k in ('scan', 'filter', 'filter_map', 'take_while', 'skip_while', 'map', 'enumerate', 'rev', 'cloned', 'inspect'): return is_conc(ex, st, it.a[0])
    if it.k == 'ref': return is_conc(ex, st, as_it(ex, st, ex.read(st, it.a[0].c, it.a[0].p)))
    if it.k in ('zip', 'chain'): 
        n = it_len(ex, st, it) if not has_scan(it) else None
        if n is not None: return n.op == 'num'
        return is_conc(ex, st, it.a[0]) and is_conc(ex, st, it.a[1])
    if it.k in ('skip', 'take') and has_scan(it): return is_conc(ex, st, it.a[0])
    n = it_len(ex, st, it)
    return n is not None and n.op == 'num'

# ------------------------------------------------------------ loop summaries
def leaf_at(v, p):
    for i in p: v = v.f[i]
    return v
def with_leaf(v, p, x):
    if not p: return x
    return Agg(v.k, [with_leaf(y, p[1:], x) if i == p[0] else y for i, y in enumerate(v.f)], v.v, v.t)
def growths(v, w, p=()):
    """where inside a value a vector got longer"""
    if v is w: return []
    if isinstance(v, Agg): return [q for i, (x, y) in enumerate(zip(v.f, w.f)) for q in growths(x, y, p + (i,))] if isinstance(w, Agg) and w.v == v.v and len(w.f) == len(v.f) else []
    if isinstance(v, (Arr, Seq)) and (isinstance(w, PushSeq) or isinstance(w, Arr) and isinstance(v, Arr) and len(w.e) > len(v.e)): return [p]
    return []
def havoc(ex, v, name, h, grow={}):
    """fresh symbols in the shape of v; h: name -> ('s', var)|('a', fname)"""
    cnt = [0]
    def go(v, nm, p=()):
        if p is not None and p in grow: return grow[p]
        if isinstance(v, T):
            s = 'B' if is_bool(v) else ('I' if sort_of(v) == 'I' else 'R')
            x = fresh('hv_' + nm, s); h.append((x, v)); return x
        if isinstance(v, Agg): return Agg(v.k, [go(x, nm + '.%d' % i, None if p is None else p + (i,)) for i, x in enumerate(v.f)], v.v, v.t)
        if isinstance(v, Arr): return Arr([go(x, nm + '[%d]' % i, None) for i, x in enumerate(v.e)])
        if isinstance(v, Seq): return HSeq(v, 'hv_%s!%d' % (nm, next(mir._cnt)), ())
        if v is UNINIT or isinstance(v, (Str, Fn, Ptr, It)): return v
        if isinstance(v, Abs): return v
        raise Unsupported('loop-carried value %r' % (v,))
    return go(v, name)

class HSeq(Seq):
    """havocked sequence: elements are applications of a fresh function symbol"""
    __slots__ = ('init', 'fname', 'idx')
    def __init__(self, init, fname, idx):
        self.init = init; self.fname = fname; self.idx = idx
        def get(i):
            x = init.get(i)
            return self.elem(x, idx + (i,), fname)
        Seq.__init__(self, init.n, get, fname)
    def elem(self, x, idx, fname):
        if isinstance(x, T): return app(fname, 'B' if is_bool(x) else sort_of(x), *idx)
        if isinstance(x, Seq): return HSeq(x, fname, idx)
        if isinstance(x, Arr): return Arr([self.elem(y, idx + (num(j),), fname) for j, y in enumerate(x.e)])
        if isinstance(x, Agg): return Agg(x.k, [self.elem(y, idx, fname + '.%d' % j) for j, y in enumerate(x.f)], x.v, x.t)
        if x is UNINIT: return UNINIT
        raise Unsupported('havoc of %r' % (x,))

class GrowSeq(Seq):
    """a vector to which every iteration of a loop appends: what it holds so far is not known to the loop body"""
    __slots__ = ('init',)
    def __init__(self, init, k):
        self.init = init
        def get(i): raise Unsupported('the loop reads a vector it appends to')
        Seq.__init__(self, add(seqlen(init), k), get, 'grow')
class PushSeq(Seq):
    __slots__ = ('base', 'v')
    def __init__(self, base, v):
        self.base = base; self.v = v; n = base.n; g = base.get
        Seq.__init__(self, add(n, ONE), lambda i: v if i is n else merge(eq(i, n), v, g(i)), '')
INTOPS = {'idiv', 'imod', 'tdiv', 'tmod', 'wrap', 'f2i'}
def sort_of(t):
    if t.op == 'num': return 'I' if t.a[0].denominator == 1 else 'R'
    if t.op == 'f' or t.op == 'const' or t.op == 'i2f': return 'R'
    if t.op == 'var': return t.a[1]
    if t.op == 'app': return t.a[1]
    if is_bool(t): return 'B'
    if t.op in INTOPS: return 'I'
    if t.op in ('+', '-', '*', 'neg', '/', 'pow'):
        ss = [sort_of(x) for x in t.a]
        return 'I' if all(s == 'I' for s in ss) and t.op != '/' else 'R'
    if t.op == 'ite': return sort_of(t.a[1]) if not (t.a[1].op == 'num') else sort_of(t.a[2])
    if t.op in ('sum', 'prod'): return sort_of(t.a[3])
    return 'R'

def vmap(v, f):
    """map f over scalar leaves (lazily over sequences)"""
    if isinstance(v, T): return f(v)
    if isinstance(v, Agg): return Agg(v.k, [vmap(x, f) for x in v.f], v.v, v.t)
    if isinstance(v, Arr): return Arr([vmap(x, f) for x in v.e])
    if isinstance(v, Seq): 
        g = v.get
        return Seq(f(v.n), lambda i: vmap(g(i), f), v.name if v.name not in ('upd',) else '')
    if isinstance(v, Abs): return Abs(f(v.t), v.ty)
    if isinstance(v, It): return It(v.k, *[vmap(x, f) for x in v.a])
    if isinstance(v, tuple): return tuple(vmap(x, f) for x in v)
    if isinstance(v, Ptr):
        return Ptr(v.c, [(x[0], f(x[1])) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], T) else x for x in v.p])
    return v

def split_add(f, h, hs):
    """f == h + g with g free of hs -> g"""
    if f is h: return ZERO
    if not (free_vars(f) & hs) : return None
    if f.op == '+':
        a, b = f.a
        if not (free_vars(b) & hs):
            g = split_add(a, h, hs)
            return None if g is None else (b if g is ZERO else mk('+', g, b))
        if not (free_vars(a) & hs):
            g = split_add(b, h, hs)
            return None if g is None else (a if g is ZERO else mk('+', a, g))
    if f.op == '-':
        a, b = f.a
        if not (free_vars(b) & hs):
            g = split_add(a, h, hs)
            return None if g is None else (neg(b) if g is ZERO else mk('-', g, b))
    if f.op == 'ite':
        if not (free_vars(f.a[0]) & hs):
            g1, g2 = split_add(f.a[1], h, hs), split_add(f.a[2], h, hs)
            if g1 is not None and g2 is not None: return ite(f.a[0], g1, g2)
    return None
def split_mul(f, h, hs):
    if f is h: return ONE
    if f.op == '*':
        a, b = f.a
        if not (free_vars(b) & hs):
            g = split_mul(a, h, hs)
            return None if g is None else (b if g is ONE else mk('*', g, b))
        if not (free_vars(a) & hs):
            g = split_mul(b, h, hs)
            return None if g is None else (a if g is ONE else mk('*', a, g))
    if f.op == '/':
        a, b = f.a
        if not (free_vars(b) & hs):
            g = split_mul(a, h, hs)
            return None if g is None else mk('/', g, b)
    return None

def fun_subst(t, fmap, memo):
    """replace applications app(name, sort, *idx) for name in fmap"""
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'app' and t.a[0] in fmap:
        r = fmap[t.a[0]](*[fun_subst(x, fmap, memo) for x in t.a[2:]])
    elif not any(isinstance(x, T) for x in t.a): r = t
    else: r = rebuild(t.op, tuple(fun_subst(x, fmap, memo) if isinstance(x, T) else x for x in t.a))
    memo[t] = r
    return r

def seq_at(v, idx):
    for i in idx: v = seq_get(v, i)
    return v

def summarise(ex, st, n, body, what):
    """Summarise `for k in 0..n { body }` started in st.
    body(s, k) -> list of (s', 'cont'|'exit', payload).
    Returns (final state after n iterations, [(exit state, payload)])."""
    k = fresh('k', 'I'); mark = int(k.a[0].rsplit('!', 1)[1])
    M = {}
    base_pc = st.pc; grow = {}
    for _round in range(6):
        s = st.fork(); s.assume(le(ZERO, k)); s.assume(lt(k, n))
        hs = []; hv = {}
        for c in M:
            hv[c] = havoc(ex, st.mem[c], c, hs, {p: GrowSeq(leaf_at(st.mem[c], p), k) for p in grow.get(c, ())}); s.mem[c] = hv[c]
        pre = dict(s.mem)
        pc0 = len(s.pc)
        ex.loopk = getattr(ex, 'loopk', []) + [k]
        try: outs = body(s, k)
        finally: ex.loopk = ex.loopk[:-1]
        new = set(); more = False
        for s2, tag, pl in outs:
            for c, v in s2.mem.items():
                if c in pre and v is not pre[c] and not same(v, pre[c]) and c in st.mem:
                    new.add(c)
                    if tag == 'cont':
                        for p in growths(pre[c], v):
                            if p not in grow.get(c, ()): grow[c] = grow.get(c, ()) + (p,); more = True
        if new <= set(M) and not more: break
        for c in new: M[c] = 1
    else: raise Unsupported('loop frame does not stabilise')
    conts = [(s2, pl) for s2, tag, pl in outs if tag == 'cont']
    exits = [(s2, pl) for s2, tag, pl in outs if tag == 'exit']
    if len(conts) == 0: pass
    hset = frozenset(x for x, _ in hs)
    # merge continuing paths
    def extra(s2): return and_(*[c for c in s2.pc if c not in set(s.pc[:pc0])])
    nxt = {}
    for c in M:
        v = None
        for s2, _ in reversed(conts):
            w = s2.mem[c]
            for p in grow.get(c, ()):
                x = leaf_at(w, p)
                if not isinstance(x, PushSeq) or x.base is not leaf_at(hv[c], p): raise Unsupported('a vector that does not grow by one element per iteration')
                w = with_leaf(w, p, x.v)
            v = w if v is None else mergev(extra(s2), w, v)
        nxt[c] = v
    closed = {}          # h var -> function m -> term (value after m iterations)
    fclosed = {}         # havocked sequence name -> function m -> (idx -> term)
    pend = list(hs)
    # step terms for every scalar leaf
    step = {}
    def collect(c, h, w):
        if isinstance(h, GrowSeq): return
        if isinstance(h, T):
            step[h] = w; return
        if isinstance(h, Agg):
            if not isinstance(w, Agg) or w.v != h.v or len(w.f) != len(h.f): raise Unsupported('loop changes the shape of a value')
            for x, y in zip(h.f, w.f): collect(c, x, y)
        elif isinstance(h, Arr):
            if not isinstance(w, Arr) or len(w.e) != len(h.e): raise Unsupported('loop changes the length of a list')
            for x, y in zip(h.e, w.e): collect(c, x, y)
        elif isinstance(h, HSeq): step[h.fname] = (h, w)
        elif h is UNINIT and w is UNINIT: pass
        elif h is w or same(h, w): pass
        else: raise Unsupported('loop-carried %r -> %r' % (h, w))
    if conts:
        for c in M: collect(c, hv[c], nxt[c])
    init = dict(hs)
    todo = [h for h in step]
    hnames = {x for x in step if isinstance(x, str)}
    def open_syms(t):
        o = free_vars(t) & hset
        names = app_names(t) & hnames
        return o, names
    def at(t, m):
        """value of term t (over havoc symbols at iteration m) in closed form"""
        mp = {h: closed[h](m) for h in closed}
        t = subst(t, mp)
        if fclosed:
            t = fun_subst(t, {nm: (lambda g: lambda *idx: g(m)(*idx))(fclosed[nm]) for nm in fclosed}, {})
        return t
    progress = True
    while todo and progress:
        progress = False
        for h in list(todo):
            if isinstance(h, str):
                H, w = step[h]
                try: r = solve_seq(H, w, k, closed, fclosed, hset, hnames, at, open_syms)
                except Unsupported:
                    r = solve_pinned(H, w, k, closed, fclosed, hset, hnames, open_syms)
                    if r is False: r = solve_stores(ex, s, H, w, k, n, closed, fclosed, open_syms)
                    if r is False: raise
                if r is not None:
                    fclosed[h] = r; todo.remove(h); progress = True
                continue
            f = step[h]
            # resolve solved symbols first
            o, nm = open_syms(f)
            if (o - {h} - set(closed)) or (nm - set(fclosed)):
                continue
            kk = k
            f2 = subst(f, {x: closed[x](kk) for x in closed})
            if fclosed: f2 = fun_subst(f2, {x: (lambda g: lambda *idx: g(kk)(*idx))(fclosed[x]) for x in fclosed}, {})
            v0 = init[h]
            isint = sort_of(h) == 'I'
            if f2 is h: closed[h] = (lambda v0: lambda m: v0)(v0); todo.remove(h); progress = True; continue
            if h not in free_vars(f2):
                # last-value: f(k-1) after at least one iteration
                closed[h] = (lambda f2, v0: lambda m: ite(lt(ZERO, m), subst(f2, {k: sub(m, ONE)}), v0))(f2, v0)
                todo.remove(h); progress = True; continue
            g = split_add(f2, h, frozenset([h]))
            if g is not None:
                i = fresh('i', 'I'); gi = subst(g, {k: i})
                if isint: closed[h] = (lambda v0, i, gi: lambda m: add(v0, mul(m, gi) if i not in free_vars(gi) else sum_(i, ZERO, m, gi)))(v0, i, gi)
                else: closed[h] = (lambda v0, i, gi: lambda m: addf(v0, sum_(i, ZERO, m, gi)))(v0, i, gi)
                ex.invariants.append('%s: acc_k = %s + sum_{i<k} %s' % (what, short(v0), short(gi)))
                todo.remove(h); progress = True; continue
            g = split_mul(f2, h, frozenset([h]))
            if g is not None:
                i = fresh('i', 'I'); gi = subst(g, {k: i})
                closed[h] = (lambda v0, i, gi: lambda m: mulf(v0, prod_(i, ZERO, m, gi)))(v0, i, gi)
                ex.invariants.append('%s: acc_k = %s * prod_{i<k} %s' % (what, short(v0), short(gi)))
                todo.remove(h); progress = True; continue
    hints = {}
    for h in list(todo):
        # invariants supplied with the contract: accepted only if inductive
        for cand in getattr(ex, 'loop_invs', None) or ():
            if isinstance(h, str): break
            f = step[h]; o, nm = open_syms(f)
            if (o - {h} - set(closed)) or (nm - set(fclosed)): break
            cf = (lambda cand, v0: lambda m: cand(m, v0))(cand, init[h])
            closed[h] = cf
            go = or_(*[at(extra(s2), k) for s2, _ in conts])
            hyp = [c for c in s.pc] + [go]
            base = not ex.feasible(list(base_pc) + [le(ZERO, n), not_(eq(cf(ZERO), init[h]))])
            ind = base and not ex.feasible(list(s.pc) + [not_(eq(at(f, k), cf(add(k, ONE))))])
            if ind: hints[at(f, k)] = cf(add(k, ONE))     # holds on every path through the body
            else: ind = base and not ex.feasible(hyp + [not_(eq(at(f, k), cf(add(k, ONE))))])
            if ind:
                ex.invariants.append('%s: acc_k = %s (supplied, inductive)' % (what, short(cf(k)))); todo.remove(h); break
            del closed[h]
    # running minimum / maximum: h' is one of h and x_k, and on the right side of both
    facts = []
    for h in list(todo):
        if isinstance(h, str): continue
        f = step[h]; lv = ite_leaves(f)
        xs = [x for x in lv if x is not h]
        if h not in lv or len(xs) != 1 or sort_of(h) not in 'RI': continue
        x = xs[0]; o, nm = open_syms(x)
        if (o - set(closed)) or (nm - set(fclosed)): continue
        for op, word in ((lambda p, q: mk('<=', p, q), 'min'), (lambda p, q: mk('<=', q, p), 'max')):
            if ex.feasible(list(s.pc) + [not_(and_(op(f, h), op(f, x)))]): continue
            ex.ext_no = getattr(ex, 'ext_no', 0) + 1
            nm_ = 'run%s!%d' % (word, ex.ext_no); xk = at(x, k); v0 = init[h]; so = sort_of(h)
            def cf(m, nm_=nm_, so=so): return mk('app', nm_, so, m)
            def fact(m, cf=cf, op=op, xk=xk, v0=v0):
                j1, j2 = fresh('j', 'I'), fresh('j', 'I')
                return and_(op(cf(m), v0), forall(j1, ZERO, m, op(cf(m), subst(xk, {k: j1}))), or_(eq(cf(m), v0), exists(j2, ZERO, m, eq(cf(m), subst(xk, {k: j2})))))
            closed[h] = cf; facts.append(fact); todo.remove(h)
            ex.invariants.append('%s: acc_k = %s(%s, %s for i < k)' % (what, word, short(v0), short(xk)))
            break
    if todo: raise Unsupported('no closed-form invariant for the loop at ' + what)
    def close_value(c, h, m, p=()):
        if isinstance(h, GrowSeq): return grown(c, p, m) if conts else h.init
        if isinstance(h, T): return closed[h](m) if h in closed else h
        if isinstance(h, Agg): return Agg(h.k, [close_value(c, x, m, p + (i,)) for i, x in enumerate(h.f)], h.v, h.t)
        if isinstance(h, Arr): return Arr([close_value(c, x, m) for x in h.e])
        if isinstance(h, HSeq): return closed_seq(h, m)
        return h
    def closed_seq(H, m):
        g = fclosed[H.fname](m)
        return SymFn(H.init, g, ())
    def grown(c, p, m):
        init = leaf_at(st.mem[c], p); n0 = seqlen(init); ne = leaf_at(nxt[c], p)
        el = lambda j: vmap(ne, lambda t: subst(at(t, k), {k: j}))
        return Seq(add(n0, m), el if n0 is ZERO else lambda i: merge(lt(i, n0), seq_get(init, i), el(sub(i, n0))), '')
    def close_all(v, m):
        if not step: return v
        return vmap(v, lambda t: at(t, m))
    # exits
    exit_conds = []
    for s2, pl in exits:
        e = at(extra(s2), k)
        if hints: e = replace_terms(e, hints)
        exit_conds.append(e)
    j = fresh('j', 'I')
    # conditions over values invented inside the body (inner loops, draws) say nothing about other iterations
    known = [e for e in exit_conds if not any(born_after(v, mark) for v in free_vars(e) if v is not k)]
    def no_exit(m):
        if not known: return TRUE
        b = not_(or_(*[subst(e, {k: j}) for e in known]))
        return and_(forall(j, ZERO, m, b), or_(le(m, ZERO), subst(b, {j: sub(m, ONE)})))
    out_exits = []
    for (s2, pl), e in zip(exits, exit_conds):
        s3 = st.fork()
        s3.assume(le(ZERO, k)); s3.assume(lt(k, n)); s3.assume(no_exit(k)); s3.assume(e)
        for fact in facts: s3.assume(fact(k))
        s3.log = s2.log
        for c, v in s2.mem.items():
            ps = grow.get(c, ()) if c in st.mem else ()
            for p in ps:
                x = leaf_at(v, p); v = with_leaf(v, p, UNINIT if x is not leaf_at(hv[c], p) else None)
            v = vmap(v, lambda t: at(t, k)) if (c not in st.mem or c in M) else v
            for p in ps:
                if leaf_at(v, p) is None: v = with_leaf(v, p, grown(c, p, k))
            s3.mem[c] = v
        out_exits.append((s3, vmap(pl, lambda t: at(t, k)) if not isinstance(pl, Panic) else pl))
    fin = None
    if conts or n is ZERO or not outs or True:
        fin = st.fork()
        fin.assume(no_exit(n))
        for fact in facts: fin.assume(fact(n))
        if not conts and exits: fin.assume(le(n, ZERO))
        for c in M: fin.mem[c] = close_value(c, hv[c], n)
        for s2, _ in conts: fin.log = s2.log
    return fin, out_exits

def ite_leaves(t):
    if t.op == 'ite': return ite_leaves(t.a[1]) | ite_leaves(t.a[2])
    return {t}
def addf(a, b):
    return b if (a.op == 'f' and fval(a.a[0]) == 0.0) or a is ZERO else mk('+', a, b)
def mulf(a, b):
    return b if (a.op == 'f' and fval(a.a[0]) == 1.0) or a is ONE else mk('*', a, b)
def short(t):
    s = show(t); return s if len(s) < 160 else s[:157] + '...'
def app_names(t):
    out = set(); seen = set(); stk = [t]
    while stk:
        x = stk.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'app': out.add(x.a[0])
        stk.extend(y for y in x.a if isinstance(y, T))
    return out
def mergev(c, a, b):
    if a is b: return a
    return merge(c, a, b)
def same(a, b):
    if a is b: return True
    if isinstance(a, Agg) and isinstance(b, Agg): return a.v == b.v and a.k == b.k and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Arr) and isinstance(b, Arr): return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.c == b.c and a.p == b.p
    if isinstance(a, It) and isinstance(b, It): return a.k == b.k and len(a.a) == len(b.a) and all(same(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, Abs) and isinstance(b, Abs): return a.t is b.t
    return False

class SymFn(Seq):
    """sequence whose scalar leaves are given by a function of all indices"""
    def __init__(self, init, g, idx):
        def get(i): return self.leaf(init.get(i) if isinstance(init, Seq) else init, g, idx + (i,), '')
        Seq.__init__(self, init.n, get, '')
    def leaf(self, x, g, idx, suf):
        if isinstance(x, T): return g(*idx) if not suf else g.sub(suf)(*idx)
        if isinstance(x, Seq): return SymFn(x, g, idx)
        if isinstance(x, Arr): return Arr([self.leaf(y, g, idx + (num(j),), suf) for j, y in enumerate(x.e)])
        if x is UNINIT: return g(*idx)
        raise Unsupported('sequence leaf %r' % (x,))

def solve_seq(H, w, k, closed, fclosed, hset, hnames, at, open_syms):
    """w: the value of havocked sequence H after one iteration k.  Returns
    m -> (idx -> term) or None if not yet solvable."""
    if w is H: 
        return lambda m: (lambda *idx: seq_at(H.init, idx))
    def analyse(h, w, prefix):
        """-> list of (prefix indices, index term, value)"""
        if w is h: return []
        if isinstance(w, SeqUpd):
            # base must be h
            b = w.base
            if b == h.get or getattr(b, '__self__', None) is h: rest = []
            else: return None
            return [(prefix, w.i, w.v)]
        return None
    ups = []
    cur_h, cur_w, prefix = H, w, ()
    chain = []
    while True:
        if isinstance(cur_w, SeqUpd):
            if cur_w.base is not cur_h.get: return unsolv('several stores per iteration')
            if k in free_vars(cur_w.i):
                if cur_w.i is k: off = ZERO
                else:
                    # index k + c
                    d = subst(cur_w.i, {k: ZERO})
                    if add(k, d) is not cur_w.i and add(d, k) is not cur_w.i: return unsolv('store at a non-linear index')
                    if free_vars(d) & hset: return unsolv('index depends on loop state')
                    off = d
                val = cur_w.v
                # value may mention H only at the index being written
                def leafterm(v, idx):
                    return seq_at(v, idx) if idx else v
                def closedform(m, off=off, val=val, prefix=prefix, cur_h=cur_h):
                    def g(*idx):
                        p = idx[:len(prefix)]; i = idx[len(prefix)]; rest = idx[len(prefix) + 1:]
                        old = seq_at(H.init, idx)
                        v = leafterm(val, rest)
                        if v is UNINIT: return old
                        kk = sub(i, off)
                        if isinstance(v, (Agg, Arr)): return elem_map(v, lambda x: elem(x, kk, ZERO, ZERO, (), ()))
                        return elem(v, kk, old, i, idx, p)
                    def elem(v, kk, old, i, idx, p):
                        v = subst(v, {k: kk})
                        # solved symbols at iteration kk; H itself untouched at (prefix, i) so far
                        mp = {h: closed[h](kk) for h in closed}
                        v = subst(v, mp)
                        fm = {nm: (lambda gg: lambda *ix: gg(kk)(*ix))(fclosed[nm]) for nm in fclosed if nm != H.fname}
                        fm[H.fname] = lambda *ix: seq_at(H.init, ix)
                        v = fun_subst(v, fm, {})
                        if not idx: return v
                        cond = and_(*[eq(a, b) for a, b in zip(prefix, p)], le(off, i), lt(i, add(off, m)))
                        if old is UNINIT: return v
                        return ite(cond, v, old)
                    return g
                # check the value's dependencies are solved
                t = val
                probe = probe_leaf(val)
                if probe is not None:
                    o, nm = open_syms(probe)
                    if (o - set(closed)) or (nm - set(fclosed) - {H.fname}): return None
                    if H.fname in nm:
                        for a in app_terms(probe, H.fname):
                            if a.a[2 + len(prefix)] is not cur_w.i: return unsolv('reads another element of the sequence it writes')
                return closedform
            # fixed index: descend
            if free_vars(cur_w.i) & hset: return unsolv('index depends on loop state')
            inner_h = cur_h.get(cur_w.i)
            if not isinstance(inner_h, HSeq): 
                return unsolv('accumulation into an array element')
            prefix = prefix + (cur_w.i,)
            cur_h, cur_w = inner_h, cur_w.v
            # HSeq instances are re-created: compare by name and indices
            if isinstance(cur_w, SeqUpd) and isinstance(getattr(cur_w, 'base', None), type(lambda: 0)):
                o = owner(cur_w.base)
                if o is not None and o.fname == inner_h.fname and o.idx == inner_h.idx: cur_h = o
            continue
        return unsolv('array changed in an unrecognised way')
DBG = False
def solve_pinned(H, w, k, closed, fclosed, hset, hnames, open_syms):
    """iteration k changes only entries whose index d is k + off and reads the
    sequence only there: entry idx after m iterations is its value after
    iteration idx[d] - off"""
    d0 = 0; x = H.init; idx = []
    while isinstance(x, (Seq, Arr)):
        idx.append(fresh('p', 'I')); x = seq_get(x, idx[-1]) if isinstance(x, Seq) else x.e[0]
    if not isinstance(x, T) and x is not UNINIT: return False
    t = seq_at(w, idx)
    if not isinstance(t, T): return False
    if DBG: print('PIN', show(t)[:600], [show(x) for x in idx])
    leaf = app(H.fname, sort_of(seq_at(H.init, idx)) if isinstance(seq_at(H.init, idx), T) else 'R', *idx)
    conds = []; vals = []
    def paths(t, conj):
        if t.op == 'ite' and leaf_reachable2(t, H.fname):
            return paths(t.a[1], conj + conjuncts(t.a[0])) + paths(t.a[2], conj + [not_(t.a[0])])
        return [(conj, t)]
    for conj, v in paths(t, []):
        m_ = {}
        for e in conj:
            if e.op == '=':
                x, y = e.a
                if y in idx: m_[y] = x
                elif x in idx: m_[x] = y
        if v.op == 'app' and v.a[0] == H.fname and subst(v, m_) is subst(leaf, m_): continue
        conds.append(and_(*conj)); vals.append(v)
    t = leaf
    for c, v in reversed(list(zip(conds, vals))): t = ite(c, v, t)
    for d in range(len(idx)):
        off = None
        for c in conds:
            cs = c.a if c.op == 'and' else (c,)
            o = None
            for e in cs:
                if e.op != '=' or len(e.a) != 2: continue
                a, b = e.a
                if b is idx[d]: a, b = b, a
                if a is not idx[d]: continue
                if b is k: o = ZERO
                else:
                    z = subst(b, {k: ZERO})
                    if k in free_vars(b) and (add(k, z) is b or add(z, k) is b): o = z
            if o is None or (off is not None and o is not off): off = None; break
            off = o
        if off is None: continue
        bad = False
        for a in app_terms(t, H.fname):
            i = a.a[2 + d]
            if i is not idx[d] and i is not k and i is not add(k, off) and i is not add(off, k): bad = True
        if bad: continue
        o, nm = open_syms(t)
        if (o - set(closed)) or (nm - set(fclosed) - {H.fname}): return None
        def closedform(m, d=d, off=off):
            def g(*ix):
                kk = sub(ix[d], off)
                v = subst(t, dict(zip(idx, ix)))
                v = subst(v, {k: kk})
                v = subst(v, {h: closed[h](kk) for h in closed})
                fm = {n_: (lambda gg: lambda *q: gg(kk)(*q))(fclosed[n_]) for n_ in fclosed if n_ != H.fname}
                fm[H.fname] = lambda *q: seq_at(H.init, q)
                v = fun_subst(v, fm, {})
                return ite(and_(le(off, ix[d]), lt(ix[d], add(off, m))), v, seq_at(H.init, ix))
            return g
        return closedform
    return False
def solve_stores(ex, st, H, w, k, n, closed, fclosed, open_syms):
    """several stores per iteration whose values do not depend on the sequence:
    each store pins one index to k + off, so an entry is what the last
    iteration to touch it wrote there"""
    x = H.init; idx = []
    while isinstance(x, (Seq, Arr)):
        idx.append(fresh('p', 'I')); x = seq_get(x, idx[-1]) if isinstance(x, Seq) else x.e[0]
    if not isinstance(x, T) and x is not UNINIT: return False
    t = seq_at(w, idx)
    if not isinstance(t, T): return False
    leaf = app(H.fname, sort_of(seq_at(H.init, idx)) if isinstance(seq_at(H.init, idx), T) else 'R', *idx)
    ws = []
    def paths(t, conj):
        if t.op == 'ite' and H.fname in app_names(t): return paths(t.a[1], conj + conjuncts(t.a[0])) + paths(t.a[2], conj + [not_(t.a[0])])
        return [(conj, t)]
    for conj, v in paths(t, []):
        if v is leaf or not ex.feasible(list(conj)): continue
        m_ = {}
        for e in conj:
            if e.op == '=':
                a, b = e.a
                if b in idx: m_[b] = a
                elif a in idx: m_[a] = b
        if v.op == 'app' and v.a[0] == H.fname:
            if subst(v, m_) is subst(leaf, m_): continue
            if not ex.feasible(list(conj) + [or_(*[not_(eq(x, y)) for x, y in zip(v.a[2:], idx)])]): continue
            return False
        if H.fname in app_names(v) or any(H.fname in app_names(c) for c in conj): return False
        pin = None
        for e in conj:
            if e.op != '=' or pin: continue
            a, b = e.a
            for a, b in ((a, b), (b, a)):
                if a in idx and k in free_vars(b):
                    z = subst(b, {k: ZERO})
                    if b is k or add(k, z) is b or add(z, k) is b: pin = (idx.index(a), ZERO if b is k else z)
        if pin is None: return False
        c = and_(*conj); o, nm = open_syms(v); o2, nm2 = open_syms(c)
        if ((o | o2) - set(closed)) or ((nm | nm2) - set(fclosed)): return None
        ws.append((c, v) + pin)
    if len(ws) > 4: return False
    def at(t, kk):
        t = subst(t, {k: kk}); t = subst(t, {h: closed[h](kk) for h in closed})
        return fun_subst(t, {n_: (lambda gg: lambda *q: gg(kk)(*q))(fclosed[n_]) for n_ in fclosed if n_ != H.fname}, {})
    K = [sub(idx[d], off) for c, v, d, off in ws]
    C = [and_(at(c, K[i]), le(off, idx[d])) for i, (c, v, d, off) in enumerate(ws)]
    V = [at(v, K[i]) for i, (c, v, d, off) in enumerate(ws)]
    pc = [c for c in st.pc if k not in free_vars(c)]
    rng = [le(ZERO, i) for i in idx]
    # an earlier store that a later one can overwrite is guarded by "the other one did not come later"
    later = {(i, j) for i in range(len(ws)) for j in range(len(ws)) if i != j and ex.feasible(pc + rng + [C[i], C[j], lt(K[i], K[j])]) and ex.feasible(pc + rng + [C[i], C[j], lt(K[i], K[j]), not_(eq(V[i], V[j]))])}
    def closedform(m):
        def g(*ix):
            mp = dict(zip(idx, ix)); r = seq_at(H.init, ix)
            act = [subst(and_(C[i], lt(K[i], m)), mp) for i in range(len(ws))]
            for i in reversed(range(len(ws))):
                r = ite(and_(act[i], *[or_(not_(act[j]), le(subst(K[j], mp), subst(K[i], mp))) for j in range(len(ws)) if (i, j) in later]), subst(V[i], mp), r)
            return r
        return g
    ex.invariants.append('%s: stores %s' % (H.fname, '; '.join('%s when %s' % (short(v), short(c)) for c, v in zip(V, C))))
    return closedform
def conjuncts(c): return list(c.a) if c.op == 'and' else [c]
def leaf_reachable2(t, name):
    if t.op == 'ite': return leaf_reachable2(t.a[1], name) or leaf_reachable2(t.a[2], name)
    return t.op == 'app' and t.a[0] == name
def contains_name(t, n): return n in app_names(t)
def leaf_reachable(t, leaf):
    while t.op == 'ite':
        if t is leaf: return True
        if leaf_reachable(t.a[1], leaf): return True
        t = t.a[2]
    return t is leaf
def owner(fn_):
    try:
        for c in fn_.__closure__ or ():
            if isinstance(c.cell_contents, HSeq): return c.cell_contents
    except ValueError: pass
    return None
def unsolv(msg): raise Unsupported('loop over array: ' + msg)
def elem_map(v, f):
    if isinstance(v, T): return f(v)
    if isinstance(v, Agg): return Agg(v.k, [elem_map(x, f) for x in v.f], v.v, v.t)
    if isinstance(v, Arr): return Arr([elem_map(x, f) for x in v.e])
    raise Unsupported('sequence element %r' % (v,))
def probe_leaf(v):
    if isinstance(v, T): return v
    if isinstance(v, Seq): return probe_leaf(v.get(var('probe', 'I')))
    if isinstance(v, (Arr,)): 
        ls = [probe_leaf(x) for x in v.e]; ls = [x for x in ls if x is not None]
        return mk('tup', *ls) if ls else None
    if isinstance(v, Agg):
        ls = [probe_leaf(x) for x in v.f]; ls = [x for x in ls if x is not None]
        return mk('tup', *ls) if ls else None
    return None
def app_terms(t, name):
    out = []; seen = set(); stk = [t]
    while stk:
        x = stk.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'app' and x.a[0] == name: out.append(x)
        stk.extend(y for y in x.a if isinstance(y, T))
    return out

def loop_cut(ex, f, fr, st, bb, cuts, t, args):
    """called at every call terminator: cut a `for` loop over a symbolic iterator"""
    if normpath(t[1].get('path', '')) != 'std::iter::Iterator::next': return None
    if bb in cuts: return [('go', st, ('back', bb), cuts)]
    if not isinstance(args[0], Ptr): return None
    v = ex.read(st, args[0].c, args[0].p)
    try: it = as_it(ex, st, v)
    except Unsupported: return None
    if is_conc(ex, st, it): return None
    if it.k == 'list': return None
    n = it_len(ex, st, it)
    if n is None: raise Unsupported('endless iterator')
    dest, target = t[3], t[4]
    what = '%s:%s' % (f['file'].replace('/repo/', ''), t[7])
    c2 = dict(cuts); c2[bb] = 1
    def body(s, k):
        outs = []
        for s1, item in it_item(ex, s, it, k):
            if isinstance(item, Panic): outs.append((s1, 'exit', item)); continue
            c, path = ex.place(s1, fr, dest); ex.write(s1, c, path, some(item))
            work = [(s1, target, c2)]
            steps = 0
            while work:
                s2, b2, cc = work.pop()
                steps += 1
                if steps > 3000: raise Unsupported('loop body too long')
                for o in ex.block(f, fr, s2, b2, cc):
                    if o[0] == 'ret': outs.append((o[1], 'exit', o[2]))
                    elif isinstance(o[2], tuple) and o[2][0] == 'back':
                        if o[2][1] != bb: raise Unsupported('irregular loop')
                        # temporaries of the frame are re-assigned before use in the next iteration
                        outs.append((drop_temps(o[1], s), 'cont', None))
                    else: work.append(o[1:])
        return outs
    live0 = set(st.mem)
    def drop_temps(s2, s): return s2
    # locals that are (re)defined inside the loop before any read are not loop state
    temps = loop_temps(f, fr, bb, target, st)
    for c in temps: st.mem.pop(c, None)
    fin, exits = summarise(ex, st, n, body, what)
    out = []
    for s2, pl in exits: out.append(('ret', s2, pl))
    if ex.ok(fin):
        c, path = ex.place(fin, fr, dest); ex.write(fin, c, path, NONE)
        ex.write(fin, args[0].c, args[0].p, It('list', (), 0))
        out.append(('go', fin, target, cuts))
    return out

def successors(b):
    t = b['t']; k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[3]] + [t[4]]
    if k in ('call', 'assert'): return [t[4]] if t[4] is not None else []
    if k == 'drop': return [t[2]]
    return []
_WI = {}
def while_info(f):
    """the loops of a function of the form `while i < n { ... }`: header -> (chain of blocks to the test, test, blocks of the loop, entry, exit)"""
    key = id(f)
    if key in _WI and _WI[key][0] is f: return _WI[key][1]
    B = f['blocks']; succ = {i: [x for x in successors(b) if x is not None and B[x]] for i, b in enumerate(B) if b}
    state = {}; back = {}
    stk = [(0, iter(succ.get(0, [])))]; state[0] = 1
    while stk:
        x, it = stk[-1]
        for y in it:
            if state.get(y) == 1: back.setdefault(y, set()).add(x)
            elif y not in state: state[y] = 1; stk.append((y, iter(succ[y]))); break
        else: state[x] = 2; stk.pop()
    pred = {}
    for i, ss in succ.items():
        for x in ss: pred.setdefault(x, set()).add(i)
    res = {}
    for H, us in back.items():
        L = {H}; w = list(us)
        while w:
            x = w.pop()
            if x in L: continue
            L.add(x); w += pred.get(x, ())
        chain = [H]; ok_ = True
        while True:
            t = B[chain[-1]]['t']
            if t[0] == 'switch': break
            if t[0] == 'call' and 'Iterator::next' in normpath(t[1].get('path', '')): ok_ = False; break
            ss = succ[chain[-1]]
            if t[0] not in ('goto', 'call', 'assert', 'drop') or len(ss) != 1 or ss[0] not in L or ss[0] in chain: ok_ = False; break
            chain.append(ss[0])
        if not ok_: continue
        t = B[chain[-1]]['t']; ss = set(succ[chain[-1]])
        ins = [x for x in ss if x in L]; outs = [x for x in ss if x not in L]
        if len(ins) != 1 or len(outs) != 1: continue
        defs = {}
        for c in chain:
            for s in B[c]['s']:
                if s[0] == '=' and not s[1][1]: defs[s[1][0]] = s[2]
        d = t[1]
        r = defs.get(d[1][0]) if d[0] in ('copy', 'move') and not d[1][1] else None
        if not r or r[0] != 'bin': continue
        def base(o):
            while o[0] in ('copy', 'move') and not o[1][1] and o[1][0] in defs and defs[o[1][0]][0] == 'use': o = defs[o[1][0]][1]
            return o
        asg = set()
        for x in L - set(chain):
            for s in B[x]['s']:
                if s[0] == '=' and not s[1][1]: asg.add(s[1][0])
        a, b = base(r[2]), base(r[3])
        ind = lambda o: o[0] in ('copy', 'move') and not o[1][1] and o[1][0] in asg and o[1][0] not in defs
        tm = dict((int(v), b2) for v, b2 in t[3])
        truthy = tm.get(1, t[4]) if 1 in tm or 0 in tm else None
        if truthy is None: continue
        res[H] = (chain, r[1], a, b, ind(a), ind(b), L, ins[0], outs[0], truthy == ins[0])
    _WI[key] = (f, res); return res
NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le', 'Eq': 'Ne', 'Ne': 'Eq'}
SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}
def while_cut(ex, f, fr, st, H, cuts):
    """cut a `while i < n { ...; i += 1 }` loop whose number of iterations is symbolic"""
    mk_ = ('w', H)
    c = cuts.get(mk_)
    if c == 1: return [('go', st, ('back', mk_), cuts)]
    if c == 2: cuts[mk_] = 1; return None
    info = while_info(f).get(H)
    if info is None: return None
    chain, op, a, b, ia, ib, L, entry, exit_, pos = info
    if ia == ib or op not in NEG: return None
    if not pos: op = NEG[op]
    if ib: a, b = b, a; op = SWAP[op]
    il = a[1][0]; cell = fr[il]; i0 = st.mem.get(cell)
    if not isinstance(i0, T) or sort_of(i0) != 'I' or op not in ('Lt', 'Le', 'Gt', 'Ge', 'Ne'): return None
    def head(s, marks):
        """run the header up to the test"""
        for x in chain:
            if x is chain[-1]: return s
            r = ex.block(f, fr, s, x, dict(marks))
            if len(r) != 1 or r[0][0] != 'go': return None
            s = r[0][1]
        return s
    s0 = head(st.fork(), {mk_: 2})
    if s0 is None: return None
    last = f['blocks'][chain[-1]]
    for s in last['s']:
        if s[0] == '=':
            cc, path = ex.place(s0, fr, s[1]); ex.write(s0, cc, path, ex.rvalue(s0, fr, s[2]))
    if ex.operand(s0, fr, last['t'][1]).op in ('true', 'false'): return None
    bound = ex.operand(s0, fr, b)
    if not isinstance(bound, T) or (i0.op == 'num' and bound.op == 'num'): return None
    dirn = 1 if op in ('Lt', 'Le', 'Ne') else -1
    n = {'Lt': lambda: sub(bound, i0), 'Ne': lambda: sub(bound, i0), 'Le': lambda: add(sub(bound, i0), ONE), 'Gt': lambda: sub(i0, bound), 'Ge': lambda: add(sub(i0, bound), ONE)}[op]()
    if op == 'Ne':
        if ex.feasible(list(s0.pc) + [lt(n, ZERO)]): return None
    elif ex.feasible(list(s0.pc) + [lt(n, ZERO)]): n = ite(lt(ZERO, n), n, ZERO)
    val = lambda k: add(i0, k) if dirn > 0 else sub(i0, k)
    what = '%s:%s' % (f['file'].replace('/repo/', ''), f['line'])
    c2 = dict(cuts)
    st1 = st.fork(); keep = st1.mem[cell]
    def body(s, k):
        s.mem[cell] = val(k); outs = []; work = [(s, H, {**c2, mk_: 2})]; steps = 0
        while work:
            s2, b2, cc = work.pop(); steps += 1
            if steps > 3000: raise Unsupported('loop body too long')
            for o in ex.block(f, fr, s2, b2, cc):
                if o[0] == 'ret': outs.append((o[1], 'exit', o[2]))
                elif isinstance(o[2], tuple) and o[2][0] == 'back':
                    if o[2][1] != mk_: raise Unsupported('irregular loop')
                    v = o[1].mem[cell]; w = val(add(k, ONE))
                    if v is not w and ex.feasible(list(o[1].pc) + [not_(eq(v, w))]): raise Unsupported('irregular counter')
                    o[1].mem[cell] = keep; outs.append((o[1], 'cont', None))
                else: work.append((o[1], o[2], o[3]))
        return outs
    try:
        for x in loop_temps(f, fr, H, entry, st1):
            if x != cell: st1.mem.pop(x, None)
        fin, exits = summarise(ex, st1, n, body, what)
    except Unsupported: return None
    out = [('ret', s2, pl) for s2, pl in exits]
    if ex.ok(fin):
        fin.mem[cell] = val(n)
        s2 = head(fin, {mk_: 2})
        if s2 is None: return None
        for o in ex.block(f, fr, s2, chain[-1], {**c2, mk_: 2}):
            if o[0] == 'go' and o[2] == exit_: out.append(('go', o[1], exit_, cuts))
            elif o[0] == 'ret': out.append(o)
            else: raise Unsupported('the loop does not end when its counter says so')
    return out

def loop_temps(f, fr, head, start, st):
    """locals assigned as a whole in the loop body: block-local temporaries.
    A local is a temporary if every path from the loop entry assigns it before reading it."""
    # blocks in the loop
    body = set(); stk = [start]
    succ = {}
    for i, b in enumerate(f['blocks']):
        if not b: continue
        t = b['t']; k = t[0]
        if k == 'goto': succ[i] = [t[1]]
        elif k == 'switch': succ[i] = [x[1] for x in t[3]] + [t[4]]
        elif k == 'call': succ[i] = [t[4]] if t[4] is not None else []
        elif k == 'assert': succ[i] = [t[4]]
        elif k == 'drop': succ[i] = [t[2]]
        else: succ[i] = []
    reach = set(); stk = [start]
    while stk:
        x = stk.pop()
        if x in reach or x is None: continue
        reach.add(x)
        if x != head: stk += succ.get(x, [])
    # liveness at loop start restricted to the loop (incl. head): local live-in => not temp
    nloc = len(f['locals'])
    def uses_defs(b):
        use = set(); de = set()
        def useplace(p):
            if p[0] not in de: use.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in de: use.add(e[1])
        def useop(o):
            if o[0] in ('copy', 'move'): useplace(o[1])
        def userv(r):
            k = r[0]
            if k == 'use': useop(r[1])
            elif k in ('ref', 'reborrow'): useplace(r[2])
            elif k == 'rawptr': useplace(r[1])
            elif k == 'bin': useop(r[2]); useop(r[3])
            elif k == 'un': useop(r[2])
            elif k == 'cast': useop(r[2])
            elif k == 'agg': [useop(o) for o in r[3]]
            elif k == 'repeat': useop(r[1])
            elif k == 'discr': useplace(r[1])
        for s in b['s']:
            if s[0] == '=':
                userv(s[2])
                if s[1][1]: useplace(s[1])
                else: de.add(s[1][0])
            elif s[0] == 'setd': useplace(s[1])
        t = b['t']
        if t[0] == 'switch': useop(t[1])
        elif t[0] == 'assert': useop(t[1])
        elif t[0] == 'call':
            for o in t[2]: useop(o)
            if t[3][1]: useplace(t[3])
            else: de.add(t[3][0])
        elif t[0] == 'return': use.add(0)
        return use, de
    ud = {i: uses_defs(f['blocks'][i]) for i in range(len(f['blocks'])) if f['blocks'][i]}
    live = {i: set() for i in ud}
    ch = True
    while ch:
        ch = False
        for i in ud:
            out = set()
            for x in succ.get(i, []):
                if x in live: out |= live[x]
            n = ud[i][0] | (out - ud[i][1])
            if n != live[i]: live[i] = n; ch = True
    # live at head's successor `start` or on the loop head
    lv = live.get(start, set()) | live.get(head, set())
    # destination of next is defined at head
    t = f['blocks'][head]['t']
    assigned = set()
    for i in reach | {head}:
        if i in ud: assigned |= ud[i][1]
    return [fr[l] for l in assigned if l not in lv and l in fr]

# ------------------------------------------------------------ consumers
def born_after(v, mark):
    m = re.search(r'!(\d+)$', v.a[0])
    return bool(m) and int(m.group(1)) > mark
def replace_terms(t, mp):
    memo = {}
    def go(t):
        if t in mp: return mp[t]
        if t.op in ('num', 'f', 'var', 'const', 'true', 'false'): return t
        r = memo.get(t)
        if r is None: r = memo[t] = rebuild(t.op, tuple(go(x) if isinstance(x, T) else x for x in t.a))
        return r
    return go(t)
def consume(ex, st, it, kind, fargs, loc):
    """fold / sum / product / all / any / position / for_each / collect / ..."""
    if is_conc(ex, st, it):
        res = []
        for s, items in it_list(ex, st, it):
            if isinstance(items, Panic): res.append((s, items)); continue
            res += consume_list(ex, s, items, kind, fargs)
        return res
    it = deref_it(ex, st, it)
    flt = has_filter(it) and kind != 'collect'
    if flt:
        n = filt_len(ex, st, it)
        if kind == 'count': kind = 'fold'; fargs = (ZERO, None)
    else: n = it_len(ex, st, strip_scan(it))
    items = (lambda s, k: filt_items(ex, s, it, k)) if flt else (lambda s, k: it_item2(ex, s, it, k))
    if n is None: raise Unsupported('consumption of an endless iterator')
    if kind == 'fold':
        acc, f = fargs
        app_ = (lambda s, a, x: [(s, add(a, ONE))]) if f is None else (lambda s, a, x: ex.callv(s, f, [a, x]))
        cell = st.new(acc, 'acc')
        def body(s, k):
            outs = []
            for s1, item in items(s, k):
                if isinstance(item, Panic): outs.append((s1, 'exit', item)); continue
                if item is FILTERED: outs.append((s1, 'cont', None)); continue
                for s2, v in app_(s1, s1.mem[cell], item):
                    if isinstance(v, Panic): outs.append((s2, 'exit', v))
                    elif isinstance(acc, Agg) and acc.k == 'adt' and isinstance(v, Agg) and v.v != acc.v and absorbing(s2, v): outs.append((s2, 'exit', v))
                    else: s2.mem[cell] = v; outs.append((s2, 'cont', None))
            return outs
        def absorbing(s, v):
            """every further step from v gives v again and touches nothing: the remaining iterations can be skipped"""
            s = s.fork(); k2 = fresh('k', 'I'); s.assume(le(ZERO, k2)); s.assume(lt(k2, n)); old = dict(s.mem)
            for s1, item in items(s, k2):
                if isinstance(item, Panic): return False
                for s2, w in [(s1, v)] if item is FILTERED else app_(s1, v, item):
                    if isinstance(w, Panic) or not same(v, w): return False
                    if any(c in st.mem and s2.mem[c] is not x and not same(s2.mem[c], x) for c, x in old.items()): return False
            ex.invariants.append('%s: variant %d of the accumulator is absorbing' % (loc, v.v))
            return True
        fin, exits = summarise(ex, st, n, body, loc)
        return exits + ([(fin, fin.mem[cell])] if ex.ok(fin) else [])
    if kind in ('sum', 'product'):
        zero, opf = fargs
        cell = st.new(zero, 'acc')
        def body(s, k):
            outs = []
            for s1, item in items(s, k):
                if isinstance(item, Panic): outs.append((s1, 'exit', item)); continue
                if item is FILTERED: outs.append((s1, 'cont', None)); continue
                r = opf(s1, s1.mem[cell], peel(ex, s1, item))
                for s2, v in r:
                    if isinstance(v, Panic): outs.append((s2, 'exit', v))
                    else: s2.mem[cell] = v; outs.append((s2, 'cont', None))
            return outs
        fin, exits = summarise(ex, st, n, body, loc)
        return exits + ([(fin, fin.mem[cell])] if ex.ok(fin) else [])
    if kind in ('all', 'any', 'position'):
        # pure predicate of the item
        k = fresh('k', 'I')
        s = st.fork(); s.assume(le(ZERO, k)); s.assume(lt(k, n))
        base = set(s.pc); conds = []; pan = []
        if flt and kind == 'position': raise Unsupported('position in a filtered sequence')
        before = dict(s.mem)
        for s1, item in items(s, k) if flt else it_item2(ex, s, it, k, n):
            if isinstance(item, Panic): pan.append((s1, item)); continue
            for s2, v in [(s1, lift(kind == 'all'))] if item is FILTERED else ex.callv(s1, fargs[0], [item]):
                e = and_(*[c for c in s2.pc if c not in base])
                if isinstance(v, Panic): pan.append((s2, v)); continue
                if touched(s2, before): raise Unsupported('predicate with effects')
                conds.append((e, v))
        if pan: raise Unsupported('predicate may panic')
        P = or_(*[and_(e, v) for e, v in conds]) if not (len(conds) == 1 and conds[0][0] is TRUE) else conds[0][1]
        j = fresh('j', 'I'); Pj = subst(P, {k: j})
        ex.invariants.append('%s: %s over 0 <= j < %s of %s' % (loc, kind, short(n), short(Pj)))
        if kind == 'all': return [(st, forall(j, ZERO, n, Pj))]
        if kind == 'any': return [(st, exists(j, ZERO, n, Pj))]
        s1 = st.fork(); i = fresh('pos', 'I')
        s1.assume(le(ZERO, i)); s1.assume(lt(i, n)); s1.assume(subst(P, {k: i})); s1.assume(forall(j, ZERO, i, not_(Pj)))
        s2 = st.fork(); s2.assume(forall(j, ZERO, n, not_(Pj)))
        return [x for x in ((s1, some(i)), (s2, NONE)) if ex.ok(x[0])]
    if kind == 'collect':
        # pointwise definition where the items are pure; a loop that pushes them where they have effects or may panic
        if effects(ex, st, it, n):
            cell = st.new(Arr([]), 'vec')
            def body(s, k):
                outs = []
                for s1, item in items(s, k):
                    if isinstance(item, Panic): outs.append((s1, 'exit', item)); continue
                    v = s1.mem[cell]; s1.mem[cell] = Arr(v.e + [item]) if isinstance(v, Arr) else PushSeq(v, item); outs.append((s1, 'cont', None))
                return outs
            fin, exits = summarise(ex, st, n, body, loc)
            return exits + ([(fin, fin.mem[cell])] if ex.ok(fin) else [])
        def get(i):
            s = st.fork(); s.assume(le(ZERO, i)); s.assume(lt(i, n))
            rs = it_item2(ex, s, it, i, n)
            base = set(s.pc)
            v = None
            for s1, x in reversed(rs):
                if isinstance(x, Panic): raise Unsupported('collected item may panic')
                x = vmap(x, lambda t: t)
                v = x if v is None else merge(and_(*[c for c in s1.pc if c not in base]), x, v)
            for c, val in s1.mem.items():
                if c not in st.mem: st.mem[c] = val
            return v
        return [(st, Seq(n, get, ''))]
    if kind == 'for_each':
        def body(s, k):
            outs = []
            for s1, item in items(s, k):
                if isinstance(item, Panic): outs.append((s1, 'exit', item)); continue
                if item is FILTERED: outs.append((s1, 'cont', None)); continue
                for s2, v in ex.callv(s1, fargs[0], [item]):
                    outs.append((s2, 'exit', v) if isinstance(v, Panic) else (s2, 'cont', None))
            return outs
        fin, exits = summarise(ex, st, n, body, loc)
        return exits + ([(fin, UNIT)] if ex.ok(fin) else [])
    if kind == 'try_fold':
        acc, f, good, has, wrap = fargs
        cell = st.new(acc, 'acc')
        def body(s, k):
            outs = []
            for s1, item in items(s, k):
                if isinstance(item, Panic): outs.append((s1, 'exit', item)); continue
                if item is FILTERED: outs.append((s1, 'cont', None)); continue
                for s2, v in ex.callv(s1, f, [s1.mem[cell], item] if has else [item]):
                    if isinstance(v, Panic) or v.v != good: outs.append((s2, 'exit', v)); continue
                    if has: s2.mem[cell] = v.f[0]
                    outs.append((s2, 'cont', None))
            return outs
        fin, exits = summarise(ex, st, n, body, loc)
        return exits + ([(fin, wrap(fin.mem[cell]))] if ex.ok(fin) else [])
    if kind == 'count': return [(st, n)]
    raise Unsupported('symbolic ' + kind)

def touched(s, before): return any(c in s.mem and s.mem[c] is not x and not same(s.mem[c], x) for c, x in before.items())
def effects(ex, st, it, n):
    """does producing an item change anything, or perhaps panic?"""
    k = fresh('k', 'I'); s = st.fork(); s.assume(le(ZERO, k)); s.assume(lt(k, n)); before = dict(s.mem)
    return any(isinstance(x, Panic) or touched(s1, before) for s1, x in it_item2(ex, s, it, k, n))
FILTERED = type('Filtered', (), {'__repr__': lambda s: 'FILTERED'})()
def has_filter(it): return isinstance(it, It) and (it.k in ('filter', 'filter_map') or it.k in ('map', 'cloned', 'inspect') and has_filter(it.a[0]))
def filt_len(ex, st, it): return filt_len(ex, st, it.a[0]) if has_filter(it) else it_len(ex, st, strip_scan(it))
def filt_items(ex, st, it, k):
    """the item that position k of the underlying sequence gives rise to: a value, or FILTERED"""
    if not has_filter(it): return it_item2(ex, st, it, k)
    out = []
    for s, v in filt_items(ex, st, it.a[0], k):
        if v is FILTERED or isinstance(v, Panic): out.append((s, v)); continue
        if it.k == 'cloned': out.append((s, deref1(ex, s, v))); continue
        if it.k == 'map': out += ex.callv(s, it.a[1], [v]); continue
        if it.k == 'filter_map':
            for s2, w in ex.callv(s, it.a[1], [v]):
                if isinstance(w, Panic): out.append((s2, w))
                elif isinstance(w, Agg) and w.t == OPT: out.append((s2, w.f[0] if w.v == 1 else FILTERED))
                else: raise Unsupported('filter_map closure result')
            continue
        if it.k != 'filter': raise Unsupported('filtered ' + it.k)
        for s2, w in ex.callv(s, it.a[1], [Ptr(s.new(v, 't'))]):
            if isinstance(w, Panic): out.append((s2, w)); continue
            for c, x in ((w, v), (not_(w), FILTERED)):
                if c is FALSE: continue
                s3 = s2.fork().assume(c)
                if c is TRUE or ex.ok(s3): out.append((s3, x))
    return out

def deref_it(ex, st, it):
    if it.k == 'ref': return deref_it(ex, st, as_it(ex, st, ex.read(st, it.a[0].c, it.a[0].p)))
    return It(it.k, *[deref_it(ex, st, x) if isinstance(x, It) else x for x in it.a])
def strip_scan(it):
    if it.k == 'scan': return strip_scan(it.a[0])
    return It(it.k, *[strip_scan(x) if isinstance(x, It) else x for x in it.a])

def it_item2(ex, s, it, k, n=None):
    """item k of an iterator that may contain one additive scan"""
    if it.k == 'ref': return it_item2(ex, s, as_it(ex, s, ex.read(s, it.a[0].c, it.a[0].p)), k, n)
    if it.k == 'scan':
        cell = it.a[1]; s0 = s.mem[cell]
        if not isinstance(s0, T): raise Unsupported('scan state')
        h = fresh('hs', 'R' if sort_of(s0) == 'R' else 'I')
        kk = fresh('k', 'I')
        s1 = s.fork(); s1.mem[cell] = h
        out = []
        for s2, item in it_item(ex, s1, it.a[0], kk):
            if isinstance(item, Panic): raise Unsupported('scan panic')
            for s3, v in ex.callv(s2, it.a[2], [Ptr(cell), item]):
                if isinstance(v, Panic) or not (isinstance(v, Agg) and v.v == 1): raise Unsupported('scan that may stop')
                if s3.pc != s1.pc: raise Unsupported('branching scan')
                new = s3.mem[cell]
                g = split_add(new, h, frozenset([h]))
                if g is None: raise Unsupported('scan state is not a running sum')
                i = fresh('i', 'I'); gi = subst(g, {kk: i})
                closed = lambda m: addf(s0, sum_(i, ZERO, m, gi))
                ex.invariants.append('scan state after k items = %s + sum_{i<k} %s' % (short(s0), short(gi)))
                item_v = vmap(v.f[0], lambda t: subst(subst(t, {h: closed(kk)}), {kk: k}))
                # running sum including item k written as one sum
                item_v = vmap(item_v, lambda t: t)
                s4 = s.fork()
                for c, val in s3.mem.items():
                    if c not in s4.mem: s4.mem[c] = val
                out.append((s4, item_v))
        return out
    if it.k == 'map' and has_scan(it):
        out = []
        for s1, v in it_item2(ex, s, it.a[0], k): out += ex.callv(s1, it.a[1], [v])
        return out
    if it.k == 'enumerate' and has_scan(it):
        return [(s1, Agg('tuple', [k, v])) for s1, v in it_item2(ex, s, it.a[0], k)]
    return it_item(ex, s, it, k)

def consume_list(ex, st, items, kind, fargs):
    cur = [(st, fargs[0] if kind in ('fold', 'sum', 'product', 'try_fold') else None)]; res = []
    if kind == 'fold' or kind in ('sum', 'product'):
        for x in items:
            nxt = []
            for s, acc in cur:
                rs = ex.callv(s, fargs[1], [acc, x]) if kind == 'fold' else fargs[1](s, acc, peel(ex, s, x))
                for s2, v in rs:
                    if isinstance(v, Panic): res.append((s2, v))
                    else: nxt.append((s2, v))
            cur = nxt
        return res + cur
    if kind == 'try_fold':
        acc, f, good, has, wrap = fargs
        cur = [(st, acc)]
        for x in items:
            nxt = []
            for s, a in cur:
                for s2, v in ex.callv(s, f, [a, x] if has else [x]):
                    if isinstance(v, Panic) or v.v != good: res.append((s2, v))
                    else: nxt.append((s2, v.f[0] if has else a))
            cur = nxt
        return res + [(s, wrap(a)) for s, a in cur]
    if kind == 'for_each':
        cur = [st]
        for x in items:
            nxt = []
            for s in cur:
                for s2, v in ex.callv(s, fargs[0], [x]):
                    if isinstance(v, Panic): res.append((s2, v))
                    else: nxt.append(s2)
            cur = nxt
        return res + [(s, UNIT) for s in cur]
    if kind == 'collect': return [(st, Arr(items))]
    if kind == 'count': return [(st, num(len(items)))]
    if kind == 'last': return [(st, some(items[-1]) if items else NONE)]
    if kind in ('all', 'any', 'position', 'find'):
        live = [st]
        for idx, x in enumerate(items):
            nxt = []
            for s in live:
                arg = x if kind != 'find' else Ptr(s.new(x, 't'))
                for s2, v in ex.callv(s, fargs[0], [arg]):
                    if isinstance(v, Panic): res.append((s2, v)); continue
                    stop = not_(v) if kind == 'all' else v
                    a = s2.fork().assume(stop)
                    if stop is not FALSE and (stop is TRUE or ex.ok(a)):
                        res.append((a, {'all': FALSE, 'any': TRUE, 'position': some(num(idx)), 'find': some(x)}[kind]))
                    b = s2.assume(not_(stop))
                    if stop is not TRUE and (stop is FALSE or ex.ok(b)): nxt.append(b)
            live = nxt
        return res + [(s, {'all': TRUE, 'any': FALSE, 'position': NONE, 'find': NONE}[kind]) for s in live]
    raise Unsupported(kind)

# ------------------------------------------------------------ calls
F1 = {'sqrt', 'exp', 'ln', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'floor', 'ceil', 'round', 'trunc', 'sinh', 'cosh', 'tanh', 'log2', 'log10', 'ln_1p', 'exp_m1', 'exp2', 'cbrt', 'abs', 'fract', 'recip'}

def fcmp_paths(ex, st, conds):
    out = []
    for c, v in conds:
        if c is FALSE: continue
        s = st.fork().assume(c)
        if ex.ok(s): out.append((s, v))
    return out

def f64_method(ex, st, name, a):
    x = a[0]
    if name in ('sqrt', 'exp', 'ln', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'floor', 'ceil', 'round', 'trunc', 'sinh', 'cosh', 'tanh', 'cbrt'): return [(st, mk(name, x))]
    if name == 'abs': return fcmp_paths(ex, st, [(mk('<', x, fbits(0)), mk('neg', x)), (not_(mk('<', x, fbits(0))), x)]) if ex.split_abs else [(st, mk('abs', x))]
    if name == 'log2': return [(st, mk('/', mk('ln', x), mk('ln', num(2))))]
    if name == 'log10': return [(st, mk('/', mk('ln', x), mk('ln', num(10))))]
    if name == 'log': return [(st, mk('/', mk('ln', x), mk('ln', a[1])))]
    if name == 'ln_1p': return [(st, mk('ln', mk('+', num(1), x)))]
    if name == 'exp_m1': return [(st, mk('-', mk('exp', x), num(1)))]
    if name == 'exp2': return [(st, mk('pow', num(2), x))]
    if name == 'recip': return [(st, mk('/', num(1), x))]
    if name == 'powf': return [(st, mk('pow', x, a[1]))]
    if name == 'powi': return [(st, mk('powi', x, a[1]))]
    if name == 'mul_add': return [(st, mk('+', mk('*', x, a[1]), a[2]))]
    if name == 'hypot': return [(st, mk('sqrt', mk('+', mk('*', x, x), mk('*', a[1], a[1]))))]
    if name in ('max', 'min'):
        c = mk('<', x, a[1])
        t, e = (a[1], x) if name == 'max' else (x, a[1])
        return fcmp_paths(ex, st, [(c, t), (not_(c), e)])
    if name == 'clamp':
        return fcmp_paths(ex, st, [(mk('<', x, a[1]), a[1]), (and_(not_(mk('<', x, a[1])), mk('<', a[2], x)), a[2]), (and_(not_(mk('<', x, a[1])), not_(mk('<', a[2], x))), x)])
    if name == 'signum':
        return fcmp_paths(ex, st, [(mk('<', x, fbits(0)), fbits(0xbff0000000000000)), (not_(mk('<', x, fbits(0))), fbits(0x3ff0000000000000))])
    if name == 'is_nan': return [(st, mk('isnan', x))]
    if name == 'is_infinite': return [(st, mk('isinf', x))]
    if name == 'is_finite': return [(st, and_(not_(mk('isinf', x)), not_(mk('isnan', x))))]
    if name == 'is_sign_negative': return [(st, mk('<', x, fbits(0)))]
    if name == 'is_sign_positive': return [(st, mk('<=', fbits(0), x))]
    if name == 'fract': return [(st, mk('-', x, mk('trunc', x)))]
    if name == 'rem_euclid' or name == 'div_euclid' or name == 'atan2' or name == 'copysign': return [(st, mk(name, x, a[1]))]
    if name == 'classify':
        FC = 'std::num::FpCategory'; tiny = fbits(0x0010000000000000)
        ax = ite(mk('<', x, fbits(0)), mk('neg', x), x)
        nn, ni, z = not_(mk('isnan', x)), not_(mk('isinf', x)), mk('=', x, fbits(0))
        sub_ = mk('<', ax, tiny)
        return fcmp_paths(ex, st, [(mk('isnan', x), variant(FC, 0)), (mk('isinf', x), variant(FC, 1)), (and_(nn, ni, z), variant(FC, 2)),
                                   (and_(nn, ni, not_(z), sub_), variant(FC, 3)), (and_(nn, ni, not_(z), not_(sub_)), variant(FC, 4))])
    if name == 'to_bits': return [(st, mk('f_to_bits', x))]
    if name == 'max_value': return [(st, fbits(0x7fefffffffffffff))]
    return None

def rng_cell(ex, st, v):
    """the cell of the random source behind a chain of references"""
    for _ in range(8):
        if not isinstance(v, Ptr): return None
        x = ex.read(st, v.c, v.p)
        if isinstance(x, Agg) and x.k == 'rng': return v, x
        v = x
    return None

def draw(ex, st, name, *args, rng=None):
    """one draw from the random source: an arbitrary value of the stated distribution.  Draws are a function of the
    source's seed, the kind of draw with its parameters, and the number of draws before"""
    if rng is not None:
        p, x = rng
        d = app('draw:' + name, 'R', x.f[0], x.f[1], *[a for a in args if isinstance(a, T)])
        ex.write(st, p.c, p.p, Agg('rng', [x.f[0], add(x.f[1], ONE)]))
        st.log = st.log + (('draw', name, tuple(args), d),)
        return d
    n = sum(1 for x in st.log if x[0] == 'draw')
    ks = list(getattr(ex, 'loopk', []))
    d = app('draw', 'R', num(n), *ks)
    st.log = st.log + (('draw', name, tuple(args), d),)
    return d

def special(ex, st, name, a):
    m = {'gamma': 'gamma', 'loggamma': 'lgamma', 'digamma': 'digamma', 'trigamma': 'trigamma', 'beta': 'beta', 'logbeta': 'lbeta', 'gammainc': 'gammp_arg', 'erf': 'erf', 'erfc': 'erfc',
         'norm': 'normcdf', 'norm_inv': 'norminv', 'riemann_zeta': 'zeta', 'betainc': 'betai_arg', 'hyp2f1': 'hyp2f1'}
    # special_fun takes the integration limit as the receiver: x.gammainc(a) is P(a, x), x.betainc(a, b) is I_x(a, b);
    # cephes igam returns 0 for x <= 0, incbet 0 outside [0, 1]
    if name in ('gammainc', 'gammac'):
        p = mk('ite', mk('<=', a[0], num(0)), num(0), mk('gammp', a[1], a[0]))
        return [(st, p if name == 'gammainc' else mk('-', num(1), p))]
    if name == 'betainc': return [(st, mk('ite', mk('or', mk('<=', a[0], num(0)), mk('<', num(1), a[0])), num(0), mk('betai', a[1], a[2], a[0])))]
    if name == 'hyp2f1': return [(st, mk('hyp2f1', a[1], a[2], a[3], a[0]))]
    if name in m: return [(st, mk(m[name], *a))]
    return None

def own_sum(ex, callee):
    """the crate's own implementation of Sum or Product behind a call of Iterator::sum or product"""
    b = ex.p.fns.get(callee.get('body') or '')
    for bb in (b['blocks'] if b else []):
        t = bb and bb['t']
        if t and t[0] == 'call' and t[1].get('body') and normpath(t[1]['path']).startswith('std::iter::'): return t[1]
def call(ex, st, callee, args, argtys, rty, loc):
    path = normpath(callee['path']); rp = normpath(callee.get('rpath') or '')
    P = lambda v: peel(ex, st, v)
    last = path.rsplit('::', 1)[-1]
    has_body = bool(callee.get('body'))

    if path.endswith('__contracts::fields'):
        out = []
        def go(v):
            v = P(v)
            if isinstance(v, T): out.append(ite(v, ONE, ZERO) if is_bool(v) else v if sort_of(v) == 'R' else mk('i2f', v))
            elif isinstance(v, Agg): [go(x) for x in v.f]
            elif isinstance(v, Arr): [go(x) for x in v.e]
            elif v is None: pass
            else: raise Unsupported('fields of %r' % (v,))
        go(args[0])
        return [(st, Arr(out))]
    if path.endswith('__contracts::rng'): return [(st, Agg('rng', [args[0], ZERO]))]
    # ---- function objects
    if path.startswith('std::ops::Fn') and last in ('call', 'call_mut', 'call_once'):
        a = args[1].f if isinstance(args[1], Agg) else [args[1]]
        return ex.callv(st, args[0], list(a))

    # ---- panics
    if path.startswith('std::panicking') or path in ('std::rt::begin_panic', 'std::rt::panic_fmt', 'std::rt::panic_display', 'std::rt::begin_panic_fmt'):
        kind = 'unimplemented' if 'unimplemented' in path else 'todo' if 'todo' in path else 'unreachable' if 'unreachable' in path else 'panic'
        if kind == 'panic' and args:
            a = P(args[0])
            s = a.s if isinstance(a, Str) else str(a.t) if isinstance(a, Abs) else ''
            for w, kk in (('quantity undefined', 'undefined'), ('not implemented', 'unimplemented'), ('not yet implemented', 'todo'), ('internal error', 'unreachable')):
                if w in s: kind = kk
        return [(st, Panic(kind, loc))]
    if path in ('std::result::unwrap_failed', 'std::option::unwrap_failed', 'std::option::expect_failed'): return [(st, Panic('unwrap', loc))]
    if path.startswith('std::fmt::') or path.startswith('<std::fmt'):
        s = ' '.join(x.s if isinstance(x, Str) else show(x.t) if isinstance(x, Abs) else '' for x in [P(a) if not isinstance(a, Str) else a for a in args])
        t = ex.p.ty(rty)
        if t['k'] == 'adt' and t['path'] == RES: return [(st, ok(UNIT))]
        return [(st, Abs(var('fmt:' + s[:80], 'U')))]

    if has_body and path not in ('std::iter::Iterator::sum', 'std::iter::Iterator::product'): return None

    # ---- f64
    m = re.match(r'^std::f(?:64|32)::(?:core_float_math::)?(?:<impl f64>::)?(\w+)$', path) or re.match(r'^std::num::<impl f64>::(\w+)$', path)
    if m:
        r = f64_method(ex, st, m.group(1), [P(a) for a in args])
        if r is None: raise Unsupported('f64::' + m.group(1))
        return r
    if path.startswith('special_fun::FloatSpecial::'):
        ex.assumed.add('special-fun: %s computes the mathematical function of that name (regularised incomplete gamma/beta)' % last)
        r = special(ex, st, last, [P(a) for a in args])
        if r is None: raise Unsupported('special function ' + last)
        return r
    m = re.match(r'^num::(?:traits::)?(?:\w+::)*(?:Float|real::Real)::(\w+)$', path)
    if m:
        r = f64_method(ex, st, m.group(1), [P(a) for a in args])
        if r is not None: return r

    # ---- operators through traits
    m = re.match(r'^std::ops::(Add|Sub|Mul|Div|Rem)::(add|sub|mul|div|rem)$', path)
    if m:
        a, b = P(args[0]), P(args[1]); t = peelty(ex, argtys[0])
        if isinstance(a, T) and isinstance(b, T) and t['k'] in ('float', 'int', 'uint'):
            if t['k'] == 'float': return [(st, ex.binop(st, m.group(1), a, b, t))]
            return checked_int(ex, st, m.group(1), a, b, t, loc)
        return None
    m = re.match(r'^std::ops::(Add|Sub|Mul|Div|Rem)Assign::\w+$', path)
    if m:
        a, b = P(args[0]), P(args[1]); t = peelty(ex, argtys[0])
        if isinstance(a, T) and isinstance(b, T) and isinstance(args[0], Ptr):
            q = args[0]
            while isinstance(ex.read(st, q.c, q.p), Ptr): q = ex.read(st, q.c, q.p)
            if t['k'] == 'float':
                ex.write(st, q.c, q.p, ex.binop(st, m.group(1), a, b, t)); return [(st, UNIT)]
            out = []
            for s, v in checked_int(ex, st, m.group(1), a, b, t, loc):
                if not isinstance(v, Panic): ex.write(s, q.c, q.p, v); v = UNIT
                out.append((s, v))
            return out
        return None
    if path == 'std::ops::Neg::neg':
        a = P(args[0]); t = peelty(ex, argtys[0])
        if isinstance(a, T): return [(st, mk('neg', a) if t['k'] == 'float' else neg(a))]
    if path == 'std::ops::Not::not':
        a = P(args[0])
        if isinstance(a, T) and is_bool(a): return [(st, not_(a))]

    # ---- comparisons
    m = re.match(r'^(?:std::cmp::PartialEq|<std::option::Option<.*> as std::cmp::PartialEq>)::(eq|ne)$', path)
    if m and len(args) == 2:
        c = struct_eq(P(args[0]), P(args[1]), lambda x: deref1(ex, st, x))
        if c is not None: return [(st, c if m.group(1) == 'eq' else not_(c))]
    m = re.match(r'^std::cmp::Partial(?:Ord|Eq)::(lt|le|gt|ge|eq|ne)$', path)
    if m:
        a, b = P(args[0]), P(args[1]); t = peelty(ex, argtys[0]); o = m.group(1)
        if isinstance(a, T) and isinstance(b, T):
            op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'eq': 'Eq', 'ne': 'Ne'}[o]
            if t['k'] not in ('float', 'int', 'uint', 'bool'): t = {'k': 'float'}
            return [(st, ex.binop(st, op, a, b, t))]
        if isinstance(a, Agg) and a.k == 'adt' and a.t != ORD and argtys:
            tk = argtys[0]
            while ex.p.ty(tk)['k'] == 'ref': tk = ex.p.ty(tk)['t']
            kb = impl_of(ex, 'std::cmp::PartialEq', 'eq', tk) if o in ('eq', 'ne') else None
            if kb:
                qs = [Ptr(st.new(a, 't')), Ptr(st.new(b, 't'))]
                return [(s, r if isinstance(r, Panic) or o == 'eq' else not_(r)) for s, r in ex.run(kb, qs, st)]
        if isinstance(a, Abs) or isinstance(b, Abs):
            f = lambda n, x, y: app('T::' + n, 'B', *(unterm(x) + unterm(y)))
            ex.assumed.add('a generic PartialOrd/PartialEq is an arbitrary predicate (gt/ge are lt/le with swapped operands, ne is not eq)')
            if o == 'gt': return [(st, f('lt', b, a))]
            if o == 'ge': return [(st, f('le', b, a))]
            if o == 'ne': return [(st, not_(f('eq', a, b)))]
            return [(st, f(o, a, b))]
        if isinstance(a, Agg) and isinstance(b, Agg) and a.k == 'adt' and a.t == ORD:
            return [(st, TRUE if (a.v == b.v) == (o == 'eq') else FALSE)]
        if isinstance(a, (Arr, Seq)) and o in ('eq', 'ne') and isinstance(a, Arr) and isinstance(b, Arr):
            c = FALSE if len(a.e) != len(b.e) else and_(*[mk('=', x, y) for x, y in zip(a.e, b.e)])
            return [(st, c if o == 'eq' else not_(c))]
    if path in ('std::cmp::PartialOrd::partial_cmp', 'std::cmp::Ord::cmp'):
        a, b = P(args[0]), P(args[1]); t = peelty(ex, argtys[0])
        if isinstance(a, T) and isinstance(b, T):
            wrap = some if last == 'partial_cmp' else (lambda x: x)
            cs = [(mk('<', a, b) if t['k'] == 'float' else lt(a, b), wrap(LESS)), (mk('=', a, b) if t['k'] == 'float' else eq(a, b), wrap(EQUAL)), (mk('<', b, a) if t['k'] == 'float' else lt(b, a), wrap(GREATER))]
            if t['k'] == 'float': cs.append((or_(mk('isnan', a), mk('isnan', b)), NONE))
            return fcmp_paths(ex, st, cs)
    if path in ('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min'):
        a, b = args[0], args[1]
        if isinstance(a, T) and isinstance(b, T):
            c = lt(b, a)
            t, e = (a, b) if last == 'max' else (b, a)
            return fcmp_paths(ex, st, [(c, t), (not_(c), e)])
    m = re.match(r'^std::cmp::Ordering::is_(lt|le|gt|ge|eq|ne)$', path)
    if m and isinstance(args[0], Agg):
        v = args[0].v - 1
        return [(st, TRUE if {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0, 'eq': v == 0, 'ne': v != 0}[m.group(1)] else FALSE)]

    # ---- integers
    m = re.match(r'^std::num::<impl (\w+)>::(\w+)$', path) or re.match(r'^std::(?:num::)?<impl ([iu]\w+)>::(\w+)$', path)
    if m and m.group(1) in IRANGE:
        lo, hi = IRANGE[m.group(1)]; nme = m.group(2); t = {'k': 'int' if lo < 0 else 'uint', 'n': m.group(1)}
        if nme == 'max_value': return [(st, num(hi))]
        if nme == 'min_value': return [(st, num(lo))]
        ops = {'add': add, 'sub': sub, 'mul': mul}
        mm = re.match(r'^(checked|saturating|wrapping|overflowing)_(add|sub|mul)$', nme)
        if mm:
            r = ops[mm.group(2)](args[0], args[1]); inr = and_(le(num(lo), r), le(r, num(hi)))
            if mm.group(1) == 'checked': return fcmp_paths(ex, st, [(inr, some(r)), (not_(inr), NONE)])
            if mm.group(1) == 'saturating': return fcmp_paths(ex, st, [(inr, r), (lt(r, num(lo)), num(lo)), (lt(num(hi), r), num(hi))])
            if mm.group(1) == 'wrapping': return [(st, ex.wrap(r, t))]
            return [(st, Agg('tuple', [ex.wrap(r, t), not_(inr)]))]
        if nme == 'checked_div': return fcmp_paths(ex, st, [(eq(args[1], ZERO), NONE), (not_(eq(args[1], ZERO)), some(idiv(args[0], args[1], lo < 0)))])
        if nme == 'abs': return fcmp_paths(ex, st, [(lt(args[0], ZERO), neg(args[0])), (le(ZERO, args[0]), args[0])])
        if nme == 'abs_diff': return fcmp_paths(ex, st, [(lt(args[0], args[1]), sub(args[1], args[0])), (le(args[1], args[0]), sub(args[0], args[1]))])
        if nme == 'pow':
            if args[1].op == 'num':
                r = ONE
                for _ in range(int(args[1].a[0])): r = mul(r, args[0])
                inr = and_(le(num(lo), r), le(r, num(hi)))
                return fcmp_paths(ex, st, [(inr, r), (not_(inr), Panic('assert:Overflow', loc))])
        if nme == 'is_multiple_of': return [(st, eq(imod(args[0], args[1], False), ZERO))]
        raise Unsupported('%s::%s' % (m.group(1), nme))

    m = re.match(r'^std::convert::(?:num::)?<impl std::convert::(TryFrom)<(\w+)> for (\w+)>::try_from$', path)
    if m or path in ('std::convert::TryInto::try_into', 'std::convert::TryFrom::try_from', '<T as std::convert::TryInto<U>>::try_into'):
        rt = ex.p.ty(rty); tt = ex.p.ty(rt['args'][0]) if rt['k'] == 'adt' and rt.get('args') else {'k': ''}
        if isinstance(args[0], T) and tt['k'] in ('int', 'uint'):
            lo, hi = IRANGE[tt['n']]; r = args[0]; inr = and_(le(num(lo), r), le(r, num(hi)))
            return fcmp_paths(ex, st, [(inr, ok(r)), (not_(inr), err(Abs(var('TryFromIntError', 'U'))))])
        if isinstance(args[0], (Arr, Seq)) and tt['k'] == 'array':
            n = ex.dim(tt['n']); N = num(n) if isinstance(n, int) else var(n, 'I'); L = seqlen(args[0]); same_ = eq(L, N)
            if not ex.feasible(list(st.pc) + [not_(same_)]): return [(st, ok(args[0]))]
            return fcmp_paths(ex, st, [(same_, ok(args[0])), (not_(same_), err(args[0]))])
    if path.endswith('::str::traits::<impl std::cmp::PartialEq for str>::eq') or path == 'std::cmp::PartialEq::eq':
        x, y = deref1(ex, st, args[0]), deref1(ex, st, args[1])
        if isinstance(x, Str) and isinstance(y, Str) and x.lit and y.lit: return [(st, lift(x.s == y.s))]
    # ---- conversions, clones, defaults
    if path in ('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::borrow::Borrow::borrow'):
        v = deref1(ex, st, args[0])
        if isinstance(v, (T, Arr, Seq, Agg, Abs, Str, It, Fn)): return [(st, v)]
        if isinstance(v, Ptr): return [(st, v)]
    if path in ('std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::borrow::BorrowMut::borrow_mut'):
        v = deref1(ex, st, args[0])
        if isinstance(v, Agg) and v.k == 'box': return [(st, v.f[0])]
        if isinstance(v, (Arr, Seq, Abs, Agg)): return [(st, args[0])]
        if isinstance(v, Ptr): return [(st, v)]
    if path in ('std::convert::Into::into', 'std::convert::From::from'):
        t = ex.p.ty(rty); v = args[0]
        if isinstance(v, T) and t['k'] == 'float':
            s = peelty(ex, argtys[0]); return [(st, mk('i2f', v) if s['k'] in ('int', 'uint') else v)]
        if isinstance(v, T) and t['k'] in ('int', 'uint'): return [(st, v)]
        if argtys and argtys[0] == rty: return [(st, v)]
        rb = into_target(ex, callee, argtys, rty)
        if rb: return ex.run(rb, [v], st)
        if t['k'] == 'adt' and t['path'].startswith('failure::'):
            ex.assumed.add('converting an error into failure::Error never panics')
            return [(st, v if not isinstance(v, T) else Abs(app('error', 'U', v)))]
        if t['k'] in ('param', 'alias') or isinstance(v, Abs): return None
        if t['k'] == 'adt' and t['path'] in ('std::vec::Vec',): return [(st, v)]
    if path == 'std::default::Default::default':
        t = ex.p.ty(rty)
        if t['k'] == 'float': return [(st, fbits(0))]
        if t['k'] in ('int', 'uint'): return [(st, ZERO)]
        if t['k'] == 'bool': return [(st, FALSE)]
    if path in ('num::zero', 'num::Zero::zero', 'num::traits::Zero::zero', 'num::one', 'num::One::one'):
        t = ex.p.ty(rty); w = 0 if 'zero' in last else 1
        if t['k'] == 'float': return [(st, fbits(0 if w == 0 else 0x3ff0000000000000))]
        if t['k'] in ('int', 'uint'): return [(st, num(w))]
        return [(st, Abs(var('T::' + last, 'U'), rty))]
    if path == 'std::mem::swap':
        a, b = args; x, y = ex.read(st, a.c, a.p), ex.read(st, b.c, b.p)
        ex.write(st, a.c, a.p, y); ex.write(st, b.c, b.p, x); return [(st, UNIT)]
    if path == 'std::mem::replace':
        a = args[0]; x = ex.read(st, a.c, a.p); ex.write(st, a.c, a.p, args[1]); return [(st, x)]
    if path in ('std::mem::size_of', 'std::mem::align_of'):
        v = var('layout:%s' % (callee.get('rname') or path), 'I'); st.assume(le(ZERO, v)); return [(st, v)]
    if path == 'std::mem::drop': return [(st, UNIT)]

    # ---- Result / Option / ?
    if path == 'std::ops::Try::branch':
        v = args[0]
        if isinstance(v, Agg) and v.t == RES:
            return [(st, variant('std::ops::ControlFlow', 0, v.f[0]) if v.v == 0 else variant('std::ops::ControlFlow', 1, err(v.f[0])))]
        if isinstance(v, Agg) and v.t == OPT:
            return [(st, variant('std::ops::ControlFlow', 0, v.f[0]) if v.v == 1 else variant('std::ops::ControlFlow', 1, NONE))]
        raise Unsupported('? on %r' % (v,))
    if path == 'std::ops::FromResidual::from_residual':
        v = args[0]
        if isinstance(v, Agg): return [(st, v)]
    if path == 'std::ops::Try::from_output':
        t = ex.p.ty(rty)
        return [(st, ok(args[0]) if t.get('path') == RES else some(args[0]))]

    # ---- boxes, MaybeUninit, Vec
    if path == 'std::boxed::Box::<T>::new': return [(st, Agg('box', [Ptr(st.new(args[0], 'b'))]))]
    if path == 'std::boxed::Box::<T>::new_uninit': return [(st, Agg('box', [Ptr(st.new(UNINIT, 'b'))]))]
    if path == 'std::boxed::box_assume_init_into_vec_unsafe':
        q = args[0].f[0]; v = ex.read(st, q.c, q.p)
        while isinstance(v, Agg) and v.k == 'tuple': v = v.f[-1]
        if isinstance(v, (Arr, Seq)): return [(st, v)]
        raise Unsupported('vec! of %r' % (v,))
    if path in ('std::slice::into_vec', 'std::slice::<impl [T]>::into_vec'):
        return [(st, peel(ex, st, args[0]))]
    if path.startswith('std::mem::MaybeUninit::<T>::') or path.startswith('std::mem::maybe_uninit'):
        if last in ('uninit', 'zeroed'):
            return [(st, uninit_value(ex, rty))]
        if last == 'write':
            q = args[0]; ex.write(st, q.c, q.p, args[1]); return [(st, q)]
        if last == 'assume_init': return [(st, args[0])]
        if last == 'new': return [(st, args[0])]
        if last in ('as_ptr', 'as_mut_ptr', 'assume_init_ref', 'assume_init_mut'): return [(st, args[0])]
    if path.startswith('std::ptr::') and last == 'read':
        return [(st, ex.read(st, args[0].c, args[0].p))]
    if path.startswith('std::ptr::') and last == 'write':
        ex.write(st, args[0].c, args[0].p, args[1]); return [(st, UNIT)]
    if path in ('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity'): return [(st, Arr([]))]
    if path == 'std::vec::from_elem':
        if args[1].op == 'num': return [(st, Arr([args[0]] * int(args[1].a[0])))]
        return [(st, Seq(args[1], lambda i: args[0], 'repeat'))]
    if path.startswith('std::vec::Vec::<T') or path.startswith('std::slice::<impl [T]>::') or path.startswith('std::array::<impl [T; N]>::'):
        return vec_method(ex, st, last, args, argtys, rty, loc)
    if path in ('std::ops::Index::index', 'std::ops::IndexMut::index_mut'):
        q = args[0]; i = args[1]
        while isinstance(q, Ptr) and isinstance(ex.read(st, q.c, q.p), Ptr): q = ex.read(st, q.c, q.p)
        v = ex.read(st, q.c, q.p)
        if isinstance(i, T):
            n = seqlen(v); inb = lt(i, n)
            return fcmp_paths(ex, st, [(inb, Ptr(q.c, q.p + (('i', i),))), (not_(inb), Panic('assert:BoundsCheck', loc))])
        if isinstance(i, Agg) and i.k == 'adt' and i.t.startswith('std::ops::Range'):
            n = seqlen(v)
            nm = i.t.split('::')[-1]
            lo, hi = {'Range': lambda: (i.f[0], i.f[1]), 'RangeFrom': lambda: (i.f[0], n), 'RangeTo': lambda: (ZERO, i.f[0]), 'RangeFull': lambda: (ZERO, n), 'RangeInclusive': lambda: (i.f[0], add(i.f[1], ONE)), 'RangeToInclusive': lambda: (ZERO, add(i.f[0], ONE))}[nm]()
            inb = and_(le(lo, hi), le(hi, n))
            return fcmp_paths(ex, st, [(inb, Ptr(q.c, q.p + (('sl', lo, hi),))), (not_(inb), Panic('slice index', loc))])

    # ---- iterators
    if path == 'std::iter::IntoIterator::into_iter': return [(st, as_it(ex, st, args[0]))]
    if path == 'std::ops::RangeInclusive::<Idx>::new': return [(st, Agg('adt', [args[0], args[1], FALSE], 0, 'std::ops::RangeInclusive'))]
    if path.startswith('std::ops::Range') and last in ('contains', 'is_empty', 'start', 'end', 'into_inner'):
        v = P(args[0]); nm = v.t.split('::')[-1] if isinstance(v, Agg) and v.k == 'adt' else ''
        if nm in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive') and all(isinstance(P(x), T) for x in v.f):
            f = [P(x) for x in v.f]; cmp_ = '<=' if nm.endswith('Inclusive') else '<'
            lo, hi = {'Range': (0, 1), 'RangeInclusive': (0, 1), 'RangeFrom': (0, None), 'RangeTo': (None, 0), 'RangeToInclusive': (None, 0)}[nm]
            if last == 'contains':
                x = P(args[1])
                if isinstance(x, T): return [(st, and_(*([mk('<=', f[lo], x)] if lo is not None else []), *([mk(cmp_, x, f[hi])] if hi is not None else [])))]
            elif last == 'is_empty' and hi is not None and lo is not None: return [(st, not_(mk(cmp_, f[lo], f[hi])))]
            elif last in ('start', 'end') and nm == 'RangeInclusive' and isinstance(args[0], Ptr): return [(st, Ptr(args[0].c, args[0].p + (('f', 0 if last == 'start' else 1),)))]
            elif last == 'into_inner': return [(st, Agg('tuple', f[:2]))]
    if path == 'std::iter::repeat': return [(st, It('repeat', args[0]))]
    if path == 'std::iter::once': return [(st, It('once', args[0]))]
    if path in ('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back'):
        q = args[0]
        while isinstance(q, Ptr) and isinstance(ex.read(st, q.c, q.p), Ptr): q = ex.read(st, q.c, q.p)
        v = as_it(ex, st, ex.read(st, q.c, q.p))
        out = []
        if v.k != 'list':
            if not is_conc(ex, st, v):
                n = it_len(ex, st, v)
                raise Unsupported('next on a symbolic iterator')
            ls = it_list(ex, st, v)
        else: ls = [(st, list(v.a[0][v.a[1]:]))]
        for s, items in ls:
            if isinstance(items, Panic): out.append((s, items)); continue
            if not items:
                ex.write(s, q.c, q.p, It('list', (), 0)); out.append((s, NONE))
            elif last == 'next':
                ex.write(s, q.c, q.p, It('list', tuple(items[1:]), 0)); out.append((s, some(items[0])))
            else:
                ex.write(s, q.c, q.p, It('list', tuple(items[:-1]), 0)); out.append((s, some(items[-1])))
        return out
    if path.startswith('std::iter::Iterator::') or path.startswith('std::iter::ExactSizeIterator') or path.startswith('std::iter::DoubleEndedIterator'):
        it = as_it(ex, st, args[0])
        if last in ('map', 'filter', 'filter_map', 'take_while', 'skip_while'): return [(st, It(last, it, args[1]))]
        if last in ('skip', 'take'): return [(st, It(last, it, args[1]))]
        if last in ('zip', 'chain'): return [(st, It(last, it, as_it(ex, st, args[1])))]
        if last in ('enumerate', 'rev'): return [(st, It(last, it))]
        if last in ('cloned', 'copied'): return [(st, It('cloned', it))]
        if last == 'scan': return [(st, It('scan', it, st.new(args[1], 'scan'), args[2]))]
        if last in ('by_ref', 'fuse', 'peekable'): return [(st, args[0] if last == 'by_ref' else it)]
        if last == 'reduce' and is_conc(ex, st, it) and not has_filter(it):
            out = []
            for s, xs in it_list(ex, st, it):
                if isinstance(xs, Panic) or not xs: out.append((s, xs if isinstance(xs, Panic) else NONE)); continue
                cur = [(s, xs[0])]
                for x in xs[1:]: cur = [y for s1, v in cur for y in ([(s1, v)] if isinstance(v, Panic) else ex.callv(s1, args[1], [v, x]))]
                out += [(s1, v if isinstance(v, Panic) else some(v)) for s1, v in cur]
            return out
        if last == 'reduce' and not has_filter(it):
            # the first item, then a fold over the others
            n = it_len(ex, st, strip_scan(it)); out = []
            if n is None: raise Unsupported('consumption of an endless iterator')
            for c, some_ in ((eq(n, ZERO), False), (lt(ZERO, n), True)):
                if not ex.feasible(list(st.pc) + [c]): continue
                s = st.fork(); s.assume(c)
                if not some_: out.append((s, NONE)); continue
                for s1, x0 in it_item2(ex, s, it, ZERO):
                    if isinstance(x0, Panic): out.append((s1, x0)); continue
                    if isinstance(x0, T) and sort_of(x0) == 'R':
                        # f(e, x) = x: the fold over all items from e is the same
                        x = fresh('x', 'R')
                        for e in (fbits(0), fbits(0x3ff0000000000000)):
                            try: rs = ex.callv(s1.fork(), args[1], [e, x])
                            except Unsupported: rs = ()
                            if len(rs) == 1 and not isinstance(rs[0][1], Panic) and is_zero_sub(rs[0][1], x): break
                        else: e = None
                        if e is not None:
                            out += [(s2, v if isinstance(v, Panic) else some(v)) for s2, v in consume(ex, s1, it, 'fold', (e, args[1]), loc)]
                            continue
                    out += [(s2, v if isinstance(v, Panic) else some(v)) for s2, v in consume(ex, s1, It('skip', it, ONE), 'fold', (x0, args[1]), loc)]
            return out
        if last == 'fold': return consume(ex, st, it, 'fold', (args[1], args[2]), loc)
        if last == 'for_each': return consume(ex, st, it, 'for_each', (args[1],), loc)
        if last in ('all', 'any', 'position', 'find'): return consume(ex, st, it, last, (args[1],), loc)
        if last in ('count', 'last'): return consume(ex, st, it, last, (), loc)
        if last == 'len': return [(st, it_len(ex, st, it))]
        if last in ('sum', 'product'):
            t = ex.p.ty(rty)
            own = own_sum(ex, callee)
            if own: return ex.call(st, own, args, argtys, rty, loc)
            op = '+' if last == 'sum' else '*'
            if t['k'] == 'float':
                z = fbits(0x8000000000000000) if last == 'sum' else fbits(0x3ff0000000000000)
                z = fbits(0) if last == 'sum' else z
                def opf(s, a, b):
                    if isinstance(b, Agg) and len(b.f) == 1 and isinstance(b.f[0], T): b = b.f[0]    # Sum<Probability> for f64
                    return [(s, b if a is z else mk(op, a, b))]
                return consume(ex, st, it, last, (z, opf), loc)
            if t['k'] in ('int', 'uint'):
                z = ZERO if last == 'sum' else ONE
                lo, hi = IRANGE[t['n']]
                def opi(s, a, b): return checked_int(ex, s, 'Add' if last == 'sum' else 'Mul', a, b, t, loc)
                return consume(ex, st, it, last, (z, opi), loc)
        if last in ('try_for_each', 'try_fold'):
            t = ex.p.ty(rty)
            if t['k'] == 'adt' and t['path'] in (RES, OPT) and isinstance(args[0], Ptr):
                acc, f = (args[1], args[2]) if last == 'try_fold' else (UNIT, args[1])
                good = 0 if t['path'] == RES else 1
                out = []
                for s, v in consume(ex, st, it, 'try_fold', (acc, f, good, last == 'try_fold', (lambda x: ok(x) if good == 0 else some(x))), loc):
                    if not isinstance(v, Panic):
                        # what is left of the iterator after an early end is not modelled: looking at it is
                        ex.write(s, args[0].c, args[0].p, It('list', (), 0) if v.v == good else It('interrupted',))
                    out.append((s, v))
                return out
        if last == 'collect':
            t = ex.p.ty(rty)
            if t['k'] == 'adt' and t['path'] == 'std::vec::Vec': return consume(ex, st, it, 'collect', (), loc)
            if t['k'] == 'adt' and t['path'] == RES and is_conc(ex, st, it):
                out = []
                for s, items in it_list(ex, st, it):
                    if isinstance(items, Panic): out.append((s, items)); continue
                    bad = [x for x in items if x.v == 1]
                    out.append((s, err(bad[0].f[0]) if bad else ok(Arr([x.f[0] for x in items]))))
                return out
        if last == 'size_hint':
            n = it_len(ex, st, it); return [(st, Agg('tuple', [n, some(n)]))]
        if last in ('max_by', 'min_by', 'max_by_key', 'min_by_key', 'max', 'min', 'try_fold', 'nth', 'unzip', 'step_by', 'flat_map', 'windows', 'reduce') and False: pass
        raise Unsupported('iterator method ' + last)

    # ---- randomness
    if path == 'rand::Rng::gen' or path == 'rand::Rng::random':
        t = ex.p.ty(rty)
        if t['k'] == 'float':
            ex.assumed.add('rand: Rng::gen::<f64> is uniform on [0, 1)')
            u = draw(ex, st, 'U01', rng=rng_cell(ex, st, args[0])); st.assume(mk('<=', fbits(0), u)); st.assume(mk('<', u, fbits(0x3ff0000000000000)))
            return [(st, u)]
    if path == 'rand::Rng::gen_bool':
        ex.assumed.add('rand: Rng::gen_bool(p) is true with probability p and panics unless 0 <= p <= 1')
        p = args[1]
        inb = and_(mk('<=', fbits(0), p), mk('<=', p, fbits(0x3ff0000000000000)))
        out = []
        s1 = st.fork().assume(not_(inb))
        if ex.ok(s1): out.append((s1, Panic('gen_bool', loc)))
        st.assume(inb)
        d = draw(ex, st, 'U01', rng=rng_cell(ex, st, args[0]))
        out.append((st, mk('<', d, p)))
        return out
    if path.startswith('rand_distr::') or path.startswith('rand::distributions'):
        t = ex.p.ty(rty)
        if last in ('new', 'new_inclusive', 'standard'):
            nm = re.sub(r'::<.*', '', path[len('rand_distr::'):]).split('::')[0] if path.startswith('rand_distr::') else path.split('::')[2]
            nm = nm.split('::<')[0]
            ex.assumed.add('rand_distr::%s samples the distribution of that name in its documented parametrisation' % nm)
            s = Agg('sampler', [P(a) if isinstance(P(a), T) else a for a in args], 0, nm + ('!' if last == 'new_inclusive' else ''))
            if t['k'] == 'adt' and t['path'] == RES:
                from samplers import VALID
                c = VALID.get(nm, lambda *a: TRUE)(*s.f)
                return fcmp_paths(ex, st, [(c, ok(s)), (not_(c), err(Abs(var('err:' + nm, 'U'))))])
            return [(st, s)]
    if last == 'sample' and ('rand::' in path or 'rand_distr::' in path or path == 'rand::distributions::Distribution::sample'):
        s = None
        for a in args:
            v = P(a)
            if isinstance(v, Agg) and v.k == 'sampler': s = v
        if s is None:
            # rng.sample(StandardNormal) etc.
            v = P(args[-1]) if isinstance(P(args[-1]), Agg) else P(args[0])
            if isinstance(v, Agg) and v.t and 'StandardNormal' in v.t: s = Agg('sampler', [fbits(0), fbits(0x3ff0000000000000)], 0, 'Normal')
            elif isinstance(v, Abs) and 'StandardNormal' in show(v.t): s = Agg('sampler', [fbits(0), fbits(0x3ff0000000000000)], 0, 'Normal')
            elif isinstance(v, Agg) and v.t and 'Open01' in v.t or isinstance(v, Abs) and 'Open01' in show(v.t): s = Agg('sampler', [], 0, 'Open01')
            else: raise Unsupported('sampling from %r' % (args,))
        rng = None
        for a in args: rng = rng or rng_cell(ex, st, a)
        d = draw(ex, st, s.t, *s.f, rng=rng)
        t = ex.p.ty(rty)
        from samplers import DRAWN
        if s.t in ('Poisson', 'Binomial', 'Geometric') or t['k'] in ('int', 'uint'):
            i = mk('app', d.a[0] + 'i', 'I', *d.a[2:])
            if s.t in ('Poisson', 'Binomial', 'Geometric'): st.assume(mk('<=', ZERO, i))
            elif s.t in DRAWN:
                for h in DRAWN[s.t](i, *s.f): st.assume(h)
            if s.t == 'Binomial': st.assume(mk('<=', i, s.f[0]))
            return [(st, mk('i2f', i) if t['k'] == 'float' else i)]
        if s.t in DRAWN:
            for h in DRAWN[s.t](d, *s.f): st.assume(h)
        if s.t == 'Open01':
            ex.assumed.add('rand: Open01 is uniform on (0, 1)')
            st.assume(mk('<', fbits(0), d)); st.assume(mk('<', d, fbits(0x3ff0000000000000)))
        return [(st, d)]

    # ---- spaces
    if path.startswith('spaces::'):
        t = ex.p.ty(rty)
        if last == 'closed_unchecked': return [(st, Agg('adt', [Agg('adt', [args[0]], 0, 'closed'), Agg('adt', [args[1]], 0, 'closed')], 0, 'Interval'))]
        if last == 'unit': return [(st, Agg('adt', [Agg('adt', [fbits(0)], 0, 'closed'), Agg('adt', [fbits(0x3ff0000000000000)], 0, 'closed')], 0, 'Interval'))]
        if last == 'left_closed': return [(st, Agg('adt', [Agg('adt', [args[0]], 0, 'closed'), Agg('adt', [], 0, 'none')], 0, 'Interval'))]
        if last in ('reals', 'positive_reals', 'non_negative_reals', 'binary', 'naturals', 'non_negative_integers', 'integers'): return [(st, Agg('adt', [], 0, last))]
        if last == 'unbounded': return [(st, Agg('adt', [], 0, {'Reals': 'reals', 'Integers': 'integers', 'Naturals': 'naturals', 'PositiveReals': 'positive_reals', 'NonNegativeReals': 'non_negative_reals', 'NonNegativeIntegers': 'non_negative_integers'}[t['path'].split('::')[-1]]))]

    # ---- BLAS / LAPACK
    if path.startswith('blas::') or path.startswith('lapack::'):
        import blasmodel
        return blasmodel.call(ex, st, last, args, loc)

    if path.startswith('failure::') or path.startswith('std::string::') or path == 'std::string::ToString::to_string' or path.startswith('std::backtrace'):
        if path == 'std::string::ToString::to_string' or path.startswith('std::string::') and path.endswith('::from'):
            v = args[0]
            while isinstance(v, Ptr): v = deref1(ex, st, v)
            if isinstance(v, Str): return [(st, v)]
        return [(st, Abs(fresh('opaque', 'U'), rty))]
    return None

def is_zero_sub(v, x):
    """v is x, x + 0 or x * 1"""
    if not isinstance(v, T): return False
    return v is x or v.op in ('+', '*') and len(v.a) == 2 and x in v.a and fbits(0 if v.op == '+' else 0x3ff0000000000000) in v.a
def struct_eq(a, b, P, top=True):
    """derived equality of options and orderings (None: not of that kind)"""
    if isinstance(a, Ptr): a = P(a)
    if isinstance(b, Ptr): b = P(b)
    if isinstance(a, T) and isinstance(b, T) and not top: return mk('=', a, b) if 'R' in (sort(a), sort(b)) else iff(a, b) if is_bool(a) else eq(a, b)
    if not (isinstance(a, Agg) and isinstance(b, Agg)) or not (a.k == b.k == 'adt') or a.t != b.t or a.t not in (OPT, ORD): return None
    if a.v != b.v: return FALSE
    cs = [struct_eq(x, y, P, False) for x, y in zip(a.f, b.f)]
    return None if any(c is None for c in cs) else and_(*cs)
def impl_of(ex, trait, method, *tys):
    """crate-local impl body of `trait` for the given type"""
    T0 = strip_env(tys[0])
    for k, f in ex.p.fns.items():
        n = f['name']
        if not n.endswith('::' + method): continue
        if n == '<%s as %s>::%s' % (T0, trait, method) or n.endswith('<impl %s for %s>::%s' % (trait, T0, method)): return k
    return None
def into_target(ex, callee, argtys, rty):
    """Into::into through the blanket impl: find the crate-local From impl"""
    if not argtys: return None
    want = '<%s as std::convert::From<%s>>::from' % (strip_env(rty), strip_env(argtys[0]))
    for k, f in ex.p.fns.items():
        if f['name'] == want or f['path'] == want: return k
        if f['name'].endswith('<impl std::convert::From<%s> for %s>::from' % (strip_env(argtys[0]), strip_env(rty))): return k
    return None
def strip_env(t): return re.sub(r'@[^@]*$', '', t)

def uninit_value(ex, tk):
    t = ex.p.ty(tk)
    if t['k'] == 'adt' and 'MaybeUninit' in t['path']: return uninit_value(ex, t['args'][0])
    if t['k'] == 'array':
        n = ex.dim(t['n'])
        if isinstance(n, int): return Arr([uninit_value(ex, t['t']) for _ in range(n)])
        return Seq(var(n, 'I'), lambda i: UNINIT, 'uninit')
    return UNINIT

def checked_int(ex, st, op, a, b, t, loc):
    lo, hi = IRANGE[t['n']]
    if op in ('Div', 'Rem'):
        nz = not_(eq(b, ZERO))
        return fcmp_paths(ex, st, [(nz, (idiv if op == 'Div' else imod)(a, b, lo < 0)), (not_(nz), Panic('assert:DivisionByZero', loc))])
    r = {'Add': add, 'Sub': sub, 'Mul': mul}[op](a, b)
    if t['k'] == 'uint' and op == 'Sub': inr = le(num(lo), r)
    else: inr = and_(le(num(lo), r), le(r, num(hi)))
    if inr is TRUE: return [(st, r)]
    return fcmp_paths(ex, st, [(inr, r), (not_(inr), Panic('assert:Overflow', loc))])

def vec_method(ex, st, name, args, argtys, rty, loc):
    q = args[0]
    while isinstance(q, Ptr) and isinstance(ex.read(st, q.c, q.p), Ptr): q = ex.read(st, q.c, q.p)
    v = ex.read(st, q.c, q.p) if isinstance(q, Ptr) else q
    if isinstance(v, Agg) and v.k == 'box': q = v.f[0]; v = ex.read(st, q.c, q.p)
    if isinstance(v, Abs): raise Unsupported('method %s of an opaque sequence' % name)
    if name in ('iter', 'iter_mut'): return [(st, It('slice', q))]
    if name == 'len': return [(st, seqlen(v))]
    if name == 'is_empty': return [(st, eq(seqlen(v), ZERO))]
    if name == 'map':
        f = args[1]
        if isinstance(v, Arr): return [(s, r if isinstance(r, Panic) else Arr(r)) for s, r in seqmap(ex, st, f, v.e)]
        return consume(ex, st, It('map', It('seq', v), f), 'collect', (), loc)
    if name in ('as_ptr', 'as_mut_ptr', 'as_slice', 'as_mut_slice', 'as_ref', 'into_boxed_slice'): return [(st, q)]
    if name == 'to_vec': return [(st, v)]
    if name in ('clone',): return [(st, v)]
    if name == 'push' and isinstance(v, Arr): ex.write(st, q.c, q.p, Arr(v.e + [args[1]])); return [(st, UNIT)]
    if name == 'push':
        n = v.n; g = v.get
        ex.write(st, q.c, q.p, PushSeq(v, args[1])); return [(st, UNIT)]
    if name == 'pop':
        if isinstance(v, Arr):
            if not v.e: return [(st, NONE)]
            ex.write(st, q.c, q.p, Arr(v.e[:-1])); return [(st, some(v.e[-1]))]
        n = v.n; out = []
        s1 = st.fork().assume(eq(n, ZERO)); s2 = st.fork().assume(lt(ZERO, n))
        if ex.ok(s1): out.append((s1, NONE))
        if ex.ok(s2):
            last = v.get(sub(n, ONE)); g = v.get
            ex.write(s2, q.c, q.p, Seq(sub(n, ONE), g, v.name)); out.append((s2, some(last)))
        return out
    if name == 'truncate' and isinstance(v, Arr) and args[1].op == 'num': ex.write(st, q.c, q.p, Arr(v.e[:int(args[1].a[0])])); return [(st, UNIT)]
    if name in ('first', 'last'):
        if isinstance(v, Arr):
            return [(st, some(Ptr(q.c, q.p + (('i', num(0 if name == 'first' else len(v.e) - 1)),))) if v.e else NONE)]
    if name == 'swap' and isinstance(v, Arr):
        i, j = int(args[1].a[0]), int(args[2].a[0]); e = list(v.e); e[i], e[j] = e[j], e[i]; ex.write(st, q.c, q.p, Arr(e)); return [(st, UNIT)]
    if name == 'get':
        i = args[1]
        if isinstance(i, T):
            inb = lt(i, seqlen(v))
            return fcmp_paths(ex, st, [(inb, some(Ptr(q.c, q.p + (('i', i),)))), (not_(inb), NONE)])
    if name == 'reverse' and isinstance(v, Arr): ex.write(st, q.c, q.p, Arr(v.e[::-1])); return [(st, UNIT)]
    if name == 'contains' and isinstance(v, Arr):
        x = peel(ex, st, args[1]); return [(st, or_(*[mk('=', x, y) for y in v.e]))]
    if name == 'fill' and isinstance(v, Arr): ex.write(st, q.c, q.p, Arr([args[1]] * len(v.e))); return [(st, UNIT)]
    raise Unsupported('sequence method ' + name)

def abstract_call(ex, st, callee, args, argtys, rty, loc):
    """a method of an abstract (type parameter) implementor: an uninterpreted
    function of its arguments -- exactly what its trait contract lets us assume"""
    if not callee.get('path'): raise Unsupported('call')
    ex_kind = callee.get('kind')
    path = normpath(callee['path'])
    selfs = [ex.p.ty(a)['k'] for a in callee.get('args', []) if isinstance(a, str)]
    if ex_kind in ('unresolved', 'Virtual') or 'param' in selfs or 'alias' in selfs:
        ts = []
        for a in args: ts += unterm(peel(ex, st, a))
        t = ex.p.ty(rty)
        if t['k'] == 'adt' and t['path'] in (RES, OPT):
            c = app(path + '.is_ok', 'B', *ts)
            s2 = st.fork().assume(not_(c)); st.assume(c)
            out = []
            if ex.ok(st): out.append((st, (ok if t['path'] == RES else some)(absval(ex, t['args'][0], path + '.ok', ts))))
            if ex.ok(s2): out.append((s2, err(absval(ex, t['args'][1], path + '.err', ts)) if t['path'] == RES else NONE))
            return out
        return [(st, absval(ex, rty, path, ts))]
    raise Unsupported('call to ' + (callee.get('rname') or path))
def absval(ex, tk, name, ts):
    t = ex.p.ty(tk); k = t['k']
    if k == 'float': return app(name, 'R', *ts)
    if k == 'bool': return app(name, 'B', *ts)
    if k in ('int', 'uint'): return app(name, 'I', *ts)
    if k == 'tuple': return Agg('tuple', [absval(ex, u, name + '.%d' % i, ts) for i, u in enumerate(t['ts'])])
    if k == 'array':
        n = ex.dim(t['n']); n = n if isinstance(n, int) else None
        if n is not None: return Arr([absval(ex, t['t'], name, ts + [num(i)]) for i in range(n)])
        return Seq(var(t['n'], 'I'), lambda i: absval(ex, t['t'], name, ts + [i]), name + '(' + ','.join(map(show, ts)) + ')')
    if k == 'adt' and t['local'] and not t['enum'] and t['variants']:
        return Agg('adt', [absval(ex, ft, name + '.' + fn_, ts) for fn_, ft in t['variants'][0]['fields']], 0, t['path'])
    return Abs(app(name, 'U', *ts), tk)
