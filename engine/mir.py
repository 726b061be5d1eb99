"""Symbolic execution of rustc MIR (exported by /verif/driver) into path
conditions and result terms: the verification-condition generator.

Loops over symbolic ranges are not unrolled: they are cut at the iterator's
`next`, the body is executed once for an arbitrary iteration from an arbitrary
(havocked) state, an inductive invariant in closed form (sum, product, pointwise
array definition) is derived and is what the code after the loop sees.
"""
import json, itertools, re
from term import *
from smt import ELEMRANGE

class Unsupported(Exception): pass
class Recursion(Unsupported): pass

_cnt = itertools.count()
def fresh(prefix, sort='R'): return var('%s!%d' % (prefix, next(_cnt)), sort)

# ---------------------------------------------------------------- values
class Agg:
    """struct / tuple / enum variant / closure"""
    __slots__ = ('k', 'v', 'f', 't')
    def __init__(self, k, f, v=0, t=None): self.k = k; self.f = tuple(f); self.v = v; self.t = t
    def with_f(self, i, x):
        f = list(self.f)
        while len(f) <= i: f.append(UNINIT)
        f[i] = x
        return Agg(self.k, f, self.v, self.t)
    def __repr__(self): return '%s#%d%r' % (self.k if self.k != 'adt' else (self.t or 'adt').split('::')[-1], self.v, list(self.f))
class Arr:
    """sequence of concrete length (array, slice target, Vec)"""
    __slots__ = ('e',)
    def __init__(self, e): self.e = list(e)
    def __repr__(self): return 'Arr%r' % (self.e,)
    @property
    def n(self): return num(len(self.e))
class Seq:
    """sequence of symbolic length: n is an Int term, get(i) a value"""
    __slots__ = ('n', 'get', 'name')
    def __init__(self, n, get, name=''): self.n = n; self.get = get; self.name = name
    def __repr__(self): return 'Seq<%s;%s>' % (self.name, self.n)
class Ptr:
    __slots__ = ('c', 'p')
    def __init__(self, c, p=()): self.c = c; self.p = tuple(p)
    def __repr__(self): return '&%s%s' % (self.c, ''.join('.%s' % (x,) for x in self.p))
class Fn:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
    def __repr__(self): return 'Fn(%s)' % self.c.get('path')
class Abs:
    """opaque value of an abstract or unmodelled type, identified by a term of sort U"""
    __slots__ = ('t', 'ty')
    def __init__(self, t, ty=None): self.t = t; self.ty = ty
    def __repr__(self): return 'Abs(%s)' % self.t
class It:
    __slots__ = ('k', 'a')
    def __init__(self, k, *a): self.k = k; self.a = a
    def __repr__(self): return 'It.%s%r' % (self.k, list(self.a))
class _U:
    def __repr__(self): return 'UNINIT'
UNINIT = _U()
UNIT = Agg('tuple', ())
class Str:
    __slots__ = ('s', 'lit')
    def __init__(self, s, lit=False): self.s = s; self.lit = lit       # lit: s is the text itself, otherwise a name for it
    def __repr__(self): return 'Str(%r)' % self.s

class Panic:
    def __init__(self, kind, where=''): self.kind = kind; self.where = where
    def __repr__(self): return 'Panic(%s @%s)' % (self.kind, self.where)

class State:
    __slots__ = ('mem', 'pc', 'steps', 'log')
    def __init__(self, mem=None, pc=(), steps=0, log=()): self.mem = mem if mem is not None else {}; self.pc = tuple(pc); self.steps = steps; self.log = log
    def fork(self): return State(dict(self.mem), self.pc, self.steps, self.log)
    def assume(self, c):
        if c is TRUE: return self
        if c.op == 'and': self.pc = self.pc + tuple(x for x in c.a if x not in self.pc)
        elif c not in self.pc: self.pc = self.pc + (c,)
        return self
    def new(self, v, hint='c'):
        c = '%s%d' % (hint, next(_cnt)); self.mem[c] = v; return c

def variant(t, v, *f): return Agg('adt', f, v, t)
OPT = 'std::option::Option'; RES = 'std::result::Result'
def some(x): return variant(OPT, 1, x)
NONE = variant(OPT, 0)
def ok(x): return variant(RES, 0, x)
def err(x): return variant(RES, 1, x)

IRANGE = {'char': (0, 0x10ffff), 'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'usize': (0, 2**64-1), 'u128': (0, 2**128-1),
          'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'isize': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1)}

def leafmap(f, *vs):
    """apply f on corresponding scalar leaves of equally shaped values"""
    v = vs[0]
    if isinstance(v, T): return f(*vs)
    if any(type(w) is not type(v) for w in vs):
        if all(isinstance(w, (Arr, Seq)) for w in vs): return Seq(vs[0].n, lambda i: leafmap(f, *[seq_get(w, i) for w in vs]))
        raise Unsupported('merge of differently shaped values %r' % (vs,))
    if isinstance(v, Agg):
        if any(w.v != v.v or len(w.f) != len(v.f) for w in vs): raise Unsupported('merge of different variants')
        return Agg(v.k, [leafmap(f, *x) for x in zip(*[w.f for w in vs])], v.v, v.t)
    if isinstance(v, Arr):
        if any(len(w.e) != len(v.e) for w in vs): raise Unsupported('merge of arrays of different length')
        return Arr([leafmap(f, *x) for x in zip(*[w.e for w in vs])])
    if isinstance(v, Seq):
        return Seq(v.n, lambda i: leafmap(f, *[w.get(i) for w in vs]), v.name)
    if isinstance(v, Abs):
        if all(w.t is v.t for w in vs): return v
        return Abs(f(*[w.t for w in vs]), v.ty)
    if isinstance(v, Ptr):
        if all(w.c == v.c and w.p == v.p for w in vs): return v
        raise Unsupported('merge of pointers')
    if isinstance(v, It):
        if all(w.k == v.k for w in vs): return It(v.k, *[leafmap(f, *x) for x in zip(*[w.a for w in vs])])
    if v is UNINIT or isinstance(v, (Str, Fn)): return v
    if isinstance(v, (int, str)) or v is None: return v
    raise Unsupported('merge %r' % (v,))

def seq_get(s, i):
    if isinstance(s, Arr):
        if i.op == 'num':
            k = int(i.a[0])
            if 0 <= k < len(s.e): return s.e[k]
            raise Unsupported('index %s out of array of %d' % (k, len(s.e)))
        if not s.e: raise Unsupported('index into empty array')
        r = s.e[-1]
        for k in range(len(s.e) - 2, -1, -1): r = merge(eq(i, num(k)), s.e[k], r)
        return r
    if isinstance(s, Seq): return s.get(i)
    raise Unsupported('index into %r' % (s,))

def merge(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    return leafmap(lambda x, y: ite(c, x, y), a, b)

def seq_set(s, i, v):
    if isinstance(s, Arr) and i.op == 'num':
        e = list(s.e); e[int(i.a[0])] = v; return Arr(e)
    if isinstance(s, Arr):
        return Arr([merge(eq(i, num(k)), v, x) if x is not UNINIT else v for k, x in enumerate(s.e)])
    if isinstance(s, Seq):
        g = s.base if isinstance(s, SeqUpd) and s.i is i else s.get
        return SeqUpd(s.n, g, i, v)
    raise Unsupported('store into %r' % (s,))

class SeqUpd(Seq):
    __slots__ = ('base', 'i', 'v')
    def __init__(self, n, base, i, v):
        self.base = base; self.i = i; self.v = v
        def get(j):
            if j is i: return v
            c = eq(i, j)
            if c is FALSE: return base(j)
            o = base(j)
            if o is UNINIT: return v
            return merge(c, v, o)
        Seq.__init__(self, n, get, 'upd')

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']; self.fns = d['fns']; self.roots = d['roots']
        self.by_name = {}
        for r in self.roots: self.by_name.setdefault(r['name'], r)
    def ty(self, k): return self.types.get(k) or {'k': 'other', 'n': k}

def normpath(p):
    p = p.replace('failure::core::', 'std::').replace('core::panicking', 'std::panicking')
    p = re.sub(r'^core::', 'std::', p)
    return p

class Exec:
    split_abs = True
    def __init__(self, prog, feasible=None, max_steps=20000, max_paths=400, consts=None, intercept=None, unroll=64, sizes=None):
        self.sizes = sizes or {}; self.p = prog; self.feasible = feasible or (lambda pc: True)
        self.max_steps = max_steps; self.max_paths = max_paths
        self.stack = []
        self.cval = {}           # const body cache
        self.used = set()        # bodies executed
        self.assumed = set()     # external contracts relied on
        self.intercept = intercept or {}
        self.unroll = unroll
        self.bounded = False     # set when a symbolic loop had to be unrolled
        self.invariants = []     # derived loop invariants
        import models
        self.models = models

    # ---- symbolic inputs
    def sym(self, st, tk, name, sizes=None, inv=None):
        """an arbitrary value of type tk; integer ranges are assumed in st"""
        t = self.p.ty(tk); k = t['k']
        if k == 'float': return var(name, 'R')
        if k == 'bool': return var(name, 'B')
        if k in ('int', 'uint'):
            v = var(name, 'I'); lo, hi = IRANGE[t['n']]
            st.assume(le(num(lo), v)); st.assume(le(v, num(hi)))
            return v
        if k == 'ref' or k == 'ptr':
            u = self.p.ty(t['t'])
            if u['k'] == 'str': return Str(name)
            c = st.new(self.sym(st, t['t'], name, sizes), 'r')
            return Ptr(c)
        if k == 'tuple': return Agg('tuple', [self.sym(st, u, '%s.%d' % (name, i), sizes) for i, u in enumerate(t['ts'])])
        if k == 'array':
            n = self.dim(t['n'], sizes)
            if isinstance(n, int): return Arr([self.sym(st, t['t'], '%s[%d]' % (name, i), sizes) for i in range(n)])
            N = var(n, 'I'); st.assume(le(ZERO, N)); st.assume(le(N, num(2**24)))
            return self.symseq(t['t'], N, name)
        if k == 'slice':
            n = (sizes or {}).get(name) if sizes else None
            if n is None and sizes: n = sizes.get('slice')
            if n is not None: return Arr([self.sym(st, t['t'], '%s[%d]' % (name, i), sizes) for i in range(n)])
            N = var('len(%s)' % name, 'I'); st.assume(le(ZERO, N)); st.assume(le(N, num(2**24)))
            return self.symseq(t['t'], N, name)
        if k == 'adt':
            if t['path'] in ('std::vec::Vec', 'alloc::vec::Vec'):
                n = (sizes or {}).get(name) if sizes else None
                if n is None and sizes: n = sizes.get('vec')
                if n is not None: return Arr([self.sym(st, t['args'][0], '%s[%d]' % (name, i), sizes) for i in range(n)])
                N = var('len(%s)' % name, 'I'); st.assume(le(ZERO, N)); st.assume(le(N, num(2**24)))
                return self.symseq(t['args'][0], N, name)
            if t['path'] == 'std::boxed::Box':
                return Agg('box', [Ptr(st.new(self.sym(st, t['args'][0], name, sizes), 'b'))])
            if not t['enum'] and t['variants'] and (t['local'] or t['path'].startswith('std::ops::')):
                return Agg('adt', [self.sym(st, ft, '%s.%s' % (name, fnm), sizes) for fnm, ft in t['variants'][0]['fields']], 0, t['path'])
            return Abs(var(name, 'U'), tk)
        if k in ('param', 'alias', 'dyn', 'other', 'str'): return Abs(var(name, 'U'), tk)
        raise Unsupported('symbolic value of type ' + tk)

    def dim(self, n, sizes=None):
        if isinstance(n, str):
            n = (sizes or {}).get(n, n)
            n = self.sizes.get(n, n)
        return n
    def symseq(self, tk, N, name, idx=()):
        return Seq(N, lambda i: self.symapp(tk, name, idx + (i,)), name)
    def symapp(self, tk, name, idx):
        t = self.p.ty(tk); k = t['k']
        if k == 'float': return app(name, 'R', *idx)
        if k == 'bool': return app(name, 'B', *idx)
        if k in ('int', 'uint'): ELEMRANGE[name] = IRANGE[t['n']]; return app(name, 'I', *idx)
        if k == 'array':
            n = self.dim(t['n'])
            if isinstance(n, int): return Arr([self.symapp(t['t'], name, idx + (num(j),)) for j in range(n)])
            return self.symseq(t['t'], var(n, 'I'), name, idx)
        if k == 'tuple': return Agg('tuple', [self.symapp(u, '%s.%d' % (name, i), idx) for i, u in enumerate(t['ts'])])
        if k == 'adt' and not t['enum'] and t['variants'] and t['local']:
            return Agg('adt', [self.symapp(ft, '%s.%s' % (name, fnm), idx) for fnm, ft in t['variants'][0]['fields']], 0, t['path'])
        if k in ('param', 'alias', 'dyn', 'other', 'adt'): return Abs(app(name, 'U', *idx), tk)
        raise Unsupported('symbolic element of type ' + tk)

    # ---- memory
    def read(self, st, c, path):
        v = st.mem[c]
        for x in path: v = self.proj(st, v, x)
        return v
    def proj(self, st, v, x):
        if isinstance(x, int):
            if isinstance(v, Agg):
                if x < len(v.f): return v.f[x]
                if v.k == 'union': return v.f[0]
                raise Unsupported('field %d of %r' % (x, v))
            if v is UNINIT: return UNINIT
            if isinstance(v, Abs): return Abs(app('field%d' % x, 'U', v.t))
            raise Unsupported('field of %r' % (v,))
        if x[0] == 'i': return seq_get(v, x[1])
        if x[0] == 'd':
            if isinstance(v, Agg) and v.k == 'adt':
                if v.v != x[1]: raise Unsupported('downcast of the wrong variant')
                return v
            return v
        if x[0] == 'sl':
            return self.models.subslice(v, x[1], x[2])
        raise Unsupported('projection %r' % (x,))
    def write(self, st, c, path, val):
        st.mem[c] = self.upd(st, st.mem.get(c, UNINIT), path, val)
    def upd(self, st, v, path, val):
        if not path: return val
        x = path[0]
        if isinstance(x, int):
            if isinstance(v, Agg): return v.with_f(x, self.upd(st, v.f[x] if x < len(v.f) else UNINIT, path[1:], val))
            if v is UNINIT: return Agg('tuple', ()).with_f(x, self.upd(st, UNINIT, path[1:], val))
            raise Unsupported('store to a field of %r' % (v,))
        if x[0] == 'i':
            if len(path) == 1: return seq_set(v, x[1], val)
            return seq_set(v, x[1], self.upd(st, seq_get(v, x[1]), path[1:], val))
        if x[0] == 'd': return self.upd(st, v, path[1:], val)
        raise Unsupported('store through %r' % (x,))

    def place(self, st, fr, pl):
        """resolve a MIR place to (cell, path)"""
        c = fr[pl[0]]; path = ()
        for e in pl[1]:
            if e == '*':
                v = self.read(st, c, path)
                if isinstance(v, Ptr): c, path = v.c, v.p
                elif isinstance(v, (Abs, Str, Arr, Seq, Agg, It)):   # Box or pointer to an opaque value
                    if isinstance(v, (Agg, Arr, Seq)): pass
                    else: c = st.new(v, 'o'); path = ()
                else: raise Unsupported('deref of %r' % (v,))
            elif e[0] == 'f': path = path + (e[1],)
            elif e[0] == 'i':
                path = path + (('i', self.read(st, fr[e[1]], ())),)
            elif e[0] == 'c':
                if e[2]:
                    n = seqlen(self.read(st, c, path)); path = path + (('i', sub(n, num(e[1]))),)
                else: path = path + (('i', num(e[1])),)
            elif e[0] == 'd': path = path + (('d', e[1]),)
            else: raise Unsupported('place projection %r' % (e,))
        return c, path

    # ---- operands
    def const(self, st, c):
        tk = c['t']; t = self.p.ty(tk); k = t['k']
        if 'promoted' in c:
            return self.constbody(st, c['promoted'])
        if k == 'fndef': return Fn(t['callee'])
        if 'cbody' in c and k not in ('int', 'uint', 'bool'):
            return self.constbody(st, c['cbody'])
        if k == 'float':
            path = normpath(c.get('path', ''))
            m = {'std::f64::consts::PI': PI, 'std::f64::consts::E': E, 'std::f64::consts::LN_2': ln(TWO), 'std::f64::consts::SQRT_2': sqrt(TWO),
                 'std::f64::consts::FRAC_PI_2': div(PI, TWO), 'std::f64::consts::FRAC_PI_3': div(PI, num(3)), 'std::f64::consts::FRAC_PI_4': div(PI, num(4)),
                 'std::f64::consts::FRAC_PI_6': div(PI, num(6)), 'std::f64::consts::FRAC_PI_8': div(PI, num(8)),
                 'std::f64::consts::FRAC_1_PI': div(ONE, PI), 'std::f64::consts::FRAC_2_PI': div(TWO, PI), 'std::f64::consts::TAU': mul(TWO, PI),
                 'std::f64::consts::FRAC_1_SQRT_2': div(ONE, sqrt(TWO)), 'std::f64::consts::FRAC_2_SQRT_PI': div(TWO, sqrt(PI)),
                 'std::f64::consts::LN_10': ln(num(10)), 'std::f64::consts::LOG2_E': div(ONE, ln(TWO)), 'std::f64::consts::LOG10_E': div(ONE, ln(num(10))),
                 'std::f64::consts::EULER_GAMMA': EULER}
            if path in m: return m[path]
            if 'bits' in c: return fbits(int(c['bits']))
            raise Unsupported('float constant %r' % c)
        if k == 'bool': return TRUE if int(c['bits']) else FALSE
        if k == 'char' and 'bits' in c: return num(int(c['bits']))
        if k in ('int', 'uint'):
            if 'ctparam' in c and isinstance(c['ctparam'], str) and not re.match(r'-?\d', c['ctparam']):
                if c['ctparam'] in self.sizes: return num(self.sizes[c['ctparam']])
                N = var(c['ctparam'], 'I'); st.assume(le(ZERO, N)); st.assume(le(N, num(2**24)))
                return N
            if 'bits' not in c: raise Unsupported('integer constant %r' % c)
            b = int(c['bits']); lo, hi = IRANGE[t['n']]
            if b > hi: b -= (hi - lo + 1)
            return num(b)
        if k == 'ref':
            u = self.p.ty(t['t'])
            if u['k'] == 'str': return Str(c.get('str', ''), 'str' in c)
            return Abs(var('const:' + c.get('dbg', c.get('path', '?')), 'U'), tk)
        if k == 'tuple' and not t['ts']: return UNIT
        if k == 'adt':
            if c.get('zst'): return Agg('adt', (), 0, t['path'])
            if t['variants'] and not t['enum'] and not t['variants'][0]['fields']: return Agg('adt', (), 0, t['path'])
            if t['enum'] and c.get('dbg'):
                nm = c['dbg'].split('::')[-1].split(' ')[-1]
                for i, v in enumerate(t['variants']):
                    if v['name'] == nm and not v['fields']: return variant(t['path'], i)
            return Abs(var('const:' + c.get('dbg', c.get('path', '?')), 'U'), tk)
        if k == 'closure': return Agg('closure', (), 0, tk)
        return Abs(var('const:' + c.get('dbg', c.get('path', '?')), 'U'), tk)

    def constbody(self, st, key):
        if key in self.cval:
            v, cells = self.cval[key]
            st.mem.update(cells); return v
        s2 = State()
        rs = self.run(key, [], s2)
        if len(rs) != 1 or isinstance(rs[0][1], Panic): raise Unsupported('constant %s' % key)
        s3, v = rs[0]
        self.cval[key] = (v, dict(s3.mem))
        st.mem.update(s3.mem)
        return v

    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            c, path = self.place(st, fr, o[1])
            return self.read(st, c, path)
        if o[0] == 'const': return self.const(st, o[1])
        if o[0] == 'rtcheck': return FALSE
        raise Unsupported('operand %r' % (o,))

    # ---- rvalues
    def rvalue(self, st, fr, r, dest_ty=None):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k in ('ref', 'reborrow'):
            c, path = self.place(st, fr, r[2]); return Ptr(c, path)
        if k == 'rawptr':
            c, path = self.place(st, fr, r[1]); return Ptr(c, path)
        if k == 'bin': return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.p.ty(r[4]))
        if k == 'un':
            x = self.operand(st, fr, r[2]); t = self.p.ty(r[3])
            if r[1] == 'Neg':
                if t['k'] == 'float': return mk('neg', x)
                return neg(x)
            if r[1] == 'Not':
                if t['k'] == 'bool': return not_(x)
                raise Unsupported('bitwise not')
            if r[1] == 'PtrMetadata':
                return seqlen(self.read(st, x.c, x.p)) if isinstance(x, Ptr) else UNIT
            raise Unsupported('unop ' + r[1])
        if k == 'cast' and len(r) > 5 and r[5]: return self.unsize(st, self.operand(st, fr, r[2]), r[5])
        if k == 'cast': return self.cast(st, r[1], self.operand(st, fr, r[2]), self.p.ty(r[3]), self.p.ty(r[4]), r[4])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[3]]
            if r[1] == 'array': return Arr(ops)
            if r[1] == 'tuple': return Agg('tuple', ops)
            if r[1] == 'closure': return Agg('closure', ops, 0, r[4])
            if r[1] == 'adt':
                t = self.p.ty(r[4])
                if r[5] is not None: return Agg('union', [ops[0]], 0, t['path'])
                return Agg('adt', ops, r[2], t['path'])
            if r[1] == 'rawptr': return ops[0]
        if k == 'repeat':
            x = self.operand(st, fr, r[1]); n = self.dim(r[2])
            if isinstance(n, int): return Arr([x] * n)
            N = var(n, 'I'); st.assume(le(ZERO, N)); st.assume(le(N, num(2**24)))
            return Seq(N, lambda i: x, 'repeat')
        if k == 'discr':
            c, path = self.place(st, fr, r[1]); v = self.read(st, c, path)
            if isinstance(v, Agg) and v.k == 'adt':
                return num(self.discr_of(v))
            raise Unsupported('discriminant of %r' % (v,))
        raise Unsupported('rvalue %r' % (r[:2],))
    def discr_of(self, v):
        if v.t == 'std::cmp::Ordering': return v.v - 1
        return v.v

    def binop(self, st, op, x, y, t):
        k = t['k']
        if k == 'float':
            m = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': 'fmod'}
            if op in m: return mk(m[op], x, y)
            if op == 'Lt': return mk('<', x, y)
            if op == 'Le': return mk('<=', x, y)
            if op == 'Gt': return mk('<', y, x)
            if op == 'Ge': return mk('<=', y, x)
            if op == 'Eq': return mk('=', x, y)
            if op == 'Ne': return not_(mk('=', x, y))
            raise Unsupported('float ' + op)
        if k in ('int', 'uint'):
            lo, hi = IRANGE[t['n']]
            if op in ('Add', 'AddUnchecked'): r = add(x, y)
            elif op in ('Sub', 'SubUnchecked'): r = sub(x, y)
            elif op in ('Mul', 'MulUnchecked'): r = mul(x, y)
            elif op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
                f = {'A': add, 'S': sub, 'M': mul}[op[0]]
                r = f(x, y)
                return Agg('tuple', [r, not_(and_(le(num(lo), r), le(r, num(hi))))])
            elif op == 'Div': return idiv(x, y, lo < 0)
            elif op == 'Rem': return imod(x, y, lo < 0)
            elif op == 'Lt': return lt(x, y)
            elif op == 'Le': return le(x, y)
            elif op == 'Gt': return lt(y, x)
            elif op == 'Ge': return le(y, x)
            elif op == 'Eq': return eq(x, y)
            elif op == 'Ne': return not_(eq(x, y))
            elif op in ('BitAnd', 'BitOr', 'BitXor') and lo == 0:
                m = iand(x, y)                                    # x | y = x + y - (x & y), x ^ y = x + y - 2 (x & y)
                return m if op == 'BitAnd' else sub(add(x, y), m if op == 'BitOr' else mul(num(2), m))
            elif op == 'BitAnd' and y.op == 'num' and y.a[0] == 1: return imod(x, num(2), False)
            elif op in ('Shr', 'ShrUnchecked') and y.op == 'num': return idiv(x, num(2 ** int(y.a[0])), False)
            elif op in ('Shl', 'ShlUnchecked') and y.op == 'num': return self.wrap(mul(x, num(2 ** int(y.a[0]))), t)
            else: raise Unsupported('int ' + op)
            return self.wrap(r, t) if op in ('Add', 'Sub', 'Mul') else r
        if k == 'bool':
            if op == 'Eq': return iff(x, y)
            if op == 'Ne': return not_(iff(x, y))
            if op == 'BitAnd': return and_(x, y)
            if op == 'BitOr': return or_(x, y)
            if op == 'BitXor': return not_(iff(x, y))
        if k in ('ptr',) and op in ('Eq', 'Ne'):
            raise Unsupported('pointer comparison')
        raise Unsupported('binop %s on %s' % (op, k))
    def wrap(self, r, t):
        lo, hi = IRANGE[t['n']]
        if r.op == 'var' and r.a[1] == 'I' and hi >= 2**24 and not re.search(r'[a-z!]', r.a[0]): return r   # const generic parameter, assumed <= 2^24
        if r.op == 'num':
            v = int(r.a[0]); m = hi - lo + 1
            return num((v - lo) % m + lo)
        return ite(and_(le(num(lo), r), le(r, num(hi))), r, mk('wrap', r, num(lo), num(hi)))

    def cast(self, st, kind, x, s, d, dk):
        if kind == 'IntToFloat':
            if d.get('n') == 'f32': raise Unsupported('f32')
            return mk('i2f', x)
        if kind == 'FloatToInt':
            lo, hi = IRANGE[d['n']]
            return mk('f2i', x, num(lo), num(hi))
        if kind == 'IntToInt':
            if s['k'] == 'bool': return ite(x, ONE, ZERO)
            if s['k'] == 'adt': 
                if isinstance(x, T): return x
                raise Unsupported('enum cast')
            lo, hi = IRANGE[d.get('n', 'char')]; slo, shi = IRANGE[s.get('n', 'char')]
            if lo <= slo and shi <= hi: return x
            return self.wrap(x, d)
        if kind == 'FloatToFloat':
            if s.get('n') == 'f64' and d.get('n') == 'f64': return x
            raise Unsupported('f32')
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Subtype', 'Transmute', 'BoxDerefTransmute'):
            return x
        raise Unsupported('cast ' + kind)

    def unsize(self, st, x, vt):
        """coercion to a trait object: remember the implementor's methods"""
        if isinstance(x, Agg) and x.k == 'box': return Agg('box', [self.unsize(st, x.f[0], vt)])
        if isinstance(x, Ptr): return Ptr(st.new(Agg('dyn', [self.read(st, x.c, x.p)], 0, dict(vt)), 'd'))
        if isinstance(x, Abs): return x
        raise Unsupported('unsizing of %r' % (x,))
    def devirt(self, st, callee, args):
        if not args: return None
        v = args[0]; p = None; n = 0
        while n < 20:
            n += 1
            if isinstance(v, Ptr): p = v; v = self.read(st, v.c, v.p)
            elif isinstance(v, Agg) and v.k == 'box': v = v.f[0]
            else: break
        if not (isinstance(v, Agg) and v.k == 'dyn') or p is None: return None
        key = v.t.get(callee['path'].rsplit('::', 1)[-1])
        if key is None: return None
        return self.run(key, [Ptr(p.c, p.p + (0,))] + list(args[1:]), st)

    # ---- execution
    def run(self, key, args, st):
        """-> list of (state, value or Panic)"""
        f = self.p.fns.get(key)
        if f is None: raise Unsupported('no MIR for ' + key)
        self.used.add(key)
        if key in self.stack: raise Recursion(' -> '.join(x.split('|')[0] for x in self.stack[self.stack.index(key):] + [key]))
        self.stack.append(key)
        try:
            fr = {i: None for i in range(len(f['locals']))}
            for i in fr: fr[i] = 'L%d_%d' % (next(_cnt), i)
            a = list(args)
            if f['spread'] is not None and len(a) != f['argc']:
                pass
            for i, v in enumerate(a): st.mem[fr[i + 1]] = v
            res = []
            work = [(st, 0, {})]
            while work:
                s, bb, cuts = work.pop()
                for o in self.block(f, fr, s, bb, cuts):
                    if o[0] == 'ret': res.append((o[1], o[2]))
                    else: work.append(o[1:])
                if len(res) + len(work) > self.max_paths: raise Unsupported('too many paths in ' + f['path'])
            return res
        finally:
            self.stack.pop()

    def ok(self, st):
        return self.feasible(st.pc)

    def block(self, f, fr, st, bb, cuts):
        """execute one basic block; returns ('ret', st, val) or ('go', st, bb, cuts)"""
        st.steps += 1
        if st.steps > self.max_steps: raise Unsupported('too many steps in ' + f['path'])
        b = f['blocks'][bb]
        if b is None: raise Unsupported('cleanup block')
        cut = self.models.while_cut(self, f, fr, st, bb, cuts)
        if cut is not None: return cut
        for s in b['s']:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                c, path = self.place(st, fr, s[1])
                self.write(st, c, path, v)
            elif s[0] == 'setd':
                c, path = self.place(st, fr, s[1]); v = self.read(st, c, path)
                self.write(st, c, path, Agg('adt', v.f if isinstance(v, Agg) else (), s[2], v.t if isinstance(v, Agg) else None))
            elif s[0] == 'intr': pass
        t = b['t']; k = t[0]
        where = '%s:%s' % (f['file'].replace('/repo/', ''), f['line'])
        if k == 'goto': return [('go', st, t[1], cuts)]
        if k == 'return': return [('ret', st, st.mem.get(fr[0], UNIT))]
        if k == 'drop': return [('go', st, t[2], cuts)]
        if k == 'unreachable': return []
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            c = c if t[2] else not_(c)
            out = []
            if c is not TRUE:
                s2 = st.fork().assume(not_(c))
                if self.ok(s2): out.append(('ret', s2, Panic('assert:' + t[3].split('{')[0].split('(')[0], '%s:%s' % (f['file'].replace('/repo/', ''), t[5]))))
            if c is not FALSE:
                st.assume(c)
                if not out or self.ok(st): out.append(('go', st, t[4], cuts))
            return out
        if k == 'switch':
            d = self.operand(st, fr, t[1]); ty = self.p.ty(t[2])
            out = []
            if isinstance(d, T) and is_bool(d) or ty['k'] == 'bool':
                tm = dict((int(v), b2) for v, b2 in t[3])
                br = [(d, tm.get(1, t[4])), (not_(d), tm.get(0, t[4]))]
            else:
                br = []; rest = []
                for v, b2 in t[3]:
                    v = int(v)
                    if ty['k'] == 'int':
                        lo, hi = IRANGE[ty['n']]
                        if v > hi: v -= hi - lo + 1
                    c = eq(d, num(v)); br.append((c, b2)); rest.append(not_(c))
                br.append((and_(*rest), t[4]))
            live = [(c, b2) for c, b2 in br if c is not FALSE]
            for c, b2 in live:
                s2 = st.fork() if len(live) > 1 else st
                s2.assume(c)
                if len(live) == 1 or self.ok(s2): out.append(('go', s2, b2, cuts))
            return out
        if k == 'call':
            callee = t[1]; 
            args = [self.operand(st, fr, o) for o in t[2]]
            loc = '%s:%s' % (f['file'].replace('/repo/', ''), t[7])
            # symbolic loop cut?
            cut = self.models.loop_cut(self, f, fr, st, bb, cuts, t, args)
            if cut is not None: return cut
            rs = self.call(st, callee, args, t[5], t[6], loc)
            out = []
            for s2, v in rs:
                if isinstance(v, Panic): out.append(('ret', s2, v)); continue
                if t[4] is None: raise Unsupported('returned from diverging call ' + str(callee.get('path')))
                c, path = self.place(s2, fr, t[3])
                self.write(s2, c, path, v)
                out.append(('go', s2, t[4], cuts))
            return out
        raise Unsupported('terminator ' + k)

    def call(self, st, callee, args, argtys=None, rty=None, loc=''):
        """-> list of (state, value|Panic)"""
        if 'ptr' in callee: raise Unsupported('indirect call')
        if callee.get('ctor'):
            t = self.p.ty(callee['out'])
            return [(st, Agg('adt', args, callee['variant'], t['path']))]
        h = self.intercept.get(normpath(callee.get('rname') or callee['path'])) or self.intercept.get(normpath(callee['path']))
        if h:
            r = h(self, st, callee, args, rty)
            if r is not None: return r
        if callee.get('kind') in ('Virtual', 'unresolved'):
            r = self.devirt(st, callee, args)
            if r is not None: return r
        r = self.models.call(self, st, callee, args, argtys, rty, loc)
        if r is not None: return r
        if callee.get('body'): return self.run(callee['body'], args, st)
        return self.models.abstract_call(self, st, callee, args, argtys, rty, loc)

    def callv(self, st, f, args):
        """call a function value (closure, fn item) with a list of arguments"""
        if isinstance(f, Ptr):
            g = self.read(st, f.c, f.p)
            if isinstance(g, Agg) and g.k == 'closure':
                t = self.p.ty(g.t)
                return self.run_closure(st, t, f, args)
            f = g
        if isinstance(f, Fn): return self.call(st, f.c, args)
        if isinstance(f, Agg) and f.k == 'closure':
            t = self.p.ty(f.t)
            c = st.new(f, 'clo')
            return self.run_closure(st, t, Ptr(c), args)
        raise Unsupported('call of %r' % (f,))
    def run_closure(self, st, t, ptr, args):
        body = self.p.fns.get(t['body'])
        if body is None: raise Unsupported('closure without MIR')
        selfty = self.p.ty(body['locals'][1])
        me = ptr if selfty['k'] == 'ref' else self.read(st, ptr.c, ptr.p)
        return self.run(t['body'], [me] + list(args), st)

def seqlen(v):
    if isinstance(v, (Arr, Seq)): return v.n
    raise Unsupported('length of %r' % (v,))

def idiv(x, y, signed):
    if x.op == 'num' and y.op == 'num' and y.a[0] != 0:
        a, b = int(x.a[0]), int(y.a[0]); q = abs(a) // abs(b)
        return num(q if (a >= 0) == (b >= 0) else -q)
    if y is ONE: return x
    return mk('idiv', x, y) if not signed else mk('tdiv', x, y)
def iand(x, y):
    '''bitwise and of unsigned integers'''
    if x.op == 'num': x, y = y, x
    if y.op == 'num':
        b = int(y.a[0])
        if x.op == 'num': return num(int(x.a[0]) & b)
        if b & (b + 1) == 0: return imod(x, num(b + 1), False)      # a mask of low bits
    return mk('app', 'iand', 'I', *sorted((x, y), key=repr))
def imod(x, y, signed):
    if x.op == 'num' and y.op == 'num' and y.a[0] != 0:
        a, b = int(x.a[0]), int(y.a[0]); q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
        return num(a - q * b)
    return mk('imod', x, y) if not signed else mk('tmod', x, y)
