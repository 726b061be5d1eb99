from contract import *
USE = 'use crate::params::constraints::*;\n'
SAT = 'params::constraints::Constraint::is_satisfied_by'
def P(c, x):
    ts = []
    def go(v):
        if isinstance(v, T): ts.append(v)
        elif isinstance(v, Abs): ts.append(v.t)
        else: ts.extend(models.unterm(v))
    go(c); go(x)
    return app(SAT, 'B', *ts)
def abstract_check(ex, st, callee, args, rty):
    """contract of Constraint::check for an abstract constraint (this is what P07 proves of every implementor)"""
    if callee.get('body') or not callee.get('kind') in ('unresolved', 'Virtual'): return None
    c, x = args
    c = models.peel(ex, st, c)
    p = P(c, x)
    out = []
    s1 = st.fork().assume(p); s2 = st.fork().assume(not_(p))
    if ex.ok(s1): out.append((s1, ok(x)))
    if ex.ok(s2): out.append((s2, err(Agg('adt', [x, NONE, Abs(var('boxed constraint', 'U'))], 0, 'params::constraints::UnsatisfiedConstraintError'))))
    return out
ICEPT = {'params::constraints::Constraint::check': abstract_check}
