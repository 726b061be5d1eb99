"""tools/dbg.py Pxx contract-id: proves one contract against the last export of that property and prints everything"""
import sys, os, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/specs']; sys.setrecursionlimit(100000)
from contract import *
m = importlib.import_module(sys.argv[1].lower())
cs = [c for c in m.contracts() + (m.mv() if hasattr(m, 'mv') else []) if c.cid == sys.argv[2]]
prog = Program((os.environ.get('RSTAT_VERIF_BUILD') or V + '/build') + '/out/%s/mir.json' % sys.argv[1])
for c in cs:
    pr = Prover(prog, c); res = pr.run()
    for o in res.obl:
        print(o[1], o[0])
        if o[1] == 'failed' and isinstance(o[2], tuple):
            for h in o[2][0].pc: print('     ', show(h)[:1500])
            print('   result', repr(o[2][1])[:1500])
            if len(o[2]) > 3: print('   why', o[2][3])
    print(res.err or '', 'inv', res.invariants, '%.1fs' % res.t)
