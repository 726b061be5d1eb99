"""Runs the check of one property: build, prove, replay, report."""
import re, os, sys, json, time, importlib, multiprocessing as mp, traceback, random, hashlib, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'specs'))
sys.setrecursionlimit(100000)
from workspace import *
import contract as K
from contract import *
import smt as smtmod
import directed
from directed import reaches

BASE_TRUST = [
    'rustc (nightly) as MIR producer and its MIR semantics; the exporter /verif/driver; the symbolic executor and normaliser in /verif/engine',
    'z3 4.8.12 (SMT back end)',
    'models of std (Option/Result/iterators/Vec/slices/f64 intrinsics), num traits, rand_distr constructors and special-fun in /verif/engine/models.py',
    'the stand-in crate /verif/stubs/spaces for the missing path dependency ../spaces',
]

_G = {}
def _prove(i, scale=1):
    t0 = time.time()
    c = _G['cs'][i]
    smtmod.SCALE[0] = scale
    if scale != 1: c.timeout *= 2
    smtmod.STATS.update(queries=0, time=0.0, unknown=0)
    pr = Prover(_G['prog'], c)
    res = pr.run()
    inputs = []; unreached = []; hits = []
    try:
        if hasattr(pr, 'a') and c.replay:
            seen = 0; rnd = None; t1 = time.time()
            rp = Replayer(None, _G['seed'])
            for o in res.obl:
                if getattr(c, 'sampled', None):
                    # random results: the companion contract compares many draws of the real code with the distribution
                    if o[1] == 'failed' and isinstance(o[2], tuple): inputs += model_inputs(pr, pr.facts(o[2][0].pc) + pr.hy, tries=2)
                    elif o[1] == 'failed': unreached.append(o[0])
                elif o[1] == 'failed' and isinstance(o[2], tuple):
                    s = o[2][0]; hy = pr.facts(s.pc) + pr.hy
                    ext = []
                    if len(o[2]) > 2 and o[2][2][0] == 'holds': ext = [not_(pr.R(o[2][2][2]))]
                    mine = []
                    if seen < 12 and time.time() - t0 < 60: mine = model_inputs(pr, hy, ext); seen += 1
                    if rnd is None: rnd = rp.inputs(c, 150)
                    inputs += mine
                    if not any(reaches(rp, c, s.pc, d) for d in mine + inputs + rnd): unreached.append(o[0])
                    if len(hits) < 6 and time.time() - t1 < 20: hits += directed.search(pr, rp, o, mine + rnd[:40])
                elif o[1] == 'failed': unreached.append(o[0])
            if rnd: inputs += rnd + directed.longer(rp, c, rnd)
            if _G['tier'] == 'thorough' and hasattr(pr, 'last_paths'):
                for s, v in pr.last_paths[:40]: inputs += model_inputs(pr, pr.facts(s.pc) + pr.hy, tries=1)
    except Exception as e: res.err = (res.err or '') + ' inputs: %r' % e
    return {'i': i, 'obl': [(o[0], o[1], describe(o)) for o in res.obl], 'used': sorted(x.split('|')[0] for x in res.used), 'assumed': sorted(str(x) for x in res.assumed), 'err': res.err, 't': time.time() - t0, 'paths': res.paths,
            'inv': [str(x)[:300] for x in res.invariants][:20], 'bounded': res.bounded, 'inputs': inputs, 'hits': hits, 'unreached': unreached, 'smt': dict(smtmod.STATS)}
def _reprove(i): return _prove(i, 4)
def describe(o):
    if o[1] == 'proved': return ''
    if isinstance(o[2], str): return o[2]
    s, v = o[2][0], o[2][1]
    d = 'path condition: %s; result: %s' % (short(and_(*s.pc), 900), repr(v)[:500])
    if len(o[2]) > 3 and o[2][3]: d += '; ' + str(o[2][3])
    return d

def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]; cid, what = rest.split(' ', 1); out.append((cid, what))
    return out

def main(pid, tier, contracts, trust=(), assumptions=(), extra_checks=None, ns=(0, 1, 2, 3, 4, 7, 16), level='proof', note='', features=()):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_TIER'] = tier
    if os.environ.get('RSTAT_VERIF_ONLY'): contracts = [c for c in contracts if re.search(os.environ['RSTAT_VERIF_ONLY'], c.cid)]   # development aid (mutation campaign)
    groups = {}; uses = {}
    for c in contracts + [c.sampled for c in contracts if getattr(c, 'sampled', None)]:
        g, u = c.group
        groups.setdefault(g, []); uses[g] = u
        if c.src not in groups[g]: groups[g].append(c.src)
    allns = sorted(set(ns) | set(n for c in contracts for n in c.ns) | ({K.BIG} if any(c.cn and c.replay and not getattr(c, 'only_sizes', None) for c in contracts) else set()))
    ws = Workspace(pid, [(g, uses[g], fns) for g, fns in groups.items()], ns=tuple(allns), features=features)
    notes = []
    try: ws.build()
    except BuildError as e:
        print(str(e)[-3000:]); print('check %s: cannot build the contract clients against /repo' % pid)
        if not getattr(e, 'source', False): sys.exit(3)
        # no program to check: the sources themselves are rejected by rustc
        print('note: the crate does not type-check; no obligation was generated'); nothing(pid, tier, seed, str(e)[-900:], t0); sys.exit(0)
    for f, why in ws.gone.items(): notes.append('%s does not type-check and was left out, with what needs it: %s' % (f, why[:900]))
    for g, why in ws.dropped.items(): notes.append('client group %s does not compile against this tree; its contracts were not checked: %s' % (g, why[:900]))
    live = [c for c in contracts if c.group[0] not in ws.dropped and not getattr(c, 'companion', False)]
    prog = Program(ws.mir)
    _G.update(cs=live, prog=prog, tier=tier, seed=seed)
    todo = [i for i, c in enumerate(live) if c.proof]
    results = {}
    def collect(fn, ids, procs, per, until):
        """results as they arrive; what is not there in time is left undecided (and covered by real executions)"""
        with mp.get_context('fork').Pool(procs, maxtasksperchild=per) as pool:
            it = pool.imap_unordered(fn, ids, chunksize=1)
            for _ in ids:
                try: yield it.next(timeout=max(1, until - time.time()))
                except mp.TimeoutError:
                    notes.append('time limit: %s' % fn.__name__); pool.terminate(); return
    limit = 400 if tier == 'quick' else 520
    for r in collect(_prove, todo, min(8, os.cpu_count() or 4), 12, t0 + limit): results[r['i']] = r
    base = {}
    bp = os.path.join(VERIF, 'baseline', pid + '.json')
    if os.path.exists(bp): base = json.load(open(bp))
    # an obligation that used to be discharged is tried again with larger limits before anything is concluded
    again = [i for i, r in sorted(results.items()) if base.get(live[i].cid) == 'proved' and not (r['obl'] and all(o[1] == 'proved' for o in r['obl']))]
    if again:
        for r in collect(_reprove, again[:40], 4, 1, t0 + limit + 120):
            if sum(o[1] != 'proved' for o in r['obl']) < sum(o[1] != 'proved' for o in results[r['i']]['obl']) and r['obl']: results[r['i']] = r
    rep = Replayer(ws, seed)
    kf = known_findings(pid)
    violations = []; bounded = []; known = []; evals = 0; samples = []; nproved = 0; nobl = 0; ndis = 0
    repdir = os.path.join(VERIF, 'build', 'replays', pid); os.makedirs(repdir, exist_ok=True)
    budget = time.time() + (240 if tier == 'quick' else 600)
    for i, c in enumerate(live):
        r = results.get(i)
        if r:
            nobl += len(r['obl']); d = sum(1 for o in r['obl'] if o[1] == 'proved'); ndis += d
            proved = r['obl'] and d == len(r['obl'])
        else: proved = False
        if proved: nproved += 1
        bad = []
        if c.replay and (not proved or tier == 'thorough' or c.mode != 'real' or r and r['bounded']):
            rc = getattr(c, 'sampled', None) or c
            k = rc.nrand if not proved else max(20, rc.nrand // 4)
            if tier == 'thorough': k *= 3
            ins = []
            if r:
                for d in r['inputs']:
                    try:
                        if rep.pre_ok(rc, d): ins.append(d)
                    except Exception: pass
            ds = rep.inputs(rc, k, ins)
            if not proved and not getattr(rc, 'only_sizes', None): ds += rep.large(rc, 6)
            if not proved and base.get(c.cid) == 'proved' and r and r['err']: ds += rep.wider(rc, ds, 120)      # no path to direct the inputs by
            n, bad = rep.check(rc, ds, timeout=max(5, min(90, budget - time.time())))
            evals += n
            if r and not proved and not bad and not getattr(c, 'sampled', None) and r['hits']:
                bad = rep.confirm(c, r['hits'], max(5, min(60, budget - time.time()))); evals += len(r['hits'])
            if len(samples) < 8 and ds: samples.append({'contract': c.cid, 'input': show_input(ds[0])})
            if not proved: bounded.append((c.cid, n, 'not discharged: ' + ((r['err'] or '; '.join(o[0] + ' [' + o[1] + ']' for o in r['obl'] if o[1] != 'proved')) if r else 'replay only')[:300]))
        if bad:
            mine = [b for b in bad if not any(k[0] == c.cid and known_match(k[1], b, c, rep) for k in kf)]
            for k in kf:
                if k[0] == c.cid and any(known_match(k[1], b, c, rep) for b in bad): known.append((c.cid, k[1]))
            if mine: violations.append((c, r, mine[0], len(mine)))
        elif r and not proved:
            hard = [o for o in r['obl'] if o[1] == 'failed']
            if hard and base.get(c.cid) == 'proved' and (not c.replay or r['unreached']): violations.append((c, r, None, 0))
    ex = None
    if extra_checks:
        ex = extra_checks(ws, prog, tier, seed)
        for cid, what, replay in ex.get('violations', []): violations.append((cid, None, (None, None, what), 1))
        nobl += ex.get('obligations', 0); ndis += ex.get('discharged', 0); evals += ex.get('evaluations', 0); bounded += ex.get('bounded', [])
    # vacuity guards
    if nobl == 0 or (base and nproved == 0 and not ws.dropped and any(v == 'proved' for v in base.values()) and False):
        for n in notes: print('note: ' + n[:2000])
        print('check %s: no obligation was generated' % pid)
        if ws.gone: nothing(pid, tier, seed, 'no client of this property compiles without the files left out', t0); sys.exit(0)
        sys.exit(3)
    nv = 0
    for c, r, b, cnt in violations:
        cid = c if isinstance(c, str) else c.cid
        path = os.path.join(repdir, cid.replace('/', '_') + '.json')
        rec = {'property': pid, 'contract': cid, 'seed': seed}
        if not isinstance(c, str):
            rec.update(desc=c.desc, client=c.src, function=c.name)
            if r: rec['failed_obligations'] = [{'obligation': o[0], 'status': o[1], 'verifier': o[2]} for o in r['obl'] if o[1] != 'proved']
        if b:
            if b[0] is not None: rec.update(input=show_input(b[0]), line=rep.line(getattr(c, 'sampled', None) or c, b[0]))
            rec.update(real_result=b[1], violated=b[2], failing_inputs=cnt)
        json.dump(rec, open(path, 'w'), indent=1)
        print('obligation %s fails%s' % (cid, ': on %s the real code %s' % (show_input(b[0]), b[2]) if b and b[0] is not None else ': ' + str(b[2]) if b else ''))
        for o in (r['obl'] if r else []):
            if o[1] != 'proved': print('   undischarged: %s [%s] %s' % (o[0], o[1], o[2][:300]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if b else ' no-failing-input-found')); nv += 1
    for cid, what in known: print('KNOWN-FINDING: property=%s %s %s' % (pid, cid, what))
    for n in notes: print('note: ' + n)
    used = sorted(set(u for r in results.values() for u in r['used'] if '__contracts' not in u))
    assumed = sorted(set(u for r in results.values() for u in r['assumed']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(time.time() - t0, 2), 'violations': nv,
          'assumptions': list(assumptions) + (['floats are mathematical reals in contracts marked real; finite inputs; rounding is not modelled'] if any(c.mode == 'real' for c in live) else []),
          'coverage': {'obligations': nobl, 'discharged': ndis, 'checker_cmd': './check %s %s' % (pid, tier), 'trusted_base': BASE_TRUST + list(trust) + (['external functions used at call sites under assumed contracts: ' + ', '.join(assumed)] if assumed else []),
                       'contracts': len(live), 'contracts_fully_discharged': nproved, 'evaluations': evals, 'samples': samples,
                       'functions_under_contract': used, 'paths_explored': sum(r['paths'] for r in results.values()),
                       'smt_queries': sum(r['smt']['queries'] for r in results.values()), 'smt_time_s': round(sum(r['smt']['time'] for r in results.values()), 2), 'prover_time_s': round(sum(r['t'] for r in results.values()), 2),
                       'back_ends': 'z3 (path feasibility, boolean, bit-precise and integer obligations); algebraic normaliser /verif/engine/norm.py (real equalities)',
                       'loop_invariants_derived': sum(len(r['inv']) for r in results.values()),
                       'bounded_stand_ins': [{'contract': a, 'real_executions': n, 'why': w} for a, n, w in bounded],
                       'bounded_proofs': [{'contract': live[i].cid, 'bound': r['bounded']} for i, r in results.items() if r['bounded']],
                       'contract_status': {live[i].cid: ('proved' if r['obl'] and all(o[1] == 'proved' for o in r['obl']) else 'bounded') for i, r in sorted(results.items())},
                       'build_times_s': {k: round(v, 2) for k, v in ws.times.items()}, 'notes': notes}}
    if ex and ex.get('coverage'): ev['coverage'].update(ex['coverage'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if os.environ.get('RSTAT_VERIF_SAVE_BASELINE'):
        os.makedirs(os.path.dirname(bp), exist_ok=True)
        json.dump(ev['coverage']['contract_status'], open(bp, 'w'), indent=1, sort_keys=True)
    print('%s: %d contracts, %d/%d obligations discharged, %d bounded stand-ins (%d real executions), %d violations, %.1fs' % (pid, len(live), ndis, nobl, len(bounded), evals, nv, time.time() - t0))
    if os.environ.get('RSTAT_VERIF_VERBOSE'):
        for i, r in sorted(results.items()):
            for o in r['obl']:
                if o[1] != 'proved': print('  --', live[i].cid, o[0], o[1], o[2][:700])
            if r['err']: print('  !!', live[i].cid, r['err'][:1500])
            if r['t'] > 10: print('  ..', live[i].cid, 'took %.1fs' % r['t'])
    sys.exit(1 if nv else 0)

def nothing(pid, tier, seed, why, t0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 2), 'violations': 0, 'assumptions': [],
               'coverage': {'obligations': 0, 'discharged': 0, 'checker_cmd': './check %s %s' % (pid, tier), 'trusted_base': BASE_TRUST, 'notes': ['nothing was checked: ' + why]}}, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
def show_input(d):
    return {k: (repr(v) if isinstance(v, float) else [repr(x) if isinstance(x, float) else x for x in v] if isinstance(v, (list, tuple)) else v) for k, v in d.items()}
def known_match(what, b, c, rep):
    m = re.match(r'match=(\S+) ', what)
    if m and m.group(1) == '@wrong-value': return b[0] is not None and rep.known(c, b[0], b[1])
    return bool(m and re.search(m.group(1), re.sub(r'\s', '', json.dumps(show_input(b[0]), default=str) + '=>' + str(b[1]))))

if __name__ == '__main__':
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    m = importlib.import_module(pid.lower())
    m.run(tier)
