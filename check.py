#!/opt/veriftools/pyvenv/bin/python3
"""One check: contract obligations of one property over the MIR of /repo's current source, plus the replay of the same
contracts on the compiled code.   check.py PROP [--tier quick|thorough]"""
import os, sys, time, json, subprocess, importlib, argparse
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(100000)

def known(prop):
    """key -> text of the listed findings of this property"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                w = l.split(' ', 3)
                out[w[2].split('=', 1)[1]] = w[3]
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--no-replay', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    prop = a.prop; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from engine import build as B
    b = B.build()
    t1 = time.time()
    mod = importlib.import_module('contracts.' + prop)
    secs = getattr(mod, 'REPLAY_SECS', {'quick': 20, 'thorough': 150})[tier]
    proc = None
    evd = os.path.join(ROOT, 'evidence'); os.makedirs(os.path.join(evd, 'replays'), exist_ok=True)
    rlog = os.path.join(B.BUILD, 'replay-%s.log' % prop)
    if b['bin'] and not a.no_replay:
        env = dict(os.environ); env['RUST_BACKTRACE'] = '0'
        proc = subprocess.Popen([b['bin'], prop, str(seed), str(secs), tier], stdout=open(rlog, 'wb'), stderr=open(rlog + '.err', 'wb'), env=env)
    from engine.crate import Crate
    from engine import verify as V
    res = []; eng_err = None
    try:
        crates = [Crate(b['mir'], B.REPO, 'plonky', 'src')]
        if getattr(mod, 'PLOOKUP', False): crates.insert(0, Crate(b['mir'], os.path.join(B.REPO, 'plookup'), 'plookup', 'src'))
        obs = mod.obligations(crates, tier)
        if a.only: obs = [o for o in obs if a.only in o.name]
        budget = {'quick': 240, 'thorough': 780}[tier]
        res = V.run_all(crates, obs, a.jobs, t1 + budget)
    except Exception as e:
        if a.v: raise
        eng_err = '%s: %s' % (type(e).__name__, e)
    t2 = time.time()
    # ---- replay
    fails = []; cases = {}; samples = []; notes = []; rstat = 'not run'
    if proc:
        try: rc = proc.wait(timeout=max(30, secs * 3 + 60 - (time.time() - t1)) if tier == 'quick' else 800); rstat = 'exit %d' % rc
        except subprocess.TimeoutExpired: proc.kill(); proc.wait(); rstat = 'killed after time limit'
        last = None
        for l in open(rlog, 'rb').read().decode('utf8', 'replace').split('\n'):
            w = l.split(' ', 2)
            if w[0] == 'FAIL': fails.append(l[5:])
            elif w[0] == 'CASES': cases[w[1]] = int(w[2])
            elif w[0] == 'SAMPLE': samples.append(l[7:][:300])
            elif w[0] == 'NOTE': notes.append(l[5:])
            elif w[0] == 'START': last = l[6:]
            elif w[0] == 'END': last = None
        if rstat not in ('exit 0', 'exit 1') and last and not rstat.startswith('killed'):
            # abnormal termination (stack overflow, abort) inside a contract
            fails.append('%s | %s/abort | process ended abnormally (%s) during this contract' % (last, last, rstat))
    # ---- verdict
    kn = known(prop); viol = []; found = []
    for f in fails:
        con, key, inp = (f.split(' | ', 2) + ['', ''])[:3]
        if key in kn: found.append((key, inp))
        else: viol.append((con, key, inp))
    refuted = [r for r in res if r['status'] in ('refuted', 'failed')]
    lines = []
    for k in sorted({k for k, _ in found}):
        lines.append('KNOWN-FINDING: property=%s %s %s' % (prop, k, kn[k]))
    for r in refuted:
        if r['name'] in kn:
            lines.append('KNOWN-FINDING: property=%s %s %s' % (prop, r['name'], kn[r['name']])); r['known'] = True
    newref = [r for r in refuted if not r.get('known')]
    rc = 0
    if viol or newref:
        rc = 1
        rp = os.path.join(evd, 'replays', '%s.txt' % prop)
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            for con, key, inp in viol[:40]: f.write('contract %s violated on the compiled code\n  key %s\n  input %s\n' % (con, key, inp))
            for r in newref: f.write('obligation %s refuted: %s\n  assignment %s\n' % (r['name'], r['detail'], json.dumps(r['cex'])))
            for r in res:
                if r['status'] == 'undischarged': f.write('obligation %s not discharged: %s\n' % (r['name'], r['detail']))
            f.write('rerun: cd /verif && %s %s %d %d %s\n' % (b['bin'], prop, seed, secs, tier))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if viol else ' no-failing-input-found'))
    # ---- evidence
    unb = [r for r in res if not r['bounded']]; bnd = [r for r in res if r['bounded']]
    agg = {}
    for r in res:
        for k, v in r['stats'].items(): agg[k] = round(agg.get(k, 0) + v, 3)
    cov = {
        'obligations': len(unb), 'discharged': sum(r['status'] == 'proved' for r in unb),
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])),
        'bounded_obligations': len(bnd), 'bounded_discharged': sum(r['status'] == 'proved' for r in bnd),
        'functions_under_contract': list(getattr(mod, 'FUNCTIONS', [])),
        'bodies_interpreted': len(set().union(*[set(r['called']) for r in res])) if res else 0,
        'paths': sum(r['paths'] for r in res), 'postconditions_checked': sum(r['checks'] for r in res),
        'solver': {'back_ends': 'own polynomial normal forms; z3 QF_LRA for integer ranges; sympy factorisation / Groebner bases where a relation is not linear', **agg},
        'obligation_list': [{k: r[k] for k in ('name', 'status', 'detail', 'wall', 'paths', 'checks', 'bounded')} for r in res],
        'bodies': sorted(set().union(*[set(r['called']) for r in res]))[:400] if res else [],
        'replay_evaluations': sum(cases.values()),
        'replay_rule': 'replay on the compiled code: each case is one contract evaluated on one pseudo-random or edge-case input; inputs are drawn fresh per case',
        'samples': samples[:12] or ['none'], 'replay_cases': cases, 'replay_status': rstat, 'replay_notes': notes[:20],
        'explanation': getattr(mod, 'EXPLAIN', ''), 'build_s': round(t1 - t0, 1), 'engine_s': round(t2 - t1, 1), 'engine_error': eng_err,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov,
          'assumptions': ASSUME + list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol) + len(newref)}
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    nd = [r for r in res if r['status'] == 'undischarged']
    print('%s: %d/%d obligations discharged, %d/%d bounded, %d replay cases (%s), build %.0fs engine %.0fs total %.0fs' % (
        prop, cov['discharged'], cov['obligations'], cov['bounded_discharged'], cov['bounded_obligations'], cov['replay_evaluations'], rstat, t1-t0, t2-t1, time.time()-t0))
    for r in nd: print('UNDISCHARGED %s: %s' % (r['name'], r['detail'][:500]))
    for r in newref: print('REFUTED %s: %s' % (r['name'], r['detail'][:300]))
    for c, k, i in viol[:10]: print('FAILED %s | %s | %s' % (c, k, i[:300]))
    if eng_err: print('ENGINE', eng_err)
    if a.v:
        for r in res: print('  %-11s %-60s %6.2fs paths %d checks %d' % (r['status'], r['name'], r['wall'], r['paths'], r['checks']))
        print(cases, samples[:3])
    if not b['bin']: print('REPLAY BUILD FAILED', b['log'][-1500:])
    for l in lines: print(l)
    sys.exit(rc)

TRUSTED = ['rustc nightly-2021-08-31 MIR construction and its -Zdump-mir printer (the text verified is the dump of the current source)',
           'the MIR parser, interpreter and std/rayon/num models in /verif/engine (no independent check)', 'z3 QF_LRA, sympy']
ASSUME = ['unwind (cleanup) paths and drop glue are not interpreted', 'rayon parallel iterators are treated as their sequential counterparts',
          'code generation from MIR (LLVM) is trusted']
if __name__ == '__main__': main()
