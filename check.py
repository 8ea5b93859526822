#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current tree (tier from VERIF_TIER)
   check.py --setup              build the machinery
   check.py --replay FILE        run the failing case of a replay file again

1. The functions the property depends on are extracted from /repo, joined with the contracts in
   contracts/ and handed to Verus (see lower/ and DESIGN.md); Verus decides.
2. What is out of Verus's reach (and, on a changed tree, what could no longer be extracted) is
   covered by a bounded check of the compiled code (replay/), reported as such.
3. When Verus rejects an obligation, the bounded check searches an input that shows the failure.
"""
import json, os, sys, subprocess, time, resource, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TARGET = os.path.join(V, 'target')
BIN = os.path.join(TARGET, 'debug', 'replay')
sys.path.insert(0, os.path.join(V, 'tools'))
import verusrun
from registry import PROPS

ENV = dict(os.environ, RUSTFLAGS='--cfg node_tree_verif -Awarnings', CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
EXPANDED = os.path.join(TARGET, 'classes.rs')

def build():
    """Builds the bounded search. Returns (built, what the compiler says of the sample declarations)."""
    def cargo(*more): return subprocess.run(['cargo', 'build', '--offline', '--quiet', '--message-format=json-render-diagnostics', *more], cwd=os.path.join(V, 'replay'), env=ENV, capture_output=True, text=True)
    if os.path.exists(EXPANDED): os.remove(EXPANDED)
    p = cargo()
    if p.returncode == 0:
        expand(p.stdout); return True, None
    if cargo('--no-default-features').returncode == 0: return True, p.stderr[-6000:]
    sys.stdout.write(p.stderr[-6000:]); return False, None

def expand(messages):
    """What the macros make of classes/, as the compiler prints it."""
    lib = None
    for l in messages.split('\n'):
        if '"compiler-artifact"' not in l: continue
        m = json.loads(l)
        if m['target']['name'] == 'node_tree': lib = next((f for f in m['filenames'] if f.endswith('.rlib')), lib)
    if not lib: return
    q = subprocess.run(['rustc', '--edition', '2024', '--crate-type', 'lib', '--crate-name', 'classes', '--cfg', 'node_tree_verif', '-Awarnings', '-Zunpretty=expanded', '-L', 'dependency=' + os.path.join(TARGET, 'debug', 'deps'), '--extern', 'node_tree=' + lib, os.path.join(V, 'classes', 'src', 'lib.rs')],
                       env=dict(ENV, RUSTC_BOOTSTRAP='1'), capture_output=True, text=True)
    if q.returncode == 0:
        open(EXPANDED, 'w').write(q.stdout); os.environ['CLASSES'] = EXPANDED

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def known_findings(prop):
    out = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) case="(.*?)" (.*)', l.strip())
        if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def bounded(prop, seed, tier, budget, only=None):
    """Runs the replay generators. Returns (result json or None, violation or None)."""
    work = os.path.join(V, 'target', 'runs'); os.makedirs(work, exist_ok=True)
    out = os.path.join(work, f'{prop}.json'); case = os.path.join(work, f'{prop}.case')
    for f in (out, case):
        if os.path.exists(f): os.remove(f)
    cmd = [BIN, 'run', prop, out, case, str(seed), tier, '--budget', str(budget)]
    for d, _ in known_findings(prop): cmd += ['--known', d]
    if only: cmd += ['--only', only]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=budget + 90, preexec_fn=limits, cwd=work)
        rc, tail = p.returncode, (p.stdout + p.stderr)[-1500:]
    except subprocess.TimeoutExpired:
        rc, tail = 'timeout', ''
    if rc in (0, 3) and os.path.exists(out):
        r = json.load(open(out))
        return r, r['violation']
    # The process died or hung: the case file names the input.
    try: lines = open(case, errors='replace').read().split('\n')
    except OSError: lines = ['?:0', '']
    what = 'did not finish' if rc == 'timeout' else f'the process ended with {rc}: {tail.strip()}'
    return None, dict(case=lines[0], input='\n'.join(lines[1:]).strip()[:4000], what=what)

def write_replay(prop, seed, tier, v, verus):
    d = os.path.join(V, 'target', 'replays'); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}.json')
    o = dict(property=prop, seed=seed, tier=tier)
    if v: o.update(case=v['case'], input=v['input'], what_failed=v['what'], run=f'python3 {V}/check.py --replay {path}')
    if verus: o['verifier'] = verus
    json.dump(o, open(path, 'w'), indent=1)
    return path

def main():
    if sys.argv[1] == '--setup':
        ok = build()[0] and verusrun.build()
        sys.exit(0 if ok else 2)
    if sys.argv[1] == '--replay':
        o = json.load(open(sys.argv[2]))
        if 'case' not in o: print(json.dumps(o.get('verifier'), indent=1)); sys.exit(1)
        built, broken = build()
        if not built: sys.exit(2)
        if o['case'] == 'declarations': print(broken or 'the declarations compile'); sys.exit(1 if broken else 0)
        r, v = bounded(o['property'], o['seed'], o['tier'], 100, only=o['case'])
        print(json.dumps(v, indent=1) if v else 'the case passes'); sys.exit(1 if v else 0)
    prop = sys.argv[1]; cfg = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    built, broken = build()
    if not built:
        print(f'error: the replay crate does not build against {REPO}'); sys.exit(2)
    # Deductive part.
    vr = verusrun.run(cfg['groups'], prop, tier) if cfg['groups'] else None
    budget = 60 if tier == 'quick' else 400
    failed = vr is not None and vr['status'] == 'failed'
    if broken and 'classes' in cfg['groups']:
        # Declarations in the documented form do not compile: that is the failing input.
        r, v = None, dict(case='declarations', input=f'{V}/classes/src/lib.rs', what='a documented declaration does not compile:\n' + broken)
    else: r, v = bounded(prop, seed, tier, budget)
    if vr is not None and vr['status'] != 'ok' and not v:
        # Look harder for an input that shows what Verus rejected, or where it could not decide.
        r2, v = bounded(prop, seed + 1000, 'thorough', max(20, min(250, int(760 - (time.time() - t0)))))
        if v: seed_v, tier_v = seed + 1000, 'thorough'
        else: seed_v, tier_v = seed, tier
    else: seed_v, tier_v = seed, tier
    # Evidence.
    cov = {}
    level = 'exploration'
    assumptions = list(cfg.get('assumptions', []))
    if vr is not None:
        cov.update(obligations=vr['obligations'], discharged=vr['discharged'], checker_cmd=vr['cmd'], trusted_base=vr['trusted'],
                   functions_under_contract=vr['functions'], solver_ms=vr['smt_ms'], backend=vr['backend'], extraction=vr['extraction'],
                   vacuity_probes=vr['probes'])
        if vr['status'] == 'ok': level = cfg['level']
        else: cov['verifier_status'] = vr['status']; cov['verifier_messages'] = vr['messages'][:20]
    if r:
        b = dict(evaluations=r['cases'], distinct_nontrivial=r['nontrivial'], samples=r['samples'],
                 rule='cases are enumerated or drawn per generator (exhaustive small shapes, then seeded random) and run on the compiled crate next to a plain model; a case is non-trivial when it exercises the property on more than an empty input, and distinct by its input text',
                 generators=r['generators'])
        if vr is None: cov.update(b)
        else:
            cov['bounded_stand_in'] = dict(b, label='bounded: never counted as proved', covers=cfg.get('bounded', ''))
            cov.update(evaluations=r['cases'], distinct_nontrivial=r['nontrivial'], samples=r['samples'], rule=b['rule'])
    if not cov: cov['explanation'] = 'the bounded run did not finish'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=1 if (v or failed) else 0)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)
    for d, text in known_findings(prop):
        if r and d in r['known'] or cfg.get('known_always'): print(f'KNOWN-FINDING: property={prop} {text}')
    if vr is not None:
        print(f"{prop}: verus {vr['status']}: {vr['discharged']}/{vr['obligations']} obligations, {len(vr['functions'])} functions" + (f"; {len(vr['messages'])} messages" if vr['status'] != 'ok' else ''))
        for m in vr['messages'][:8]: print('  ' + m.replace('\n', '\n  '))
    if r: print(f"{prop}: bounded: {r['cases']} cases, {r['nontrivial']} distinct non-trivial")
    if v:
        print(f"  input: {v['input'][:1000]}\n  {v['what'][:1500]}")
        path = write_replay(prop, seed_v, tier_v, v, dict(failed=vr['messages']) if failed else None)
        print(f'VIOLATION property={prop} replay={path}'); sys.exit(1)
    if failed:
        path = write_replay(prop, seed, tier, None, dict(failed=vr['messages'], output=vr['raw'][-20000:], cmd=vr['cmd']))
        print(f'VIOLATION property={prop} replay={path} no-failing-input-found'); sys.exit(1)
    sys.exit(0)
main()
