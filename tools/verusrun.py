"""Extracts the functions under contract from /repo's current source, runs Verus on them and sorts
what it says: ok, failed (an obligation was rejected) or lost (the functions could not be brought
before the verifier: anchors gone, outside its subset, resource limit)."""
import json, os, re, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/node_tree_core/src'
TARGET = os.path.join(V, 'target')
LOWER = os.path.join(TARGET, 'release', 'lower')
RLIMIT = '60'

def build():
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--release'], cwd=os.path.join(V, 'lower'), env=dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS='-Awarnings'), capture_output=True, text=True)
    if p.returncode: print(p.stderr[-4000:])
    return p.returncode == 0

# What Verus says when it rejects an obligation. Everything else is not a verdict on the code.
REJECTED = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|invariant not satisfied|possible arithmetic (under|over)flow|possible arithmetic underflow/overflow|decreases not satisfied|possible division by zero|possible bit shift|requires not satisfied|unwrapping|unreachable|possible overflow|could not prove termination|possible truncation|precondition not met|constructed value may fail')

def verus(group, probe=False, seed=None, budget=420):
    """Verus over a group. A function whose text the verifier does not take (it changed out of the
    subset) keeps its contract as an assumption and is lost; the rest of the group is decided."""
    skip, t0, reasons = [], time.time(), {}
    while True:
        r = once(group, probe, seed, budget, skip)
        for f in r['fns']:
            if f.get('lost') and f['fn'] not in skip: reasons.setdefault(f['fn'], f['lost'])
        for f, m in r['lost']:
            if f: reasons.setdefault(f, m)
        # Without some of its hints (an anchor is gone) a function is either accepted or lost.
        weak = {f['fn']: f['weak'] for f in r['fns'] if f.get('weak')}
        unsaid = {x['fn'] for x in r['rejected'] if x['fn'] in weak}
        for f in unsaid: reasons.setdefault(f, weak[f])
        if unsaid and time.time() - t0 <= budget:
            skip = sorted(set(skip) | unsaid); continue
        r['rejected'] = [x for x in r['rejected'] if x['fn'] not in weak]
        bad = {f for f, _ in r['lost'] if f}
        if r['verified'] or r['errors'] or bad <= set(skip) or time.time() - t0 > budget: break
        skip = sorted(set(skip) | bad)
    r['lost_fns'] = list(reasons) + [None for f, _ in r['lost'] if not f or (not r['verified'] and not r['errors'])]
    r['lost'] = [f'{f}: not decided, its contract is assumed: {m}' for f, m in reasons.items()] + [m for f, m in r['lost'] if not f]
    return r

def once(group, probe, seed, budget, skip):
    """One Verus run over a group. Returns a dict."""
    work = os.path.join(TARGET, 'verus', group + ('-probe' if probe else '')); os.makedirs(work, exist_ok=True)
    rs, mp = os.path.join(work, group + '.rs'), os.path.join(work, 'map.json')
    env = dict(os.environ, RUST_MIN_STACK=str(1 << 30)); env.pop('RUSTFLAGS', None)
    if probe: env['PROBE'] = '1'
    env['SKIP'] = '\n'.join(skip)
    t0 = time.time()
    p = subprocess.run([LOWER, os.path.join(V, 'contracts', group + '.vc'), SRC, rs, mp], capture_output=True, text=True, env=env)
    if p.returncode == 4: return dict(lost=[(None, p.stdout.strip())], rejected=[], fns=[], raw=p.stdout, verified=0, errors=0, smt_ms=0, text='', cmd='')
    if p.returncode: return dict(lost=[(None, 'extraction: ' + (p.stdout + p.stderr)[-1500:])], rejected=[], fns=[], raw=p.stdout + p.stderr, verified=0, errors=0, smt_ms=0, text='', cmd='')
    fns = json.load(open(mp)); text = open(rs).read(); lines = text.split('\n')
    cmd = ['verus', group + '.rs', '--num-threads', '8', '--output-json', '--time', '--rlimit', RLIMIT, '--multiple-errors', '8']
    if seed is not None: cmd += ['--smt-option', f'smt.random_seed={seed}']
    cmd += ['--', '--error-format=json']
    try: p = subprocess.run(cmd, cwd=work, env=env, capture_output=True, text=True, timeout=budget)
    except subprocess.TimeoutExpired: return dict(lost=[(None, f'Verus did not finish in {budget} s')], rejected=[], fns=fns, raw='', verified=0, errors=0, smt_ms=0, text=text, cmd=' '.join(cmd))
    lost, rejected, raw = [], [], []
    for l in p.stderr.split('\n'):
        if not l.strip(): continue
        try: d = json.loads(l)
        except ValueError: lost.append((None, l[:500])); continue
        if d.get('level') != 'error' or d['message'].startswith('aborting due to'): continue
        raw.append(d.get('rendered') or d['message'])
        sp = [(s['line_start'], s['line_end'], s['is_primary']) for s in d['spans'] if os.path.basename(s['file_name']) == group + '.rs']
        # The function of the failing obligation: the one that holds the code, not the callee's contract.
        owner = None
        for s in sorted(d['spans'], key=lambda s: s['is_primary']):
            if os.path.basename(s['file_name']) != group + '.rs': continue
            for f in fns:
                if f['start'] <= s['line_start'] <= f['end']:
                    if 'precondition' in d['message'] and (s.get('label') or '').startswith('failed precondition'): continue
                    owner = f; break
            if owner: break
        tags = set()
        for a, b, _ in sp:
            m = re.search(r'//\s*\[((?:C\d\d[ ,]*)+)\]', lines[a - 1])
            if m: tags |= set(re.findall(r'C\d\d', m.group(1)))
        first = [l.strip() for l in lines[sp[0][0] - 1:sp[0][0]]] if sp else []
        prim = [lines[a - 1].strip() for a, b, pr in sp if pr][:1] or first
        o = dict(message=d['message'], fn=owner['fn'] if owner else None, at=f"{owner['file']}:{owner['line']}" if owner else None, clause=prim[0] if prim else '', tags=sorted(tags), lines=[a for a, b, _ in sp])
        if REJECTED.search(d['message']) and 'rlimit' not in d['message'].lower(): rejected.append(o)
        else: lost.append((o['fn'], (d.get('rendered') or d['message'])[:600]))
    try: res = json.loads(p.stdout)
    except ValueError: res = {}
    vr = res.get('verification-results', {})
    if not vr and not lost and not rejected: lost.append((None, 'Verus gave no result: ' + p.stderr[-500:]))
    t = res.get('times-ms', {})
    smt = t.get('smt', {}).get('smt-run', 0) if isinstance(t.get('smt'), dict) else 0
    return dict(lost=lost, rejected=rejected, fns=fns, raw='\n'.join(raw), verified=vr.get('verified', 0), errors=vr.get('errors', 0), smt_ms=smt, wall=round(time.time() - t0, 1), text=text, cmd=' '.join(cmd), version=res.get('verus', {}).get('version', ''))

TRUST = re.compile(r'external_body|assume_specification|\bassume\s*\(|\badmit\s*\(|external_type_specification|uninterp spec fn|\baxiom\b|external_fn_specification')
def trusted(text, fns):
    """Names of everything Verus takes on trust, with their contracts' first line."""
    out = []; lines = text.split('\n')
    for i, l in enumerate(lines):
        if l.strip().startswith('//'): continue
        m = TRUST.search(l)
        if not m: continue
        kind = m.group(0).strip('( ')
        sig = next((x.strip() for x in lines[i:i + 4] if re.search(r'\b(fn|struct|enum|trait)\b|assume_specification', x)), l.strip())
        out.append(f'{kind}: {sig[:150]}')
    return sorted(set(out))

def match(pats, fn):
    return pats is None or any(fn == p or (p.endswith('*') and fn.startswith(p[:-1])) for p in pats)

def run(groups, prop, tier='quick'):
    """groups: {group: None (all functions) or list of function keys (a trailing * is a prefix)}"""
    if not os.path.exists(LOWER) and not build(): return dict(status='lost', obligations=0, discharged=0, cmd='', trusted=[], functions=[], smt_ms=0, backend='', extraction='', probes={}, messages=['the extractor does not build'], raw='')
    status, messages, raws, tb, functions, smt, cmds, obl, dis, probes, ver = 'ok', [], [], [], [], 0, [], 0, 0, {}, ''
    for g, pats in groups.items():
        r = verus(g)
        cmds.append(r['cmd']); smt += r['smt_ms']; raws.append(r['raw']); ver = r.get('version') or ver
        mine = [x for x in r['rejected'] if (prop in x['tags'] if x['tags'] else (x['fn'] is None or match(pats, x['fn'])))]
        # A rejected obligation hides others: the number that was to be discharged is what was found plus what failed.
        obl += r['verified'] + r['errors']; dis += r['verified']
        functions += [f"{f['file']} {f['fn']}" for f in r['fns'] if match(pats, f['fn'])]
        tb += [f'{g}: {t}' for t in trusted(r['text'], r['fns'])]
        for x in mine: messages.append(f"{g}: {x['fn'] or 'contracts'} ({x['at'] or '-'}): {x['message']}: {x['clause']}")
        if mine: status = 'failed'
        elif any(f is None or match(pats, f) for f in r['lost_fns']):
            if status == 'ok': status = 'lost'
            messages += [f'{g}: {x}' for x in r['lost']]
        elif r['verified'] == 0:
            if status == 'ok': status = 'lost'
            messages.append(f'{g}: no obligations')
        if tier == 'thorough' and not r['lost'] and not r['rejected']:
            probes[g] = probe(g)
            for s in (7, 23):
                q = verus(g, seed=s)
                probes[g][f'seed {s}'] = 'ok' if not q['lost'] and not q['rejected'] else 'unstable: ' + '; '.join(q['lost'] + [x['message'] for x in q['rejected']])[:300]
    return dict(status=status, obligations=obl, discharged=dis, cmd=' ; '.join(cmds), trusted=tb, functions=functions, smt_ms=smt, backend='Verus ' + ver + ' with Z3', extraction='lower: ' + ', '.join(f'{g}.vc' for g in groups) + f' from {SRC}', probes=probes, messages=messages, raw='\n'.join(raws))

def probe(g):
    """Every function and every loop body gets an `assert(false)`: each must be rejected, or the contract is vacuous."""
    r = verus(g, probe=True)
    want = [i + 1 for i, l in enumerate(r['text'].split('\n')) if '/*probe' in l]
    got = set(l for x in r['rejected'] for l in x['lines'])
    silent = [r['text'].split('\n')[l - 1].strip() for l in want if l not in got]
    return dict(placed=len(want), reached=len(want) - len(silent), silent=silent, lost=r['lost'][:3])

if __name__ == '__main__':
    import sys
    if sys.argv[1] == 'probe':
        for g in sys.argv[2:]: print(g, json.dumps(probe(g), indent=1))
    else:
        for g in sys.argv[1:]:
            r = verus(g); print(g, r['verified'], 'verified', r['errors'], 'errors', r.get('wall'), 's')
            for x in r['rejected']: print('  rejected', x)
            for x in r['lost']: print('  lost', x)
