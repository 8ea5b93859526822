#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'tools'))
from registry import PROPS
COMMON = ' Trusted: the listed external bodies (std, toml_edit, glam, clock, hasher; see trusted_base in the evidence and DESIGN.md), the lowering that lower/ applies to the extracted text, Verus and Z3. A bounded run of the compiled code stands beside it and is never counted as proved; it also searches the failing input when an obligation is rejected.'
checks = []
for p, c in PROPS.items():
    proof = c['level'] == 'proof'
    tech = 'contract-based deductive verification (Verus) of functions extracted from /repo on every run'
    if not proof: tech += '; bounded stand-in for what is out of reach' if c['groups'] else '; bounded stand-in'
    checks.append(dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p}', technique=tech, level=c['level'], level_note=c.get('note', '') + COMMON))
m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='cfg(node_tree_verif)', enable='RUSTFLAGS="--cfg node_tree_verif"', source_commits=['da70934']), checks=checks, not_applicable=[],
         notes='Contracts: contracts/*.vc. Extractor: lower/. Bounded stand-ins and input search: replay/. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
