"""seed.py ID [..]: makes /verif/seeded/ID from a description in seeds/ID.py-like blocks below stdin.
Usage: seed.py ID PROP FILE <<< JSON {old,new,needs,breaks,demo}: applies the change in a scratch copy of
/repo, builds, runs the stable tests and the demonstration with and without it, and keeps it when all is as it must be."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: /repo. Builds demo.rs against the crate in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
node_tree = { path = "$repo/node_tree_core" }
toml_edit = "0.22.22"
T
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings timeout 280 cargo run --offline -q
'''
def sh(cmd, cwd, env=None): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
def main():
    sid = sys.argv[1]; o = json.load(sys.stdin)
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp'); r = d + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        out = os.path.join(V, 'seeded', sid); os.makedirs(out, exist_ok=True)
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.rs', 'w').write(o['demo'])
        for c in o['changes']:
            p = r + '/' + c['file']; t = open(p).read()
            if t.count(c['old']) != 1: print(sid, 'BAD', t.count(c['old']), 'matches of', c['old'][:60]); return
            open(p, 'w').write(t.replace(c['old'], c['new']))
        open(out + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        json.dump(dict(property=o['property'], needs=o['needs'], what_it_breaks=o['breaks']), open(out + '/meta.json', 'w'), indent=1)
        b = sh('cargo build --workspace --all-features --locked --offline -q 2>&1 && cargo test --workspace --locked --offline -q 2>&1', r)
        ok = b.returncode == 0
        w = sh(out + '/demo.sh', r)
        c = sh(out + '/demo.sh', '/repo')
        print(sid, o['property'], 'tests', 'pass' if ok else 'FAIL', '| demo on change:', w.returncode, '| on original:', c.returncode)
        if not ok: print(b.stdout[-1500:])
        if c.returncode: print('original:', c.stderr[-1500:])
        if w.returncode: print('   changed:', w.stderr.strip()[-200:].replace('\n', ' | '))
    finally: shutil.rmtree(d)
main()
