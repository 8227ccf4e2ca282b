#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the list in tools/bugs.py and confirms each planted bug:
the patch applies to /repo's HEAD, builds, passes the repository's tests, and the demonstration
passes without it and fails with it.  Works in a scratch copy only.

    tools/plant.py [ID...]        (re)write and confirm the given bugs (default: all)
"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
from bugs2 import BUGS2
from bugs3 import BUGS3
from bugs4 import BUGS4
from bugs5 import BUGS5
from bugs6 import BUGS6
from bugs7 import BUGS7
from bugs8 import BUGS8
from bugs9 import BUGS9
BUGS = BUGS + BUGS2 + BUGS3 + BUGS4 + BUGS5 + BUGS6 + BUGS7 + BUGS8 + BUGS9

HEAD = '''#!/bin/bash
# Run with cwd /repo. Everything happens in a scratch directory that is removed again.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$dir"' EXIT
'''
CLI = HEAD + '''cargo build --quiet --offline --target-dir "$dir/target" || exit 3
mofmt=$dir/target/debug/mofmt
mkdir "$dir/w"
cd "$dir/w"
'''
FMT = CLI + '''cp "$here/in.mo" a.mo
timeout 20 "$mofmt" a.mo || { echo "mofmt failed"; exit 1; }
cmp a.mo "$here/out.mo" || { diff a.mo "$here/out.mo"; exit 1; }
'''
IDEM = CLI + '''cp "$here/in.mo" a.mo
timeout 20 "$mofmt" a.mo || { echo "mofmt failed"; exit 1; }
cp a.mo b.mo
timeout 20 "$mofmt" a.mo || { echo "the second run failed"; exit 1; }
cmp a.mo b.mo || { diff b.mo a.mo; exit 1; }
'''
REJECT = CLI + '''cp "$here/in.mo" a.mo
timeout 20 "$mofmt" a.mo && { echo "accepted"; exit 1; }
cmp a.mo "$here/in.mo"
'''
LIB = HEAD + '''mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nmofmt = { path = "%s" }\\n[workspace]\\n' "$PWD" > "$dir/Cargo.toml"
cd "$dir"
RUSTFLAGS="$FLAGS" timeout 200 cargo run --quiet --offline
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)

def main():
    want = sys.argv[1:]
    bad = 0
    work = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        repo = work + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target'))
        sh('git checkout -q -- .', repo)
        for b in BUGS:
            if want and b['id'] not in want: continue
            d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', b['id'])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for path, old, new in b['edits']:
                p = f'{repo}/{path}'
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    print(b['id'], 'EDIT MATCHES', n, 'times:', old[:60]); bad += 1; break
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git diff', repo).stdout
            open(d + '/patch.diff', 'w').write(diff)
            kind = b['demo']
            text = {'fmt': FMT, 'idem': IDEM, 'reject': REJECT}.get(kind)
            if text is None:
                text = (LIB.replace('$FLAGS', b.get('flags', '')) if kind == 'lib' else CLI + kind)
            open(d + '/demo.sh', 'w').write(text)
            os.chmod(d + '/demo.sh', 0o755)
            for name, body in b.get('files', {}).items():
                with open(f'{d}/{name}', 'wb') as f:
                    f.write(body if isinstance(body, bytes) else body.encode())
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            t = sh(f'cargo test --workspace --offline --target-dir {work}/t 2>&1', repo)
            ok_t = t.returncode == 0 and 'warning: unused' not in t.stdout
            with_ = sh(f'bash {d}/demo.sh', repo)
            sh('git checkout -q -- .', repo)
            without = sh(f'bash {d}/demo.sh', repo)
            ok = ok_t and with_.returncode not in (0, 3) and without.returncode == 0
            print(b['id'], 'ok' if ok else 'BAD', f"tests={t.returncode} patched={with_.returncode} clean={without.returncode}")
            if not ok:
                bad += 1
                print(t.stdout[-1500:] if not ok_t else '', with_.stdout[-800:], with_.stderr[-500:], '---', without.stdout[-800:], without.stderr[-500:])
            elif want:
                print(with_.stdout[-600:])
    finally:
        shutil.rmtree(work)
    sys.exit(bad > 0)
main()
