#!/usr/bin/env python3
"""development tool: make and confirm planted changes.  seed.py make ID (reads /tmp/w/seeds/ID.py) | test ID.. | check ID.. [PROP]"""
import json, os, shutil, subprocess, sys
V = '/verif'; SC = '/tmp/w/sr'
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 iff the behaviour in main.rs is right
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
walky = { path = "$repo" }
[profile.dev]
debug = false
incremental = false
EOF
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target"
cargo build --offline -q 2> "$t/err" || { cat "$t/err" | tail -20; exit 2; }
timeout 200 "$t/target/debug/demo"
'''
DEMO_IN = '''#!/bin/bash
# run with cwd = the repository; appends the test module in test.rs to a copy of the file named in target.txt and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
cp -r "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$t/"
for d in benches examples utils tests; do [ -e "$repo/$d" ] && cp -r "$repo/$d" "$t/"; done
cat "$here/test.rs" >> "$t/$(cat "$here/target.txt")"
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target" CARGO_PROFILE_TEST_DEBUG=0 CARGO_INCREMENTAL=0
timeout 280 cargo test --offline -q --lib vdemo > "$t/log" 2>&1; rc=$?
tail -15 "$t/log"
grep -q "1 passed" "$t/log" || exit 1
exit $rc
'''


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def scratch():
    if os.path.exists(SC): shutil.rmtree(SC)
    sh(f'cp -a /repo {SC}'); sh('git checkout -q -- .', cwd=SC)


def make(i):
    g = {}
    exec(open(f'/tmp/w/seeds/{i}.py').read(), g)
    d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- .', cwd=SC)
    for f, a, b in g['edits']:
        p = f'{SC}/{f}'; s = open(p).read()
        if s.count(a) != 1: raise SystemExit(f'{i}: {f}: pattern occurs {s.count(a)} times: {a}')
        open(p, 'w').write(s.replace(a, b))
    open(f'{d}/patch.diff', 'w').write(sh('git diff', cwd=SC).stdout)
    if 'main' in g: open(f'{d}/main.rs', 'w').write(g['main']); open(f'{d}/demo.sh', 'w').write(DEMO)
    else:
        open(f'{d}/test.rs', 'w').write(g['test']); open(f'{d}/target.txt', 'w').write(g['target'] + '\n'); open(f'{d}/demo.sh', 'w').write(DEMO_IN)
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    sh('git checkout -q -- .', cwd=SC)


def test(i):
    d = f'{V}/seeded/{i}'
    sh('git checkout -q -- .', cwd=SC)
    a = sh(f'bash {d}/demo.sh', cwd=SC)
    r = sh(f'git apply {d}/patch.diff', cwd=SC)
    b = sh(f'bash {d}/demo.sh', cwd=SC)
    t = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E "^test .*FAILED|error|test result" ; cargo check --offline --all-features --target-dir %s/target/all-features 2>&1 | grep -E "^error"' % (SC, SC), cwd=SC)
    base = set(x for x in json.load(open('/opt/vp/BASELINE.json')).get('passing', [])) if False else None
    sh('git checkout -q -- .', cwd=SC)
    bad = [l for l in t.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
    ok = a.returncode == 0 and r.returncode == 0 and b.returncode != 0 and not bad
    print(f'{i}: {"CONFIRMED" if ok else "BAD"} demo-clean {a.returncode} apply {r.returncode} demo-patched {b.returncode} tests {bad or "pass"}')
    if not ok: print(a.stdout[-600:], a.stderr[-600:], r.stderr, b.stdout[-800:], b.stderr[-300:])


def check(i, props):
    d = f'{V}/seeded/{i}'
    P = json.load(open(f'{d}/meta.json'))['property']
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(i, 'does not apply', r.stderr); return
    try:
        for p in props or [P]:
            q = sh(f'python3 {V}/tools/check.py {p} quick', cwd=V)
            v = [l for l in q.stdout.split('\n') if l.startswith('VIOLATION')]
            print(f'{i} / {p}: exit {q.returncode} {v[0] if v else ""}')
            for l in q.stdout.split('\n'):
                if l.startswith(('failed obl', 'undecided', 'failing', 'not proved', 'known', '  got')): print('     ', l[:230])
            if p == P:
                rf = f'{V}/seeded/results.json'; res = json.load(open(rf)) if os.path.exists(rf) else {}
                pr, inp = 'failed obligation' in q.stdout, 'failing input' in q.stdout
                res[i] = ' + '.join(x for x in ('proof' if pr else '', 'input' if inp else '') if x) if q.returncode == 1 else 'missed'
                json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
            if q.returncode not in (0, 1): print(q.stdout[-1500:], q.stderr[-1500:])
    finally: sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        scratch() if not os.path.exists(SC) else None
        for i in ids: make(i)
    if cmd == 'fresh': scratch()
    if cmd == 'test':
        for i in ids: test(i)
    if cmd == 'check':
        for i in [x for x in ids if not x.startswith('C') or '-' in x or len(x) > 3]: check(i, [x for x in ids if x.startswith('C') and len(x) == 3])
