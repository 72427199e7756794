"""mkseed.py: seeds.json-like python files -> /verif/seeded/<id>; verifies them one by one (build, stable tests, demo, check)."""
import sys, os, json, subprocess, shutil, time
SEEDED = '/verif/seeded'; REPO = '/repo'
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
%s

[profile.dev]
debug = 0
'''
DEMO = '''#!/bin/bash
# run in the root of the repository; exit status 0: the property held
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
cp -r "$here/demo/." "$w/" && sed -i "s#@REPO@#$repo#" "$w/Cargo.toml" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" CARGO_TERM_COLOR=never RUST_BACKTRACE=0
%s
'''
RUN = 'timeout 280 cargo run --offline -q'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
def make(s):
    d = os.path.join(SEEDED, s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/demo/src')
    assert not sh(f'git -C {REPO} status --porcelain').stdout.strip(), 'repo not clean'
    try:
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f); t = open(p).read(); assert t.count(old) == 1, (s['id'], f, t.count(old), old); open(p, 'w').write(t.replace(old, new))
        diff = sh(f'git -C {REPO} diff').stdout
    finally: sh(f'git -C {REPO} checkout -- .')
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo/Cargo.toml', 'w').write(CARGO % s.get('deps', 'askama = { path = "@REPO@/askama", features = ["serde-json"] }'))
    open(d + '/demo/src/main.rs', 'w').write(s['main'])
    for p, t in s.get('files', {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, 'demo', p)), exist_ok=True); open(os.path.join(d, 'demo', p), 'w').write(t)
    open(d + '/demo.sh', 'w').write(DEMO % s.get('cmd', RUN)); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def stable():
    sh('env TERM=dumb NO_COLOR=1 bash /opt/vp/test.sh /tmp/seed_out.json')
    o = json.load(open('/tmp/seed_out.json')); b = json.load(open('/opt/vp/BASELINE.json')); return sorted(set(b['stable']) - set(o['passed']))
def verify(i, checks=None):
    d = os.path.join(SEEDED, i); meta = json.load(open(d + '/meta.json')); r = {'id': i, 'property': meta['property']}
    c = sh(f'bash {d}/demo.sh', cwd=REPO); r['clean'] = c.returncode
    if c.returncode: r['clean_out'] = (c.stdout + c.stderr)[-700:]
    try:
        a = sh(f'git -C {REPO} apply {d}/patch.diff'); assert a.returncode == 0, a.stderr
        b = sh('env TERM=dumb NO_COLOR=1 bash /opt/vp/build.sh'); r['build'] = b.returncode
        if b.returncode: r['build_out'] = b.stderr[-1500:]
        r['tests_broken'] = stable()[:4]
        c = sh(f'bash {d}/demo.sh', cwd=REPO); r['patched'] = c.returncode; r['demo_out'] = (c.stdout + c.stderr)[-200:]
        for p in checks or [meta['property']]:
            if os.path.exists(f'/verif/vlib/props/{p.lower()}.py'):
                t = time.time(); c = sh(f'cd /verif && timeout 900 ./check.sh {p} quick'); r['check ' + p] = (c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l], round(time.time() - t))
    finally: sh(f'git -C {REPO} checkout -- .')
    r['counts'] = r['clean'] == 0 and r.get('patched') != 0 and r.get('build') == 0 and not r.get('tests_broken')
    return r
if __name__ == '__main__':
    if sys.argv[1] == 'make':
        ns = {}; exec(open(sys.argv[2]).read(), ns)
        for s in ns['SEEDS']:
            if len(sys.argv) < 4 or s['id'] in sys.argv[3:]: make(s); print('made', s['id'])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            r = verify(i); print(json.dumps(r), flush=True)
