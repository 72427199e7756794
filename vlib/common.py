import os, sys, json, subprocess, time, random, hashlib, shutil, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TARGET_DIR'] = os.path.join(OUT, 'target')
    e['CARGO_TERM_COLOR'] = 'never'; e['NO_COLOR'] = '1'; e['TERM'] = 'dumb'
    e.pop('RUSTFLAGS', None); e.pop('RUSTUP_TOOLCHAIN', None)
    e['RUST_BACKTRACE'] = '0'
    return e

def rng(tag=''):
    return random.Random(f'{SEED}:{tag}')

class BuildError(Exception):
    def __init__(self, msg, out=''): super().__init__(msg); self.out = out

def tree_hash():
    """of everything in /repo that a build can depend on"""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target', 'book'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            try: h.update(open(p, 'rb').read())
            except OSError: pass
            h.update(b'\0')
    return h.hexdigest()

def build_stamp(name):
    """cargo compares modification times only: start anew where the tree is not the one of the last build"""
    st = os.path.join(OUT, 'stamps'); os.makedirs(st, exist_ok=True)
    p = os.path.join(st, name); h = tree_hash()
    try: same = open(p).read() == h
    except OSError: same = True if not os.path.isdir(os.path.join(OUT, 'target')) else False
    return p, h, same

REPO_PKGS = ('askama', 'askama_derive', 'askama_parser', 'askama_escape')
def cargo_build(crate, extra=(), timeout=800, release=False, pkgs=REPO_PKGS):
    """builds the harness crate /verif/harness/<crate> against /repo; returns the directory of binaries"""
    d = os.path.join(VERIF, 'harness', crate)
    stamp, h, same = build_stamp('target' + ('-release' if release else '') + '-' + crate)
    if not same:
        for p in pkgs: subprocess.run(['cargo', 'clean', '--offline', '-p', p] + (['--release'] if release else []), cwd=d, env=env(), capture_output=True)
    cmd = ['cargo', 'build', '--offline', '--message-format=short'] + (['--release'] if release else []) + list(extra)
    try: p = subprocess.run(cmd, cwd=d, env=env(), capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired: raise BuildError(f'cargo build of harness/{crate} timed out')
    if p.returncode != 0: raise BuildError(f'cargo build of harness/{crate} failed', p.stderr[-6000:])
    open(stamp, 'w').write(h)
    return os.path.join(OUT, 'target', 'release' if release else 'debug')

def run_harness(crate, pid, tier, timeout=600):
    """runs one property of a harness crate; its last line of output is the report"""
    b = os.path.join(cargo_build(crate), crate)
    try: p = subprocess.run([b, pid, str(SEED), tier], capture_output=True, text=True, timeout=timeout, errors='replace', env=env())
    except subprocess.TimeoutExpired:
        return {'failures': [{'key': 'hang', 'input': f'{crate} {pid}', 'expected': 'an end', 'got': f'no end within {timeout} s'}], 'coverage': {}, 'errors': []}
    try: r = json.loads(p.stdout.strip('\n').split('\n')[-1])
    except (ValueError, IndexError):
        if p.returncode < 0 or p.returncode in (134, 139): 
            return {'failures': [{'key': 'crash', 'input': f'{crate} {pid}', 'expected': 'an end', 'got': f'exit status {p.returncode}: {p.stderr[-800:]}'}], 'coverage': {}, 'errors': []}
        return {'failures': [], 'coverage': {}, 'errors': [f'{crate} {pid}: exit status {p.returncode}: {p.stderr[-1500:]}']}
    return {'failures': r['failures'], 'coverage': r['coverage'], 'errors': []}

def write_replay(pid, name, obj):
    d = os.path.join(OUT, 'replay', pid); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + '.json')
    json.dump(obj, open(p, 'w'), indent=1, ensure_ascii=False, default=str)
    return p

def known_findings(pid):
    res = []
    for l in open(os.path.join(VERIF, 'known-findings.txt'), encoding='utf-8'):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid: res.append((m.group(2), m.group(3)))
    return res
