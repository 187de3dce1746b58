"""Builds the replay binary against /repo's working tree and dumps the MIR of the crates while they compile."""
import os, sys, subprocess, hashlib, time, fcntl, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')

def tree_hash():
    h = hashlib.sha256()
    dirs = [(REPO, ('src', 'plookup/src')), (ROOT, ('replay/src',))]
    fs = [os.path.join(REPO, f) for f in ('Cargo.toml', 'plookup/Cargo.toml')] + [os.path.join(ROOT, 'replay/Cargo.toml'), os.path.join(ROOT, 'tools/rustc_wrap.sh')]
    for root, ds in dirs:
        for d in ds:
            for a, _, b in os.walk(os.path.join(root, d)):
                fs += [os.path.join(a, x) for x in b if x.endswith('.rs')]
    for f in sorted(fs):
        h.update(f.encode() + b'\0')
        try: h.update(open(f, 'rb').read())
        except OSError: pass
    return h.hexdigest()[:20]

def env(mir):
    T = '/root/.rustup/toolchains'
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO') and k != 'CARGO_HOME': del e[k]
    e.update(PATH='/usr/local/bin:/usr/bin:/bin', RUSTUP_TOOLCHAIN='1.70.0', RUSTC='/opt/vp/shim/rustc', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_OPT_LEVEL='2',
             RUSTFLAGS='-C target-cpu=x86-64-v2 --cfg plonky_verif', CARGO_TARGET_DIR=os.path.join(BUILD, 'target'),
             RUSTC_WRAPPER=os.path.join(ROOT, 'tools/rustc_wrap.sh'), VERIF_MIR_DIR=mir, RUST_BACKTRACE='0')
    return e

def build(log=None):
    """returns dict(mir, bin (or None), wall, log)"""
    t = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        out = os.path.join(BUILD, 'out-' + h)
        mir = os.path.join(out, 'mir'); bn = os.path.join(out, 'replay')
        if os.path.exists(os.path.join(out, 'done')):
            return {'mir': mir, 'bin': bn if os.path.exists(bn) else None, 'wall': time.time() - t, 'log': 'cached', 'hash': h}
        for d in os.listdir(BUILD):
            if d.startswith('out-') and d != 'out-' + h:
                p = os.path.join(BUILD, d)
                if time.time() - os.path.getmtime(p) > 6*3600 or len([x for x in os.listdir(BUILD) if x.startswith('out-')]) > 12: shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(mir)
        lockf = os.path.join(ROOT, 'replay/Cargo.lock')
        # force the crates under verification to recompile so that their MIR is dumped into this directory
        fp = os.path.join(BUILD, 'target/debug/.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(('plonky-', 'plookup-')): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=os.path.join(ROOT, 'replay'), env=env(mir), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        txt = r.stdout.decode('utf8', 'replace')
        n = len([x for x in os.listdir(mir) if x.startswith('plonky.')])
        if n == 0: raise RuntimeError('the crate did not compile or its MIR was not dumped:\n' + txt[-3000:])
        src = os.path.join(BUILD, 'target/debug/replay')
        if r.returncode == 0 and os.path.exists(src): shutil.copy2(src, bn)
        open(os.path.join(out, 'done'), 'w').write('ok')
        return {'mir': mir, 'bin': bn if os.path.exists(bn) else None, 'wall': time.time() - t, 'log': txt[-3000:] if r.returncode else '', 'hash': h}
