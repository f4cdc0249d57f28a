#!/usr/bin/env python3
"""Builds what the checks need from /repo's current working tree, offline, under /verif/.build:
the engine (once), the LLVM IR of the dependencies and std (once), and - whenever a source
file of /repo changed - the extension itself: its LLVM IR and the native shared library."""
import os, sys, subprocess, hashlib, shutil, glob, json, time, fcntl, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMEX_REPO", "/repo")
B = os.path.join(VERIF, '.build')
SRC = os.path.join(B, 'src')
TGT = os.path.join(B, 'target')
IR = os.path.join(B, 'ir')
TRIPLE = 'x86_64-unknown-linux-gnu'
NAMES = ['Cargo.toml', 'Cargo.lock', 'build.rs', 'src', 'python', 'generate_self_schema.py', '.cargo', 'README.md', 'LICENSE', 'benches', 'rust-toolchain', 'rust-toolchain.toml', 'pyproject.toml']


def log(*a):
    print('[build]', *a, file=sys.stderr, flush=True)


def env():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
    e = dict(kv.split('=', 1) for kv in out.decode().split('\0') if '=' in kv)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


def llvm_bin(e):
    root = subprocess.check_output(['rustc', '--print', 'sysroot'], env=e, cwd='/').decode().strip()
    return root, os.path.join(root, 'lib/rustlib', TRIPLE, 'bin')


def run(cmd, e, cwd=None, quiet=True):
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors='replace')[-6000:])
        raise SystemExit('build step failed: %s' % ' '.join(cmd[:6]))
    return r.stdout


def files(root):
    out = []
    for n in NAMES:
        p = os.path.join(root, n)
        if os.path.isfile(p):
            out.append(n)
        elif os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds[:] = [x for x in ds if x not in ('__pycache__', 'target')]
                for f in fs:
                    if f.endswith(('.so', '.pyc')):
                        continue
                    out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


def sync():
    os.makedirs(SRC, exist_ok=True)
    h = hashlib.sha256()
    want = files(REPO)
    for f in want:
        a, b = os.path.join(REPO, f), os.path.join(SRC, f)
        data = open(a, 'rb').read()
        h.update(f.encode() + b'\0' + hashlib.sha256(data).digest())
        if os.path.exists(b) and open(b, 'rb').read() == data:
            continue
        os.makedirs(os.path.dirname(b), exist_ok=True)
        open(b, 'wb').write(data)
    for f in files(SRC):
        if f not in want and f != 'src/self_schema.py':
            os.unlink(os.path.join(SRC, f))
    return h.hexdigest()


def engine(e):
    e = dict(e)
    e['CARGO_TARGET_DIR'] = os.path.join(B, 'engine')
    run(['cargo', 'build', '--release', '--offline'], e, cwd=os.path.join(VERIF, 'engine'))
    return os.path.join(B, 'engine/release/libsymex.so')


def extension(e, key):
    """compile the extension and produce ext.ll + native.so"""
    root, lb = llvm_bin(e)
    e = dict(e)
    e.update(CARGO_TARGET_DIR=TGT, CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_CODEGEN_UNITS='64', CARGO_PROFILE_DEV_OPT_LEVEL='1')
    e['CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUSTFLAGS'] = '--emit=llvm-bc -Cno-vectorize-loops -Cno-vectorize-slp'
    t0 = time.time()
    d = os.path.join(TGT, TRIPLE, 'debug/deps')
    for f in glob.glob(d + '/_pydantic_core*.bc'):
        os.unlink(f)
    os.utime(os.path.join(SRC, 'src/lib.rs'))  # have the crate compiled (incrementally) again
    out = run(['cargo', 'build', '--offline', '--target', TRIPLE, '--features', 'extension-module', '--lib', '--message-format', 'json'], e, cwd=SRC)
    so = None
    deps = []
    for line in out.decode().splitlines():
        if not line.startswith('{'):
            continue
        m = json.loads(line)
        if m.get('reason') != 'compiler-artifact':
            continue
        for f in m['filenames']:
            if '/%s/' % TRIPLE not in f:
                continue
            if f.endswith('.so') and m['target']['name'] == '_pydantic_core':
                so = f
            elif f.endswith('.rlib') and m['target']['name'] != '_pydantic_core':
                deps.append(f)
    assert so, 'no shared library'
    log('cargo %.1fs' % (time.time() - t0))
    cand = sorted(glob.glob(d + '/_pydantic_core*.rcgu.bc')) or glob.glob(d + '/_pydantic_core*.bc')
    assert cand, 'no bitcode'
    os.makedirs(IR, exist_ok=True)
    base = os.path.join(IR, 'base.ll')
    bkey = hashlib.sha256(('v2' + '\n'.join(sorted(deps)) + root).encode()).hexdigest()
    bk = os.path.join(IR, 'base.key')
    if not (os.path.exists(base) and os.path.exists(bk) and open(bk).read() == bkey):
        t0 = time.time()
        make_base(e, root, lb, d, deps, base)
        open(bk, 'w').write(bkey)
        log('base IR %.1fs' % (time.time() - t0))
    t0 = time.time()
    ext = os.path.join(IR, 'ext')
    os.makedirs(ext, exist_ok=True)
    keep, jobs = set(), []
    for c in cand:
        h = hashlib.sha256(open(c, 'rb').read()).hexdigest()[:24]
        o = os.path.join(ext, h + '.ll')
        keep.add(h + '.ll')
        if not os.path.exists(o):
            jobs.append((c, o))
    for f in os.listdir(ext):
        if f not in keep:
            os.unlink(os.path.join(ext, f))

    def dis(j):
        run([os.path.join(lb, 'llvm-dis'), j[0], '-o', j[1] + '.tmp'], e)
        os.rename(j[1] + '.tmp', j[1])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(dis, jobs))
    log('llvm-dis of %d units %.1fs' % (len(jobs), time.time() - t0))
    shutil.copyfile(so, os.path.join(IR, 'native.so'))
    open(os.path.join(IR, 'ext.key'), 'w').write(key)


def make_base(e, root, lb, d, deps, out):
    w = os.path.join(B, 'base')
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    bcs = []
    for r in deps:
        stem = os.path.basename(r)[3:-5]
        ps = sorted(glob.glob(os.path.join(d, stem + '.*.rcgu.bc'))) or glob.glob(os.path.join(d, stem + '.bc'))
        if not ps:
            log('no bitcode for', stem)
        bcs += ps
    lib = os.path.join(root, 'lib/rustlib', TRIPLE, 'lib')
    for n in ['core', 'alloc', 'std', 'panic_unwind', 'unwind', 'hashbrown', 'memchr', 'rustc_demangle', 'cfg_if', 'libc', 'std_detect', 'gimli', 'addr2line', 'object', 'miniz_oxide', 'adler2']:
        for r in glob.glob(os.path.join(lib, 'lib%s-*.rlib' % n)):
            x = os.path.join(w, n)
            os.makedirs(x)
            run([os.path.join(lb, 'llvm-ar'), 'x', r], e, cwd=x)
            for i, o in enumerate(sorted(glob.glob(x + '/*.o'))):
                p = os.path.join(w, '%s.%d.bc' % (n, i))
                r2 = subprocess.run([os.path.join(lb, 'llvm-objcopy'), '--dump-section', '.llvmbc=' + p, o], env=e, stderr=subprocess.DEVNULL)
                if os.path.exists(p) and os.path.getsize(p) > 0:
                    bcs.append(p)
            shutil.rmtree(x)
    run([os.path.join(lb, 'llvm-link')] + bcs + ['-o', os.path.join(w, 'all.bc')], e)
    run([os.path.join(lb, 'opt'), '-passes=strip', os.path.join(w, 'all.bc'), '-o', os.path.join(w, 's.bc')], e) if False else None
    run([os.path.join(lb, 'llvm-dis'), os.path.join(w, 'all.bc'), '-o', out], e)
    shutil.rmtree(w)


def main():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        so = engine(e)
        key = sync()
        kf = os.path.join(IR, 'ext.key')
        if not (os.path.exists(kf) and open(kf).read() == key and os.path.exists(os.path.join(IR, 'native.so'))):
            if os.path.exists(kf):
                os.unlink(kf)
            extension(e, key)
        print(json.dumps({'engine': so, 'base': os.path.join(IR, 'base.ll'), 'ext': os.path.join(IR, 'ext'), 'native': os.path.join(IR, 'native.so'), 'python': os.path.join(SRC, 'python'), 'key': key}))


if __name__ == '__main__':
    main()
