#!/usr/bin/env python3
"""Exhaustive exploration of the harnesses of one property.

  explore.py run PROP TIER PATHS.json OUT.json     (under the venv's interpreter)
  explore.py native PROP PATHS.json                replay server on stdin/stdout
  explore.py replay PATHS.json FILE                one recorded violation, natively
"""
import sys, os, json, time, struct, signal, random, importlib.util, resource, traceback, select, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'props'))
sys.setrecursionlimit(4000)
import sx  # noqa: E402

Z3 = os.environ.get('SYMEX_Z3', '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so')
if not os.path.exists(Z3):
    Z3 = '/usr/lib/x86_64-linux-gnu/libz3.so'


def load_prop(prop):
    p = os.path.join(VERIF, 'props', prop + '.py')
    spec = importlib.util.spec_from_file_location('prop_' + prop, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    return m


def native_module(paths):
    import importlib.machinery
    ld = importlib.machinery.ExtensionFileLoader('pydantic_core._pydantic_core', paths['native'])
    spec = importlib.util.spec_from_file_location('pydantic_core._pydantic_core', paths['native'], loader=ld)
    sys.path.insert(0, paths['python'])
    m = importlib.util.module_from_spec(spec)
    ld.exec_module(m)
    sys.modules['pydantic_core._pydantic_core'] = m
    import pydantic_core
    assert pydantic_core.SchemaValidator is m.SchemaValidator


def run_case(case, inputs):
    """one execution; returns (kind, message, log, S)"""
    s = sx.S(inputs)
    try:
        case.path(s)
        return 'ok', '', s.log, s
    except sx.Fail as e:
        return 'FAIL', str(e), s.log, s
    except sx.Discard:
        return 'discard', '', [], s
    except BaseException as e:
        if type(e).__name__ == 'PanicException':
            return 'PANIC', '', s.log, s
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if 'props' in f.filename]
        s.quiet(True)
        try:
            m = '%s at line %s: %s' % (type(e).__name__, where[-1].lineno if where else '?', str(e)[:300])
        except BaseException:
            m = type(e).__name__
        return 'EXC', m, s.log, s


def send(fd, o):
    b = json.dumps(o).encode()
    b = struct.pack('<I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def rdn(fd, n):
    out = b''
    while len(out) < n:
        x = os.read(fd, n - len(out))
        if not x:
            raise EOFError
        out += x
    return out


def recv(fd):
    n = struct.unpack('<I', rdn(fd, 4))[0]
    return json.loads(rdn(fd, n))


# ---------------------------------------------------------------- native replay
def native_run(cases, name, inputs):
    """in a forked child, so that a crash is an outcome"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 60)
            os.close(r)
            k, m, log, _ = run_case(cases[name], inputs)
            send(w, [k, m, log])
        finally:
            os._exit(0)
    os.close(w)
    try:
        res = recv(r)
    except EOFError:
        res = None
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if res is None:
        res = ['CRASH', 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st), []]
    return res


def setup(mod, tier):
    cases = {}
    for c in mod.cases(tier):
        assert c.name not in cases, c.name
        cases[c.name] = c
    return cases


def native_server(prop, tier, paths):
    native_module(paths)
    mod = load_prop(prop)
    cases = setup(mod, tier)
    devnull = os.open('/dev/null', os.O_WRONLY)
    out = os.dup(1)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import gc
    for c in cases.values():
        for inp in ([{}] + list(getattr(c, 'warm', []))):
            run_case(c, inp)
    gc.collect()
    gc.disable()
    gc.freeze()
    while True:
        try:
            m = recv(0)
        except EOFError:
            os._exit(0)
        send(out, [m['id'], native_run(cases, m['case'], m['in'])])


# ---------------------------------------------------------------- symbolic worker
def worker(cases, rfd, wfd, ilimit, qto):
    L = sx.L
    L.sx_private()
    L.sx_solver(Z3.encode(), qto)
    import ctypes
    st = (ctypes.c_uint64 * 8)()
    fs = (ctypes.c_double * 8)()
    devnull = os.open('/dev/null', os.O_WRONLY)
    if not os.environ.get('SYMEX_DEBUG'):
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
    while True:
        try:
            m = recv(rfd)
        except EOFError:
            os._exit(0)
        if m is None:
            L.sx_solver_stats(fs)
            send(wfd, {'ran': L.sx_ran(2).decode().split('\n')[:-1], 'ran1': L.sx_ran(1).decode().split('\n')[:-1], 'solver': list(fs)})
            os._exit(0)
        t0 = time.time()
        L.sx_reset()
        for k, v in m['in'].items():
            L.sx_input(k.encode(), v & (2**64 - 1), v >> 64)
        pid = os.fork()
        if pid == 0:
            signal.setitimer(signal.ITIMER_REAL, m.get('to', 120))
            L.sx_begin(ilimit)
            k, msg, log, s = run_case(cases[m['case']], m['in'])
            L.sx_quiet(1)
            sil = json.loads(L.sx_silent().decode())
            L.sx_end(4 if k == 'discard' else 1, json.dumps([k, msg, log, sil]).encode())
            os._exit(0)
        _, ws = os.waitpid(pid, 0)
        t1 = time.time()
        L.sx_shm_status(st)
        status = st[0]
        res = {'id': m['id'], 'case': m['case'], 'status': int(status), 'ev': int(st[1]), 'nodes': int(st[2]), 'ic': int(st[3]), 'conc': int(st[4])}
        res['vars'] = json.loads(L.sx_shm_vars().decode())
        res['out'] = L.sx_shm_out().decode(errors='replace') if status else ''
        if status == 0:
            res['sig'] = os.WTERMSIG(ws) if os.WIFSIGNALED(ws) else -os.WEXITSTATUS(ws)
        res['div'] = bool(m['bound'] and L.sx_prefix_hash(m['bound']) != m['hash'])
        ex = m.get('excl') or []
        arr = (ctypes.c_uint64 * (2 * len(ex) + 1))()
        for i, v in enumerate(ex):
            arr[2 * i], arr[2 * i + 1] = v & (2**64 - 1), v >> 64
        if os.environ.get('SYMEX_EVENTS'):
            res['events'] = L.sx_events(int(os.environ['SYMEX_EVENTS'])).decode()
        L.sx_warm()
        x = json.loads(L.sx_expand(m['bound'], len(ex), arr).decode())
        L.sx_solver_stats(fs)
        res['items'], res['unknown'] = x['items'], x['unknown']
        res['t'] = [t1 - t0, time.time() - t1]
        send(wfd, res)


def main_run(prop, tier, paths, outp):
    t_start = time.time()
    deadline = t_start + float(os.environ.get('SYMEX_BUDGET', '600' if tier == 'quick' else '36000'))
    nw = int(os.environ.get('SYMEX_WORKERS', '8'))
    nn = 2
    env = dict(os.environ)
    reps = []
    for _ in range(nn):
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__), 'native', prop, tier, json.dumps(paths)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        reps.append(p)
    L = sx.load_engine(paths['engine'])
    import datetime  # noqa: F401  (the datetime C API is looked up by the extension)
    import decimal, uuid, enum, re, dataclasses, zoneinfo, collections, typing, fractions  # noqa: F401
    for f in sorted(os.listdir(paths['ext'])):
        L.sx_load(os.path.join(paths['ext'], f).encode())
    L.sx_load(paths['base'].encode())
    L.sx_finish_load()
    import ctypes
    sys.path.insert(0, paths['python'])
    p = L.sx_call0(b'PyInit__pydantic_core')
    sys.modules['pydantic_core._pydantic_core'] = ctypes.cast(p, ctypes.py_object).value
    import pydantic_core  # noqa: F401
    mod = load_prop(prop)
    # oracles and concrete warm-up run without the symbolic machinery
    sx.L = None
    cases = setup(mod, tier)
    warm_fail = []
    for c in cases.values():
        for inp in ([{}] + list(getattr(c, 'warm', []))):
            r = run_case(c, inp)
            if r[0] not in ('ok', 'discard'):
                warm_fail.append((c.name, r[:3]))
    sx.L = L
    only = os.environ.get('SYMEX_CASE')
    import gc
    gc.collect()
    gc.disable()
    gc.freeze()
    t_setup = time.time() - t_start
    # workers
    ws = []
    for i in range(nw):
        ar, aw = os.pipe()
        br, bw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(aw)
            os.close(br)
            for w in ws:
                os.close(w['w'])
                os.close(w['r'])
            try:
                worker(cases, ar, bw, mod.ILIMIT if hasattr(mod, 'ILIMIT') else 200_000_000, int(os.environ.get('SYMEX_QTO', '60000')))
            except BaseException:
                traceback.print_exc()
            os._exit(1)
        os.close(ar)
        os.close(bw)
        ws.append({'pid': pid, 'r': br, 'w': aw, 'busy': None})
    stacks = {}
    order = []
    for c in cases.values():
        if only and only not in c.name:
            continue
        stacks[c.name] = [{'in': {}, 'bound': 0, 'hash': 0, 'kind': 0, 'excl': []}]
        order.append(c.name)
    stat = {c: {'paths': 0, 'discarded': 0, 'limit': 0, 'events': 0, 'items': 0, 'unknown': 0, 'div': 0, 'crash': 0, 'conc': 0, 'ic': 0, 't_path': 0.0, 't_solve': 0.0, 'mismatch': 0, 'native': 0, 'sat': 0, 'unsat': 0} for c in stacks}
    viol, mism, silent, notes = [], [], {}, []
    samples = {}
    repq, repbusy, repinfo = [], [None] * nn, {}
    nid = 0
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    dbg = os.environ.get('SYMEX_DEBUG')
    stop_on_viol = not os.environ.get('SYMEX_ALL')
    known = getattr(mod, 'KNOWN', None)
    known_hits, known_ex = {}, {}
    last = time.time()
    rr = 0
    while True:
        # dispatch symbolic work
        timeup = time.time() > deadline
        if not timeup and not (viol and stop_on_viol):
            for w in ws:
                if w['busy'] is not None:
                    continue
                nonempty = [c for c in order if stacks[c]]
                if not nonempty:
                    break
                rr += 1
                c = nonempty[rr % len(nonempty)]
                st = stacks[c]
                # mostly depth first, sometimes a random pending item
                if len(st) > 1 and rng.random() < 0.25:
                    k = rng.randrange(len(st))
                    st[k], st[-1] = st[-1], st[k]
                it = st.pop()
                nid += 1
                it = dict(it, id=nid, case=c, to=getattr(cases[c], 'timeout', 120))
                w['busy'] = it
                send(w['w'], it)
        for i in range(nn):
            if repbusy[i] is None and repq:
                r = repq.pop()
                repbusy[i] = r
                send(reps[i].stdin.fileno(), {'id': r['id'], 'case': r['case'], 'in': r['vars']})
        rf = [w['r'] for w in ws if w['busy'] is not None] + [reps[i].stdout.fileno() for i in range(nn) if repbusy[i] is not None]
        if not rf:
            break
        if time.time() > deadline + 40:
            for w in ws:
                if w['busy'] is not None:
                    stacks[w['busy']['case']].append(w['busy'])
                    notes.append('stopped at the deadline inside %s' % w['busy']['case'])
            break
        rd, _, _ = select.select(rf, [], [], 5)
        for w in ws:
            if w['r'] not in rd:
                continue
            try:
                m = recv(w['r'])
            except EOFError:
                notes.append('worker died on case %s' % w['busy']['case'])
                raise SystemExit('symbolic worker died: ' + str(w['busy']))
            it = w['busy']
            w['busy'] = None
            c = m['case']
            s = stat[c]
            s['events'] += m['ev']
            s['conc'] += m['conc']
            s['ic'] += m['ic']
            s['t_path'] += m['t'][0]
            s['t_solve'] += m['t'][1]
            s['unknown'] += m['unknown']
            s['items'] += len(m['items'])
            stacks[c].extend(m['items'])
            if m['div']:
                s['div'] += 1
                if dbg:
                    print('DIVERGED', c, it['in'], it['bound'], file=sys.stderr)
            if 'events' in m and dbg:
                print('---', c, m['vars'], m['status'], m['out'][:300], '\n' + m['events'], file=sys.stderr)
            if m['status'] == 4:
                s['discarded'] += 1
                continue
            s['paths'] += 1
            if m['status'] == 3:
                s['limit'] += 1
                if len(notes) < 20:
                    notes.append('%s: %s on %s' % (c, m['out'][:600], m['vars']))
                m['res'] = ['LIMIT', m['out'][:400], []]
            elif m['status'] == 1:
                o = json.loads(m['out'])
                m['res'] = o[:3]
                for k, v in o[3].items():
                    silent.setdefault(k, [0, c])[0] += v
            elif m['status'] == 2:
                m['res'] = ['PANIC', m['out'][:400], []]
            else:
                m['res'] = ['CRASH', 'signal %s' % m.get('sig'), []]
                s['crash'] += 1
            repq.append(m)
        for i in range(nn):
            if repbusy[i] is not None and reps[i].stdout.fileno() in rd:
                m = repbusy[i]
                repbusy[i] = None
                _, r = recv(reps[i].stdout.fileno())
                c = m['case']
                s = stat[c]
                s['native'] += 1
                a = m['res']
                bad = r[0] != 'ok'
                same = a[0] == r[0] and (r[0] in ('PANIC', 'CRASH') or (a[1] == r[1] and a[2] == r[2]))
                if r[0] == 'discard':
                    same = False
                    bad = False
                if bad:
                    k = known(c, r, m['vars']) if known else None
                    if k:
                        known_hits[k] = known_hits.get(k, 0) + 1
                        known_ex.setdefault(k, {'case': c, 'inputs': m['vars'], 'native': r, 'symbolic': a})
                    else:
                        viol.append({'case': c, 'inputs': m['vars'], 'native': r, 'symbolic': a})
                elif not same and a[0] != 'LIMIT':
                    s['mismatch'] += 1
                    if len(mism) < 20:
                        mism.append({'case': c, 'inputs': m['vars'], 'native': r, 'symbolic': a})
                if c not in samples or (len(samples[c]) < 4 and rng.random() < 0.2):
                    samples.setdefault(c, []).append({'inputs': m['vars'], 'outcome': r, 'events': m['ev']})
        if dbg and time.time() - last > 5:
            last = time.time()
            print('[%.0fs] paths=%d pending=%d repq=%d busy=%s' % (time.time() - t_start, sum(s['paths'] for s in stat.values()), sum(len(x) for x in stacks.values()), len(repq), [w['busy']['case'] for w in ws if w['busy']]), file=sys.stderr)
        if viol and stop_on_viol and not repq and all(x is None for x in repbusy):
            break
    pending = {c: len(x) for c, x in stacks.items() if x}
    ran, ran1, sv = set(), set(), [0.0] * 8
    for w in ws:
        if w['busy'] is not None:
            os.kill(w['pid'], signal.SIGKILL)
            continue
        send(w['w'], None)
        try:
            x = recv(w['r'])
            ran.update(x['ran'])
            ran1.update(x['ran1'])
            for i in range(6):
                sv[i] += x['solver'][i]
            sv[6] = max(sv[6], x['solver'][6])
        except EOFError:
            pass
    for p in reps:
        p.kill()
    res = {'prop': prop, 'tier': tier, 'cases': stat, 'violations': viol[:10], 'mismatches': mism, 'silent': silent, 'notes': notes, 'pending': pending, 'warm': warm_fail,
           'functions': sorted(ran), 'solver': {'queries': int(sv[0]), 'sat': int(sv[1]), 'unsat': int(sv[2]), 'unknown': int(sv[3]), 'cached': int(sv[4]), 'time_s': round(sv[5], 3), 'slowest_s': round(sv[6], 3)},
           'known': known_hits, 'known_ex': known_ex, 'nran': len(ran1 | ran), 'samples': samples, 'bounds': {c: getattr(cases[c], 'bounds', '') for c in stacks}, 'setup_s': round(t_setup, 2), 'wall_s': round(time.time() - t_start, 2)}
    json.dump(res, open(outp, 'w'), indent=1)
    os._exit(0)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'run':
        main_run(sys.argv[2], sys.argv[3], json.loads(sys.argv[4]), sys.argv[5])
    elif cmd == 'native':
        native_server(sys.argv[2], sys.argv[3], json.loads(sys.argv[4]))
    elif cmd == 'replay':
        paths = json.loads(sys.argv[2])
        v = json.load(open(sys.argv[3]))
        native_module(paths)
        mod = load_prop(v['property'])
        cases = setup(mod, v['tier'])
        r = run_case(cases[v['case']], v['inputs'])
        print(json.dumps({'case': v['case'], 'inputs': v['inputs'], 'outcome': r[:3]}, indent=1))
        sys.exit(0 if r[0] in ('ok', 'discard') else 1)
