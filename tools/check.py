#!/usr/bin/env python3
"""check.py ID - build what is needed from /repo, explore the property's harnesses, report."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, '.build')
VENV = '/opt/vp/venv/bin/python'


def known_file():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('known: '):
            f = l[7:].split(' ', 2)
            d = dict(x.split('=', 1) for x in f[:2])
            out[(d['property'], d['id'])] = f[2]
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'tools/build.py')], stdout=subprocess.PIPE)
    if r.returncode:
        print('build failed')
        return 2
    paths = r.stdout.decode().strip().splitlines()[-1]
    os.makedirs(os.path.join(B, 'out'), exist_ok=True)
    outp = os.path.join(B, 'out', prop + '.json')
    if os.path.exists(outp):
        os.unlink(outp)
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC', VERIF_SEED=str(seed))
    env.setdefault('SYMEX_BUDGET', '240' if tier == 'quick' else '7200')
    env.setdefault('SYMEX_QTO', '20000' if tier == 'quick' else '120000')
    cmd = 'ulimit -s unlimited; exec "$@"'
    r = subprocess.run(['bash', '-c', cmd, 'x', VENV, os.path.join(VERIF, 'tools/explore.py'), 'run', prop, tier, paths, outp], env=env, stderr=subprocess.PIPE, stdout=subprocess.PIPE, cwd='/')
    if not os.path.exists(outp):
        print('exploration failed (exit %d)' % r.returncode)
        sys.stdout.write(r.stderr.decode(errors='replace')[:3000])
        return 2
    d = json.load(open(outp))
    listed = known_file()
    tot = lambda k: sum(c[k] for c in d['cases'].values())  # noqa: E731
    nviol = 0
    vdir = os.path.join(B, 'violations')
    os.makedirs(vdir, exist_ok=True)
    lines = []
    for i, v in enumerate(d['violations']):
        f = os.path.join(vdir, '%s-%d.json' % (prop, i))
        json.dump({'property': prop, 'tier': tier, **v}, open(f, 'w'), indent=1)
        nviol += 1
        lines.append((v, f))
    for k, n in sorted(d['known'].items()):
        if (prop, k) in listed:
            print('KNOWN-FINDING: property=%s %s (%d explored paths, each replayed natively)' % (prop, listed[(prop, k)], n))
        else:  # only the committed file can make a finding a known one
            f = os.path.join(vdir, '%s-%s.json' % (prop, k))
            json.dump({'property': prop, 'tier': tier, 'known_id': k, **d['known_ex'][k]}, open(f, 'w'), indent=1)
            nviol += 1
            lines.append((d['known_ex'][k], f))
    complete = not d['pending'] and not tot('unknown') and not tot('limit') and not tot('div') and not tot('mismatch')
    samples = []
    for c, ss in list(d['samples'].items()):
        samples += [{'case': c, **s} for s in ss[:2]]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
        'coverage': {
            'states': tot('paths'), 'transitions': tot('events'), 'traces_validated_against_impl': tot('native'), 'samples': samples[:40],
            'exhaustive': bool(complete),
            'meaning': 'states: distinct path conditions through the interpreted LLVM IR reached by the exploration; transitions: symbolic decisions on those paths, each of whose other side was put to the solver; '
                       'traces_validated_against_impl: paths whose solver-chosen input was also run through the natively compiled extension, with equal outcome',
            'bounds': d['bounds'],
            'cases': {c: {k: s[k] for k in ('paths', 'discarded', 'events', 'unknown', 'limit', 'mismatch', 'conc')} for c, s in d['cases'].items()},
            'not_explored': {'pending_branches': d['pending'], 'solver_unknown': tot('unknown'), 'step_limit_paths': tot('limit'), 'diverged_paths': tot('div'), 'native_disagreements': tot('mismatch'),
                             'values_made_concrete_without_fork': d['silent']},
            'solver': dict(d['solver'], name='z3 (QF_BVFP)'),
            'functions_encoded': {'executed': d['nran'], 'decided_on_symbolic_values': d['functions']},
            'instructions_interpreted': tot('ic'),
        },
        'assumptions': ['the IR interpreter and its CPython stand-ins for symbolic objects are faithful; every explored path is replayed natively and compared, which checks it on one input per path',
                        'CPython itself runs natively and is trusted', 'inputs outside the stated bounds of each case are not covered'],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d paths, %d symbolic decisions, %d solver queries (%.1f s), %d native replays, exhaustive within bounds: %s, %.1f s' % (
        prop, tier, len(d['cases']), tot('paths'), tot('events'), d['solver']['queries'], d['solver']['time_s'], tot('native'), complete, time.time() - t0))
    for n in d['notes'][:3]:
        print('note:', n[:300])
    if tot('mismatch'):
        print('note: %d paths where the interpreter and the native build disagreed are not counted as explored' % tot('mismatch'))
    if nviol:
        v, f = lines[0]
        print('case %s, inputs %s: %s' % (v['case'], json.dumps(v['inputs']), json.dumps(v['native'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    if tot('paths') == 0:
        print('nothing explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
