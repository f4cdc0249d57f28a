"""C12 - arguments: positional and keyword arguments are bound to parameters as Python binds them, and a validated call calls the function once with them."""
from hlib import *

# name -> [(parameter, mode, has a default)], *args, **kwargs
SIGS = {
    'po-pk-ko': ([('a', 'positional_only', 0), ('b', 'positional_or_keyword', 1), ('c', 'keyword_only', 0)], 0, 0),
    'pk-pk-args': ([('a', 'positional_or_keyword', 0), ('b', 'positional_or_keyword', 1)], 1, 0),
    'po-po-kwargs': ([('a', 'positional_only', 0), ('b', 'positional_only', 1)], 0, 1),
    'pk-ko-args-kwargs': ([('a', 'positional_or_keyword', 1), ('c', 'keyword_only', 1)], 1, 1),
    'po-args-ko-kwargs': ([('a', 'positional_only', 1), ('b', 'keyword_only', 0)], 1, 1),
    'pk': ([('a', 'positional_or_keyword', 0)], 0, 0),
    'args-kwargs': ([], 1, 1),
}


def cases(tier):
    big = tier != 'quick'
    from pydantic_core import ArgsKwargs
    GE = cs.int_schema(ge=0)
    DEF = {'a': 71, 'b': 72, 'c': 73}

    def sch(f, d):
        return cs.with_default_schema(GE, default=DEF[f]) if d else GE

    def v1(sig, unpacked=False):
        ps, va, vk = SIGS[sig]
        kw = {}
        if va:
            kw['var_args_schema'] = GE
        if vk:
            if unpacked:
                kw['var_kwargs_mode'] = 'unpacked-typed-dict'
                kw['var_kwargs_schema'] = cs.typed_dict_schema({'x': cs.typed_dict_field(GE, required=True)}, extra_behavior='forbid')
            else:
                kw['var_kwargs_schema'] = GE
        return cs.arguments_schema([cs.arguments_parameter(f, sch(f, d), mode=m) for f, m, d in ps], **kw)

    def v3(sig):
        ps, va, vk = SIGS[sig]
        out = [cs.arguments_v3_parameter(f, sch(f, d), mode=m) for f, m, d in ps if m != 'keyword_only']
        out += [cs.arguments_v3_parameter('args', GE, mode='var_args')] if va else []
        out += [cs.arguments_v3_parameter(f, sch(f, d), mode=m) for f, m, d in ps if m == 'keyword_only']
        out += [cs.arguments_v3_parameter('kwargs', GE, mode='var_kwargs_uniform')] if vk else []
        return cs.arguments_v3_schema(out)

    def python(sig):
        """a Python function with that signature which returns what its parameters are bound to"""
        ps, va, vk = SIGS[sig]
        txt, slash = [], False
        dflt = {}
        for f, m, d in ps:
            if m == 'keyword_only':
                continue
            if m == 'positional_or_keyword' and any(q[1] == 'positional_only' for q in ps) and not slash:
                txt.append('/')
                slash = True
            txt.append(f + ('=%d' % DEF[f] if d else ''))
        if any(q[1] == 'positional_only' for q in ps) and not slash:
            txt.append('/')
        if va:
            txt.append('*args')
        elif any(q[1] == 'keyword_only' for q in ps):
            txt.append('*')
        txt += [f + ('=%d' % DEF[f] if d else '') for f, m, d in ps if m == 'keyword_only']
        if vk:
            txt.append('**kwargs')
        env = {}
        exec('def f(%s): return locals()' % ', '.join(txt), env)
        return env['f']

    def bound(s, got, exp, what):
        s.check(set(got) == set(exp), what + ' (parameters)')
        for p, e in exp.items():
            g = got[p]
            if p == 'args':
                s.check(type(g) is tuple and len(g) == len(e), what + ' (*args)')
                for x, y in zip(g, e):
                    same(s, x, y, what)
            elif p == 'kwargs':
                s.check(list(g) == list(e), what + ' (**kwargs)')
                for key in e:
                    same(s, g[key], e[key], what)
            else:
                same(s, g, e, what)

    def expect(sig, n, xs, kw, unpacked):
        """errors and what the parameters are bound to (terms)"""
        ps, va, vk = SIGS[sig]
        bad, want, used, npos = [], {}, set(), 0
        for i, (f, m, d) in enumerate(ps):
            if m != 'keyword_only':
                npos = i + 1
            p = (i, xs[i]) if m != 'keyword_only' and i < n else None
            if m != 'positional_only' and f in kw:
                used.add(f)
                if p:
                    bad.append(('multiple_argument_values', (f,)))
                    continue
                p = (f, kw[f])
            if p:
                if bool(p[1].slt(0)):
                    bad.append(('greater_than_equal', (p[0],)))
                want[f] = p[1]
            elif d:
                want[f] = cst(32, DEF[f])
            else:
                bad.append({'positional_only': ('missing_positional_only_argument', (i,)), 'keyword_only': ('missing_keyword_only_argument', (f,)), 'positional_or_keyword': ('missing_argument', (f,))}[m])
        if va:
            want['args'] = xs[npos:]
        for i in range(npos, n):
            if not va:
                bad.append(('unexpected_positional_argument', (i,)))
            elif bool(xs[i].slt(0)):
                bad.append(('greater_than_equal', (i,)))
        rest = {k: x for k, x in kw.items() if k not in used}
        if vk:
            want['kwargs'] = rest
        if unpacked:
            if 'x' not in rest:
                bad.append(('missing', ('x',)))
            elif bool(rest['x'].slt(0)):
                bad.append(('greater_than_equal', ('x',)))
            for k in rest:
                if k != 'x':
                    bad.append(('extra_forbidden', (k,)))
        else:
            for k, x in rest.items():
                if not vk:
                    bad.append(('unexpected_keyword_argument', (k,)))
                elif bool(x.slt(0)):
                    bad.append(('greater_than_equal', (k,)))
        return bad, want

    def bind(sig, n, form, build=None, unpacked=False):
        def path(s):
            f = python(sig)
            names = 'abcx' if big else ''.join(q[0] for q in SIGS[sig][0]) + 'x'
            xs = [s.bv('p%d' % i, 4, 5).sext(32) for i in range(n)]
            kw = {k: s.bv('k' + k, 4, 5).sext(32) for k in names if s.flag('kw' + k)}
            pa, pk = tuple(s.int(x) for x in xs), {k: s.int(x) for k, x in kw.items()}
            if form == 'json':
                if n and kw:
                    return
                for x in list(xs) + list(kw.values()):
                    s.assume(x.sge(0) & x.ule(9))
            bad, want = expect(sig, n, xs, kw, unpacked)
            if form == 'v3':
                v = V(v3(sig))
            else:
                v = V(v1(sig, unpacked))
            calls = []
            if form == 'call':
                def g(*a, **k):
                    calls.append((a, k))
                    r = f(*a, **k)
                    return r
                v = V(cs.call_schema(v1(sig, unpacked), g))
            if form == 'json':
                if kw or s.flag('obj') and not n:
                    j = []
                    for k, x in kw.items():
                        j += ([44] if j else []) + [34, ord(k), 34, 58, x.bits(0, 8) + 48]
                    inp = [123] + j + [125]
                else:
                    j = []
                    for x in xs:
                        j += ([44] if j else []) + [x.bits(0, 8) + 48]
                    inp = [91] + j + [93]
                k, r = attempt(v.validate_json, s.bytes(inp))
            else:
                inp = ArgsKwargs(pa, pk)
                if form == 'plain':
                    if n and kw:
                        return
                    inp = pk if kw or s.flag('obj') and not n else list(pa) if s.flag('list') else pa
                k, r = attempt(v.validate_python, inp)
            s.out(bad)
            # the expectation agrees with Python itself
            try:
                native = f(*pa, **pk)
            except TypeError:
                native = None
            s.check(unpacked or (native is None) == any('argument' in b[0] for b in bad), 'model of binding agrees with Python')
            if bad:
                s.check(k == 'err' and not calls, 'accepted')
                s.check(errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')
            if form == 'call':
                s.check(len(calls) == 1, 'called once')
                got = r
            else:
                s.check(type(r) is tuple and len(r) == 2 and type(r[0]) is tuple and type(r[1]) is dict, 'result')
                got = f(*r[0], **r[1])
            bound(s, got, want, 'binding')
        return path
    for sig in SIGS:
        for n in range(4):
            if n == 3 and not big:
                continue
            yield Case('bind-%s%d' % (sig, n), bind(sig, n, 'v1'), 'signature %s: %d positional arguments, every subset of keyword arguments a, b, c, x; values -8..7' % (sig, n))
            if big or n == 1:
                yield Case('v3-%s%d' % (sig, n), bind(sig, n, 'v3'), 'the same, arguments-v3')
            if n == 2 and (big or sig in ('po-pk-ko', 'pk-ko-args-kwargs')):
                yield Case('call-%s%d' % (sig, n), bind(sig, n, 'call'), 'the same, through a validated call')
            if n in (0, 2):
                yield Case('json-%s%d' % (sig, n), bind(sig, n, 'json'), 'JSON array or object of arguments')
                yield Case('plain-%s%d' % (sig, n), bind(sig, n, 'plain'), 'tuple, list or dict of arguments')
    for sig in ('po-po-kwargs', 'pk-ko-args-kwargs'):
        yield Case('unpacked-' + sig, bind(sig, 1, 'v1', unpacked=True), 'keyword arguments as an unpacked typed dict')

    def mapping(sig):
        """arguments-v3 from a mapping of parameter names"""
        def path(s):
            ps, va, vk = SIGS[sig]
            v = V(v3(sig))
            f = python(sig)
            d, bad, want = {}, [], {}
            src = {}
            for p, m, dflt in ps:
                if s.flag('has' + p):
                    x = s.bv('x' + p, 4, 5).sext(32)
                    src[p] = x
                    d[p] = s.int(x)
            extra = s.flag('extra')
            if extra:
                d['zz'] = 1
            na = s.pick('nargs', 4 if big or not vk else 3) if va else 0
            fail = None
            if na:
                xs = [s.bv('v%d' % i, 4, 5).sext(32) for i in range(na - 1)]
                os = [s.int(x) for x in xs]
                how = s.pick('how', 4)
                if how == 0:
                    d['args'] = os
                elif how == 1:
                    d['args'] = tuple(os)
                elif how == 2:
                    def gen():
                        yield from os
                    d['args'] = gen()
                else:
                    fail = s.pick('fail', na)

                    def gen():
                        for i, o in enumerate(os):
                            if i == fail:
                                raise ValueError('broken')
                            yield o
                        raise ValueError('broken')
                    d['args'] = gen()
            nk = s.pick('nkw', 3 if big or not va else 2) if vk else 0
            if nk:
                ks = {c: s.bv('w' + c, 4, 5).sext(32) for c in 'xy'[:nk - 1]}
                d['kwargs'] = {c: s.int(x) for c, x in ks.items()}
            for p, m, dflt in [q for q in ps if q[1] != 'keyword_only'] + [('args', 'args', 0)] + [q for q in ps if q[1] == 'keyword_only'] + [('kwargs', 'kwargs', 0)]:
                if m == 'args':
                    if va:
                        want['args'] = []
                    if na:
                        for i, x in enumerate(xs):
                            if i == fail:
                                break
                            if bool(x.slt(0)):
                                bad.append(('greater_than_equal', ('args', i)))
                            want['args'].append(x)
                elif m == 'kwargs':
                    if vk:
                        want['kwargs'] = ks if nk else {}
                    if nk:
                        for c, x in ks.items():
                            if bool(x.slt(0)):
                                bad.append(('greater_than_equal', ('kwargs', c)))
                elif p in src:
                    if bool(src[p].slt(0)):
                        bad.append(('greater_than_equal', (p,)))
                    want[p] = src[p]
                elif dflt:
                    want[p] = cst(32, DEF[p])
                else:
                    bad.append(({'positional_only': 'missing_positional_only_argument', 'keyword_only': 'missing_keyword_only_argument', 'positional_or_keyword': 'missing_argument'}[m], (p,)))
            if extra:
                bad.append(('extra_forbidden', ('zz',)))
            k, r = attempt(v.validate_python, d)
            if fail is not None:
                s.check(k == 'err' and errs(r) == [('iteration_error', ('args', fail))], 'failing iterable')
                return
            if bad:
                s.check(k == 'err', 'accepted')
                s.check(errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')
            bound(s, f(*r[0], **r[1]), want, 'binding')
        return path
    for sig in SIGS:
        yield Case('mapping-' + sig, mapping(sig), 'arguments-v3 from a mapping: every subset of parameters, up to 2 variadic values from lists, tuples and (failing) iterators, up to 2 keyword values')

    def paths(s):
        """keyword arguments found by alias paths, which may share their first key"""
        vk, form, mode = s.flag('vk'), s.oneof('form', ('json', 'dict', 'args')), s.oneof('mode', ('keyword_only', 'positional_or_keyword'))
        al = s.oneof('alias', ([['p', 'a'], ['p', 'b']], [['p', 'a'], [['q'], ['p', 'b']]], [['p', 'a'], ['p', 'a']], ['p', ['p', 'b']]))
        kw = {'var_kwargs_schema': cs.any_schema()} if vk else {}
        v = V(cs.arguments_schema([cs.arguments_parameter(n, cs.with_default_schema(cs.any_schema(), default=7) if n == 'b' else cs.any_schema(), mode=mode, alias=x) for n, x in zip('ab', al)], **kw))
        d = {}
        if s.flag('p', 1):
            d['p'] = {n: i for i, n in enumerate('ab') if s.flag('p' + n, 1)}
        for n in 'qza':
            if s.flag('has' + n):
                d[n] = 3
        if form == 'json':
            import json
            k, r = attempt(v.validate_json, json.dumps(d))
        else:
            k, r = attempt(v.validate_python, d if form == 'dict' else ArgsKwargs((), d))
        bad, want, used = [], {}, set()
        for n, x in zip('ab', al):
            for y in x if type(x) is list and type(x[0]) is list else [x if type(x) is list else [x]]:
                z = d
                for key in y:
                    z = z.get(key) if type(z) is dict else None
                if z is not None:
                    want[n] = z
                    used.add(y[0])
                    break
            else:
                if n == 'b':
                    want[n] = 7
                else:
                    path_ = tuple(al[0]) if type(al[0]) is list else (al[0],)
                    bad.append('missing')
        rest = {n: x for n, x in d.items() if n not in used}
        if not vk:
            bad += [('unexpected_keyword_argument', (n,)) for n in rest]
        if bad:
            s.check(k == 'err', 'accepted')
            e = errs(r)
            if bad[0] == 'missing':
                s.check(e[0][0] == 'missing_argument' if mode != 'keyword_only' else e[0][0] == 'missing_keyword_only_argument', 'missing')
                e, bad = e[1:], bad[1:]
            s.check(e == bad, 'errors')
        else:
            s.check(k == 'ok', 'rejected')
            got = dict(r[1])
            if mode != 'keyword_only':
                got.update(zip('ab', r[0]))
            s.check(got == dict(want, **rest), 'arguments')
    yield Case('alias paths', paths, 'two parameters with alias paths with or without a common first key; six presence flags')

    def ret(s):
        """the result of the function is validated at 'return'; an exception of the function passes through"""
        x, y = s.bv('x', 8, 5).sext(32), s.bv('y', 8, 5).sext(32)
        n = [0]
        boom = s.flag('raise')

        def f(a):
            n[0] += 1
            if boom:
                raise KeyError('k')
            return s.int(y)
        v = V(cs.call_schema(cs.arguments_schema([cs.arguments_parameter('a', GE)]), f, return_schema=cs.int_schema(ge=3)))
        try:
            k, r = attempt(v.validate_python, ArgsKwargs((s.int(x),)))
        except KeyError:
            s.check(boom and n[0] == 1, 'exception of the function')
            s.check(x.sge(0), 'called with an invalid argument')
            return
        if bool(x.slt(0)):
            s.check(k == 'err' and errs(r) == [('greater_than_equal', (0,))] and n[0] == 0, 'argument')
            return
        s.check(n[0] == 1 and not boom, 'called once')
        if bool(y.slt(3)):
            s.check(k == 'err' and errs(r) == [('greater_than_equal', ('return',))], 'result')
        else:
            same(s, r, y, 'result')
    yield Case('return', ret, 'every 8-bit argument and result')
