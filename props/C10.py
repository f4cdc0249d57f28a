"""C10 - typed dicts, models and dataclasses: every field validated from its key, missing and extra keys handled as configured, every error at its field."""
from hlib import *
import dataclasses
import types


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


@dataclasses.dataclass
class D:
    a: int
    b: int = 0
    c: int = 0


class Map:
    """a Mapping which is not a dict"""
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def get(self, k, d=None):
        return self.d.get(k, d)


import collections.abc
collections.abc.Mapping.register(Map)

KINDS = ('td', 'mf', 'model', 'dc')


def cases(tier):
    big = tier != 'quick'
    from pydantic_core import ArgsKwargs

    GE = lambda lo=0: cs.int_schema(ge=lo)

    def schema(s, kind, extra, exs):
        """a required, b with a default, c left out when it fails or is missing (typed dict, model) or with a default factory (dataclass)"""
        kw = dict(extra_behavior=extra)
        if exs:
            kw['extras_schema'] = GE(2)
        b = cs.with_default_schema(GE(), default=70)
        omit = cs.with_default_schema(GE(), on_error='omit', default_factory=lambda: 80)
        fact = cs.with_default_schema(GE(), default_factory=lambda: 80)
        if kind == 'td':
            return cs.typed_dict_schema({'a': cs.typed_dict_field(GE()), 'b': cs.typed_dict_field(b), 'c': cs.typed_dict_field(cs.with_default_schema(GE(), on_error='omit'), required=False)}, **kw)
        if kind == 'dc':
            return cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field('a', GE(), kw_only=False), cs.dataclass_field('b', b, kw_only=False), cs.dataclass_field('c', fact)], **kw), ['a', 'b', 'c'])
        mf = cs.model_fields_schema({'a': cs.model_field(GE()), 'b': cs.model_field(b), 'c': cs.model_field(omit)}, **kw)
        return mf if kind == 'mf' else cs.model_schema(M, mf)

    def fields(kind, form, n, extra, alpha, exs=False):
        def path(s):
            v = V(schema(s, kind, extra, exs))
            d, j, xs, seq = {}, [], {}, []
            for i in range(n):
                k = s.bv('k%d' % i, 7, ord('abcx'[i])).zext(8)
                s.assume(in_alpha(k, alpha))
                key = chr(k.conc())
                x = s.bv('x%d' % i, 4, 5).zext(8) - 2
                s.assume(x.slt(10))
                if form != 'json' and key in d:
                    return
                seq.append((key, x))
                d[key], xs[key] = s.int(x.sext(32)), x
                if form == 'json':
                    neg = bool(x.slt(0))
                    j += ([44] if j else []) + [34, k.conc(), 34, 58] + ([45, cst(8, 48) - x] if neg else [x + 48])
            if form == 'json':
                k, r = attempt(v.validate_json, s.bytes([123] + j + [125]))
            elif form == 'map':
                k, r = attempt(v.validate_python, Map(d))
            elif form == 'attrs':
                k, r = attempt(v.validate_python, types.SimpleNamespace(**d), from_attributes=True)
            elif form == 'kwargs':
                k, r = attempt(v.validate_python, ArgsKwargs((), d))
            else:
                k, r = attempt(v.validate_python, d)
            # expected
            want, bad, fset = {}, [], set()
            for f in 'abc':
                if f in xs:
                    if bool(xs[f].slt(0)):
                        if not (f == 'c' and kind != 'dc'):
                            bad.append(('greater_than_equal', (f,)))
                    else:
                        want[f] = xs[f]
                        fset.add(f)
                elif f == 'a':
                    bad.append(('missing', ('a',)))
                elif f == 'b':
                    want[f] = cst(8, 70)
                elif kind != 'td':
                    want[f] = cst(8, 80)
            more = {}
            if form != 'attrs':
                for key, x in seq:
                    if key in 'abc':
                        continue
                    if extra == 'forbid':
                        bad.append(('unexpected_keyword_argument' if kind == 'dc' else 'extra_forbidden', (key,)))
                    elif extra == 'allow':
                        if exs and bool(x.slt(2)):
                            bad.append(('greater_than_equal', (key,)))
                            continue
                        more[key] = x
                        fset.add(key)
            s.out(bad)
            if bad:
                s.check(k == 'err', 'accepted')
                s.check(errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')

            def eq(got, exp, what):
                s.check(type(got) is dict and list(got) == list(exp), what + ' (keys and their order)')
                for f in exp:
                    same(s, got[f], exp[f].sext(32), what)
            if kind == 'td':
                eq(r, dict(want, **more), 'result')
            elif kind == 'dc':
                s.check(type(r) is D, 'type')
                eq(r.__dict__, dict(want, **more), 'attributes')
            else:
                fs, ex, val = (r.__pydantic_fields_set__, r.__pydantic_extra__, r.__dict__) if kind == 'model' else (r[2], r[1], r[0])
                s.check(kind != 'model' or type(r) is M, 'type')
                eq(val, want, 'fields')
                s.check(fs == fset, 'fields set')
                if extra == 'allow':
                    eq(ex, more, 'extra')
                else:
                    s.check(ex is None, 'no extra')
        return path
    for kind in KINDS:
        for form in ('dict', 'json', 'map', 'attrs', 'kwargs'):
            if form == 'attrs' and kind not in ('mf', 'model') or form == 'kwargs' and kind != 'dc' or form == 'map' and kind == 'dc':
                continue
            for extra in ('ignore', 'forbid', 'allow'):
                if form == 'map' and extra == 'ignore' or form == 'attrs' and extra == 'forbid':
                    continue
                for n in ((1, 2, 3) if form in ('dict', 'json') else (2,)):
                    if not big and (n == 3 and (form == 'json' and kind != 'td' or extra == 'forbid') or kind == 'mf' and (n == 3 or extra == 'ignore')):
                        continue
                    if n == 1 and extra != 'forbid':
                        continue
                    yield Case('%s-%s-%s%d' % (kind, form, extra, n), fields(kind, form, n, extra, 'abcx' if n == 3 else 'abcxyz'),
                               '%s from %s, %d entries with any keys out of a required, a default and an omitted or default factory field and up to 3 other keys, values -2..9' % (kind, form, n))
        if kind != 'dc':
            for form in ('dict', 'json'):
                yield Case('%s-%s-extras2' % (kind, form), fields(kind, form, 2, 'allow', 'abcxyz', True), 'the same with a schema for the extra values')

    def strict(kind):
        """a strict model or dataclass takes instances only, from Python; JSON objects are fine; lax mode takes dicts"""
        def path(s):
            st = s.flag('strict')
            via = s.flag('via')
            v = V(schema(s, kind, 'ignore', False), **({} if via else {'strict': st}))
            sch = schema(s, kind, 'ignore', False)
            if via:
                kw = {'strict': st}
            else:
                sch['strict'], kw = st, {}
                v = V(sch)
            x = s.bv('x', 8, 5).sext(32)
            form = s.pick('form', 5)
            o = s.int(x)
            bad = bool(x.slt(0))
            if form == 0:
                k, r = attempt(v.validate_python, {'a': o}, **kw)
                reject = st and kind != 'mf'
            elif form == 1:
                s.assume(x.between(0, 9))
                k, r = attempt(v.validate_json, s.bytes([123, 34, 97, 34, 58, x.bits(0, 8) + 48, 125]), **kw)
                reject = False
            elif form == 2:
                k, r = attempt(v.validate_python, types.SimpleNamespace(a=o), **kw)
                reject = True
            elif form == 3:
                inst = object.__new__(M if kind == 'model' else D)
                if kind == 'model':
                    inst.__pydantic_fields_set__, inst.__pydantic_extra__ = {'a'}, None
                inst.a = o
                k, r = attempt(v.validate_python, inst, **kw)
                if kind != 'mf':
                    s.check(k == 'ok' and r is inst, 'instances are returned as they are')
                    return
                reject = True
            else:
                k, r = attempt(v.validate_python, s.oneof('o', [None, 1, 'x', [('a', 1)], b'{}']), **kw)
                reject = True
            if reject:
                s.check(k == 'err', 'accepted')
                (ty, loc), = errs(r)
                s.check(loc == () and ty == {'dc': 'dataclass_exact_type' if st else 'dataclass_type', 'model': 'model_type', 'mf': 'model_type'}[kind], 'error')
            elif bad:
                s.check(k == 'err' and errs(r) == [('greater_than_equal', ('a',))], 'error')
            else:
                s.check(k == 'ok', 'rejected')
                got = r[0] if kind == 'mf' else r.__dict__
                same(s, got['a'], x, 'value')
        return path
    for kind in ('dc',):
        yield Case('strict-' + kind, strict(kind), 'strict and lax: dicts, JSON, instances, other objects')

    def args(order, n):
        """positional and keyword arguments of a dataclass are bound as Python binds them"""
        def path(s):
            spec = {'plain': [('a', 0, 1), ('b', 0, 1), ('c', 0, 1)], 'kw': [('a', 0, 1), ('b', 1, 1), ('c', 0, 1)], 'init': [('a', 0, 0), ('b', 0, 1), ('c', 1, 1)], 'initonly': [('a', 0, 1), ('b', 0, 2), ('c', 1, 1)]}[order]
            extra = s.oneof('extra', ['ignore', 'forbid', 'allow'])
            req = s.pick('req', 3) if big else s.oneof('req', [0, 2])
            fs = []
            for i, (f, kwo, init) in enumerate(spec):
                sc = GE() if init and i < req else cs.with_default_schema(GE(), default=70 + i)
                fs.append(cs.dataclass_field(f, sc, kw_only=bool(kwo), init=init != 0, init_only=init == 2))
            v = V(cs.dataclass_schema(D, cs.dataclass_args_schema('D', fs, extra_behavior=extra, collect_init_only=order == 'initonly'), ['a', 'b', 'c'], post_init=order == 'initonly'))
            xs = [s.bv('p%d' % i, 4, 5).sext(32) for i in range(n)]
            kw = {}
            for f in 'abcx':
                if s.flag('kw' + f):
                    kw[f] = s.bv('k' + f, 4, 5).sext(32)
            got = []
            D.__post_init__ = lambda self, *a: got.append(a)
            k, r = attempt(v.validate_python, ArgsKwargs(tuple(s.int(x) for x in xs), {f: s.int(x) for f, x in kw.items()}))
            bad, want, init_only, pos, used = [], {}, [], 0, set()
            for i, (f, kwo, init) in enumerate(spec):
                if not init:
                    want[f] = cst(32, 70 + i)
                    continue
                p = None
                if not kwo:
                    if pos < n:
                        p = (pos, xs[pos])
                    pos += 1
                if f in kw:
                    used.add(f)
                    if p:
                        bad.append(('multiple_argument_values', (f,)))
                        continue
                    p = (f, kw[f])
                if p:
                    if bool(p[1].slt(0)):
                        bad.append(('greater_than_equal', (p[0],)))
                        continue
                    val = p[1]
                elif init and i < req:
                    bad.append(('missing', (f,)))
                    continue
                else:
                    val = cst(32, 70 + i)
                if init == 2:
                    init_only.append(val)
                else:
                    want[f] = val
            for i in range(pos, n):
                bad.append(('unexpected_positional_argument', (i,)))
            for f in kw:
                if f in used:
                    continue
                if extra == 'forbid':
                    bad.append(('unexpected_keyword_argument', (f,)))
                elif extra == 'allow':
                    want[f] = kw[f]
            s.out(bad)
            if bad:
                s.check(k == 'err', 'accepted')
                s.check(errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')
            s.check(set(r.__dict__) == set(want), 'attributes')
            for f in want:
                same(s, r.__dict__[f], want[f], 'attribute ' + f)
            if order == 'initonly':
                s.check(len(got) == 1 and len(got[0]) == 1, 'arguments of __post_init__')
                same(s, got[0][0], init_only[0], 'argument of __post_init__')
        return path
    for order in ('plain', 'kw', 'init', 'initonly'):
        for n in (0, 1, 2, 3, 4) if big else (2,) if order == 'kw' else (1,) if order == 'initonly' else (1, 2):
            yield Case('args-%s%d' % (order, n), args(order, n), '%d positional arguments and every subset of 4 keyword arguments, symbolic values; fields positional, keyword only, not in __init__ (%s)' % (n, order))

    def nested(form):
        """errors of nested models carry the whole path"""
        def path(s):
            inner = cs.model_schema(M, cs.model_fields_schema({'i': cs.model_field(GE())}, extra_behavior='forbid'))
            v = V(cs.typed_dict_schema({'o': cs.typed_dict_field(cs.dict_schema(cs.str_schema(), cs.list_schema(inner)))}))
            xs = [s.bv('x%d' % i, 4, 5).zext(8) - 2 for i in range(3)]
            ex = [s.flag('e%d' % i) for i in range(3)]
            for x in xs:
                s.assume(x.slt(10))
            shape = {'p': [0, 1], 'q': [2]}
            if form == 'json':
                def item(i):
                    neg = bool(xs[i].slt(0))
                    return list(b'{"i":') + ([45, cst(8, 48) - xs[i]] if neg else [xs[i] + 48]) + list(b',"z":1' if ex[i] else b'') + [125]
                k, r = attempt(v.validate_json, s.bytes(list(b'{"o":{"p":[') + item(0) + [44] + item(1) + list(b'],"q":[') + item(2) + list(b']}}')))
            else:
                k, r = attempt(v.validate_python, {'o': {key: [dict({'i': s.int(xs[i].sext(32))}, **({'z': 1} if ex[i] else {})) for i in ii] for key, ii in shape.items()}})
            bad = []
            for key, ii in shape.items():
                for p, i in enumerate(ii):
                    if bool(xs[i].slt(0)):
                        bad.append(('greater_than_equal', ('o', key, p, 'i')))
                    if ex[i]:
                        bad.append(('extra_forbidden', ('o', key, p, 'z')))
            if bad:
                s.check(k == 'err' and errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')
            for key, ii in shape.items():
                for p, i in enumerate(ii):
                    same(s, r['o'][key][p].i, xs[i].sext(32), 'value')
        return path
    for form in ('dict', 'json'):
        yield Case('nested-' + form, nested(form), 'three models within a list within a dict within a typed dict')

    def total(s):
        """which fields of a typed dict are required: the field's setting, else total of the schema or of the config"""
        tot = [None, True, False][s.pick('total', 3)]
        ctot = [None, True, False][s.pick('ctotal', 3)]
        req = [None, True, False][s.pick('req', 3)]
        conf = {} if ctot is None else {'typed_dict_total': ctot}
        v = V(cs.typed_dict_schema({'a': cs.typed_dict_field(GE(), **({} if req is None else {'required': req}))}, config=cs.CoreConfig(**conf), **({} if tot is None else {'total': tot})))
        has = s.flag('has')
        x = s.bv('x', 8, 5).sext(32)
        k, r = attempt(v.validate_python, {'a': s.int(x)} if has else {})
        need = req if req is not None else tot if tot is not None else ctot if ctot is not None else True
        if has:
            bad = bool(x.slt(0))
            s.check((k == 'err') == bad, 'value checked')
            if not bad:
                same(s, r['a'], x, 'value')
        elif need:
            s.check(k == 'err' and errs(r) == [('missing', ('a',))], 'missing')
        else:
            s.check(k == 'ok' and r == {}, 'not required')
    yield Case('total', total, 'all settings')
