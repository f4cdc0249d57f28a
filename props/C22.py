"""C22 - serializer functions are called exactly when configured, once, with the value, the model and the settings of the call; their result is serialized as declared; where they are not used nothing changes; warnings, fallback and computed fields are one per value."""
from hlib import *
import dataclasses
import warnings
from pydantic_core import PydanticOmit, PydanticSerializationError, PydanticSerializationUnexpectedValue, from_json


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


class N(M):
    pass


@dataclasses.dataclass
class D:
    x: object
    z: object = 0


N.NODE = ('obj', 'model', {'a': ('int',), 'b': ('int',)}, {})
N.__pydantic_serializer__ = SchemaSerializer(cs.model_schema(N, cs.model_fields_schema({'a': cs.model_field(cs.int_schema()), 'b': cs.model_field(cs.int_schema())})))


class U:
    """a type which is not known to the serializer"""
    def __init__(self, n):
        self.n = n


def inst(cls, d):
    m = cls()
    m.__dict__ = dict(d)
    m.__pydantic_extra__ = None
    m.__pydantic_fields_set__ = set(d)
    m.__pydantic_private__ = None
    return m


class Refused(Exception):
    """what the function raised (or the handler, in error mode), as the type of error and a text it mentions"""
    def __init__(self, text):
        self.text = text


MODES = ['python', 'json', 'other', 'text']
WHEN = ['always', 'unless-none', 'json', 'json-unless-none']
FLAGS = ['exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip']


def isjson(mode):
    return mode in ('json', 'text')


def used(when, mode, v):
    return (isjson(mode) or not when.startswith('json')) and not (when.endswith('unless-none') and v is None)


def run(s, sch, v, mode, **kw):
    """the result in the given mode (that of JSON text read back), and the values named by the warnings"""
    ser = SchemaSerializer(sch)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if mode == 'text':
            r = from_json(ser.to_json(v, **kw), cache_strings=False)
        else:
            r = ser.to_python(v, mode=mode, **kw)
        if hasattr(r, '__next__'):
            r = list(r)
    s.quiet(True)
    named = []
    for x in w:
        for line in str(x.message).split('\n')[1:]:
            named.append(line.split("input_value='")[1].split("'")[0] if "input_value='" in line else line.split('input_type=')[1].split(']')[0] if 'input_type=' in line else line.strip())
    s.quiet(False)
    return r, named


# ---- the reference ----
class E:
    """of a call: mode, settings, calls seen by the functions and warnings"""
    def __init__(self, s, mode, kw):
        self.s, self.mode, self.kw = s, mode, kw
        self.real, self.ref, self.warn = [], [], []
        self.model = self.field = None


ALL = object()


def drop(k, inc, exc):
    """None if the filters drop the key, else the filters of what is below"""
    ni = ne = None
    if exc is not None:
        if isinstance(exc, dict):
            if k in exc:
                if exc[k] is True or exc[k] is ...:
                    return None
                ne = exc[k]
        elif k in exc:
            return None
    if inc is not None:
        if k not in inc:
            return None
        if isinstance(inc, dict) and inc[k] is not True and inc[k] is not ...:
            ni = inc[k]
    return ni, ne


def infer(v, e, inc, exc):
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            f = drop(k, inc, exc)
            if f is not None:
                out[k] = infer(x, e, *f)
        return out
    if isinstance(v, (list, tuple)):
        r = [(i, x, drop(i, inc, exc)) for i, x in enumerate(v)]
        r = [infer(x, e, *f) for i, x, f in r if f is not None]
        return tuple(r) if isinstance(v, tuple) and not isjson(e.mode) else r
    if isinstance(v, M):
        return ref(v.NODE, v, e, inc, exc)
    return v


def ref(t, v, e, inc=None, exc=None):
    k = t[0]
    if k == 'any':
        return infer(v, e, inc, exc)
    if k == 'fn':
        return ref_fn(t, v, e, inc, exc)
    if k in ('int', 'str'):
        if type(v) is not (int if k == 'int' else str) and v is not None:
            e.warn.append(v)
        return infer(v, e, inc, exc)
    if k == 'list':
        if type(v) is not list:
            if v is not None:
                e.warn.append(v)
            return infer(v, e, inc, exc)
        fs = [(x, drop(i, inc, exc)) for i, x in enumerate(v)]
        return [ref(t[1], x, e, *f) for x, f in fs if f is not None]
    if k == 'dict':
        if type(v) is not dict:
            if v is not None:
                e.warn.append(v)
            return infer(v, e, inc, exc)
        out = {}
        for a, x in v.items():
            f = drop(a, inc, exc)
            if f is not None:
                a = ref(t[2], a, e) if len(t) > 2 else a
                out[a] = ref(t[1], x, e, *f)
        return out
    if k == 'obj':                                     # ('obj', kind, fields, computed)
        kind = t[1]
        if not isinstance(v, dict if kind == 'td' else M if kind == 'model' else D):
            if v is not None:
                e.warn.append(v)
            return infer(v, e, inc, exc)
        out = {}
        save = e.model, e.field
        e.model = v
        for a, x in (v if kind == 'td' else v.__dict__).items():
            if e.kw.get('exclude_none') and x is None:
                continue
            f = drop(a, inc, exc)
            if f is not None:
                e.field = a
                out[a] = ref(t[2][a], x, e, *f)
        if not e.kw.get('round_trip'):
            for a, (node, val) in t[3].items():
                f = drop(a, inc, exc)
                if f is None:
                    continue
                x = val(v)
                if e.kw.get('exclude_none') and x is None:
                    continue
                e.field = a
                out[a] = ref(node, x, e, *f)
        e.model, e.field = save
        return out
    raise ValueError(k)


class Boom(Exception):
    pass


def act(name, v, h, raise_):
    """what a function does; h(value, key): the handler (absent for plain ones)"""
    if name == 'same':
        return h(v) if h else v
    if name == 'twice':
        return [h(v), h(v)] if h else [v, v]
    if name == 'other':
        return h('other') if h else 'other'
    if name == 'none':
        return None
    if name == 'seven':
        return 7
    if name == 'dict':
        return {'q': h(v) if h else v, 'r': 'text'}
    if name == 'key':
        return {'k': h(v, 'a') if h else v}
    if name == 'index':
        return {'i': h(v, 1) if h else v}
    raise_(name)


def raise_real(name):
    if name == 'value':
        raise ValueError('boom')
    if name == 'unexpected':
        raise PydanticSerializationUnexpectedValue('odd')
    if name == 'ser':
        raise PydanticSerializationError('mine')
    raise ValueError(name)


def raise_ref(name):
    raise Boom(name)


def settings(e, inc, exc):
    k = e.kw
    return (inc, exc, k.get('context'), 'json' if e.mode == 'text' else e.mode, k.get('by_alias'), k.get('serialize_as_any', False)) + tuple(k.get(f, False) for f in FLAGS)


class Skipped(Exception):
    pass


def ref_fn(t, v, e, inc, exc):
    _, i, kind, base, o = t
    if not used(o.get('when', 'always'), e.mode, v):
        return ref(base, v, e, inc, exc)
    rec = [i, e.model if o.get('field') else None, v]
    if o.get('info'):
        rec += [settings(e, inc, exc), e.field if o.get('field') else 'none']
    e.ref.append(tuple(rec))

    def h(x, key=ALL):
        if key is ALL:
            return ref(base, x, e, inc, exc)
        f = drop(key, inc, exc)
        if f is None:
            return 'omitted'
        return ref(base, x, e, *f)
    try:
        r = act(o.get('act', 'same'), v, h if kind == 'wrap' else None, raise_ref)
    except Boom as b:
        n = b.args[0]
        if n == 'unexpected':
            e.warn.append('PydanticSerializationUnexpectedValue(odd)')
            return infer(v, e, inc, exc)
        raise Refused({'value': 'Error calling function `%s`: ValueError: boom' % ('f%d' % i), 'ser': 'mine'}[n])
    return ref(o.get('ret', ('any',)), r, e)


def core(t, e):
    k = t[0]
    if k == 'any':
        return cs.any_schema()
    if k == 'int':
        return cs.int_schema()
    if k == 'str':
        return cs.str_schema()
    if k == 'list':
        return cs.list_schema(core(t[1], e))
    if k == 'dict':
        return cs.dict_schema(core(t[2], e) if len(t) > 2 else cs.str_schema(), core(t[1], e))
    if k == 'obj':
        comp = [cs.computed_field(a, core(n, e)) for a, (n, _) in t[3].items()]
        if t[1] == 'td':
            return cs.typed_dict_schema({a: cs.typed_dict_field(core(n, e)) for a, n in t[2].items()}, computed_fields=comp or None)
        if t[1] == 'model':
            return cs.model_schema(t[4] if len(t) > 4 else M, cs.model_fields_schema({a: cs.model_field(core(n, e)) for a, n in t[2].items()}, computed_fields=comp or None))
        return cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field(a, core(n, e)) for a, n in t[2].items()], computed_fields=comp or None), list(t[2]))
    if k == 'fn':
        _, i, kind, base, o = t

        def body(model, v, h, info):
            rec = [i, model, v]
            if info is not None:
                rec += [(info.include, info.exclude, info.context, info.mode, info.by_alias, info.serialize_as_any) + tuple(getattr(info, f) for f in FLAGS)]
                rec += [info.field_name if o.get('field') else ('none' if not hasattr(info, 'field_name') else info.field_name)]
            e.real.append(tuple(rec))

            def handler(x, key=ALL):
                if key is ALL:
                    return h(x)
                try:
                    return h(x, key)
                except PydanticOmit:
                    return 'omitted'
            return act(o.get('act', 'same'), v, handler if kind == 'wrap' else None, raise_real)
        n = (1 if o.get('field') else 0, kind == 'wrap', bool(o.get('info')))
        f = {
            (0, False, False): lambda v: body(None, v, None, None),
            (0, False, True): lambda v, inf: body(None, v, None, inf),
            (0, True, False): lambda v, h: body(None, v, h, None),
            (0, True, True): lambda v, h, inf: body(None, v, h, inf),
            (1, False, False): lambda m, v: body(m, v, None, None),
            (1, False, True): lambda m, v, inf: body(m, v, None, inf),
            (1, True, False): lambda m, v, h: body(m, v, h, None),
            (1, True, True): lambda m, v, h, inf: body(m, v, h, inf),
        }[n]
        f.__name__ = f.__qualname__ = 'f%d' % i
        kw = {'when_used': o.get('when', 'always'), 'is_field_serializer': bool(o.get('field')), 'info_arg': bool(o.get('info'))}
        if 'ret' in o:
            kw['return_schema'] = core(o['ret'], e)
        make = cs.wrap_serializer_function_ser_schema if kind == 'wrap' else cs.plain_serializer_function_ser_schema
        if kind == 'wrap' and o.get('schema'):
            kw['schema'] = core(base, e)
            return dict(cs.any_schema(), serialization=make(f, **kw))
        return dict(core(base, e), serialization=make(f, **kw))
    raise ValueError(k)


def same_calls(s, a, b):
    s.check(len(a) == len(b), 'calls: %s for %s' % ([x[0] for x in a], [x[0] for x in b]))
    for x, y in zip(a, b):
        s.check(x[0] == y[0], 'order of calls')
        s.check(x[1] is y[1], 'the model given to f%d' % x[0])
        same(s, x[2], y[2], 'the value given to f%d' % x[0])
        s.check(len(x) == len(y), 'info')
        if len(x) > 3:
            s.check(x[3] == y[3], 'the settings given to f%d: %s for %s' % (x[0], x[3], y[3]))
            s.check(x[4] == y[4], 'the field name given to f%d: %s for %s' % (x[0], x[4], y[4]))


def compare(s, node, v, mode, **kw):
    e = E(s, mode, kw)
    try:
        sch = core(node, e)
        exp = ref(node, v, e, kw.get('include'), kw.get('exclude'))
        text = None
    except Refused as r:
        text = r.text
    try:
        got, named = run(s, sch, v, mode, **{a: b for a, b in kw.items()})
    except PydanticSerializationError as x:
        s.check(text is not None, 'refused: %s' % str(x)[:200])
        if text is not None:
            s.check(text in str(x), 'the error names the function: %s' % str(x)[:120])
        same_calls(s, e.real, e.ref)
        return
    s.check(text is None, 'not refused, should be: %s' % text)
    same_calls(s, e.real, e.ref)
    same(s, got, exp, 'result')
    s.quiet(True)
    want = [x if type(x) is str else type(x).__name__ for x in e.warn]
    s.check(sorted(named) == sorted(want), 'warnings: %s for %s' % (sorted(named), sorted(want)))
    s.quiet(False)


def cases(tier):
    big = tier != 'quick'
    INT, STR, ANY = ('int',), ('str',), ('any',)

    class Fixed:
        pass

    def num(s, n):
        return 5 if s is Fixed else s.int(s.bv(n, 3, 5).zext(32))

    def value(s, n, v):
        """what is in the place of a value and the schema of it"""
        if v == 0:
            return INT, num(s, n)
        if v == 1:
            return INT, None
        if v == 2:
            return ('dict', INT), {'a': num(s, n + 'a'), 'b': num(s, n + 'b')}
        if v == 3:
            return ('list', INT), [num(s, n + 'a'), num(s, n + 'b')]
        if v == 4:
            return ('obj', 'model', {'a': INT, 'b': INT}, {}, N), inst(N, {'a': num(s, n + 'a'), 'b': num(s, n + 'b')})
        if v == 5:
            return INT, 'wrong'
        return ('dict', INT), {'a': 'wrong1', 'b': num(s, n + 'b')}

    PLACES = ['root', 'list', 'dict', 'td', 'model', 'dc', 'computed', 'nested']

    def place(p, node, v):
        """a structure with the value in it: its schema, itself and the keys which lead to the value"""
        if p == 'root':
            return node, v, []
        if p == 'list':
            return ('list', node), [v], [0]
        if p == 'dict':
            return ('dict', node), {'x': v}, ['x']
        if p == 'td':
            return ('obj', 'td', {'x': node, 'z': INT}, {}), {'x': v, 'z': 3}, ['x']
        if p == 'model':
            return ('obj', 'model', {'z': INT, 'x': node}, {}), inst(M, {'z': 3, 'x': v}), ['x']
        if p == 'dc':
            return ('obj', 'dc', {'x': node, 'z': INT}, {}), D(v), ['x']
        if p == 'computed':
            class C(M):
                gets = 0

                @property
                def x(self):
                    C.gets += 1
                    return v
            m = inst(C, {'z': 3})
            m.__class__.COUNT = C
            return ('obj', 'model', {'z': INT}, {'x': (node, lambda o: v)}, C), m, ['x']
        inner, iv, _ = place('model', node, v)
        return ('obj', 'dc', {'x': ('list', inner), 'z': INT}, {}), D([iv]), ['x', 0, 'x']

    def filters(keys, n):
        """the filters of the call which reach the value"""
        f = [None, {'a'}, {0}, {'a': True}, {1: ...}][n]
        for k in reversed(keys):
            f = {k: f} if f is not None else None
        return f

    def when(p):
        def path(s):
            mode = s.oneof('mode', MODES)
            w = s.oneof('when', WHEN)
            kind = s.oneof('kind', ['plain', 'wrap'])
            v = s.pick('v', 7 if big else 6)
            if v == 5 and not big:
                v = 6
            node, val = value(s, 'n', v)
            field = p not in ('root', 'list', 'dict') and w != 'unless-none'
            n = ('fn', 1, kind, node, {'when': w, 'field': field, 'info': mode in ('json', 'other'), 'schema': kind == 'wrap' and w == 'json'})
            sch, full, keys = place(p, n, val)
            kw = {}
            if v in (2, 3, 4, 6):
                if s.flag('exc'):
                    kw['exclude'] = filters(keys, 2 if v == 3 else 1)
                elif s.flag('inc'):
                    kw['include'] = filters(keys, 4 if v == 3 else 3)
            compare(s, sch, full, mode, **kw)
            if p == 'computed':
                s.check(full.COUNT.gets == 1, 'the computed field is evaluated once: %d' % full.COUNT.gets)
        return path

    ACTS = ['same', 'twice', 'other', 'none', 'seven', 'dict', 'key', 'index', 'value', 'unexpected', 'ser']

    def acts(p):
        """what the function does, and the return schema"""
        def path(s):
            mode = s.oneof('mode', MODES if big else ['python', 'text'])
            kind = s.oneof('kind', ['wrap', 'plain'])
            a = s.oneof('act', ACTS)
            v = s.oneof('v', [0, 2, 3, 5])
            r = s.oneof('ret', [None, INT, ('dict', INT), ('list', STR)])
            node, val = value(s if r is None or a in ('key', 'index') else Fixed, 'n', v)
            o = {'act': a}
            if r is not None:
                o['ret'] = r
            if a in ('key', 'index'):
                node = ANY
            n = ('fn', 1, kind, node, o)
            sch, full, keys = place(p, n, val)
            kw = {}
            if a in ('key', 'index') and p != 'root' and v != 0:
                f = s.oneof('f', [{'a'}, {1}, {'a': {'a'}}, {'b', 0}])
                for k in reversed(keys):
                    f = {k: f}
                kw[s.oneof('which', ['include', 'exclude'])] = f
            compare(s, sch, full, mode, **kw)
        return path

    def info(s):
        """the settings of the call reach each function, at each level"""
        mode = s.oneof('mode', MODES)
        kw = {}
        for f in FLAGS:
            if f != 'exclude_defaults':
                b = s.flag(f)
                if b or mode == 'other':
                    kw[f] = b
        if mode != 'text':
            kw['exclude_defaults'] = kw.get('round_trip', False)
        b = s.pick('b', 3)
        if b:
            kw['by_alias'] = b == 1
        if s.flag('ctx'):
            kw['context'] = {'c': 1}
        x = num(s, 'x')
        leaf = lambda i, k='plain': ('fn', i, k, INT, {'info': True, 'field': i % 2 == 1})
        inner = ('obj', 'model', {'a': leaf(1), 'b': leaf(2, 'wrap')}, {'c': (leaf(3), lambda o: o.VAL)}, N)

        class C(N):
            VAL = x

            @property
            def c(self):
                return x
        inner = inner[:4] + (C,)
        outer = ('obj', 'dc', {'x': ('fn', 4, 'wrap', ('list', inner), {'info': True}), 'z': ('fn', 5, 'wrap', ('dict', leaf(7)), {'info': True, 'field': True})}, {})
        v = D([inst(C, {'a': x, 'b': 2})], {'k': num(s, 'k')})
        if s.flag('exc'):
            kw['exclude'] = {'x': {0: {'b'}}}
        compare(s, outer, v, mode, **kw)

    def warns(s):
        """each value which does not fit is named exactly once, whatever is around it; other modes"""
        mode, wm = s.oneof('mode', list(zip(MODES + MODES, [None, 'warn', True, None, 'error', 'none', False, 'error'])))
        bad = [s.flag('b%d' % i) for i in range(5)]
        vals = ['w%d' % i if b else num(s, 'n%d' % i) for i, b in enumerate(bad)]
        wrap = s.pick('wrap', 4)

        def fn(i, node, **o):
            if wrap & 1 << (i % 2):
                return ('fn', i, 'wrap', node, o)
            return node
        inner = ('obj', 'model', {'a': fn(1, INT), 'b': fn(2, INT, act='twice')}, {}, N)
        sch = ('obj', 'td', {'p': INT, 'q': fn(3, ('list', inner)), 'r': ('list', fn(4, INT)), 's': INT}, {})
        v = {'p': vals[0], 'q': [inst(N, {'a': vals[1], 'b': vals[2]})], 'r': [vals[3]], 's': vals[4]}
        e = E(s, mode, {})
        core_ = core(sch, e)
        exp = ref(sch, v, e)
        kw = {} if wm is None else {'warnings': wm}
        try:
            got, named = run(s, core_, v, mode, **kw)
        except PydanticSerializationError as x:
            s.check(wm == 'error' and e.warn != [], 'refused')
            return
        s.check(not (wm == 'error' and e.warn), 'not refused')
        same(s, got, exp, 'result')
        want = [] if wm in ('none', False, 'error') else e.warn
        s.check(sorted(named) == sorted(want), 'warnings: %s for %s' % (named, want))

    def generator(s):
        """items of a generator are serialized lazily, each named once"""
        mode = s.oneof('mode', MODES)
        n = s.pick('n', 3) + 1
        vals = ['w%d' % i if s.flag('b%d' % i) else num(s, 'n%d' % i) for i in range(n)]
        ser = SchemaSerializer(cs.generator_schema(cs.int_schema()))
        taken = []

        def gen():
            for x in vals:
                taken.append(x)
                yield x
        exc = {0} if s.flag('exc') else None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if mode == 'text':
                r = from_json(ser.to_json(gen(), exclude=exc), cache_strings=False)
            else:
                r = ser.to_python(gen(), mode=mode, exclude=exc)
                if mode != 'json':
                    s.check(taken == [], 'lazy')
                    r = list(r)
        left = vals[1:] if exc else vals
        same(s, r, left, 'items')
        s.quiet(True)
        named = [li.split("input_value='")[1].split("'")[0] for x in w for li in str(x.message).split('\n')[1:]]
        s.check(sorted(named) == sorted(x for x in left if type(x) is str), 'warnings: %s for %s' % (named, left))
        s.quiet(False)

    def fallback(s):
        """a value of an unknown type: given to the fallback once, and what that returns is serialized in its place"""
        mode = s.oneof('mode', MODES)
        seen = []
        x = num(s if mode != 'text' else Fixed, 'x')
        res = s.oneof('res', ['num', 'list', 'dict', 'unknown', 'raise', 'absent'])
        u = U(1)
        u2 = U(2)

        def fb(o):
            s.check(isinstance(o, U), 'only unknown values')
            seen.append(o)
            if res == 'raise':
                raise ValueError('fb')
            if o is u2:
                return x
            return {'num': x, 'list': [x, 2], 'dict': {'k': x}, 'unknown': u2}[res]
        out = {'num': x, 'list': [x, 2], 'dict': {'k': x}, 'unknown': x}.get(res)
        where = s.oneof('where', ['root', 'list', 'any', 'field', 'key', 'handler', 'anyfield'])
        twice = where in ('list', 'any', 'field') and s.flag('twice')
        vs = [u, u] if twice else [u]
        ex = [out] * len(vs)
        if where == 'root':
            sch, v, exp = cs.any_schema(), u, out
        elif where == 'list':
            sch, v, exp = cs.list_schema(), vs, ex
        elif where == 'any':
            sch, v, exp = cs.any_schema(), {'a': vs}, {'a': ex}
        elif where == 'field':
            sch, v, exp = cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.list_schema(cs.any_schema()))})), inst(M, {'a': vs}), {'a': ex}
        elif where == 'anyfield':
            sch, v, exp = cs.typed_dict_schema({'a': cs.typed_dict_field(cs.any_schema())}), {'a': u}, {'a': out}
        elif where == 'key':
            sch, v, exp = cs.dict_schema(), {u: 1}, None
        else:
            sch = dict(cs.any_schema(), serialization=cs.wrap_serializer_function_ser_schema(lambda a, h: [h(a)]))
            v, exp = u, [out]
        kw = {} if res == 'absent' else {'fallback': fb}
        if where == 'key':
            if mode == 'text':
                s.assume(false())
            exp = {u: 1} if not isjson(mode) else None
            kw = {k: f for k, f in kw.items()}
        try:
            if mode == 'text':
                r = from_json(SchemaSerializer(sch).to_json(v, **kw), cache_strings=False)
            else:
                r = SchemaSerializer(sch).to_python(v, mode=mode, **kw)
        except (PydanticSerializationError, ValueError, TypeError) as e:
            if where == 'key':
                return
            if res == 'raise':
                s.check('fb' in str(e), 'the error of the fallback')
            else:
                s.check(res == 'absent' and isjson(mode) and not isinstance(e, TypeError), 'refused: %s' % e)
            return
        if where == 'key':
            s.check(not isjson(mode), 'an unknown key in JSON') if res == 'absent' else None
            return
        if res == 'absent':
            s.check(not isjson(mode), 'not refused')
            flat = r
            while isinstance(flat, (dict, list)):
                flat = list(flat.values())[0] if isinstance(flat, dict) else flat[0]
            s.check(flat is u, 'the value itself')
            return
        s.check(res != 'raise', 'not refused')
        same(s, r, exp, 'result')
        want = []
        for o in vs:
            want.append(o)
            if res == 'unknown':
                want.append(u2)
        s.check(len(seen) == len(want) and all(a is b for a, b in zip(seen, want)), 'calls of the fallback: %d for %d' % (len(seen), len(want)))

    def keys(s):
        """functions on the keys of a dict"""
        mode = s.oneof('mode', MODES)
        w = s.oneof('when', WHEN)
        kind = s.oneof('kind', ['plain', 'wrap'])
        a = s.oneof('act', ['same', 'other', 'seven', 'value'])
        n = ('fn', 1, kind, STR, {'when': w, 'act': a, 'info': True})
        x = num(s, 'x')
        e = E(s, mode, {})
        sch = core(('dict', INT, n), e)
        text = None
        try:
            exp = ref(('dict', INT, n), {'k': x}, e)
            if isjson(mode):
                exp = {str(k): v for k, v in exp.items()}
        except Refused as r:
            text = r.text
        try:
            got, named = run(s, sch, {'k': x}, mode)
        except PydanticSerializationError as r:
            s.check(text is not None and text in str(r), 'refused: %s' % str(r)[:200])
            same_calls(s, e.real, e.ref)
            return
        s.check(text is None, 'not refused')
        same_calls(s, e.real, e.ref)
        same(s, got, exp, 'result')

    out = []
    for p in PLACES:
        out.append(Case('when %s' % p, when(p), 'plain and wrap functions, four conditions, four modes, seven kinds of value, with and without filters'))
    for p in PLACES if big else ['root', 'td', 'list']:
        out.append(Case('acts %s' % p, acts(p), 'eleven functions, four return schemas'))
    out.append(Case('info', info, 'seven functions at two levels'))
    out.append(Case('warnings', warns, 'five values, functions around them'))
    out.append(Case('generator', generator, 'up to three items'))
    out.append(Case('fallback', fallback, ''))
    out.append(Case('keys', keys, ''))
    return out
