"""C19 - validator functions are called in order, once, with the right value and info; what they raise and which defaults are used follow the rules, everywhere."""
from hlib import *
import dataclasses
from pydantic_core import PydanticCustomError, PydanticKnownError, PydanticOmit, PydanticUseDefault, PydanticUndefined


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


class N:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


@dataclasses.dataclass
class D:
    p: int = 0
    q: int = 0
    r: int = 0


class Errs(Exception):
    """validation errors: [(type, loc, input)]"""
    def __init__(self, lines):
        self.lines = lines


class Omit(Exception):
    pass


class UseDefault(Exception):
    pass


class Other(Exception):
    """an exception which is none of validation"""


STOP = TypeError('stop')


class Fail:
    """what makes a function fail: name, what the real one raises, what the reference one raises"""
    def __init__(self, name, real, kind):
        self.name, self.real, self.kind = name, real, kind


class Env:
    def __init__(self, s, mode, ctx):
        self.s, self.mode, self.ctx = s, mode, ctx
        self.real, self.ref = [], []


def raiser(name):
    if name == 'value':
        return ValueError('v')
    if name == 'assert':
        return AssertionError('a')
    if name == 'custom':
        return PydanticCustomError('my_error', 'custom {x}', {'x': 3})
    if name == 'known':
        return PydanticKnownError('greater_than', {'gt': 8})
    if name == 'omit':
        return PydanticOmit()
    if name == 'default':
        return PydanticUseDefault()
    if name == 'verr':
        try:
            SchemaValidator(cs.list_schema(cs.none_schema())).validate_python([1])
        except ValidationError as e:
            return e
    if name == 'other':
        return STOP
    raise ValueError(name)


TYPES = {'value': [('value_error', ())], 'assert': [('assertion_error', ())], 'custom': [('my_error', ())], 'known': [('greater_than', ())], 'verr': [('none_required', (0,))]}


def ref_raise(name, inp):
    if name == 'omit':
        raise Omit
    if name == 'default':
        raise UseDefault
    if name == 'other':
        raise Other
    raise Errs([(t, l, 1 if name == 'verr' else inp) for t, l in TYPES[name]])


def core(t, env):
    """the core schema of a tree"""
    k = t[0]
    if k == 'int':
        return cs.int_schema(ge=t[1])
    if k in ('before', 'after', 'plain', 'wrap'):
        i, act = t[1], t[2]
        info = t[-1]

        def body(v, inf, handler=None):
            env.real.append((i, v) + ((inf.field_name, dict(inf.data) if inf.data is not None else None, inf.context, inf.mode, inf.config is not None and inf.config.get('title')) if info else ()))
            if handler is None:
                return act(v, raiser)
            return act(v, raiser, lambda *a: guard(handler, *a))

        def guard(handler, *a):
            try:
                return handler(*a)
            except ValidationError as e:
                raise Caught(e) from None

        def whole(*a):
            try:
                return body(*a)
            except Caught as e:
                raise e.e
            except Mine as e:
                raise raiser(e.name)
        if k == 'wrap':
            if info:
                return cs.with_info_wrap_validator_function(lambda v, h, inf: whole(v, inf, h), core(t[3], env))
            return cs.no_info_wrap_validator_function(lambda v, h: whole(v, None, h), core(t[3], env))
        f = (lambda v, inf: whole(v, inf)) if info else (lambda v: whole(v, None))
        if k == 'plain':
            return (cs.with_info_plain_validator_function if info else cs.no_info_plain_validator_function)(f)
        make = {('before', True): cs.with_info_before_validator_function, ('before', False): cs.no_info_before_validator_function, ('after', True): cs.with_info_after_validator_function, ('after', False): cs.no_info_after_validator_function}[k, info]
        return make(f, core(t[3], env))
    if k == 'default':
        o = dict(t[2])
        kw = {}
        if 'value' in o:
            kw['default'] = o['value']
        if 'factory' in o:
            def fact(*a):
                env.real.append(('factory',) + tuple(dict(x) if x is not None else x for x in a))
                return o['factory'](*a)
            kw['default_factory'] = fact
            kw['default_factory_takes_data'] = o.get('data', False)
        if 'on_error' in o:
            kw['on_error'] = o['on_error']
        if o.get('validate'):
            kw['validate_default'] = True
        return cs.with_default_schema(core(t[1], env), **kw)
    if k == 'nullable':
        return cs.nullable_schema(core(t[1], env))
    if k == 'chain':
        return cs.chain_schema([core(x, env) for x in t[1]])
    if k == 'custom':
        return cs.custom_error_schema(core(t[1], env), 'my_error', custom_error_message='x')
    if k == 'lax_strict':
        return cs.lax_or_strict_schema(core(t[1], env), core(t[2], env))
    if k == 'json_python':
        return cs.json_or_python_schema(core(t[1], env), core(t[2], env))
    if k == 'list':
        return cs.list_schema(core(t[1], env))
    if k == 'tuple':
        return cs.tuple_schema([core(x, env) for x in t[1]])
    if k == 'vtuple':
        return cs.tuple_schema([core(t[1], env)], variadic_item_index=0)
    if k == 'dict':
        return cs.dict_schema(cs.any_schema(), core(t[1], env))
    if k == 'td':
        return cs.typed_dict_schema({f: cs.typed_dict_field(core(x, env), required=not (omits(x) or x[0] == 'default' and has_default(x[2]))) for f, x in t[1].items()}, config={'title': 'td'})
    if k in ('model', 'inner'):
        return cs.model_schema(M if k == 'model' else N, cs.model_fields_schema({f: cs.model_field(core(x, env)) for f, x in t[1].items()}), config={'title': k})
    if k == 'dc':
        return cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field(f, core(x, env)) for f, x in t[1].items()]), list(t[1]), config={'title': 'dc'})
    if k in ('args', 'args3'):
        if k == 'args':
            return cs.arguments_schema([cs.arguments_parameter(f, core(x, env)) for f, x in t[1].items()])
        return cs.arguments_v3_schema([cs.arguments_v3_parameter(f, core(x, env)) for f, x in t[1].items()])
    raise ValueError(k)


class Caught(Exception):
    """a handler failed: the function did not catch it"""
    def __init__(self, e):
        self.e = e


class Mine(Exception):
    def __init__(self, name):
        self.name = name


class Cx:
    def __init__(self, field=None, data=None, title='root'):
        self.field, self.data, self.title = field, data, title

    def at(self, field):
        return Cx(field, self.data, self.title)


def ref(env, t, v, cx):
    """the result, or one of the exceptions above"""
    s = env.s
    k = t[0]
    if k == 'int':
        if v is None:
            raise Errs([('int_type', (), v)])
        if type(v) is not int:
            raise Errs([('int_parsing' if type(v) is str else 'int_type', (), v)])
        if bool(s.val(v, 32).slt(t[1])):
            raise Errs([('greater_than_equal', (), v)])
        return v
    if k in ('before', 'after', 'plain', 'wrap'):
        i, act, info = t[1], t[2], t[-1]
        x = ref(env, t[3], v, cx) if k == 'after' else v
        env.ref.append((i, x) + ((cx.field, dict(cx.data) if cx.data is not None else None, env.ctx, env.mode, cx.title) if info else ()))

        def handler(y, loc=None):
            try:
                return ref(env, t[3], y, cx)
            except Errs as e:
                raise Caught(Errs([(a, (() if loc is None else (loc,)) + b, c) for a, b, c in e.lines])) from None
            except Omit:
                raise
        try:
            r = act(x, None, handler) if k == 'wrap' else act(x, None)
        except Mine as e:
            ref_raise(e.name, v)
        except Caught as e:
            raise e.e
        return ref(env, t[3], r, cx) if k == 'before' else r
    if k == 'default':
        o = t[2]

        def default():
            if 'value' in o:
                d = o['value']
            else:
                a = (cx.data or {},) if o.get('data') else ()
                env.ref.append(('factory',) + tuple(dict(x) if x is not None else x for x in a))
                d = o['factory'](*a)
            if o.get('validate'):
                try:
                    return ref(env, t[1], d, cx)
                except (Errs, Omit):
                    if o.get('on_error') == 'omit':
                        raise Omit
                    raise
            return d
        if v is PydanticUndefined and has_default(o):
            return default()
        try:
            return ref(env, t[1], v, cx)
        except UseDefault:
            if not has_default(o):
                raise
            return default()
        except (Errs, Omit):
            if o.get('on_error') == 'omit':
                raise Omit
            if o.get('on_error') == 'default':
                return default()
            raise
    if k == 'nullable':
        return None if v is None else ref(env, t[1], v, cx)
    if k == 'chain':
        for x in t[1]:
            v = ref(env, x, v, cx)
        return v
    if k == 'custom':
        try:
            return ref(env, t[1], v, cx)
        except Errs:
            raise Errs([('my_error', (), v)])
    if k == 'lax_strict':
        return ref(env, t[1], v, cx)
    if k == 'json_python':
        return ref(env, t[1] if env.mode == 'json' else t[2], v, cx)
    if k in ('list', 'vtuple', 'tuple', 'dict'):
        out, bad = [], []
        items = list(v.items()) if k == 'dict' else list(enumerate(v))
        for i, x in items:
            try:
                out.append((i, ref(env, t[1][i] if k == 'tuple' else t[1], x, cx)))
            except Errs as e:
                bad += [(a, (i,) + b, c) for a, b, c in e.lines]
            except Omit:
                pass
        if k == 'tuple':
            for i in range(len(items), len(t[1])):
                d = t[1][i]
                try:
                    if d[0] == 'default' and has_default(d[2]):
                        out.append((i, ref(env, d, PydanticUndefined, cx)))
                    else:
                        bad.append(('missing', (i,), v))
                except Errs as e:
                    bad += [(a, (i,) + b, c) for a, b, c in e.lines]
                except Omit:
                    pass
        if bad:
            raise Errs(bad)
        return dict(out) if k == 'dict' else [x for i, x in out] if k == 'list' else tuple(x for i, x in out)
    if k in ('td', 'model', 'inner', 'dc', 'args', 'args3'):
        data, bad = {}, []
        for f, x in t[1].items():
            c = cx.at(f) if 'args' in k else Cx(f, data, k)
            try:
                if f in v:
                    data[f] = ref(env, x, v[f], c)
                elif x[0] == 'default' and has_default(x[2]):
                    data[f] = ref(env, x, PydanticUndefined, c)
                elif not (k == 'td' and omits(x)):
                    bad.append(('missing_argument' if 'args' in k else 'missing', (f,), v))
            except Errs as e:
                bad += [(a, (f,) + b, c) for a, b, c in e.lines]
            except Omit:
                if k in ('args', 'args3', 'dc'):  # none of these can do without
                    raise
        if bad:
            raise Errs(bad)
        return data
    raise ValueError(k)


def omits(t):
    return t[0] == 'default' and not has_default(t[2]) and t[2].get('on_error') == 'omit'


def has_default(o):
    return 'value' in o or 'factory' in o


def plain(r):
    if isinstance(r, (M, N)) or isinstance(r, D):
        return plain(dict(r.__dict__))
    if type(r) is dict:
        return {k: plain(x) for k, x in r.items()}
    if type(r) in (list, tuple):
        return type(r)(plain(x) for x in r)
    return r


def cases(tier):
    big = tier != 'quick'

    def run(s, tree, v, mode, text=None, env=None):
        ctx = {'c': 1}
        env = env or Env(s, mode, ctx)
        env.mode, env.ctx, env.s = mode, ctx, s
        env.ref, env.real = [], []
        s.quiet(True)  # a default is hashed
        val = V(core(tree, env), title='root')
        s.quiet(False)
        exp = err = None
        try:
            exp, kind = ref(env, tree, v, Cx()), 'ok'
        except Errs as e:
            err, kind = e.lines, 'errors'
        except Omit:
            kind = 'omit'
        except UseDefault:
            kind = 'default'
        except Other:
            kind = 'other'
        lines = r = None
        try:
            r, got = val.validate_python(v, context=ctx) if mode == 'python' else val.validate_json(text, context=ctx), 'ok'
        except ValidationError as e:
            lines, got = e, 'errors'
        except pydantic_core.SchemaError as e:
            got = 'omit' if 'Omit' in str(e) else 'default'
        except TypeError as e:
            s.check(e is STOP, 'another exception')
            got = 'other'
        s.check(got == kind, 'outcome %s, expected %s' % (got, kind))
        s.check(len(env.real) == len(env.ref), 'number of calls: %d, expected %d' % (len(env.real), len(env.ref)))
        for a, b in zip(env.real, env.ref):
            s.check(a[0] == b[0], 'order of calls')
            same(s, plain(list(a[1:])), plain(list(b[1:])), 'value and info of call %s' % (a[0],), 32)
        if kind == 'ok':
            if tree[0] in ('args', 'args3'):
                r = {**dict(zip(tree[1], r[0])), **r[1]}
            same(s, plain(r), exp, 'result', 32)
        elif kind == 'errors':
            e = errs(lines)
            s.check(e == [(a, b) for a, b, c in err], 'errors %s, expected %s' % (e, [(a, b) for a, b, c in err]))
            if mode == 'python':
                with_input = raw(lines)
                for x, (a, b, c) in zip(with_input, err):
                    s.check(x['input'] is c or (type(x['input']) is int and type(c) is int), 'input of an error')
                    if type(c) is int and a != 'none_required' and x['input'] is not c:
                        same(s, x['input'], c, 'input of an error', 32)
                    if a in ('value_error', 'assertion_error'):
                        ex = x['ctx']['error']
                        s.check(type(ex) is (ValueError if a == 'value_error' else AssertionError) and ex.args == (a[0],), 'the exception of an error')

    def raw(e):
        sx.L and sx.L.sx_quiet(1)
        try:
            return e.errors(include_url=False)
        finally:
            sx.L and sx.L.sx_quiet(0)

    def item(s, n, wrong=False):
        """(value, text)"""
        if wrong and s.flag(n + 'none'):
            return None, [ord(c) for c in 'null']
        x = s.bv(n, 4, 9).zext(8)
        s.assume(x.ule(9))
        return s.int(x.zext(32)), [x + 48]

    def at_fail(s, lo, hi, name, add):
        """fails with name if lo <= v < hi; adds otherwise"""
        def act(v, r):
            if type(v) is int:
                x = s.val(v, 32)
                if bool(x.slt(lo)) or not bool(x.slt(hi)):
                    return s.int(x + add)
            elif lo == 0:
                return v
            raise Mine(name)
        return act

    def at_wrap(s, lo, hi, name, add, style):
        inner = at_fail(s, lo, hi, name, add)

        def act(v, r, handler):
            if style == 'before':
                return handler(inner(v, r))
            if style == 'after':
                return inner(handler(v), r)
            if style == 'both':
                return inner(handler(inner(v, r)), r)
            if style == 'skip':
                return inner(v, r)
            if style == 'loc':
                return inner(handler(v, 'wl'), r)
            try:
                x = handler(v)
            except Caught:
                if style == 'replace':
                    raise Mine(name)
                return v
            if style == 'twice':
                return handler(inner(x, r))
            return inner(x, r)
        return act

    FAILS = ['value', 'assert', 'custom', 'known', 'verr', 'omit', 'default', 'other']
    STYLES = ['before', 'after', 'both', 'skip', 'loc', 'catch', 'replace', 'twice']

    def place(c, t):
        return {'bare': t, 'list': ('list', t), 'vtuple': ('vtuple', t), 'dict': ('dict', t), 'td': ('td', {'p': ('int', 0), 'q': t}), 'model': ('model', {'p': ('int', 1), 'q': t}), 'dc': ('dc', {'p': ('int', 0), 'q': t, 'r': ('int', 3)}), 'args': ('args', {'p': ('int', 1), 'q': t}), 'args3': ('args3', {'p': ('int', 1), 'q': t}),
                'default': ('default', t, {'value': 77}), 'list default': ('list', ('default', t, {'value': 77, 'on_error': 'default'})), 'nullable': ('nullable', t), 'custom': ('list', ('custom', t)), 'tuple': ('tuple', [t, ('int', 2)]), 'field of lists': ('model', {'q': ('list', t)}),
                'omit': ('list', ('default', t, {'on_error': 'omit'}))}[c]

    def doc(s, c, wrong=False):
        """(value, text)"""
        x, a = item(s, 'x', wrong)
        if c in ('bare', 'default', 'nullable'):
            return x, a
        if c == 'field of lists':
            return {'q': [x]}, [ord(z) for z in '{"q":['] + a + [93, 125]
        if c in ('list', 'vtuple', 'list default', 'tuple', 'custom', 'omit'):
            y, b = item(s, 'y')
            return [x, y], [91] + a + [44] + b + [93]
        if c == 'dict':
            return {'k': x, 'l': 9}, [ord(z) for z in '{"k":'] + a + [ord(z) for z in ',"l":9}']
        y, b = item(s, 'y')
        if c in ('td', 'model', 'args', 'args3'):
            return {'q': x, 'p': y}, [ord(z) for z in '{"q":'] + a + [ord(z) for z in ',"p":'] + b + [125]
        return {'r': 4, 'q': x, 'p': y}, [ord(z) for z in '{"r":4,"q":'] + a + [ord(z) for z in ',"p":'] + b + [125]

    PLACES = ['bare', 'list', 'vtuple', 'dict', 'td', 'model', 'dc', 'default', 'list default', 'nullable', 'custom', 'tuple', 'field of lists', 'omit', 'args', 'args3']

    def two(k1, k2):
        """two functions around an int, everywhere, failing in every way for some values"""
        def path(s):
            c = s.oneof('place', PLACES)
            f1 = FAILS[(s.pick('fail', 8 if big else 4) * (1 if big else 2) + PLACES.index(c) + len(k1 + k2)) % 8]
            j = (PLACES.index(c) + FAILS.index(f1)) % len(FAILS)
            mode = ['python', 'json'][(j + (k1 > k2)) % 2]
            f2 = FAILS[(j * 3 + 1) % len(FAILS)]
            info = bool(j % 3)

            def node(k, i, lo, hi, f, inner, info):
                if k == 'wrap':
                    return (k, i, at_wrap(s, lo, hi, f, 1, STYLES[(j + i) % len(STYLES)]), inner, info)
                if k == 'plain':
                    return (k, i, at_fail(s, lo, hi, f, 1), info)
                return (k, i, at_fail(s, lo, hi, f, 1), inner, info)
            t = node(k1, 1, 3, 6, f1, node(k2, 2, 5, 8, f2, ('int', 2), True), info)
            v, text = doc(s, c)
            run(s, place(c, t), v, mode, s.bytes(text))
        return path

    def wraps(s):
        """a wrap function in every style around a failing function"""
        style = s.oneof('style', STYLES)
        style2 = s.oneof('style2', STYLES)
        c = PLACES[(STYLES.index(style) * 5 + STYLES.index(style2) * 3) % len(PLACES)]
        f = FAILS[(STYLES.index(style) + STYLES.index(style2)) % len(FAILS)]
        mode = s.oneof('mode', ['python', 'json'])
        inner = ('wrap', 2, at_wrap(s, 6, 8, f, 1, style2), ('int', 3), True)
        v, text = doc(s, c)
        run(s, place(c, ('wrap', 1, at_wrap(s, 5, 7, 'value', 1, style), inner, False)), v, mode, s.bytes(text))

    def nested(k):
        """functions around and inside structures see the name and the data of their own field"""
        def path(s):
            seen = lambda i, inner: (k, i, (lambda v, r, h: h(v)) if k == 'wrap' else (lambda v, r: v), inner, True)
            shape = s.oneof('shape', ['model in list', 'td in model', 'dc in dict', 'model in model', 'model in td'])
            leaf = ('int', 3)
            inner = {'p': seen(3, leaf), 'q': seen(4, leaf)}
            if shape == 'model in list':
                t = ('model', {'p': leaf, 'q': ('list', seen(2, ('inner', inner))), 'r': seen(5, leaf)})
            elif shape == 'td in model':
                t = ('model', {'p': leaf, 'q': seen(2, ('td', inner)), 'r': seen(5, leaf)})
            elif shape == 'dc in dict':
                t = ('td', {'p': leaf, 'q': ('dict', seen(2, ('dc', inner))), 'r': seen(5, leaf)})
            elif shape == 'model in model':
                t = ('model', {'p': leaf, 'q': seen(2, ('inner', inner)), 'r': seen(5, leaf)})
            else:
                t = ('td', {'p': leaf, 'q': seen(2, ('model', inner)), 'r': seen(5, leaf)})
            t = seen(1, t)
            (a, ta), (b, tb), (c, tc), (d, td) = item(s, 'a'), item(s, 'b'), item(s, 'c'), item(s, 'd')
            o = lambda z: [ord(x) for x in z]
            sub, text = {'p': a, 'q': b}, o('{"p":') + ta + o(',"q":') + tb + o('}')
            if 'list' in shape:
                sub, text = [sub], [91] + text + [93]
            if 'dict' in shape:
                sub, text = {'k': sub}, o('{"k":') + text + [125]
            v = {'p': c, 'q': sub, 'r': d}
            mode = s.oneof('mode', ['python', 'json'])
            run(s, t, v, mode, s.bytes(o('{"p":') + tc + o(',"q":') + text + o(',"r":') + td + o('}')))
        return path

    def defaults(c):
        """which default is used, when, and whether it is validated"""
        def path(s):
            on = s.oneof('on_error', ['raise', 'omit', 'default'])
            src = s.oneof('source', ['none', 'value', 'factory', 'data'])
            if src == 'none' and on == 'default' or c in ('dc', 'args', 'args3') and on == 'omit':
                return
            validate = src != 'none' and s.flag('validate')
            fn = s.pick('fn', 4) if big or c not in ('td', 'model', 'dc', 'args', 'args3') else s.pick('fn', 2) * (('td', 'model', 'dc').index(c) + 1 if 'args' not in c else len(c) - 3)
            dv, _ = item(s, 'd')
            o = {'on_error': on}
            if src == 'value':
                o['value'] = dv
            elif src == 'factory':
                o['factory'] = lambda: dv
            elif src == 'data':
                o['factory'] = lambda data: data.get('p', dv)
                o['data'] = True
            if validate:
                o['validate'] = True
            inner = ('int', 4)
            if fn == 1:
                inner = ('before', 1, at_fail(s, 6, 8, 'default', 1), inner, True)
            elif fn == 2:
                inner = ('wrap', 1, at_wrap(s, 6, 8, 'omit', 1, 'after'), inner, True)
            elif fn == 3:
                inner = ('after', 1, at_fail(s, 7, 9, 'value', 1), inner, True)
            t = ('default', inner, o)
            mode = ['python', 'json'][(fn + (on == 'omit')) % 2]
            z = lambda q: [ord(x) for x in q]
            x, a = item(s, 'x', fn == 0)
            if c == 'bare':
                run(s, t, x, mode, s.bytes(a))
                return
            if c == 'tuple':
                n = s.pick('n', 2)
                run(s, ('tuple', [('int', 2), t]), [5, x][:n + 1], mode, s.bytes(z('[5') + ([44] + a if n else []) + [93]))
                return
            if c in ('list', 'dict'):
                run(s, (c, t), [x] if c == 'list' else {'k': x}, mode, s.bytes([91] + a + [93] if c == 'list' else z('{"k":') + a + [125]))
                return
            n = s.pick('n', 2)
            y, b = item(s, 'y')
            fields = {'p': ('int', 3), 'q': t, 'r': ('default', ('after', 2, lambda v, r: v, ('int', 0), True), {'value': 5, 'validate': True})}
            v = {'p': y, 'q': x} if n else {'p': y}
            run(s, (c, fields), v, mode, s.bytes(z('{"p":') + b + (z(',"q":') + a if n else []) + [125]))
        return path

    def undefined(s):
        """PydanticUndefined as an input asks for the default"""
        on = s.oneof('on_error', ['raise', 'omit', 'default'])
        src = s.oneof('source', ['none', 'value', 'factory'])
        if src == 'none' and on == 'default':
            return
        dv, _ = item(s, 'd')
        o = {'on_error': on}
        if src != 'none':
            o['value' if src == 'value' else 'factory'] = dv if src == 'value' else (lambda: dv)
            if s.flag('validate'):
                o['validate'] = True
        t = ('default', ('int', 4), o)
        if s.flag('nested'):
            t = ('default', t, {'value': 8, 'on_error': s.oneof('outer', ['raise', 'default'])})
        if s.flag('listed'):
            run(s, ('list', t), [PydanticUndefined], 'python')
        else:
            run(s, t, PydanticUndefined, 'python')

    def copies(s):
        """a mutable default is a new object every time"""
        src = s.oneof('source', ['list', 'dict', 'set', 'nested', 'factory'])
        x, _ = item(s, 'x')
        stored = {'list': [x], 'dict': {'k': x}, 'set': {1}, 'nested': [[x]], 'factory': None}[src]
        kw = {'default': stored} if stored is not None else {'default_factory': lambda: [x]}
        d = cs.with_default_schema(cs.any_schema(), **kw, validate_default=s.flag('validate'))
        kind = s.oneof('kind', ['td', 'model', 'dc', 'get'])
        if kind == 'td':
            v = V(cs.typed_dict_schema({'a': cs.typed_dict_field(d)}))
            get = lambda: v.validate_python({})['a']
        elif kind == 'model':
            v = V(cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(d)})))
            get = lambda: v.validate_python({}).a
        elif kind == 'dc':
            v = V(cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field('p', d)]), ['p']))
            get = lambda: v.validate_python({}).p
        else:
            v = V(d)
            get = lambda: v.get_default_value().value
        a, b = get(), get()
        s.check(a is not b and a is not stored and b is not stored, 'a mutable default is shared')
        if src == 'nested':
            s.check(a[0] is not b[0] and a[0] is not stored[0], 'a part of a mutable default is shared')
        if src != 'set':
            same(s, a, stored if stored is not None else [x], 'the default', 32)

    def steps(s):
        """chains, custom errors, lax-or-strict and json-or-python schemas use the schemas they say in order"""
        lo = ('int', 3)
        f = lambda i, a, b, fail, inner: ('after', i, at_fail(s, a, b, fail, 1), inner, True)
        fail = s.oneof('fail', ['value', 'custom', 'omit', 'default', 'other'])
        A, Bb = f(1, 5, 6, fail, lo), f(2, 6, 8, 'assert', lo)
        t = s.oneof('tree', ['chain', 'chain3', 'custom', 'custom in chain', 'json_python', 'lax_strict', 'nullable chain', 'chain in chain'])
        t = {'chain': ('chain', [A, Bb]), 'chain3': ('chain', [('int', 0), A, Bb]), 'custom': ('custom', A), 'custom in chain': ('chain', [('custom', A), Bb]), 'json_python': ('json_python', A, Bb), 'lax_strict': ('lax_strict', A, Bb),
             'nullable chain': ('chain', [('nullable', A), ('nullable', Bb)]), 'chain in chain': ('chain', [A, ('chain', [Bb, f(3, 8, 9, 'value', ('int', 0))])])}[t]
        j = s.pick('place', 4)
        c = ['bare', 'list', 'model', 'list default'][j]
        v, text = doc(s, c, True)
        run(s, place(c, t), v, s.oneof('mode', ['python', 'json']) if big else ['python', 'json'][(j + len(t) + len(fail) // 2) % 2], s.bytes(text))

    out = []
    ks = ('before', 'after', 'wrap', 'plain')
    for k1 in ks[:3]:
        for k2 in ks:
            out.append(Case('functions %s %s' % (k1, k2), two(k1, k2), 'two functions, eight ways to fail, fourteen places, digits'))
    out.append(Case('wraps', wraps, 'eight styles of wrap functions, nested'))
    for k in ks[:3]:
        out.append(Case('nested ' + k, nested(k), 'five structures of two levels'))
    for c in ('bare', 'list', 'dict', 'tuple', 'td', 'model', 'dc', 'args', 'args3'):
        out.append(Case('defaults ' + c, defaults(c), 'every kind of default, on_error and validate_default'))
    out.append(Case('undefined', undefined, ''))
    out.append(Case('copies', copies, ''))
    out.append(Case('steps', steps, ''))
    return out
