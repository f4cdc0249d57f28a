"""C17 - the ways to validate agree: strict within lax, JSON as its Python value, text as strings, settings of call, schema and configuration."""
import datetime as dt
from hlib import *

NUM = '019.-+_ e'
D4 = '0129'


def eq(s, a, b, msg):
    """equal in type and value, dates and times by field and offset"""
    s.check(type(a) is type(b), msg + ' (type)')
    if isinstance(a, (dt.date, dt.time, dt.timedelta)):
        s.check(all_([x == y for x, y in zip(s.fields(a), s.fields(b))]), msg)
        if not isinstance(a, dt.timedelta) and not type(a) is dt.date:
            s.check((a.tzinfo is None) == (b.tzinfo is None), msg + ' (zone)')
            if a.tzinfo is not None:
                s.quiet(True)
                same_ = a.tzinfo.utcoffset(None) == b.tzinfo.utcoffset(None)
                s.quiet(False)
                s.check(same_, msg + ' (zone)')
    elif type(a) in (set, frozenset):
        s.check(len(a) == len(b), msg + ' (length)')
        if len(a) == 1:
            eq(s, list(a)[0], list(b)[0], msg)
        else:
            s.check(a == b, msg)
    elif type(a) in (list, tuple):
        s.check(len(a) == len(b), msg + ' (length)')
        for x, y in zip(a, b):
            eq(s, x, y, msg)
    elif type(a) is dict:
        s.check(len(a) == len(b), msg + ' (length)')
        for (k, x), (l, y) in zip(a.items(), b.items()):
            eq(s, k, l, msg)
            eq(s, x, y, msg)
    elif type(a) is complex:
        s.check(repr(a) == repr(b), msg)
    elif type(a).__name__ in ('Decimal', 'UUID', 'Url', 'MultiHostUrl'):
        s.check(str(a) == str(b), msg)
    elif hasattr(a, '__dict__') and not isinstance(a, type):
        eq(s, dict(a.__dict__), dict(b.__dict__), msg)
    else:
        same(s, a, b, msg)


def outcome(f, *a, **k):
    r, v = attempt(f, *a, **k)
    return (r, v) if r == 'ok' else (r, errs(v))


def agree(s, x, y, msg, errors=True):
    s.check(x[0] == y[0], '%s: %s against %s' % (msg, x[0], y[0]))
    if x[0] == 'ok':
        eq(s, x[1], y[1], msg)
    elif errors:
        s.check(x[1] == y[1], '%s: %r against %r' % (msg, x[1], y[1]))


def cases(tier):
    big = tier != 'quick'
    from decimal import Decimal
    from uuid import UUID
    from enum import Enum

    class E(Enum):
        a = 1
        b = 'x'

    class M:
        __slots__ = '__dict__', '__pydantic_extra__', '__pydantic_fields_set__', '__pydantic_private__'

    # ---- Python values ----
    def pyvals(s, kinds, num=NUM):
        k = s.oneof('kind', kinds)
        if k == 'int':
            return s.int(s.bv('i', 66, 5))
        if k == 'bigs':
            return [5, 2 ** 63, -2 ** 63, 2 ** 200, 10 ** 400][s.pick('big', 5)]
        if k == 'sint':
            return s.int(s.bv('i', 4, 5).sext(64))
        if k == 'bool':
            return s.flag('b')
        if k == 'none':
            return None
        if k == 'float':
            return s.float(s.bv('f', 64, 0x3ff0000000000000))
        if k == 'sfloat':
            return [0.0, -0.0, 1.0, 1.5, 1e20, -1e-3, float('inf'), float('nan')][s.pick('sf', 8)]
        if k == 'str':
            return s.str(s.chars('c', s.pick('n', 4), '1', num))
        if k == 'bytes':
            return s.bytes(s.chars('c', s.pick('n', 4), '1', num))
        if k == 'bytearray':
            return bytearray(b'1')
        if k == 'date':
            return dt.date(2020, 2, 29)
        if k == 'datetime':
            return dt.datetime(2020, 2, 29, 0, 0, s.pick('sec', 2))
        if k == 'time':
            return dt.time(1, 2, 3)
        if k == 'delta':
            return dt.timedelta(1, 2)
        if k == 'decimal':
            return Decimal(['1', '1.5', 'NaN'][s.pick('dec', 3)])
        if k == 'uuid':
            return UUID(int=5 << 76 | 1 << 63)
        if k == 'enum':
            return E.a if s.flag('ea') else E.b
        if k in ('dstr', 'dbytes'):
            t = ['2020-02-2{}', '2020-02-2{}T00:00:0{}', '0{}:00:0{}', 'P{}D', '{}', '2020-02-2{}T00:00:00+0{}:00', '2020-02-2{}T00:00'][s.pick('t', 7)]
            cs_ = []
            for i, ch in enumerate(t.replace('{}', '\0')):
                cs_.append(s.chars('d%d' % i, 1, '1', '0189x')[0] if ch == '\0' else ch)
            return s.str(cs_) if k == 'dstr' else s.bytes(cs_)
        if k == 'url':
            return ['http://a.b/c', b'http://a.b/c', 'x', pydantic_core.Url('http://a.b/c')][s.pick('u', 4)]
        if k == 'cont':
            from collections import deque, OrderedDict, ChainMap
            return [[1], (1,), {1}, frozenset([1]), {1: 2}, {1: 2}.keys(), {2: 1}.values(), {1: 2}.items(), deque([1]), OrderedDict([(1, 2)]), ChainMap({1: 2}), [], range(1, 2), 'ab', b'ab'][s.pick('cont', 15)]
        raise ValueError(k)

    N = ['int', 'float', 'str', 'bytes', 'bool', 'none', 'decimal', 'enum', 'date']
    T = ['sint', 'sfloat', 'dstr', 'dbytes', 'date', 'datetime', 'time', 'delta', 'bool', 'decimal']
    O = ['sint', 'sfloat', 'str', 'bytes', 'bytearray', 'bool', 'none', 'date', 'decimal', 'enum', 'uuid']

    def sch():
        return {
            'int': (cs.int_schema, {}, N),
            'int bounded': (cs.int_schema, dict(ge=1, lt=100), ['int', 'str', 'bool']),
            'float': (cs.float_schema, {}, N),
            'bool': (cs.bool_schema, {}, N),
            'str': (cs.str_schema, {}, O),
            'str limited': (cs.str_schema, dict(max_length=1, strip_whitespace=True), ['str', 'bytes']),
            'bytes': (cs.bytes_schema, {}, O),
            'decimal': (cs.decimal_schema, {}, ['sint', 'sfloat', 'decimal', 'bool', 'none', 'bytearray']),
            'date': (cs.date_schema, {}, T),
            'datetime': (cs.datetime_schema, {}, T),
            'time': (cs.time_schema, {}, T),
            'timedelta': (cs.timedelta_schema, {}, T),
            'uuid': (cs.uuid_schema, {}, ['uuid', 'str', 'bytes', 'none']),
            'list': (cs.list_schema, {}, ['cont', 'str']),
            'tuple': (cs.tuple_schema, dict(items_schema=[cs.int_schema()], variadic_item_index=0), ['cont', 'str']),
            'set': (cs.set_schema, {}, ['cont', 'str']),
            'frozenset': (cs.frozenset_schema, {}, ['cont', 'str']),
            'dict': (cs.dict_schema, {}, ['cont', 'str']),
            'enum': (cs.enum_schema, dict(cls=E, members=list(E)), ['sint', 'str', 'enum', 'bool', 'none']),
            'url': (cs.url_schema, {}, ['url', 'none', 'sint']),
            'complex': (cs.complex_schema, {}, ['bigs', 'sfloat', 'bool', 'none', 'decimal']),
        }
    S_ = sch()

    def settings(name):
        """strict: on the call, in the schema, in the configuration; strict is within lax"""
        mk, kw, kinds = S_[name]
        lax = SchemaValidator(mk(**kw), {'cache_strings': False})
        lax2 = SchemaValidator(mk(strict=False, **kw), {'cache_strings': False, 'strict': True})
        st = SchemaValidator(mk(strict=True, **kw), {'cache_strings': False})
        stc = SchemaValidator(mk(**kw), {'cache_strings': False, 'strict': True})

        def path(s):
            v = pyvals(s, kinds)
            a = outcome(lax.validate_python, v)
            b = outcome(st.validate_python, v)
            agree(s, outcome(lax.validate_python, v, strict=True), b, name + ' strict on the call and in the schema')
            agree(s, outcome(stc.validate_python, v), b, name + ' strict in the configuration and in the schema')
            agree(s, outcome(st.validate_python, v, strict=False), a, name + ' not strict on the call, strict in the schema')
            agree(s, outcome(lax2.validate_python, v), a, name + ' not strict in the schema, strict in the configuration')
            if b[0] == 'ok':
                agree(s, b, a, name + ' strict within lax')
            s.check(lax.isinstance_python(v) == (a[0] == 'ok'), name + ' isinstance')
            s.check(st.isinstance_python(v) == (b[0] == 'ok'), name + ' isinstance strict')
            s.out(a)
        return path

    # ---- JSON texts ----
    def jtext(s, kinds, num=NUM):
        k = s.oneof('kind', kinds)
        if k == 'num':
            n = s.pick('n', 4 if big else 3) + 1
            cs_ = s.chars('c', n, '1', '0159.-eE' if n < 3 else '01.-e')
            return cs_
        if k == 'big':
            return [ord(c) for c in '9223372036854775'] + s.chars('c', 3, '8', '0789') + ([ord(c) for c in '.0'] if s.flag('dot') else [])
        if k == 'lit':
            return [ord(c) for c in ['true', 'false', 'null', 'NaN', 'Infinity', '-Infinity', '-NaN', 'tru', ' 1 ', '[]', '{}', '9223372036854775808', '-9223372036854775808', '1e400', '[1]'][s.pick('l', 15)]]
        if k == 'str':
            return [34] + s.chars('c', s.pick('n', 4), '1', num) + [34]
        if k == 'dstr':
            t = ['2020-02-2{}', '2020-02-2{}T00:00:0{}', '0{}:00:0{}', 'P{}D', '{}', '2020-02-2{}T00:00:00+0{}:00', '2020-02-2{}T00:00'][s.pick('t', 7)]
            return [34] + [s.chars('d%d' % i, 1, '1', '0189x')[0] if ch == '\0' else ord(ch) for i, ch in enumerate(t.replace('{}', '\0'))] + [34]
        if k == 'esc':
            return [ord(c) for c in ['"\\u0031"', '"1\\n"', '"\\u00e9"', '"\\ud83d\\ude00"', '"\\ud800"', '"a\\"b"'][s.pick('l', 6)]]
        raise ValueError(k)

    JN = ['num', 'big', 'lit', 'str', 'esc']
    JT = ['dstr', 'lit', 'num1']

    def jsn(name):
        mk, kw, _ = S_[name]
        v = SchemaValidator(mk(**kw), {'cache_strings': False})
        temporal = name in ('date', 'datetime', 'time', 'timedelta')
        kinds = ['dstr', 'lit', 'esc'] if temporal else ['num', 'lit', 'esc', 'str'] if name not in ('int', 'float', 'int bounded') else JN
        if name in ('decimal', 'uuid', 'complex', 'list', 'tuple', 'set', 'frozenset', 'dict', 'enum', 'url'):
            kinds = ['lit', 'esc']

        def path(s):
            t = s.bytes(jtext(s, kinds))
            try:
                p = pydantic_core.from_json(t, cache_strings=False)
            except ValueError:
                r = outcome(v.validate_json, t)
                s.check(r[0] == 'err' and r[1] == [('json_invalid', ())], '%s: text which is not JSON gives %r' % (name, r))
                return
            a, b = outcome(v.validate_json, t), outcome(v.validate_python, p)
            agree(s, a, b, name + ' JSON and Python', errors=not temporal and name not in ('complex', 'bool'))
            c = outcome(v.validate_json, t, strict=True)
            if c[0] == 'ok':
                agree(s, c, a, name + ' strict JSON within lax')
            elif name in ('int', 'float', 'bool', 'str'):
                s.check(outcome(v.validate_python, p, strict=True)[0] == 'err', name + ' strict JSON and strict Python')
            s.out(a)
        return path

    def strings(name):
        mk, kw, _ = S_[name]
        v = SchemaValidator(mk(**kw), {'cache_strings': False})
        w = SchemaValidator(cs.typed_dict_schema({'f': cs.typed_dict_field(mk(**kw))}), {'cache_strings': False})
        temporal = name in ('date', 'datetime', 'time', 'timedelta')

        def path(s):
            t = pyvals(s, ['dstr' if temporal else 'str'])
            a, b = outcome(v.validate_strings, t), outcome(v.validate_python, t)
            agree(s, a, b, name + ' strings and Python')
            c = outcome(w.validate_strings, {'f': t})
            s.check(c[0] == a[0], name + ' strings inside a dict')
            if c[0] == 'ok':
                eq(s, c[1], {'f': a[1]}, name + ' strings inside a dict')
            else:
                s.check(c[1] == [(x, ('f',) + y) for x, y in a[1]], name + ' errors of strings inside a dict')
            d = outcome(v.validate_strings, t, strict=True)
            if d[0] == 'ok':
                agree(s, d, a, name + ' strict strings within lax')
            s.out(a)
        return path

    # ---- structures: the call's strict setting reaches every level, JSON means its Python value ----
    F = {
        'list': (cs.list_schema, lambda v: [v], 'list'),
        'tuple': (lambda x: cs.tuple_schema([x]), lambda v: (v,), 'list'),
        'var tuple': (lambda x: cs.tuple_schema([x], variadic_item_index=0), lambda v: (v,), 'list'),
        'set': (cs.set_schema, lambda v: {v}, 'list'),
        'frozenset': (cs.frozenset_schema, lambda v: frozenset({v}), 'list'),
        'dict values': (lambda x: cs.dict_schema(cs.str_schema(), x), lambda v: {'f': v}, 'dict'),
        'typed dict': (lambda x: cs.typed_dict_schema({'f': cs.typed_dict_field(x)}), lambda v: {'f': v}, 'dict'),
        'extras': (lambda x: cs.typed_dict_schema({}, extras_schema=x, extra_behavior='allow'), lambda v: {'f': v}, 'dict'),
        'model fields': (lambda x: cs.model_fields_schema({'f': cs.model_field(x)}), lambda v: {'f': v}, 'dict'),
        'nullable': (cs.nullable_schema, lambda v: v, ''),
        'default': (lambda x: cs.with_default_schema(x, default=1), lambda v: v, ''),
        'definition': (lambda x: cs.definitions_schema(cs.definition_reference_schema('r'), [dict(x, ref='r')]), lambda v: v, ''),
        'after': (lambda x: cs.no_info_after_validator_function(lambda v: v, x), lambda v: v, ''),
        'before': (lambda x: cs.no_info_before_validator_function(lambda v: v, x), lambda v: v, ''),
        'wrap': (lambda x: cs.no_info_wrap_validator_function(lambda v, h: h(v), x), lambda v: v, ''),
        'chain': (lambda x: cs.chain_schema([x, cs.any_schema()]), lambda v: v, ''),
        'union': (lambda x: cs.union_schema([cs.none_schema(), x]), lambda v: v, ''),
        'left union': (lambda x: cs.union_schema([cs.none_schema(), x], mode='left_to_right'), lambda v: v, ''),
        'tagged': (lambda x: cs.tagged_union_schema({'t': x}, lambda v: 't'), lambda v: v, ''),
        'json or python': (lambda x: cs.json_or_python_schema(x, x), lambda v: v, ''),
        'lax or strict': (lambda x: cs.lax_or_strict_schema(x, x), lambda v: v, ''),
        'arguments': (lambda x: cs.arguments_schema([cs.arguments_parameter('f', x)]), lambda v: {'f': v}, 'dict'),
        'root model': (lambda x: cs.model_schema(M, x, root_model=True), lambda v: v, 'model'),
        'model': (lambda x: cs.model_schema(M, cs.model_fields_schema({'f': cs.model_field(x)})), lambda v: {'f': v}, 'model'),
        'json': (cs.json_schema, None, 'json'),
    }
    X = {'int': cs.int_schema, 'float': cs.float_schema, 'str': cs.str_schema, 'bool': cs.bool_schema}

    def structure(fname):
        wrap, obj, shape = F[fname]
        vs = {(x, st): SchemaValidator(wrap(X[x](**({} if st is None else {'strict': st}))), {'cache_strings': False}) for x in X for st in (None, True, False)}

        def leaf(s):
            k = s.pick('leaf', 5)
            if k == 0:
                return s.int(s.bv('i', 4, 1).sext(64))
            if k == 1:
                return s.float(s.bv('f', 2, 1).zext(32).zext(64).s2f() if False else s.bv('f', 64, 0x3ff0000000000000)) if fname not in ('set', 'frozenset') else 1.0
            if k == 2:
                return s.flag('b')
            if k == 3:
                c = s.chars('c', 1, '1', '0129tf')
                return s.str(c) if fname not in ('set', 'frozenset') else chr(c[0].conc())
            return [None, b'1', 'x', 2.5][s.pick('o', 4)]

        def path(s):
            x = s.oneof('x', sorted(X))
            v = leaf(s)
            if shape == 'json':
                s.assume(type(v) is not bytes)
                s.quiet(True)
                s.quiet(False)
            lax, st, no = vs[x, None], vs[x, True], vs[x, False]
            if shape == 'json':
                if isinstance(v, float):
                    v = 1.0
                doc = pydantic_core.to_json(v)
                a = outcome(lax.validate_python, doc)
                b = outcome(lax.validate_python, doc, strict=True)
            else:
                doc = obj(v)
                a = outcome(lax.validate_python, doc)
                b = outcome(lax.validate_python, doc, strict=True)
            if shape != 'model':
                agree(s, outcome(st.validate_python, doc), b, fname + ' strict on the call and strict items', errors=fname != 'union')
            agree(s, outcome(st.validate_python, doc, strict=False), a, fname + ' not strict on the call, strict items')
            agree(s, outcome(no.validate_python, doc, strict=True), b, fname + ' strict on the call, items not')
            if b[0] == 'ok':
                agree(s, b, a, fname + ' strict within lax')
            s.check(lax.isinstance_python(doc) == (a[0] == 'ok'), fname + ' isinstance')
            s.out(a)
        return path

    def jstructure(fname):
        wrap, obj, shape = F[fname]
        vs = {(x, st): SchemaValidator(wrap(X[x](**({} if st is None else {'strict': st}))), {'cache_strings': False}) for x in X for st in (None, True)}

        def path(s):
            x = s.oneof('x', sorted(X))
            t = jtext(s, ['num1', 'lit', 'str1'] if False else ['lit', 'short'])if False else None
            k = s.pick('leaf', 4)
            if k == 0:
                t = s.chars('c', 2, '1', '019-.')
            elif k == 1:
                t = [34] + s.chars('c', 1, '1', '0129tf') + [34]
            else:
                t = [ord(c) for c in ['true', 'null', '1.0', '2.5', '"x"', '{}', '[]', '[1]', '{"f": "1"}'][s.pick('o', 9)]]
                if k == 3:
                    s.assume(False)
            if shape == 'list':
                t = [91] + t + [93]
            elif obj is not None and shape in ('dict', 'model') and fname != 'root model':
                t = [ord(c) for c in '{"f":'] + t + [125]
            elif shape == 'json':
                s.assume(all(type(c) is int and c != 34 for c in t))
                t = [34] + t + [34]
            text = s.bytes(t)
            lax, st = vs[x, None], vs[x, True]
            try:
                p = pydantic_core.from_json(text, cache_strings=False)
            except ValueError:
                s.check(outcome(lax.validate_json, text)[0] == 'err', fname + ' invalid JSON')
                return
            a = outcome(lax.validate_json, text)
            agree(s, a, outcome(lax.validate_python, p), fname + ' JSON and Python')
            b = outcome(lax.validate_json, text, strict=True)
            agree(s, outcome(st.validate_json, text), b, fname + ' strict JSON on the call and strict items', errors=fname != 'union')
            if b[0] == 'ok':
                agree(s, b, a, fname + ' strict within lax, JSON')
            s.out(a)
        return path

    out = []
    for n in S_:
        out.append(Case('settings ' + n, settings(n), ', '.join(S_[n][2])))
    for n in S_:
        out.append(Case('json ' + n, jsn(n), 'numbers up to 3 characters (thorough: 4), strings up to 3, literals'))
    for n in S_:
        if n not in ('complex', 'uuid', 'decimal', 'list', 'tuple', 'set', 'frozenset', 'dict', 'enum', 'url'):
            out.append(Case('strings ' + n, strings(n), 'strings up to 3 characters over %r' % NUM))
    for f in F:
        out.append(Case('structure ' + f, structure(f), 'four item types'))
        if f not in ('var tuple', 'arguments'):
            out.append(Case('json structure ' + f, jstructure(f), 'four item types'))
    return out
