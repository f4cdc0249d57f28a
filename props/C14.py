"""C14 - serialized JSON is valid JSON which means the value: strings, keys, numbers, bytes; text and Python form of JSON mode agree."""
from hlib import *

B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def eq_txt(s, t, cs, what):
    s.check(isinstance(t, Txt), what + ' (a string)')
    cs = [c if isinstance(c, B) else cst(8, c) for c in cs]
    s.check(len(t) == len(cs), what + ' (length)')
    s.check(all_([a == b for a, b in zip(t, cs)]), what)


def b64val(s, c):
    s.check(c.between(65, 90) | c.between(97, 122) | c.between(48, 57) | (c == 45) | (c == 95), 'alphabet of base64')
    return c.ult(48).ite(cst(8, 62), c.ult(58).ite(c + 4, c.ult(91).ite(c - 65, c.ult(96).ite(cst(8, 63), c - 71))))


def unb64(s, t):
    s.check(len(t) % 4 == 0, 'padding of base64')
    out = []
    for i in range(0, len(t), 4):
        pad = 0
        if i + 4 == len(t):
            if bool(t[i + 3] == 61):
                pad = 2 if bool(t[i + 2] == 61) else 1
        v = [b64val(s, c) for c in t[i:i + 4 - pad]] + [cst(8, 0)] * pad
        b = [v[0] * 4 | v[1].bits(4, 8) & 3, v[1] * 16 | v[2].bits(2, 8) & 15, v[2] * 64 | v[3]]
        s.check(all_([x == 0 for x in b[3 - pad:]]), 'unused bits of base64')
        out += b[:3 - pad]
    return out


def unhex(s, t):
    s.check(len(t) % 2 == 0, 'hex')
    out = []
    for i in range(0, len(t), 2):
        v = []
        for c in t[i:i + 2]:
            v.append(c - 48 if bool(c.between(48, 57)) else c - 87)
            s.check(v[-1].ult(16), 'hex digit')
        out.append(v[0] * 16 | v[1])
    return out


def cases(tier):
    big = tier != 'quick'
    import enum
    import pydantic_core as pc
    any_s = cs.any_schema()

    class SE(str, enum.Enum):
        A = 'a"\\\n'

    class Sub(str):
        pass

    STR = {
        'str': lambda v: (cs.str_schema(), v),
        'any': lambda v: (any_s, v),
        'nullable': lambda v: (cs.nullable_schema(cs.str_schema()), v),
        'union': lambda v: (cs.union_schema([cs.int_schema(), cs.str_schema()]), v),
        'function': lambda v: (cs.str_schema(serialization=cs.plain_serializer_function_ser_schema(lambda x: x)), v),
        'wrap': lambda v: (cs.str_schema(serialization=cs.wrap_serializer_function_ser_schema(lambda x, h: h(x))), v),
        'typed': lambda v: (cs.str_schema(serialization=cs.plain_serializer_function_ser_schema(lambda x: x, return_schema=cs.str_schema())), v),
    }

    def strs(kind, n, maxlen):
        """a string: n characters"""
        def path(s):
            bs = []
            for i in range(n):
                bs += uchar(s, 'c%d' % i, maxlen)[0]
            sch, v = STR[kind](s.str(bs))
            ser = SchemaSerializer(sch)
            eq_txt(s, jparse(s, s.content(ser.to_json(v))), bs, 'a string')
            r = ser.to_python(v, mode='json')
            same(s, r, s.str(bs), 'a string in JSON mode')
        return path

    def nested(n, maxlen):
        """strings as keys, items and fields, and the standalone function, with indentation"""
        def path(s):
            bs = []
            for i in range(n):
                bs += uchar(s, 'c%d' % i, maxlen)[0]
            v = s.str(bs)
            c = s.pick('c', 6)
            ind = s.oneof('indent', [None, 0, 1, 4])
            if c == 0:
                obj, f = [v, v], lambda t: list(t)
                ser = SchemaSerializer(cs.list_schema(cs.str_schema()))
            elif c == 1:
                obj, f = (v,), lambda t: list(t)
                ser = SchemaSerializer(cs.tuple_schema([cs.str_schema()]))
            elif c == 2:
                obj, f = {'k': v}, lambda t: [x for _, x in t]
                ser = SchemaSerializer(cs.dict_schema(cs.str_schema(), cs.str_schema()))
            elif c == 3:
                obj, f = {'a': {'b': [v]}}, lambda t: list(t[0][1][0][1])
                ser = SchemaSerializer(any_s)
            elif c == 4:
                obj, f = {'x': v}, lambda t: [x for _, x in t]
                ser = SchemaSerializer(cs.typed_dict_schema({'x': cs.typed_dict_field(cs.str_schema())}))
            else:
                obj, f = {'x': [v, None, True]}, lambda t: t[0][1][:1]
                ser = None
            out = pc.to_json(obj, indent=ind) if ser is None else ser.to_json(obj, indent=ind)
            for t in f(jparse(s, s.content(out))):
                eq_txt(s, t, bs, 'a string inside')
        return path

    def keys(n, maxlen):
        def path(s):
            bs = []
            for i in range(n):
                bs += uchar(s, 'c%d' % i, maxlen)[0]
            k = s.str(bs)
            d = {}
            s.quiet(True)
            d[k] = 1
            s.quiet(False)
            ser = SchemaSerializer([cs.dict_schema(), any_s, cs.dict_schema(cs.str_schema(), cs.int_schema()), cs.typed_dict_schema({}, extra_behavior='allow')][s.pick('t', 4)])
            t = jparse(s, s.content(ser.to_json(d)))
            s.check(isinstance(t, tuple) and len(t) == 1, 'one key')
            eq_txt(s, t[0][0], bs, 'a key')
        return path

    BASES = [0, 10 ** 2, 10 ** 4, 10 ** 6, 10 ** 9, 10 ** 14, 10 ** 18, 2 ** 31, 2 ** 63, -2 ** 31, -2 ** 63 + 1000, -10 ** 9]
    INT = {
        'int': lambda: SchemaSerializer(cs.int_schema()),
        'any': lambda: SchemaSerializer(any_s),
    }

    def ints(kind, bits):
        def path(s):
            d = s.bv('d', bits, 5).sext(96)
            base = s.oneof('base', BASES)
            if base >= 2 ** 63 - 2 ** bits:
                x = s.pick('e', 5) - 2 + base
                xt, xo = cst(96, x & (1 << 96) - 1), x
            else:
                s.assume((d + base).sbetween(-2 ** 63, 2 ** 63 - 1))
                xt = d + base
                xo = s.int(xt.bits(0, 64))
            ser = INT[kind]()
            t = jparse(s, s.content(ser.to_json(xo)))
            s.check(isinstance(t, Num), 'a number')
            s.check(decimal_value(s, t, 96) == xt, 'the number')
            same(s, ser.to_python(xo, mode='json'), xo, 'an int in JSON mode')
        return path

    FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e16, 1e15, 123456789.125, 1e-7, 1e-5, 5e-324, 1.7976931348623157e308, 2.0 ** 53, 1e22, 1e23, 0.30000000000000004, float('inf'), float('-inf'), float('nan')]

    def floats(kind):
        import json
        def path(s):
            x = s.oneof('x', FLOATS)
            mode = s.oneof('m', ['null', 'constants', 'strings'])
            if kind == 'function':
                out, py = pc.to_json(x, inf_nan_mode=mode), pc.to_jsonable_python(x, inf_nan_mode=mode)
            else:
                sch = {'float': cs.float_schema(), 'any': any_s, 'list': cs.list_schema(cs.float_schema()), 'anylist': any_s, 'nullable': cs.nullable_schema(cs.float_schema())}[kind]
                v = [x] if kind in ('list', 'anylist') else x
                ser = SchemaSerializer(sch, {'ser_json_inf_nan': mode})
                out = ser.to_json(v)
                py = ser.to_python(v, mode='json')
                if kind in ('list', 'anylist'):
                    s.check(out[:1] == b'[' and out[-1:] == b']', 'a list')
                    out, py = out[1:-1], py[0]
            special = x != x or x in (float('inf'), float('-inf'))
            if special and mode == 'null':
                s.check(out == b'null', 'null for inf and nan')
            elif special and mode == 'strings':
                s.check(json.loads(out) in ('NaN', 'Infinity', '-Infinity') and repr(float(json.loads(out))) == repr(x), 'strings for inf and nan')
            else:
                s.check(repr(json.loads(out)) == repr(x) and (special or b'n' not in out), 'reads back as the same float')
            s.check(py is None if special and mode == 'null' and kind in () else True, '')
        return path

    def octs(mode, n, where):
        def path(s):
            bs = s.octets('b', n, b'a\xc3\xa9')
            v = s.bytes(bs)
            cfg = {'ser_json_bytes': mode}
            if where == 'any':
                call = lambda: (pc.to_json(v, bytes_mode=mode), pc.to_jsonable_python(v, bytes_mode=mode))
            elif where == 'key':
                ser = SchemaSerializer(cs.dict_schema([any_s, cs.bytes_schema()][s.pick('t', 2)]), cfg)
                s.quiet(True)
                d = {v: 1}
                s.quiet(False)
                call = lambda: (ser.to_json(d), None)
            else:
                ser = SchemaSerializer(cs.bytes_schema(), cfg)
                call = lambda: (ser.to_json(v), ser.to_python(v, mode='json'))
            try:
                out, py = call()
            except Exception as e:
                s.check(mode == 'utf8', 'raised ' + type(e).__name__)
                s.quiet(True)
                try:
                    bytes(c.v for c in bs).decode()
                    ok = True
                except UnicodeDecodeError:
                    ok = False
                s.quiet(False)
                s.check(not ok, 'text refused')
                return
            t = jparse(s, s.content(out))
            if where == 'key':
                s.check(isinstance(t, tuple) and len(t) == 1, 'one key')
                t = t[0][0]
            s.check(isinstance(t, Txt), 'a string')
            dec = {'utf8': lambda t: t, 'base64': lambda t: unb64(s, t), 'hex': lambda t: unhex(s, t)}[mode]
            for tt in [t] + ([s.content(py)] if py is not None else []):
                got = dec(tt)
                s.check(len(got) == n, 'as many bytes')
                s.check(all_([a == b for a, b in zip(got, bs)]), 'the bytes')
            # and back
            k, r = attempt(V(cs.bytes_schema(), val_json_bytes=mode).validate_json, out if where != 'key' else s.bytes([34] + list(t) + [34])) if where != 'key' else ('ok', v)
            s.check(k == 'ok', 'accepted back')
            same(s, r, v, 'read back')
        return path

    def shapes():
        """containers of all kinds: the text means the same as the Python form, with any indentation"""
        import json, collections, dataclasses

        @dataclasses.dataclass
        class D:
            x: object
            y: object

        def path(s):
            a = s.int(s.bv('a', 3, 1).zext(32))
            f = s.flag('f')
            kinds = [lambda: [], lambda: {}, lambda: [a], lambda: [[], {}], lambda: {'k': []}, lambda: (a, f), lambda: {a}, lambda: frozenset(['q']), lambda: {'k': {'l': None, 'm': (f,)}}, lambda: collections.deque([a]),
                     lambda: D(a, [None]), lambda: (x for x in [a, f]), lambda: {1: a, None: f, True: 'z', 2.5: []}, lambda: collections.OrderedDict([('z', a), ('y', f)]), lambda: [[[a]], 'x'], lambda: {'k': D({}, ())},
                     lambda: {('a', 1): 0}]
            i = s.pick('i', len(kinds))
            ind = s.oneof('indent', [None, 0, 2])
            s.quiet(True)
            v, w = kinds[i](), kinds[i]()
            s.quiet(False)
            std = s.flag('std')
            ser = SchemaSerializer(any_s)
            try:
                text = pc.to_json(v, indent=ind) if std else ser.to_json(v, indent=ind)
                py = pc.to_jsonable_python(w) if std else ser.to_python(w, mode='json')
            except Exception as e:
                s.check(i == 9, 'raised ' + type(e).__name__)
                return

            def cmp(t, p):
                if isinstance(t, Num):
                    if isinstance(p, float):
                        s.check(float(''.join(chr(c.v) for c in t)) == p, 'number')
                    else:
                        s.check(decimal_value(s, t, 32) == s.val(p, 32), 'number')
                elif isinstance(t, Txt):
                    same(s, s.str(t), p, 'string')
                elif isinstance(t, list):
                    s.check(type(p) is list and len(p) == len(t), 'list')
                    for x, y in zip(t, p):
                        cmp(x, y)
                elif isinstance(t, tuple):
                    s.check(type(p) is dict and len(p) == len(t), 'dict')
                    for (k, x), (l, y) in zip(t, p.items()):
                        cmp(k, l)
                        cmp(x, y)
                else:
                    s.check(t is p, 'constant')
            cmp(jparse(s, s.content(text)), py)
        return path

    out = []
    for k in STR:
        out.append(Case('string %s' % k, strs(k, 1, 4), 'one character (any)'))
        if k in ('str', 'any') or big:
            out.append(Case('string %s, two' % k, strs(k, 2, 2 if not big else 4), 'two characters below U+0800 (thorough: any)'))
    out.append(Case('string inside', nested(1, 4), 'one character in lists, tuples, dicts, typed dicts; indentation'))
    out.append(Case('keys', keys(1, 4), 'one character'))
    out.append(Case('keys, two', keys(2, 2), 'two characters below U+0800'))
    for k in INT:
        out.append(Case('int %s' % k, ints(k, 11 if not big else 14), 'windows of 2^11 (thorough: 2^14) around powers of ten and two, ±2 around 2^63'))
    for k in ('float', 'any', 'list', 'anylist', 'nullable', 'function'):
        out.append(Case('float %s' % k, floats(k), 'selected floats'))
    for m in ('utf8', 'base64', 'hex'):
        for n in {'utf8': (0, 1, 2, 3), 'base64': (0, 1, 2, 3, 4, 5, 6), 'hex': (0, 1, 2, 3)}[m] + ((4,) if big and m != 'base64' else ()):
            if m == 'hex' and n > 2 and not big:
                continue
            for w in ('bytes', 'any', 'key'):
                if w == 'bytes' or n == 2:
                    out.append(Case('bytes %s %s %d' % (m, w, n), octs(m, n, w), '%d bytes' % n))
    out.append(Case('containers', shapes(), 'containers of all kinds'))
    return out
