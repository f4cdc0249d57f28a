"""C18 - JSON text is read as JSON; partial mode forgives what is missing at the end and the errors of the last item, nothing else."""
from hlib import *


class End(Exception):
    pass


def pread(s, bs, mode):
    """the value of a prefix of a JSON document (8-bit terms or ints) in partial mode; End if there is none"""
    pos = [0]
    n = len(bs)

    def at(c):
        if pos[0] >= n:
            raise End
        b = bs[pos[0]]
        return b == ord(c) if type(b) is int else bool(b == ord(c))

    def ws():
        while pos[0] < n and at(' '):
            pos[0] += 1

    def string(value):
        pos[0] += 1
        out = Txt()
        while True:
            if pos[0] >= n:
                if value and mode == 'trailing-strings':
                    return out
                raise End
            if at('"'):
                pos[0] += 1
                return out
            if at('\\'):
                pos[0] += 1
                for a, b in zip('"\\/bfnrt', '"\\/\b\f\n\r\t'):
                    if at(a):
                        out.append(cst(8, ord(b)))
                        pos[0] += 1
                        break
                else:
                    if n < pos[0] + 5:
                        raise End
                    out += [cst(8, x) for x in chr(int(''.join(chr(b) for b in bs[pos[0] + 1:pos[0] + 5]), 16)).encode()]
                    pos[0] += 5
            else:
                b = bs[pos[0]]
                out.append(cst(8, b) if type(b) is int else b)
                pos[0] += 1

    def value():
        ws()
        if at('"'):
            return string(True)
        if at('['):
            pos[0] += 1
            r = []
            try:
                while True:
                    ws()
                    if at(']'):
                        pos[0] += 1
                        return r
                    if at(','):
                        pos[0] += 1
                    r.append(value())
            except End:
                pos[0] = n
                return r
        if at('{'):
            pos[0] += 1
            r = []
            try:
                while True:
                    ws()
                    if at('}'):
                        pos[0] += 1
                        return tuple(r)
                    if at(','):
                        pos[0] += 1
                        ws()
                        if pos[0] >= n:
                            raise End
                    k = string(False)
                    ws()
                    at(':')
                    pos[0] += 1
                    r.append((k, value()))
            except End:
                pos[0] = n
                return tuple(r)
        for w, v in (('true', True), ('false', False), ('null', None)):
            if at(w[0]):
                if n < pos[0] + len(w):
                    raise End
                pos[0] += len(w)
                return v
        r = Num()
        while pos[0] < n and not (at(',') or at(']') or at('}') or at(' ')):
            b = bs[pos[0]]
            r.append(cst(8, b) if type(b) is int else b)
            pos[0] += 1
        if bool(r[-1] == ord('.')) or bool(r[-1] == ord('e')) or bool(r[-1] == ord('-')) or bool(r[-1] == ord('+')):
            raise End
        return r

    return value()


def cases(tier):
    big = tier != 'quick'
    from_json = pydantic_core.from_json
    any_v = V(cs.any_schema())
    json_v = V(cs.json_schema())
    json_any = V(cs.json_schema(cs.any_schema()))

    def means(s, v, r, what):
        """v, a Python value, is what the reader's r says"""
        if isinstance(r, Num):
            t = [c for c in r]
            isf = any(bool(c.isin([46, 101, 69, 73, 78])) for c in t)
            s.check(type(v) is (float if isf else int), what + ': number type')
            if not isf:
                s.check(s.val(v, 64) == decimal_value(s, t), what + ': number')
            elif all(not c.sym() for c in t):
                t = ''.join(chr(c.v) for c in t)
                f = float('nan' if 'N' in t else t)
                s.check(repr(v) == repr(f), what + ': number')
        elif isinstance(r, Txt):
            s.check(type(v) is str, what + ': a string')
            c = s.content(v)
            s.check(len(c) == len(r), what + ': length of a string')
            s.check(all_([a == b for a, b in zip(c, r)]), what + ': string')
        elif isinstance(r, list):
            s.check(type(v) is list and len(v) == len(r), what + ': length of a list')
            for a, b in zip(v, r):
                means(s, a, b, what)
        elif isinstance(r, tuple):
            s.check(type(v) is dict, what + ': an object')
            last = {}
            for k, x in r:
                if any(c.sym() for c in k):
                    kk = bytes(c.conc() for c in k)
                else:
                    kk = bytes(c.v for c in k)
                last[kk] = x
            s.check([k.encode() for k in v] == list(last), what + ': keys')
            for k, x in last.items():
                means(s, v[k.decode()], x, what)
        else:
            s.check(v is r, what + ': literal')

    def read(alpha, n, prefix='', suffix=''):
        """any text: accepted exactly if it is JSON, and read as that"""
        def path(s):
            k = s.pick('n', n + 1) if not prefix else n
            c = s.chars('c', k, '1', alpha)
            t = s.bytes([ord(x) for x in prefix] + c + [ord(x) for x in suffix])
            try:
                r, good = jparse(s, [cst(8, ord(x)) for x in prefix] + c + [cst(8, ord(x)) for x in suffix], refuse=True), True
            except NotJson:
                good = False
            for f, what in ((lambda: from_json(t, cache_strings=False), 'from_json'), (lambda: any_v.validate_json(t), 'validate_json'), (lambda: json_v.validate_python(t), 'a Json field'), (lambda: json_any.validate_python(t), 'a Json[Any] field')):
                try:
                    v, ok = f(), True
                except ValueError:
                    ok = False
                s.check(ok == good, '%s %s' % (what, 'accepts what is not JSON' if ok else 'refuses JSON'))
                if ok:
                    means(s, v, r, what)
        return path

    DOCS = ['[1, {"a": "x\\n", "b": [true, null]}, 2.5]', '{"a": {"b": [12, "yz"], "c": -3}, "d": false, "a": 7}', '"a\\u00e9\\"b"', '[[], {}, [{"k": ""}], 1e5, -0.5]', ' [ 1 , "a" ] ']

    def cut(doc):
        """a document cut off anywhere, some characters symbolic"""
        def path(s):
            bs = []
            for i, ch in enumerate(doc):
                if ch in 'xyz':
                    c = s.bv('c%d' % i, 7, ord(ch)).zext(8)
                    s.assume(c.uge(32) & (c != 34) & (c != 92))
                    bs.append(c)
                elif ch in '127' and (i == 0 or not doc[i - 1] in 'eu0123456789.'):
                    c = s.bv('c%d' % i, 7, ord(ch)).zext(8)
                    s.assume(c.between(49, 57))
                    bs.append(c)
                else:
                    bs.append(ord(ch))
            n = s.pick('cut', len(doc) + 1)
            mode = [False, True, 'on', 'trailing-strings', 'off'][s.pick('mode', 5)]
            bs = bs[:n]
            t = s.bytes(bs) if not s.flag('text') else s.str(bs)
            full = n >= len(doc.rstrip())
            try:
                r, good = pread(s, bs, 'trailing-strings' if mode == 'trailing-strings' else 'on'), True
            except End:
                good = False
            if mode in (False, 'off'):
                good = full
            for f, what in ((lambda: from_json(t, cache_strings=False, allow_partial=mode), 'from_json'), (lambda: any_v.validate_json(t, allow_partial=mode), 'validate_json'), (lambda: json_v.validate_python(t, allow_partial=mode), 'a Json field'), (lambda: json_any.validate_python(t, allow_partial=mode), 'a Json[Any] field')):
                try:
                    v, ok = f(), True
                except ValueError:
                    ok = False
                s.check(ok == good, '%s %s %r cut at %d' % (what, 'accepts' if ok else 'refuses', doc, n))
                if ok:
                    means(s, v, r, what)
        return path

    def infnan(s):
        a = s.flag('allow')
        t = ['NaN', 'Infinity', '-Infinity', '[NaN]', '{"a": Infinity}', '1e999'][s.pick('t', 6)]
        try:
            from_json(t, allow_inf_nan=a)
            ok = True
        except ValueError:
            ok = False
        s.check(ok == (a or t == '1e999'), '%s with allow_inf_nan=%s' % (t, a))
        s.check(attempt(any_v.validate_json, t)[0] == 'ok', 'validate_json')

    # ---- partial validation: a schema is (kind, ...) ----
    class M:
        __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    def core(t):
        k = t[0]
        if k == 'int':
            return cs.int_schema(ge=5)
        if k == 'list':
            return cs.list_schema(core(t[1]), **t[2])
        if k == 'set':
            return cs.set_schema(core(t[1]), **t[2])
        if k == 'frozenset':
            return cs.frozenset_schema(core(t[1]), **t[2])
        if k == 'dict':
            return cs.dict_schema(cs.str_schema(max_length=1), core(t[1]), **t[2])
        if k == 'td':
            if t[3:]:
                return cs.typed_dict_schema({f.upper(): cs.typed_dict_field(core(x), required=q, validation_alias=f) for f, (x, q) in t[1].items()})
            return cs.typed_dict_schema({f: cs.typed_dict_field(core(x), required=q) for f, (x, q) in t[1].items()}, **({'extra_behavior': 'allow', 'extras_schema': core(t[2])} if t[2] else {}))
        if k == 'tuple':
            return cs.tuple_schema([core(t[1])], variadic_item_index=0)
        if k == 'model':
            return cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(core(t[1]))}))
        if k == 'nullable':
            return cs.nullable_schema(core(t[1]))
        if k == 'union':
            return cs.union_schema([core(x) for x in t[1]], mode=t[2])
        if k == 'default':
            return cs.with_default_schema(core(t[1]), default=7)
        if k == 'after':
            return cs.no_info_after_validator_function(lambda v: v, core(t[1]))
        if k == 'tagged':
            return cs.tagged_union_schema({'t': core(t[1])}, lambda v: 't')
        if k == 'chain':
            return cs.chain_schema([core(t[1]), cs.any_schema()])
        raise ValueError(k)

    class Bad(Exception):
        pass

    def ref(s, t, v, part):
        """the result, or Bad"""
        k = t[0]
        if k == 'int':
            if type(v) is not int or bool(s.val(v, 32).slt(5)):
                raise Bad
            return v
        if k in ('list', 'set', 'frozenset', 'tuple'):
            if type(v) is not list:
                raise Bad
            out, bad = [], False
            for i, x in enumerate(v):
                last = bool(part) and i == len(v) - 1 and k != 'tuple'
                try:
                    out.append(ref(s, t[1], x, last))
                except Bad:
                    bad = bad or not last
            lim = t[2] if k != 'tuple' else {}
            if bad or len(v if k == 'list' else out) > lim.get('max_length', 99) or len(out) < lim.get('min_length', 0):
                raise Bad
            return out
        if k == 'dict':
            if type(v) is not dict:
                raise Bad
            out, bad = {}, False
            for i, (f, x) in enumerate(v.items()):
                last = bool(part) and i == len(v) - 1
                if len(f) > 1:
                    bad = True
                try:
                    out[f] = ref(s, t[1], x, last)
                except Bad:
                    bad = bad or not last
            if bad or len(out) < t[2].get('min_length', 0):
                raise Bad
            return out
        if k in ('td', 'model'):
            if type(v) is not dict:
                raise Bad
            out = {}
            for f, (x, q) in (t[1].items() if k == 'td' else [('a', (t[1], True))]):
                if f not in v:
                    if q:
                        raise Bad
                    continue
                last = bool(part) and k == 'td' and f == list(v)[-1]
                try:
                    out[f.upper() if t[3:] else f] = ref(s, x, v[f], last)
                except Bad:
                    if not last or q:
                        raise
            if k == 'td' and t[2]:
                for f, y in v.items():
                    if f not in t[1]:
                        last = bool(part) and f == list(v)[-1]
                        try:
                            out[f] = ref(s, t[2], y, last)
                        except Bad:
                            if not last:
                                raise
            return out
        if k == 'nullable':
            return None if v is None else ref(s, t[1], v, part)
        if k in ('default', 'after', 'tagged', 'chain'):
            return ref(s, t[1], v, part)
        if k == 'union':
            for x in t[1]:
                try:
                    return ref(s, x, v, part)
                except Bad:
                    pass
            raise Bad
        raise ValueError(k)

    def plain(t, r):
        """the result in the form of the reference"""
        if isinstance(r, (set, frozenset)):
            return list(r)
        if isinstance(r, tuple):
            return [plain(t, x) for x in r]
        if isinstance(r, list):
            return [plain(t, x) for x in r]
        if type(r) is dict:
            return {k: plain(t, x) for k, x in r.items()}
        if isinstance(r, M):
            return plain(t, r.__dict__)
        return r

    I = ('int',)
    L = ('list', I, {})
    TREES = {
        'list of ints': L,
        'list limited': ('list', I, {'min_length': 1, 'max_length': 2}),
        'list of lists': ('list', L, {}),
        'list of dicts': ('list', ('dict', I, {}), {}),
        'list of tuples': ('list', ('tuple', I), {}),
        'tuple of lists': ('tuple', L),
        'dict of ints': ('dict', I, {'min_length': 1}),
        'dict of lists': ('dict', L, {}),
        'typed dict': ('td', {'a': (I, True), 'b': (I, False)}, None),
        'typed dict of lists': ('td', {'a': (L, False), 'b': (('list', L, {}), False)}, None),
        'typed dict aliases': ('td', {'a': (L, True), 'b': (I, False)}, None, 'upper'),
        'typed dict extras': ('td', {'a': (I, False)}, L),
        'list of typed dicts': ('list', ('td', {'a': (I, True), 'b': (I, False)}, None), {}),
        'model of lists': ('model', L),
        'list of models': ('list', ('model', I), {}),
        'nullable list': ('nullable', L),
        'default list': ('default', L),
        'after list': ('after', ('list', ('after', L), {})),
        'tagged list': ('tagged', L),
        'chain list': ('chain', L),
        'union': ('union', [('tuple', I), L], 'left_to_right'),
        'smart union': ('union', [('model', I), L], 'smart'),
        'union of typed dicts': ('union', [('td', {'a': (('list', L, {}), True), 'c': (I, True)}, None), ('td', {'b': (L, False), 'a': (L, False)}, None)], 'left_to_right'),
        'list of unions': ('list', ('union', [('model', L), L], 'smart'), {}),
    }

    def number(s, n):
        x = s.bv(n, 4, 7).zext(8)
        s.assume(x.ule(9))
        return x

    def gen(s, t, n, depth=0, wide=True):
        """a document for a schema: (text, value)"""
        if s.flag('wrong' + n) if depth and t[0] not in ('int', 'after', 'union') else False:
            return [ord('1')], 1
        k = t[0]
        if k == 'int':
            x = number(s, n)
            return [x + 48], s.int(x.zext(32))
        if k in ('list', 'set', 'frozenset', 'tuple'):
            text, v = [91], []
            for i in range(s.pick('len' + n, 3 + (depth == 0 and t[1][0] == 'int') if big or wide or depth == 0 else 2)):
                a, b = gen(s, t[1], n + str(i), depth + 1, wide)
                text += ([44] if i else []) + a
                v.append(b)
            return text + [93], v
        if k == 'dict':
            keys = [[], ['k'], ['k', 'l'], ['kk', 'l'], ['l', 'kk']][s.pick('keys' + n, 5 if depth == 0 else 3)]
            fields = [(f, t[1]) for f in keys]
        elif k in ('td', 'model'):
            names = ['a', 'b'] if k == 'td' else ['a']
            keys = [[], ['a'], ['b'], ['a', 'b'], ['b', 'a'], ['x', 'a'], ['a', 'x'], ['b', 'x']][s.pick('keys' + n, 8 if depth == 0 else 5)]
            ty = dict((f, x) for f, (x, q) in t[1].items()) if k == 'td' else {'a': t[1]}
            fields = [(f, ty.get(f) or (k == 'td' and t[2]) or I) for f in keys]
        elif k == 'union':
            return gen(s, t[1][s.pick('m' + n, len(t[1]))], n, depth, wide)
        else:
            return gen(s, t[1], n, depth, wide)
        text, v = [123], {}
        for i, (f, x) in enumerate(fields):
            a, b = gen(s, x, n + f, depth + 1, wide)
            text += ([44] if i else []) + [34] + [ord(c) for c in f] + [34, 58] + a
            v[f] = b
        return text + [125], v

    def partial(name):
        t = TREES[name]
        v = V(core(t))

        def path(s):
            text, val = gen(s, t, 'x', wide=name not in ('typed dict of lists', 'list of unions', 'union of typed dicts'))
            part = [False, True, 'trailing-strings'][s.pick('part', 3)] if big else s.flag('part')
            try:
                exp, good = ref(s, t, val, part), True
            except Bad:
                good = False
            for f, what in ((lambda: v.validate_python(val, allow_partial=part), 'Python'), (lambda: v.validate_json(s.bytes(text), allow_partial=part), 'JSON')):
                k, r = attempt(f)
                s.check((k == 'ok') == good, '%s %s, partial %s' % (what, 'accepted' if k == 'ok' else 'rejected', part))
                if good:
                    same(s, plain(t, r), exp, what + ' partial result')
        return path

    def prefix(name):
        """a document cut off anywhere gives what the readable part of it gives"""
        t = TREES[name]
        v = V(core(t))
        docs = ['[[7,12,3],[8],[33,4]]', '[{"a":7,"b":33},{"b":8,"a":4}]', '{"a":[7,12],"b":[[8],[3,34]]}', '{"b":[7],"a":[[33,8]],"x":5}', '[7,"8",33,4]', '{"k":[7,1],"l":[88]}']

        def path(s):
            doc = s.oneof('doc', docs)
            n = s.pick('cut', len(doc) + 1)
            mode = [True, 'trailing-strings'][s.pick('mode', 2)]
            bs = []
            for i, ch in enumerate(doc):
                if ch in '78' and i < n:
                    bs.append(number(s, 'd%d' % i) + 48)
                else:
                    bs.append(ord(ch))
            text = s.bytes(bs[:n])
            try:
                p, good = from_json(text, allow_partial=mode, cache_strings=False), True
            except ValueError:
                good = False
            a = attempt(v.validate_json, text, allow_partial=mode)
            if not good:
                s.check(a[0] == 'err' and [x[0] for x in errs(a[1])] == ['json_invalid'], 'unreadable text')
                return
            b = attempt(v.validate_python, p, allow_partial=mode)
            s.check(a[0] == b[0], 'JSON: %s, Python: %s' % (a[0], b[0]))
            if a[0] == 'ok':
                same(s, plain(t, a[1]), plain(t, b[1]), 'JSON and Python')
            else:
                s.check(errs(a[1]) == errs(b[1]), 'errors of JSON and Python')
        return path

    out = [Case('read values', read('0-1.eE[]', 4 if big else 3), 'texts of up to 3 (thorough: 4) characters'),
           Case('read words', read('tfnul N', 2), 'texts of up to 2 characters'),
           Case('read lists', read('[]{}1, ', 4 if big else 3), 'texts of up to 3 (4) characters'),
           Case('read objects', read('{}":a1,', 3, '{"a"', '}'), 'three characters in an object'),
           Case('read members', read('{}":a1, ', 2, '{"a":1', '2}'), 'two characters in an object'),
           Case('read strings', read('"\\un/\tDd', 3, '"', '"'), 'three characters in a string'),
           Case('read escapes', read('0dD8eEcf', 3, '"\\u', '0"'), 'an escape'),
           Case('read pairs', read('cdeC8', 2, '"\\ud83d\\u', '00"'), 'a pair of surrogates'),
           Case('read numbers', read('019.eE+-', 2, '-1', '0'), 'two characters in a number'),
           Case('inf and nan', infnan, '')]
    for i, d in enumerate(DOCS):
        out.append(Case('cut %d' % i, cut(d), d))
    for n in TREES:
        out.append(Case('partial ' + n, partial(n), 'up to 3 items, digits, wrong types'))
    for n in ('list of lists', 'list of typed dicts', 'typed dict of lists', 'typed dict extras', 'dict of lists', 'union of typed dicts', 'list of ints', 'list of unions'):
        out.append(Case('prefix ' + n, prefix(n), 'six documents cut off anywhere'))
    return out
