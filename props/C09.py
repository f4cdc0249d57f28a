"""C09 - unions: the best member decides, whatever the order; left-to-right takes the first; tagged unions follow the tag."""
from hlib import *


def clean(e):
    return [(x, l) for x, l in errs(e)]


def cases(tier):
    big = tier != 'quick'

    POOL = {
        'int': lambda s: cs.int_schema(ge=10),
        'str': lambda s: cs.str_schema(max_length=1),
        'float': lambda s: cs.float_schema(lt=4.0),
        'bool': lambda s: cs.bool_schema(),
        'none': lambda s: cs.none_schema(),
        'bytes': lambda s: cs.bytes_schema(),
        'sint': lambda s: cs.int_schema(strict=True),
        'listint': lambda s: cs.list_schema(cs.int_schema()),
        'listfloat': lambda s: cs.list_schema(cs.float_schema()),
    }
    EXACT = {int: ('int', 'sint'), str: ('str',), float: ('float',), bool: ('bool',), type(None): ('none',), bytes: ('bytes',)}

    def value(s, kind, json):
        """(object or JSON text, type)"""
        if kind == 'int':
            x = s.bv('x', 8, 12).sext(32)
            if json:
                s.assume(x.sbetween(0, 9))
                return s.bytes([x.bits(0, 8) + 48]), int
            return s.int(x), int
        if kind == 'float':
            return (b'2.5' if json else s.oneof('f', [2.5, 3.0, 11.0, 11.5, 1.0, 0.0])), float
        if kind == 'str':
            n = s.pick('n', 3)
            ch = s.chars('c', n, default='12', alphabet='0159tax. ')
            return (s.bytes([34] + ch + [34]) if json else s.str(ch)), str
        if kind == 'bool':
            b = s.flag('b')
            return ((b'true' if b else b'false') if json else b), bool
        if kind == 'none':
            return (b'null' if json else None), type(None)
        return s.bytes(s.chars('c', 1, default='1', alphabet='159tax')), bytes

    def smart(names, kind, json, mode):
        def path(s):
            sch = [POOL[n](s) for n in names]
            strict = s.flag('strict')
            u = V(cs.union_schema(sch, mode=mode), strict=strict)
            x, t = value(s, kind, json)
            run = (lambda v: attempt(v.validate_json, x)) if json else (lambda v: attempt(v.validate_python, x))
            each = [run(V(c, strict=strict)) for c in sch]
            ok = [i for i, (k, _) in enumerate(each) if k == 'ok']
            k, r = run(u)
            if not ok:
                s.check(k == 'err', 'accepted')
                want = []
                for c, (_, e) in zip(sch, each):
                    label = V(c).title
                    want += [(ty, (label,) + loc) for ty, loc in clean(e)]
                s.check(clean(r) == want, 'errors')
                return
            s.check(k == 'ok', 'rejected although a member accepts')
            if mode == 'left_to_right':
                best = ok[0]
            else:
                rank = []
                for i in ok:
                    exact = names[i] in EXACT[t] and not (json and t is str)
                    st = exact or run(V(sch[i], strict=True))[0] == 'ok'
                    rank.append((0 if exact else 1 if st else 2, i))
                best = min(rank)[1]
            s.out(best)
            same(s, r, each[best][1], 'result of member %d' % best)
        return path
    combos = [('int', 'str'), ('str', 'int'), ('float', 'int'), ('int', 'float'), ('bool', 'int'), ('int', 'bool'), ('str', 'float'), ('bytes', 'str'), ('str', 'bytes'), ('none', 'str'), ('sint', 'float'), ('str', 'sint'),
              ('int', 'float', 'str'), ('str', 'bool', 'int'), ('float', 'bool', 'int'), ('bool', 'str', 'float')]
    for names in combos:
        for kind in ('int', 'float', 'str', 'bool', 'none', 'bytes'):
            for json in (False, True):
                if json and kind == 'bytes':
                    continue
                yield Case('smart-%s-%s%s' % ('.'.join(names), kind, '-json' if json else ''), smart(names, kind, json, 'smart'), 'smart union of %s with a symbolic %s' % (', '.join(names), kind))
    for names in combos[:7] if not big else combos:
        for kind in ('int', 'float', 'str', 'bool'):
            yield Case('ltr-%s-%s' % ('.'.join(names), kind), smart(names, kind, False, 'left_to_right'), 'left-to-right union')

    class A:
        __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    class Bm:
        __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    class C:
        __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    def model(cls, fields):
        return cs.model_schema(cls, cs.model_fields_schema({n: cs.model_field(sc) for n, sc in fields.items()}))

    def dflt(sc):
        return cs.with_default_schema(sc, default=0)

    WRAP = [lambda x: cs.no_info_wrap_validator_function(lambda v, h: h(v), x), lambda x: cs.with_info_wrap_validator_function(lambda v, h, i: h(v), x),
            lambda x: cs.no_info_before_validator_function(lambda v: v, x), lambda x: cs.no_info_after_validator_function(lambda v: v, x),
            cs.nullable_schema, lambda x: cs.with_default_schema(x, default=1), lambda x: cs.chain_schema([cs.any_schema(), x]),
            lambda x: cs.lax_or_strict_schema(x, x), lambda x: cs.json_or_python_schema(x, x), lambda x: cs.union_schema([x, cs.none_schema()]),
            lambda x: cs.tagged_union_schema({'t': x}, lambda v: 't'), lambda x: cs.union_schema([cs.bool_schema(), x], mode='left_to_right')]

    def models(json, order, wrapped=None):
        """which model wins: the one with the most fields set; then the most exact; then the first"""
        def path(s):
            FS = {A: {'a': dflt(cs.int_schema()), 'c': dflt(cs.int_schema())},
                  Bm: {'a': dflt(cs.str_schema()), 'b': dflt(cs.int_schema())},
                  C: {'a': dflt(cs.int_schema()), 'b': dflt(cs.int_schema()), 'd': dflt(cs.float_schema())}}
            KIND = {A: {'a': 'i', 'c': 'i'}, Bm: {'a': 's', 'b': 'i'}, C: {'a': 'i', 'b': 'i', 'd': 'f'}}
            cl = [[A, Bm, C], [C, Bm, A], [Bm, A, C], [Bm, C, A]][order]
            if wrapped is None:
                u = V(cs.union_schema([model(c, FS[c]) for c in cl]))
            else:
                w = WRAP[s.pick('wrap', len(WRAP))]
                u = V(cs.union_schema([w(model(c, FS[c])) if wrapped >> i & 1 else model(c, FS[c]) for i, c in enumerate(cl)]))
            d, j = {}, []
            vals = {}
            for key in 'abcd':
                how = s.pick('has_' + key, 4 if key in 'ab' and wrapped is None else 3 if key == 'a' else 2)
                if not how:
                    continue
                if how == 1:
                    x = s.bv('x' + key, 4, 5).zext(32)
                    s.assume(x.ule(9))
                    d[key], t = s.int(x), [x.bits(0, 8) + 48]
                elif how == 2:
                    x = s.bv('x' + key, 4, 5).zext(8)
                    s.assume(x.ule(9))
                    d[key], t = s.str([x + 48]), [34, x + 48, 34]
                else:
                    d[key], t = 'zz', [34, 122, 122, 34]
                vals[key] = ' inz'[how]
                j += ([44] if j else []) + [34, ord(key), 34, 58] + t

            def member(c):
                """None (rejected) or (fields set, exactness rank: 1 strict, 2 lax)"""
                n, ex = 0, 1  # building an instance is at best a strict match
                for f, ty in KIND[c].items():
                    if f not in d:
                        continue
                    n += 1
                    g = vals[f]
                    if ty == 'i':
                        e = {'i': 0, 'n': 2, 'z': None}[g]
                    elif ty == 'f':
                        e = {'i': 1, 'n': 2, 'z': None}[g]
                    else:
                        e = {'i': None, 'n': 1 if json else 0, 'z': 1 if json else 0}[g]
                    if e is None:
                        return None
                    ex = max(ex, e)
                return n, ex
            each = [(c, member(c)) for c in cl]
            ok = [(-m[0], m[1], i) for i, (c, m) in enumerate(each) if m]
            k, r = attempt(u.validate_json, s.bytes([123] + j + [125])) if json else attempt(u.validate_python, d)
            if not ok:
                s.check(k == 'err', 'accepted')
                return
            s.check(k == 'ok', 'rejected although a member accepts')
            win = cl[min(ok)[2]]
            s.out(win.__name__)
            s.check(type(r) is win, 'member')
            s.check(r.__pydantic_fields_set__ == {f for f in KIND[win] if f in d}, 'fields set')
        return path
    for order in range(4 if big else 2):
        for json in (False, True):
            yield Case('models%d%s' % (order, '-json' if json else ''), models(json, order), 'union of three models with overlapping optional fields, every subset of 4 keys, int, numeric str and other str values')

    for wrapped in (1, 2, 4, 7) if big else (3, 6):
        for json in (False, True) if big or wrapped == 6 else (False,):
            yield Case('wrapped%d%s' % (wrapped, '-json' if json else ''), models(json, 1, wrapped), 'the same with some members inside others of 12 kinds; fewer kinds of values')

    class I1(A):
        pass

    class I2(A):
        pass

    class K1(A):
        pass

    class K2(A):
        pass

    INT, STR = ('i',), ('s',)
    P = ('m', I1, {'p': INT, 'q': INT})
    Q = ('m', I2, {'p': INT, 'r': STR})
    IS = ('u', [INT, STR])
    SHAPES = [
        {'m': P}, {'m': P, 'u': IS}, {'u': IS, 'm': P}, {'m': ('u', [P, Q])}, {'l': ('l', P), 'u': INT},
        {'l': ('l', ('u', [Q, P])), 'm': ('n', P)}, {'m': P, 'u': ('u', [P, INT])}, {'m': P, 'u': ('u', [STR, INT]), 'l': ('l', IS)},
        {'m': ('d', {'p': INT, 'q': INT}), 'u': ('n', IS)}, {'m': Q, 'l': ('l', P), 'u': ('f', IS)},
    ]

    def build(t):
        k = t[0]
        if k in 'is':
            return cs.int_schema() if k == 'i' else cs.str_schema()
        if k == 'm':
            return cs.model_schema(t[1], cs.model_fields_schema({a: cs.model_field(cs.with_default_schema(build(n), default=None)) for a, n in t[2].items()}))
        if k == 'd':
            return cs.typed_dict_schema({a: cs.typed_dict_field(build(n), required=False) for a, n in t[1].items()})
        if k == 'l':
            return cs.list_schema(build(t[1]))
        if k == 'n':
            return cs.nullable_schema(build(t[1]))
        if k == 'f':
            return cs.no_info_wrap_validator_function(lambda v, h: h(v), build(t[1]))
        return cs.union_schema([build(n) for n in t[1]])

    def grade(t, v):
        """None, or (the shape of the result, exactness from 0, fields set or None)"""
        k = t[0]
        if k == 'i':
            if type(v) is int:
                return 'int', 0, None
            return ('int', 2, None) if type(v) is str and v == '7' else None
        if k == 's':
            return ('str', 0, None) if type(v) is str else None
        if k in 'md':
            if type(v) is not dict:
                return None
            out, ex, n = {}, 1 if k == 'm' else 0, 0
            for a, node in t[-1].items():
                if a in v:
                    g = grade(node, v[a])
                    if g is None:
                        return None
                    out[a], ex, n = g[0], max(ex, g[1]), n + (g[2] or 0)
                    n += 1
            return (t[1] if k == 'm' else dict, out), ex, n
        if k == 'l':
            if type(v) is not list:
                return None
            gs = [grade(t[1], x) for x in v]
            if None in gs:
                return None
            ns = [g[2] for g in gs if g[2] is not None]
            return [g[0] for g in gs], max([0] + [g[1] for g in gs]), sum(ns) if ns else None
        if k in 'nf':
            return grade(t[1], v)
        best = None
        for node in t[1]:
            g = grade(node, v)
            if g is None:
                continue
            if g[1] == 0 and g[2] is None:
                return g
            if best is None or (best[2] < g[2] if None not in (best[2], g[2]) and best[2] != g[2] else g[1] < best[1]):
                best = g
        return best

    def shape(r):
        if isinstance(r, A):
            return type(r), {a: shape(x) for a, x in r.__dict__.items() if a in r.__pydantic_fields_set__}
        if type(r) is dict:
            return dict, {a: shape(x) for a, x in r.items()}
        return [shape(x) for x in r] if type(r) is list else type(r).__name__

    def deep(i):
        """the fields set and the exactness of all that is inside a member count for the union outside"""
        pairs = [('u', [('m', K1, SHAPES[i]), ('m', K2, x)]) for x in SHAPES]
        us = [V(build(p)) for p in pairs]

        def path(s):
            j = s.pick('j', len(SHAPES))
            json = s.flag('json') if big else (i + j) % 3 == 0
            pair = pairs[j]
            how = s.pick('m', 4), s.pick('u', 4), s.pick('l', 3)
            x = '7' if how[1] == 2 else s.int(s.bv('x', 3, 5).zext(32))
            d = {}
            if how[0]:
                d['m'] = [None, {'p': 1}, {'p': 1, 'q': 2}, {'p': 1, 'r': 'x'}][how[0]]
            if how[1]:
                d['u'] = x if how[1] < 3 else {'p': 1, 'q': 2}
            if how[2]:
                d['l'] = [None, [{'p': 1}], [{'q': 1, 'p': 2}, {'p': '7'}]][how[2]]
            g = grade(pair, d)
            u = us[j]
            if json:
                from pydantic_core import to_json
                k, r = attempt(u.validate_json, to_json(d))
            else:
                k, r = attempt(u.validate_python, d)
            s.check((k == 'ok') == (g is not None), 'accepted or rejected by both')
            if g is not None:
                s.check(shape(r) == g[0], 'the member: %s for %s' % (shape(r), g[0]))
        return path
    for i in range(len(SHAPES)):
        yield Case('deep%d' % i, deep(i), 'union of two models of ten shapes whose fields are models, unions, lists of models and typed dicts; 48 inputs')

    def nested(order):
        """the exactness of what is inside a collection counts for the union outside"""
        def path(s):
            mk = [cs.list_schema(cs.int_schema()), cs.list_schema(cs.union_schema([cs.int_schema(), cs.str_schema()])), cs.list_schema(cs.float_schema())]
            rank = [{'i': 0, 'f': None, 'n': 2, 'b': 2}, {'i': 0, 'f': 2, 'n': 0, 'b': 2}, {'i': 1, 'f': 0, 'n': 2, 'b': 2}]
            perm = [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)][order]
            u = V(cs.union_schema([mk[i] for i in perm]))
            xs, ks = [], []
            for i in range(2):
                g = 'ifnb'[s.pick('k%d' % i, 4)]
                ks.append(g)
                xs.append(s.int(s.bv('x%d' % i, 8, 5)) if g == 'i' else s.oneof('f%d' % i, [2.5, 3.0]) if g == 'f' else '7' if g == 'n' else True)
            best = []
            for p, i in enumerate(perm):
                e = 0
                for x, g in zip(xs, ks):
                    q = rank[i][g]
                    if g == 'f' and i < 2:
                        q = 2 if x == 3.0 else None
                    e = None if e is None or q is None else max(e, q)
                if e is not None:
                    best.append((e, p, i))
            k, r = attempt(u.validate_python, list(xs))
            if not best:
                s.check(k == 'err', 'accepted')
                return
            s.check(k == 'ok', 'rejected although a member accepts')
            w = min(best)[2]
            same(s, r, V(mk[w]).validate_python(list(xs)), 'result')
        return path
    for order in range(4):
        yield Case('nested%d' % order, nested(order), 'union of list[int], list[int | str], list[float]; two items of each kind')

    def tagged(how, n):
        """tagged union by a key (str or int tags), a path, a function; every text as the tag"""
        def path(s):
            fs = {t: cs.typed_dict_schema({'k': cs.typed_dict_field(cs.any_schema()), 'v': cs.typed_dict_field(cs.int_schema(ge=lo))}) for t, lo in (('x', 0), ('yy', 10), (3, 20))}
            disc = {'key': 'k', 'path': [['zz'], ['k', 't'], ['k']], 'func': lambda d: d.get('k') if isinstance(d, dict) else None}[how if how in ('path', 'func') else 'key']
            u = V(cs.tagged_union_schema(fs, disc))
            x = s.bv('v', 6, 5).sext(32)
            kind = s.pick('tag', 3)
            if kind == 0:
                ch = s.chars('c', n, default='xy', **({} if n == 1 else {'alphabet': 'xyzk3'}))
                if how == 'json':
                    for c in ch:
                        s.assume((c != 34) & (c != 92) & c.uge(32))
                tag, jt = s.str(ch), [34] + ch + [34]
                hit = {'x': all_([c == ord(a) for c, a in zip(ch, 'x')]) if n == 1 else false(), 'yy': all_([c == 121 for c in ch]) if n == 2 else false()}
            elif kind == 1:
                t = s.bv('t', 4, 3)
                s.assume(t.ule(9))
                tag, jt = s.uint(t), [t.zext(8) + 48]
                hit = {3: t == 3}
            else:
                tag, jt, hit = None, None, {}
            d = {'v': s.int(x)}
            if kind < 2:
                d['k'] = tag
            if how == 'json':
                s.assume(x.sge(0) & x.ule(9))
                k, r = attempt(u.validate_json, s.bytes([123, 34, 118, 34, 58, x.bits(0, 8) + 48] + ([44, 34, 107, 34, 58] + jt if jt else []) + [125]))
            elif how == 'obj':
                import types
                k, r = attempt(u.validate_python, types.SimpleNamespace(**d))
            else:
                k, r = attempt(u.validate_python, d)
            win = None
            for t, c in hit.items():
                if bool(c):
                    win = t
            if kind == 2:
                s.check(k == 'err' and errs(r) == [('union_tag_not_found', ())], 'no tag')
            elif win is None:
                s.check(k == 'err' and errs(r) == [('union_tag_invalid', ())], 'unknown tag')
            elif how == 'obj':
                # a typed dict does not take attributes: the member rejects, under its tag
                s.check(k == 'err' and errs(r) == [('dict_type', (win,))], 'member of the tag')
            else:
                lo = {'x': 0, 'yy': 10, 3: 20}[win]
                if bool(x.slt(lo)):
                    s.check(k == 'err' and errs(r) == [('greater_than_equal', (win, 'v'))], 'errors of the member of the tag only')
                else:
                    s.check(k == 'ok', 'rejected')
                    s.check(s.val(r['v'], 32) == x, 'value')
        return path
    for how in ('key', 'json', 'path', 'func', 'obj'):
        for n in (1, 2):
            yield Case('tagged-%s%d' % (how, n), tagged(how, n), 'tagged union over tags x, yy, 3: every text of %d characters and int as the tag, symbolic member values' % n)

    def custom(s):
        """custom error of a union replaces the errors of its members"""
        u = V(cs.union_schema([cs.int_schema(), cs.float_schema()], custom_error_type='my', custom_error_message='no', mode=s.oneof('m', ['smart', 'left_to_right'])))
        ch = s.chars('c', 2, default='ab', alphabet='0123456789abcdef')
        k, r = attempt(u.validate_python, s.str(ch))
        digits = all_([c.between(48, 57) for c in ch])
        s.log.append(k)
        if k == 'err':
            s.check(errs(r) == [('my', ())], 'custom error')
            s.check(digits ^ 1, 'rejected a number')
        else:
            s.check(type(r) is int if bool(digits) else type(r) is float, 'type')
    yield Case('custom', custom, 'two characters')
