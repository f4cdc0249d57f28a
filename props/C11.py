"""C11 - aliases: a field is looked up under its alias, alias path or name exactly as configured, and errors are located there."""
from hlib import *
import types


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


ALIASES = {
    'none': None,
    'str': 'A',
    'path-key': ['A', 'B'],
    'path-index': ['A', 1],
    'path-last': ['A', -1],
    'choices': [['A', 'B'], ['B', 0]],
    'choices2': [['B'], ['A', 0, 'A'], ['A', 'A']],
}


def cases(tier):
    big = tier != 'quick'
    from pydantic_core import ArgsKwargs
    GE = cs.int_schema(ge=2)

    def digit(s, n):
        x = s.bv(n, 4, 5).zext(8)
        s.assume(x.ule(9))
        return x

    def data(s, n, alpha, inner, as_json, ns):
        """n entries: (tree, python object, JSON text as a list of characters); a tree is {'k': ...}, [..], a value or 'AB'"""
        tree, py, js, order = {}, {}, [], []
        for i in range(n):
            k = s.bv('k%d' % i, 7, ord('ABax'[i])).zext(8)
            s.assume(in_alpha(k, alpha))
            key = chr(k.conc())
            if key in tree and not as_json:
                return None
            kind = s.pick('t%d' % i, 4)
            if kind == 0:
                x = digit(s, 'x%d' % i)
                t, p, j = x, s.int(x.zext(32)), [x + 48]
            elif kind == 1:
                kk = inner[s.pick('kk%d' % i, len(inner))]
                x = digit(s, 'x%d' % i)
                t, p, j = {kk: x}, {kk: s.int(x.zext(32))}, [123, 34, ord(kk), 34, 58, x + 48, 125]
                if ns and s.flag('ns%d' % i):
                    p = Obj(**p)
            elif kind == 2:
                m = s.pick('m%d' % i, 3)
                xs = [digit(s, 'x%d_%d' % (i, q)) for q in range(m)]
                t, p, j = list(xs), [s.int(x.zext(32)) for x in xs], [91]
                for q, x in enumerate(xs):
                    j += ([44] if q else []) + [x + 48]
                j += [93]
            else:
                t, p, j = 'AB', 'AB', [34, 65, 66, 34]
            tree[key], py[key] = t, p
            order.append(key)
            js += ([44] if i else []) + [34, ord(key), 34, 58] + j
        return tree, py, [123] + js + [125], order

    def walk(t, path):
        for p in path:
            if type(t) is dict:
                if p not in t:
                    return None
                t = t[p]
            elif type(t) is list and type(p) is int:
                if not -len(t) <= p < len(t):
                    return None
                t = t[p]
            else:
                return None
        return t

    def lookup(alias, kind, form, n):
        def path(s):
            va = ALIASES[alias]
            by = s.pick('by', 3)
            by_alias, by_name = ((True, False), (True, True), (False, True))[by]
            if n == 1 or big:
                runtime, loc, extra = [(False, True, 'forbid'), (True, False, 'forbid'), (True, True, 'ignore'), (False, False, 'ignore')][s.pick('how', 4 if big else 3)]
            else:
                runtime, loc, extra = False, True, 'forbid'
            if form == 'attrs':
                extra = 'ignore'
            conf = {} if loc else {'loc_by_alias': False}
            kw = {'by_alias': by_alias, 'by_name': by_name} if runtime else {}
            if not runtime:
                conf.update(validate_by_alias=by_alias, validate_by_name=by_name)
            fkw = {} if va is None else {'validation_alias': va}
            if kind == 'td':
                v = V(cs.typed_dict_schema({'a': cs.typed_dict_field(GE, **fkw)}, extra_behavior=extra, config=cs.CoreConfig(cache_strings=False, **conf)))
            elif kind == 'dc':
                v = V(cs.dataclass_args_schema('D', [cs.dataclass_field('a', GE, **fkw)], extra_behavior=extra), **conf)
            elif kind == 'args':
                v = V(cs.arguments_schema([cs.arguments_parameter('a', GE, mode='keyword_only', **({} if va is None else {'alias': va}))]), extra_fields_behavior=extra, **conf)
            else:
                v = V(cs.model_fields_schema({'a': cs.model_field(GE, **fkw)}, extra_behavior=extra), **conf)
            got = data(s, n, 'ABax' if n == 1 else 'Aa' if form == 'json' and not big else 'ABa', 'AB', form == 'json', form == 'attrs')
            if got is None:
                return
            tree, py, js, order = got
            if form == 'json':
                k, r = attempt(v.validate_json, s.bytes(js), **kw)
            elif form == 'attrs':
                k, r = attempt(v.validate_python, Obj(**py), from_attributes=True, **kw)
            else:
                k, r = attempt(v.validate_python, ArgsKwargs((), py) if kind == 'args' else py, **kw)
            # the paths to try, in order
            paths = [['a']] if va is None or not by_alias else [[va]] if type(va) is str else [va] if type(va[0]) is str else list(va)
            if by_name and va is not None and by_alias:
                paths.append(['a'])
            hit = None
            for p in paths:
                t = walk(tree, p)
                if t is not None:
                    hit = p, t
                    break
            bad = []
            if hit is None:
                ty = 'missing_keyword_only_argument' if kind == 'args' else 'missing'
                bad.append((ty, tuple(paths[0]) if loc else ('a',)))
            else:
                where = tuple(hit[0]) if loc else ('a',)
                t = hit[1]
                if isinstance(t, B):
                    if bool(t.ult(2)):
                        bad.append(('greater_than_equal', where))
                else:
                    bad.append(('int_parsing' if t == 'AB' else 'int_type', where))
            if extra == 'forbid':
                for key in order:
                    if hit is None or key != hit[0][0]:
                        bad.append(({'dc': 'unexpected_keyword_argument', 'args': 'unexpected_keyword_argument'}.get(kind, 'extra_forbidden'), (key,)))
            s.out(bad)
            if bad:
                s.check(k == 'err', 'accepted')
                s.check(errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')
            d = r if kind == 'td' else r[0] if kind in ('dc', 'mf') else r[1]
            s.check(list(d) == ['a'], 'name of the field')
            same(s, d['a'], hit[1].zext(32), 'value')
        return path
    for alias in ALIASES:
        for kind in ('td', 'mf', 'dc', 'args'):
            for form in ('dict', 'json', 'attrs'):
                if form == 'attrs' and kind != 'mf' or form == 'json' and kind == 'args':
                    continue
                if not big and (kind == 'dc' and alias not in ('str', 'choices') or kind == 'args' and alias not in ('str', 'path-last') or kind == 'mf' and form == 'json'):
                    continue
                for n in (1, 2):
                    if n == 2 and not big and (alias not in ('str', 'choices', 'path-key') or kind != 'td' or form == 'attrs' or alias == 'str' and form == 'json'):
                        continue
                    yield Case('%s-%s-%s%d' % (kind, alias, form, n), lookup(alias, kind, form, n), '%s field with validation alias %r, by alias, by name and both, from the config or the call, error locations by alias or name; %d entries of any key of A, B, a(, x), values ints, dicts, lists of up to 2, str' % (kind, ALIASES[alias], n))

    def two(form):
        """two fields which look into the same value, and one whose alias is the name of another"""
        def path(s):
            v = V(cs.typed_dict_schema({'a': cs.typed_dict_field(GE, validation_alias=['A', 0]), 'b': cs.typed_dict_field(GE, validation_alias=[['A', 1], ['a']]), 'c': cs.typed_dict_field(cs.with_default_schema(GE, default=77), validation_alias='b')}, extra_behavior='forbid'))
            m = s.pick('m', 4)
            xs = [digit(s, 'x%d' % i) for i in range(m)]
            keys = {k: digit(s, 'v' + k) for k in 'abc' if s.flag(k)}
            tree = dict({'A': list(xs)}, **keys)
            if form == 'json':
                j = list(b'{"A":[')
                for i, x in enumerate(xs):
                    j += ([44] if i else []) + [x + 48]
                j += [93]
                for key, x in keys.items():
                    j += [44, 34, ord(key), 34, 58, x + 48]
                k, r = attempt(v.validate_json, s.bytes(j + [125]))
            else:
                k, r = attempt(v.validate_python, dict({'A': tuple(s.int(x.zext(32)) for x in xs)}, **{key: s.int(x.zext(32)) for key, x in keys.items()}))
            bad, want, used = [], {}, set()
            for f, paths in (('a', [['A', 0]]), ('b', [['A', 1], ['a']]), ('c', [['b']])):
                for p in paths:
                    t = walk(tree, p)
                    if t is not None:
                        used.add(p[0])
                        if bool(t.ult(2)):
                            bad.append(('greater_than_equal', tuple(p)))
                        else:
                            want[f] = t
                        break
                else:
                    if f == 'c':
                        want[f] = cst(8, 77)
                    else:
                        bad.append(('missing', tuple(paths[0])))
            for key in tree:
                if key not in used:
                    bad.append(('extra_forbidden', (key,)))
            if bad:
                s.check(k == 'err' and errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')
            s.check(list(r) == list(want), 'fields')
            for f in want:
                same(s, r[f], want[f].zext(32), 'field ' + f)
        return path
    for form in ('dict', 'json'):
        yield Case('two-' + form, two(form), 'three fields, paths into a list of up to 3 and each other\'s names')

    WRAP = {
        'list': (cs.list_schema, lambda v: [v], lambda r: r[0]),
        'tuple': (lambda x: cs.tuple_schema([x]), lambda v: [v], lambda r: r[0]),
        'dict': (lambda x: cs.dict_schema(cs.str_schema(), x), lambda v: {'k': v}, lambda r: r['k']),
        'typed dict': (lambda x: cs.typed_dict_schema({'k': cs.typed_dict_field(x)}), lambda v: {'k': v}, lambda r: r['k']),
        'extra': (lambda x: cs.typed_dict_schema({}, extras_schema=x, extra_behavior='allow'), lambda v: {'k': v}, lambda r: r['k']),
        'arguments': (lambda x: cs.arguments_schema([cs.arguments_parameter('k', x)]), lambda v: {'k': v}, lambda r: r[1]['k'] if r[1] else r[0][0]),
        'nullable': (cs.nullable_schema, lambda v: v, lambda r: r),
        'default': (lambda x: cs.with_default_schema(x, default=1), lambda v: v, lambda r: r),
        'wrap': (lambda x: cs.no_info_wrap_validator_function(lambda v, h: h(v), x), lambda v: v, lambda r: r),
        'before': (lambda x: cs.with_info_before_validator_function(lambda v, i: v, x), lambda v: v, lambda r: r),
        'after': (lambda x: cs.no_info_after_validator_function(lambda v: v, x), lambda v: v, lambda r: r),
        'union': (lambda x: cs.union_schema([cs.int_schema(), x]), lambda v: v, lambda r: r),
        'tagged': (lambda x: cs.tagged_union_schema({'t': x}, lambda v: 't'), lambda v: v, lambda r: r),
        'chain': (lambda x: cs.chain_schema([cs.any_schema(), x]), lambda v: v, lambda r: r),
        'definition': (lambda x: cs.definitions_schema(cs.definition_reference_schema('r'), [dict(x, ref='r')]), lambda v: v, lambda r: r),
        'lax or strict': (lambda x: cs.lax_or_strict_schema(x, x), lambda v: v, lambda r: r),
        'json or python': (lambda x: cs.json_or_python_schema(x, x), lambda v: v, lambda r: r),
        'generator': (cs.generator_schema, lambda v: [v], lambda r: next(r)),
    }

    def inside(as_json):
        """by_alias and by_name of the call reach fields at every level"""
        def path(s):
            mk, put, get = WRAP[s.oneof('w', sorted(WRAP))]
            cfg = [{}, {'validate_by_alias': False, 'validate_by_name': True}, {'validate_by_name': True}][s.pick('cfg', 3)]
            inner = cs.typed_dict_schema({'a': cs.typed_dict_field(cs.int_schema(), validation_alias='A')}, config=cfg) if s.flag('td') else cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(cs.int_schema(), validation_alias='A')}), config=cfg)
            kw = [{}, {'by_alias': False, 'by_name': True}, {'by_name': True}, {'by_alias': True, 'by_name': False}][s.pick('kw', 4)]
            a, n = kw.get('by_alias', cfg.get('validate_by_alias', True)), kw.get('by_name', cfg.get('validate_by_name', False))
            which = s.pick('which', 2)
            x = digit(s, 'x')
            v = V(mk(inner))
            if as_json:
                doc = put({'Aa'[which]: 0})
                s.quiet(True)
                t = pydantic_core.to_json(doc)
                s.quiet(False)
                t = [x + 48 if c == 48 else c for c in t]
                k, r = attempt(lambda: get(v.validate_json(s.bytes(t), **kw)))
            else:
                k, r = attempt(lambda: get(v.validate_python(put({'Aa'[which]: s.int(x.zext(32))}), **kw)))
            if not (n if which else a):
                s.check(k == 'err', 'accepted')
                return
            s.check(k == 'ok', 'rejected')
            same(s, (r if type(r) is dict else r.__dict__)['a'], x.zext(32), 'value')
        return path
    for as_json in (False, True):
        yield Case('inside' + ('-json' if as_json else ''), inside(as_json), 'eighteen wrappers around a typed dict or model')

    def neither(s):
        """by_alias=False and by_name=False is refused, never validated"""
        v = V(cs.model_fields_schema({'a': cs.model_field(GE, validation_alias='A')}))
        x = s.int(digit(s, 'x').zext(32))
        try:
            v.validate_python({'a': x, 'A': x}, by_alias=False, by_name=False)
            s.check(False, 'accepted')
        except pydantic_core.SchemaError:
            pass
    yield Case('neither', neither, '')
