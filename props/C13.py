"""C13 - include and exclude: the filtered output is the full output without the items the filters drop, in every container and mode."""
from hlib import *

ALL = '__all__'


def full(v):
    return v is ... or v is True


def as_dict(v):
    return dict(v) if isinstance(v, dict) else {k: ... for k in v}


def merge(a, b):
    """what is given for all items completes what is given for the item itself"""
    d = as_dict(a)
    for k, v in as_dict(b).items():
        if k not in d:
            d[k] = v
        elif not full(d[k]) and not full(v):
            d[k] = merge(d[k], v)
    return d


def look(f, k):
    """None (not mentioned), ... (as a whole) or the filter of what is below"""
    if isinstance(f, (set, frozenset)):
        return ... if k in f or ALL in f else None
    a, b = f.get(k), f.get(ALL)
    if a is None or b is None:
        r = b if a is None else a
    else:
        r = a if full(a) or full(b) else merge(a, b)
    return ... if r is not None and full(r) else r


def keep(k, inc, exc, sinc, sexc):
    """None: dropped; otherwise the filters of what is below"""
    nx = None
    if exc is not None:
        nx = look(exc, k)
        if nx is ...:
            return None
    if inc is not None:
        i = look(inc, k)
        if i is not None:
            return (None if i is ... else i), nx
        if not (sinc and k in sinc):
            return None
    if (sinc is not None and k not in sinc) or (sexc is not None and k in sexc):
        return None
    return None, nx


def norm(f, n):
    """indices from the end"""
    if f is None:
        return None
    at = lambda k: k + n if isinstance(k, int) and k < 0 else k
    return {at(k): v for k, v in f.items()} if isinstance(f, dict) else {at(k) for k in f}


def apply(v, inc, exc, schema=None):
    """the value without what is dropped; schema: (include, exclude) of the schema at the top"""
    si, se = schema or (None, None)
    if isinstance(v, (list, tuple)):
        inc, exc = norm(inc, len(v)), norm(exc, len(v))
        out = []
        for i, x in enumerate(v):
            r = keep(i, inc, exc, si, se)
            if r is not None:
                out.append(apply(x, *r))
        return out if isinstance(v, list) else tuple(out)
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            r = keep(k, inc, exc, si, se)
            if r is not None:
                out[k] = apply(x, *r)
        return out
    return v


def cases(tier):
    big = tier != 'quick'
    import dataclasses

    class M:
        __slots__ = '__dict__', '__pydantic_extra__', '__pydantic_fields_set__', '__pydantic_private__'

    @dataclasses.dataclass
    class D:
        a: object
        b: object

    def model(a, b, extra=None):
        m = M()
        m.__dict__ = {'a': a, 'b': b}
        m.__pydantic_extra__ = extra
        m.__pydantic_fields_set__ = {'a', 'b'}
        m.__pydantic_private__ = None
        return m

    any_ = cs.any_schema()
    field = cs.model_field
    KINDS = ['none', 'set1', 'set2', 'dict', 'all', 'below', 'allbelow', 'merge', 'all+', '+all', 'frozen', 'mixed']

    def filt(s, n, kind, keys, below):
        """a filter over keys (at this level) and below (one level down)"""
        k = lambda m='i': keys[s.pick(n + m, len(keys))]
        b = lambda m='b': below[s.pick(n + m, len(below))]
        if kind == 'none':
            return None
        if kind == 'set1':
            return {k()}
        if kind == 'set2':
            return {k(), k('j')}
        if kind == 'frozen':
            return frozenset([max(k(), 0) if isinstance(keys[0], int) else k()])
        if kind == 'dict':
            return {k(): ... if s.flag(n + 'e') else True}
        if kind == 'all':
            return {ALL} if s.flag(n + 's') else {ALL: ...}
        if kind == 'below':
            return {k(): {b()}}
        if kind == 'allbelow':
            return {ALL: {b()}}
        if kind == 'merge':
            return {k(): {b(): ...}, ALL: {b('c')}}
        if kind == 'all+':
            return {k(): ..., ALL: {b()}}
        if kind == '+all':
            return {k(): {b()}, ALL: ...}
        return {k(): ..., k('j'): {b()}}

    def run(s, ser, v, exp, kw, what):
        """exp: what the output has to be like (Python objects)"""
        try:
            got = ser.to_python(v, **kw)
            s.check(True, '')
        except Exception as e:
            s.check(False, what + ' raised ' + type(e).__name__)
            return
        same(s, got, exp, what)

    def both(s, mk, conv, exp, kw, json, what):
        ser, v = mk
        if json == 'text':
            try:
                got = ser.to_json(v, **kw)
            except Exception as e:
                s.check(False, what + ' raised ' + type(e).__name__)
                return
            same(s, got, ANY.to_json(exp), what)
            return
        if json:
            kw = dict(kw, mode='json')
            exp = listed(exp)
        else:
            exp = conv(exp)
        run(s, ser, v, exp, kw, what)

    ANY = SchemaSerializer(any_)

    def listed(v):
        if isinstance(v, (list, tuple)):
            return [listed(x) for x in v]
        if isinstance(v, dict):
            return {k: listed(x) for k, x in v.items()}
        return v

    ident = lambda v: v
    inner = lambda s, n: {'a': s.int(s.bv(n + 'a', 3, 1).zext(32)), 'b': s.int(s.bv(n + 'b', 3, 2).zext(32))}

    SEQ = {
        'any': lambda n: (any_, list),
        'anytuple': lambda n: (any_, tuple),
        'list': lambda n: (cs.list_schema(any_), list),
        'listof': lambda n: (cs.list_schema(cs.dict_schema(cs.str_schema(), cs.int_schema())), list),
        'tuple': lambda n: (cs.tuple_schema([any_] * n), tuple),
        'variadic': lambda n: (cs.tuple_schema([any_, any_], variadic_item_index=0), tuple),
        'variadic1': lambda n: (cs.tuple_schema([any_, any_, any_], variadic_item_index=1), tuple),
        'tdlist': lambda n: (cs.list_schema(cs.typed_dict_schema({'a': cs.typed_dict_field(any_), 'b': cs.typed_dict_field(any_)})), list),
        'nullable': lambda n: (cs.nullable_schema(cs.list_schema(any_)), list),
        'default': lambda n: (cs.with_default_schema(cs.list_schema(any_), default=1), list),
        'ref': lambda n: (cs.definitions_schema(cs.list_schema(cs.definition_reference_schema('r')), [cs.dict_schema(ref='r')]), list),
        'union': lambda n: (cs.union_schema([cs.list_schema(any_), cs.str_schema()]), list),
        'jsonorpython': lambda n: (cs.json_or_python_schema(cs.list_schema(any_), cs.list_schema(any_)), list),
        'custom': lambda n: (cs.no_info_plain_validator_function(lambda v: v), list),
        'before': lambda n: (cs.no_info_before_validator_function(lambda v: v, cs.list_schema(any_)), list),
    }

    def seq(kind, n, json, incs, excs, lo=-4, hi=3):
        def path(s):
            sch, t = SEQ[kind](n)
            v = t(inner(s, 'x%d' % i) for i in range(n))
            keys = list(range(lo, hi + 1))
            inc = filt(s, 'inc', incs[s.pick('ik', len(incs))], keys, ['a', 'b'])
            exc = filt(s, 'exc', excs[s.pick('ek', len(excs))], keys, ['a', 'b'])
            both(s, (SchemaSerializer(sch), v), ident, apply(v, inc, exc), dict(include=inc, exclude=exc), json, '%s include=%r exclude=%r' % (kind, inc, exc))
        return path

    def schema_seq(kind, n, json):
        """filters of the schema, and both"""
        def path(s):
            keys = list(range(0, n + 1))
            def ks(name, opts):
                o = opts[s.pick(name, len(opts))]
                return None if o is None else {k for k in o}
            opts = [None, (), (0,), (1,), (0, 2)]
            si, se = ks('si', opts), ks('se', opts)
            f = cs.filter_seq_schema(include=si, exclude=se)
            sch, t = {'list': (cs.list_schema(any_, serialization=f), list), 'tuple': (cs.tuple_schema([any_] * n, serialization=f), tuple)}[kind]
            v = t(inner(s, 'x%d' % i) for i in range(n))
            w = s.pick('w', 3)
            inc = exc = None
            kk = ['set1', 'below', 'dict', 'allbelow']
            if w == 1:
                inc = filt(s, 'inc', kk[s.pick('ik', 4)], [-1, 0, 1], ['a'])
            elif w == 2:
                exc = filt(s, 'exc', kk[s.pick('ek', 4)], [-1, 0, 1], ['a'])
            both(s, (SchemaSerializer(sch), v), ident, apply(v, inc, exc, (si, se)), dict(include=inc, exclude=exc), json, '%s schema %r %r include=%r exclude=%r' % (kind, si, se, inc, exc))
        return path

    def schema_dict(json):
        def path(s):
            pool = [-1, -2, 'a', 'b']
            def ks(name):
                c = s.pick(name, 6)
                return None if c == 5 else set() if c == 4 else {pool[c], pool[(c * 2 + 1) % 4]}
            si, se = ks('si'), ks('se')
            sch = cs.dict_schema(serialization=cs.filter_dict_schema(include=si, exclude=se))
            v = {k: inner(s, 'x%d' % i) for i, k in enumerate(pool)}
            w = s.pick('w', 3)
            inc = exc = None
            if w == 1:
                inc = filt(s, 'inc', ['set1', 'below', 'merge'][s.pick('ik', 3)], pool, ['a'])
            elif w == 2:
                exc = filt(s, 'exc', ['set1', 'below', 'merge'][s.pick('ek', 3)], pool, ['a'])
            exp = apply(v, inc, exc, (si, se))
            if json:
                exp = {str(k): x for k, x in exp.items()}
            both(s, (SchemaSerializer(sch), v), ident, exp, dict(include=inc, exclude=exc), json, 'dict schema %r %r include=%r exclude=%r' % (si, se, inc, exc))
        return path

    def fields_of(kind):
        """(serializer, value(a, b), fields beyond a and b)"""
        if kind == 'typeddict':
            return cs.typed_dict_schema({f: cs.typed_dict_field(any_) for f in 'ab'}), lambda a, b: {'a': a, 'b': b}, {}
        if kind == 'tdextra':
            return cs.typed_dict_schema({'a': cs.typed_dict_field(any_)}, extra_behavior='allow'), lambda a, b: {'a': a, 'b': b}, {}
        if kind == 'model':
            return cs.model_schema(M, cs.model_fields_schema({f: field(any_) for f in 'ab'})), model, {}
        if kind == 'modelextra':
            return (cs.model_schema(M, cs.model_fields_schema({f: field(any_) for f in 'ab'}, extra_behavior='allow'), extra_behavior='allow'),
                    lambda a, b: model(a, b, {'c': a}), {'c': 'a'})
        if kind == 'computed':
            class C(M):
                @property
                def c(self):
                    return self.a

            def mk(a, b):
                m = C()
                m.__dict__, m.__pydantic_extra__, m.__pydantic_fields_set__, m.__pydantic_private__ = {'a': a, 'b': b}, None, {'a', 'b'}, None
                return m
            return (cs.model_schema(C, cs.model_fields_schema({f: field(any_) for f in 'ab'}, computed_fields=[cs.computed_field('c', any_)])), mk, {'c': 'a'})
        if kind == 'aliased':
            return (cs.model_schema(M, cs.model_fields_schema({f: field(any_, serialization_alias={'a': 'b', 'b': 'A'}[f]) for f in 'ab'})), model, {})
        if kind == 'dataclass':
            return cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field(f, any_) for f in 'ab']), ['a', 'b']), D, {}
        if kind == 'anydc':
            return any_, D, {}
        if kind == 'fieldexclude':
            return (cs.model_schema(M, cs.model_fields_schema({'a': field(any_), 'b': field(any_, serialization_exclude=True)})), model, {})
        if kind == 'dict':
            return cs.dict_schema(), lambda a, b: {'a': a, 'b': b}, {}
        if kind == 'root':
            class R(M):
                pass

            def mk(a, b):
                m = R()
                m.__dict__, m.__pydantic_extra__, m.__pydantic_fields_set__, m.__pydantic_private__ = {'root': {'a': a, 'b': b}}, None, {'root'}, None
                return m
            return cs.model_schema(R, cs.dict_schema(), root_model=True), mk, {}
        raise KeyError(kind)

    def named(kind, json, incs, excs, alias=False):
        def path(s):
            sch, mk, more = fields_of(kind)
            a, b = inner(s, 'x0'), (inner(s, 'x1') if kind != 'modelextra' else s.int(s.bv('xb', 3, 1).zext(32)))
            v = mk(a, b)
            keys = ['a', 'b', 'c'] + (['A'] if kind == 'aliased' else [])
            inc = filt(s, 'inc', incs[s.pick('ik', len(incs))], keys, ['a', 'b'])
            exc = filt(s, 'exc', excs[s.pick('ek', len(excs))], keys, ['a', 'b'])
            whole = {'a': a, 'b': b}
            whole.update({k: whole[x] for k, x in more.items()})
            exp = {}
            for k, x in whole.items():
                if kind == 'fieldexclude' and k == 'b':
                    continue
                r = keep(k, inc, exc, None, None)
                if r is not None:
                    exp[{'a': 'b', 'b': 'A'}[k] if kind == 'aliased' else k] = apply(x, *r)
            kw = dict(include=inc, exclude=exc)
            if kind == 'aliased':
                kw['by_alias'] = True
            both(s, (SchemaSerializer(sch), v), ident, exp, kw, json, '%s include=%r exclude=%r' % (kind, inc, exc))
        return path

    def gen(json):
        """no length: negative indices cannot be used"""
        def path(s):
            n = s.pick('n', 3)
            xs = [inner(s, 'x%d' % i) for i in range(n)]
            ser = SchemaSerializer([any_, cs.generator_schema(any_)][s.pick('t', 2)])
            kk = ['none', 'set1', 'below', 'allbelow']
            inc = filt(s, 'inc', kk[s.pick('ik', 4)], [-1, 0, 1, 2], ['a'])
            exc = filt(s, 'exc', kk[s.pick('ek', 4)], [-1, 0, 1, 2], ['a'])
            neg = any(isinstance(k, int) and k < 0 for f in (inc, exc) if f is not None for k in f)
            g = (x for x in xs)
            what = 'generator include=%r exclude=%r' % (inc, exc)
            try:
                if json == 'text':
                    got = ser.to_json(g, include=inc, exclude=exc)
                else:
                    got = ser.to_python(g, include=inc, exclude=exc, mode='json') if json else list(ser.to_python(g, include=inc, exclude=exc))
            except Exception as e:
                s.check(neg and n > 0 and 'Negative indices' in str(e), what + ' raised ' + type(e).__name__)
                return
            s.check(not (neg and n > 0), what + ' accepted')
            exp = apply(xs, inc, exc)
            same(s, got, ANY.to_json(exp) if json == 'text' else exp, what)
        return path

    def deep(json):
        """three levels: model, list, dict"""
        def path(s):
            sch = cs.model_schema(M, cs.model_fields_schema({'a': field(cs.list_schema(cs.dict_schema())), 'b': field(any_)}))
            v = [inner(s, 'x0'), inner(s, 'x1')]
            w = s.int(s.bv('w', 3, 1).zext(32))

            def f(n):
                c = s.pick(n, 6)
                if c == 0:
                    return None
                i = s.pick(n + 'i', 3) - 1
                k = 'ab'[s.pick(n + 'k', 2)]
                return [{'a': {i: {k}}}, {'a': {ALL: {k: ...}}}, {'a': {i: {k}, ALL: {'a'}}}, {ALL: {i}}, {'a': {i: {k: ...}}, 'b': ...}][c - 1]
            inc, exc = f('inc'), f('exc')
            exp = {}
            for k, x in (('a', v), ('b', w)):
                r = keep(k, inc, exc, None, None)
                if r is not None:
                    exp[k] = apply(x, *r)
            both(s, (SchemaSerializer(sch), model(v, w)), ident, exp, dict(include=inc, exclude=exc), json, 'nested include=%r exclude=%r' % (inc, exc))
        return path

    def bad(json):
        """filters of another kind are refused"""
        def path(s):
            f = [1, 'x', object()][s.pick('f', 3)]
            which = 'include' if s.flag('w') else 'exclude'
            ser = SchemaSerializer([any_, cs.list_schema(any_)][s.pick('t', 2)])
            try:
                ser.to_json([1], **{which: f})
            except Exception as e:
                s.check('must be a set or dict' in str(e), 'another error')
                return
            s.check(False, '%s=%r accepted' % (which, f))
        return path

    out = []
    J = ((False, 'py'), (True, 'json'), ('text', 'text'))
    some = ['none', 'set1', 'dict', 'below', 'allbelow']
    few = ['set1', 'below', 'allbelow']
    for k in SEQ:
        n = 2
        for j, jn in J:
            main = k in ('any', 'list', 'tuple', 'variadic1')
            if main and jn != 'json' or big:
                out.append(Case('%s %s include' % (k, jn), seq(k, n, j, KINDS, ['none'], *((-4, 3) if big else (-3, 2))), 'two items, all forms of include, indices -3..2 (thorough: -4..3)'))
                out.append(Case('%s %s exclude' % (k, jn), seq(k, n, j, ['none'], KINDS, *((-4, 3) if big else (-3, 2))), 'two items, all forms of exclude, indices -3..2 (thorough: -4..3)'))
            if k in ('list', 'any') and jn != 'json' or big:
                out.append(Case('%s %s both' % (k, jn), seq(k, n, j, some[1:], some[1:], *((-3, 2) if big else (-1, 0))), 'two items, include and exclude'))
            elif jn != 'json' or main:
                out.append(Case('%s %s' % (k, jn), seq(k, n, j, few, few, -1, 0), 'two items'))
    for j, jn in J:
        for k in ('list', 'tuple'):
            if jn == ('py' if k == 'list' else 'text') or big:
                out.append(Case('%s %s filters of the schema' % (k, jn), schema_seq(k, 2, j), 'two items, filters of the schema and of the call'))
        if jn != 'json' or big:
            out.append(Case('dict %s filters of the schema' % jn, schema_dict(j), 'keys -1, -2, a, b'))
            out.append(Case('generator %s' % jn, gen(j), 'up to two items'))
            out.append(Case('nested %s' % jn, deep(j), 'three levels'))
        for k in ('typeddict', 'tdextra', 'model', 'modelextra', 'computed', 'aliased', 'dataclass', 'anydc', 'fieldexclude', 'dict', 'root'):
            if k == 'modelextra':
                ks = ['none', 'set1', 'dict', 'all']
            else:
                ks = KINDS if big else ['none', 'set1', 'dict', 'below', 'merge'] if k == 'model' else ['none', 'set1', 'below']
            if jn != 'json' or k in ('model', 'computed') or big:
                out.append(Case('%s %s' % (k, jn), named(k, j, ks, ks if big else ['none', 'set1', 'below']), 'two fields'))
    out.append(Case('other filters', bad(False), 'filters which are neither sets nor dicts'))
    return out
