"""C16 - exclude_none, exclude_unset, exclude_defaults, round_trip and by_alias drop and rename exactly the fields they name, at every level and in all modes alike."""
from hlib import *


def cases(tier):
    big = tier != 'quick'
    import dataclasses
    any_s = cs.any_schema()

    class M:
        __slots__ = '__dict__', '__pydantic_extra__', '__pydantic_fields_set__', '__pydantic_private__'

        @property
        def cf(self):
            return self.__dict__['b']

    @dataclasses.dataclass
    class D:
        a: object
        b: object
        c: object

        @property
        def cf(self):
            return self.b

    ANY = SchemaSerializer(any_s)
    MODES = ['py', 'json', 'text']

    def run(s, ser, v, exp, kw, mode, what):
        if mode == 'text':
            same(s, ser.to_json(v, **kw), ANY.to_json(exp), what)
        else:
            same(s, ser.to_python(v, mode='json' if mode == 'json' else 'python', **kw), exp, what)

    def schemas():
        return {
            'a': cs.with_default_schema(any_s, default=5),
            'b': any_s,
            'c': cs.with_default_schema(cs.nullable_schema(any_s), default=None),
        }

    def build(kind, sub, config=None, computed=True, exclude=None):
        """sub: field -> schema; the field b has the alias B, the computed field the alias CF"""
        al = {'b': 'B'}
        cf = [cs.computed_field('cf', any_s, alias='CF')] if computed else None
        if kind in ('model', 'extra'):
            f = {k: cs.model_field(x, serialization_alias=al.get(k), serialization_exclude=(k == exclude) or None) for k, x in sub.items()}
            eb = 'allow' if kind == 'extra' else 'ignore'
            return cs.model_schema(M, cs.model_fields_schema(f, computed_fields=cf, extra_behavior=eb), extra_behavior=eb, config=config)
        if kind in ('typeddict', 'tdextra'):
            f = {k: cs.typed_dict_field(x, serialization_alias=al.get(k), serialization_exclude=(k == exclude) or None, required=False) for k, x in sub.items()}
            return cs.typed_dict_schema(f, extra_behavior='allow' if kind == 'tdextra' else 'ignore', config=config)
        f = [cs.dataclass_field(k, x, serialization_alias=al.get(k), serialization_exclude=(k == exclude) or None) for k, x in sub.items()]
        return cs.dataclass_schema(D, cs.dataclass_args_schema('D', f, computed_fields=cf), list(sub), config=config)

    def make(kind, vals, fset, extra):
        if kind in ('model', 'extra'):
            m = M()
            m.__dict__ = dict(vals)
            m.__pydantic_extra__ = dict(extra) if kind == 'extra' else None
            m.__pydantic_fields_set__ = set(fset)
            m.__pydantic_private__ = None
            return m
        if kind in ('typeddict', 'tdextra'):
            return dict(vals, **(extra if kind == 'tdextra' else {}))
        return D(**vals)

    def has_cf(kind):
        return kind in ('model', 'extra', 'dataclass')

    def expect(s, kind, vals, fset, extra, none=False, unset=False, defaults=False, rt=False, alias=False, computed=True, sub=lambda v: v, exclude=None):
        out = {}
        for k, v in vals.items():
            if none and v is None:
                continue
            if unset and kind in ('model', 'extra') and k not in fset:
                continue
            if k == exclude:
                continue
            if defaults:
                if k == 'a' and type(v) is int and bool(s.val(v, 32) == 5):
                    continue
                if k == 'c' and v is None:
                    continue
            out['B' if alias and k == 'b' else k] = sub(v)
        if kind in ('extra', 'tdextra'):
            for k, v in extra.items():
                if not (none and v is None):
                    out[k] = sub(v)
        if computed and has_cf(kind) and not rt and not (none and vals['b'] is None):
            out['CF' if alias else 'cf'] = sub(vals['b'])
        return out

    def value(s, n):
        return None if s.flag(n + 'n') else s.int(s.bv(n, 3, 5).zext(32))

    def flags(kind, mode):
        def path(s):
            vals = {'a': value(s, 'a'), 'b': value(s, 'b'), 'c': value(s, 'c')}
            extra = {'x': vals['b']}
            isset = kind in ('model', 'extra')
            fset = {k for k in 'ac' if isset and s.flag('set' + k)} | {'b'}
            none, unset, defaults = s.flag('none'), isset and s.flag('unset'), s.flag('defaults')
            rt = False
            ser = SchemaSerializer(build(kind, schemas()))
            v = make(kind, vals, fset, extra)
            exp = expect(s, kind, vals, fset, extra, none, unset, defaults, rt)
            kw = dict(exclude_none=none, exclude_unset=unset, exclude_defaults=defaults, round_trip=rt)
            run(s, ser, v, exp, kw, mode, '%s none=%s unset=%s defaults=%s set=%s' % (kind, none, unset, defaults, sorted(fset)))
            if isset:
                s.check(v.__dict__ == v.__dict__ and list(v.__dict__) == ['a', 'b', 'c'], 'the model was changed')
        return path

    def aliases(kind, mode):
        def path(s):
            vals = {'a': 1, 'b': value(s, 'b'), 'c': None}
            extra = {'x': 3, 'B2': vals['b']}
            c = s.pick('config', 3)
            p = s.pick('param', 3)
            none, rt = s.flag('none'), s.flag('rt')
            ex = s.oneof('ex', [None, 'a', 'b'])
            cfg = None if c == 0 else {'serialize_by_alias': c == 1}
            ser = SchemaSerializer(build(kind, schemas(), cfg, exclude=ex))
            alias = (c == 1) if p == 0 else p == 1
            v = make(kind, vals, {'a', 'b', 'c'}, extra)
            exp = expect(s, kind, vals, {'a', 'b', 'c'}, extra, none=none, rt=rt, alias=alias, exclude=ex)
            kw = dict(exclude_none=none, round_trip=rt)
            if p:
                kw['by_alias'] = p == 1
            run(s, ser, v, exp, kw, mode, '%s by_alias=%r config=%r none=%s round_trip=%s exclude=%s' % (kind, kw.get('by_alias'), cfg, none, rt, ex))
        return path

    WRAPS = {
        'list': (cs.list_schema, lambda v: [v], lambda v: [v]),
        'dict': (lambda x: cs.dict_schema(cs.str_schema(), x), lambda v: {'k': v}, lambda v: {'k': v}),
        'tuple': (lambda x: cs.tuple_schema([x, any_s]), lambda v: (v, None), lambda v: (v, None)),
        'nullable': (cs.nullable_schema, lambda v: v, lambda v: v),
        'union': (lambda x: cs.union_schema([cs.str_schema(), x]), lambda v: v, lambda v: v),
        'tagged': (lambda x: cs.tagged_union_schema({'t': x, 'u': cs.str_schema()}, lambda v: 't'), lambda v: v, lambda v: v),
        'default': (lambda x: cs.with_default_schema(x, default=None), lambda v: v, lambda v: v),
        'wrap': (lambda x: dict(x, serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: h(v))), lambda v: v, lambda v: v),
        'plain': (lambda x: cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: v)), lambda v: v, lambda v: v),
        'any': (lambda x: any_s, lambda v: v, lambda v: v),
        'ref': (lambda x: cs.definitions_schema(cs.definition_reference_schema('r'), [dict(x, ref='r')]), lambda v: v, lambda v: v),
        'custom': (lambda x: cs.no_info_wrap_validator_function(lambda v, h: h(v), x), lambda v: v, lambda v: v),
        'lax': (lambda x: cs.lax_or_strict_schema(x, x), lambda v: v, lambda v: v),
        'jsonorpython': (lambda x: cs.json_or_python_schema(x, x), lambda v: v, lambda v: v),
        'chain': (lambda x: cs.chain_schema([any_s, x]), lambda v: v, lambda v: v),
    }

    def inside(kind, mode):
        """the options reach structures inside others"""
        def path(s):
            w = s.oneof('w', sorted(WRAPS))
            if w in ('any', 'plain'):
                s.assume(kind == 'dataclass' and False or w != 'any' and w != 'plain')
            wrap, obj, res = WRAPS[w]
            o = s.pick('o', 6)
            none, unset, defaults, rt, alias = [o == i for i in range(1, 6)]
            vals = {'a': value(s, 'a'), 'b': s.int(s.bv('b', 3, 5).zext(32)), 'c': value(s, 'c')}
            fset = {'a', 'b'}
            inner = make(kind, vals, fset, {'x': 1})
            outer_kind = ['model', 'typeddict', 'dataclass'][s.pick('ok', 3)]
            try:
                sch = build(kind, schemas())
                ser = SchemaSerializer(build(outer_kind, {'b': wrap(sch)}, computed=False))
            except Exception as e:
                s.check(False, 'schema ' + str(e))
            if outer_kind == 'dataclass':
                v = D(None, obj(inner), None)
            else:
                v = make(outer_kind, {'b': obj(inner)}, {'b'}, {})
            e = expect(s, kind, vals, fset, {'x': 1}, none, unset, defaults, rt, alias)
            exp = {'B' if alias else 'b': res(e)}
            if mode == 'json' and w == 'tuple':
                exp = {k: list(x) for k, x in exp.items()}
            kw = dict(exclude_none=none, exclude_unset=unset, exclude_defaults=defaults, round_trip=rt, by_alias=alias)
            run(s, ser, v, exp, kw, mode, '%s in %s in %s with option %d' % (kind, w, outer_kind, o))
        return path

    def computed(mode):
        """computed fields: exclude_none looks at the value, as for other fields"""
        def path(s):
            f = [None, lambda v: None, lambda v: 7][s.pick('f', 3)]
            sch = any_s if f is None else cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(f))
            b = value(s, 'b')
            none = s.flag('none')
            m = make('model', {'b': b}, {'b'}, {})
            ser = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({'b': cs.model_field(sch)}, computed_fields=[cs.computed_field('cf', sch)])))
            exp = {} if none and b is None else {k: (b if f is None else f(b)) for k in ('b', 'cf')}
            run(s, ser, m, exp, dict(exclude_none=none), mode, 'computed field none=%s' % none)
        return path

    def extras(mode):
        """values of extra keys are serialized with the schema for extras"""
        def path(s):
            kind = ['extra', 'tdextra'][s.pick('k', 2)]
            x, none = value(s, 'x'), s.flag('none')
            f = cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: [v]))
            if kind == 'extra':
                sch = cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(any_s)}, extra_behavior='allow', extras_schema=f), extra_behavior='allow')
            else:
                sch = cs.typed_dict_schema({'a': cs.typed_dict_field(any_s)}, extra_behavior='allow', extras_schema=f)
            exp = {'a': 1}
            if not (none and x is None):
                exp['x'] = [x]
            run(s, SchemaSerializer(sch), make(kind, {'a': 1}, {'a'}, {'x': x}), exp, dict(exclude_none=none), mode, 'extra value')
        return path

    def root(mode):
        def path(s):
            x = value(s, 'x')
            m = M()
            m.__dict__ = {'root': x}
            m.__pydantic_extra__, m.__pydantic_fields_set__, m.__pydantic_private__ = None, {'root'} if s.flag('set') else set(), None
            o = s.pick('o', 4)
            ser = SchemaSerializer(cs.model_schema(M, cs.with_default_schema(any_s, default=5), root_model=True))
            run(s, ser, m, x, dict(exclude_none=o == 1, exclude_unset=o == 2, exclude_defaults=o == 3), mode, 'root model')
        return path

    out = []
    for m in MODES:
        for k in ('model', 'extra', 'typeddict', 'tdextra', 'dataclass'):
            if big or m != 'json' or k == 'model':
                out.append(Case('options %s %s' % (k, m), flags(k, m), 'three fields, None or ints, all subsets of options'))
            out.append(Case('aliases %s %s' % (k, m), aliases(k, m), 'all settings'))
            if big or (m != 'json' and k != 'tdextra') or k == 'model':
                out.append(Case('inside %s %s' % (k, m), inside(k, m), 'thirteen wrappers in three structures, each option'))
        out.append(Case('computed %s' % m, computed(m), ''))
        out.append(Case('extras %s' % m, extras(m), ''))
        out.append(Case('root %s' % m, root(m), ''))
    return out
