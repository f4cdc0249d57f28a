"""C20 - a union serializes each value exactly as the member it belongs to would alone: every mode, option, position, nesting and order of members."""
from hlib import *

def KNOWN(case, result, inputs):
    # the setting for inf and nan of a model inside a union is not used for JSON text
    if case == 'settings' and inputs.get('mode') == 2 and inputs.get('c') != 1 and inputs.get('f') != 2 and result[1].startswith('inf in a model'):
        return 'union-inf-nan'
    return None


def cases(tier):
    big = tier != 'quick'
    import dataclasses
    import datetime as dt
    import decimal
    import enum
    import uuid

    class Base:
        def __init__(self, **kw):
            fset = kw.pop('fset', set(kw))
            self.__dict__.update(kw)
            self.__dict__, d = {k: v for k, v in kw.items()}, None
            object.__setattr__(self, '__pydantic_fields_set__', fset)

        __slots__ = '__dict__', '__pydantic_fields_set__'

    class A(Base):
        pass

    class B(Base):
        pass

    class SubA(A):
        pass

    class R1(Base):
        pass

    class R2(Base):
        pass

    @dataclasses.dataclass
    class D:
        root: object
        x: object

    @dataclasses.dataclass
    class SubD(D):
        pass

    class Color(enum.Enum):
        red = 'r'
        blue = 'b'

    class Num(enum.IntEnum):
        one = 1

    mf = cs.model_field
    i_, s_ = cs.int_schema(), cs.str_schema()
    nul = lambda x: cs.with_default_schema(cs.nullable_schema(x), default=None)
    td_ = cs.timedelta_schema()

    def model(cls, fields, config=None):
        return cs.model_schema(cls, cs.model_fields_schema(fields), config=config)

    def tdict(fields, **al):
        return cs.typed_dict_schema({k: cs.typed_dict_field(v, serialization_alias=al.get(k)) for k, v in fields.items()})

    def dclass(cls=D):
        return cs.dataclass_schema(cls, cs.dataclass_args_schema('D', [cs.dataclass_field('root', i_, serialization_alias='ROOT'), cs.dataclass_field('x', nul(i_))]), ['root', 'x'])

    m_a = model(A, {'x': mf(i_, serialization_alias='AX'), 'y': mf(nul(s_)), 't': mf(td_)}, {'ser_json_timedelta': 'float'})
    m_b = model(B, {'x': mf(i_, serialization_alias='BX'), 'y': mf(nul(s_), serialization_alias='BY'), 't': mf(td_), 'z': mf(i_)})
    day = dt.timedelta(days=1)

    def num(s, n):
        return s.int(s.bv(n, 3, 2).zext(32))

    def ychoice(s, n):
        return None if s.flag(n + 'yn') else 'v'

    def a_val(cls):
        return lambda s, n: cls(x=num(s, n), y=ychoice(s, n), t=day)

    MEMBERS = {
        'int': (i_, num),
        'str': (s_, lambda s, n: s.str(s.chars(n, 2, 'ab', [97, 98, 48]))),
        'bool': (cs.bool_schema(), lambda s, n: s.flag(n)),
        'float': (cs.float_schema(), lambda s, n: s.oneof(n, [0.5, 1e300, -2.0])),
        'none': (cs.none_schema(), lambda s, n: None),
        'bytes': (cs.bytes_schema(), lambda s, n: s.bytes(s.chars(n, 2, 'ab', [97, 98, 34]))),
        'date': (cs.date_schema(), lambda s, n: dt.date(2020, 1, 2)),
        'datetime': (cs.datetime_schema(), lambda s, n: dt.datetime(2020, 1, 2, 3, 4, 5)),
        'time': (cs.time_schema(), lambda s, n: dt.time(3, 4, 5)),
        'timedelta': (td_, lambda s, n: dt.timedelta(days=2)),
        'decimal': (cs.decimal_schema(), lambda s, n: decimal.Decimal('1.50')),
        'uuid': (cs.uuid_schema(), lambda s, n: uuid.UUID(int=7)),
        'enum': (cs.enum_schema(Color, list(Color)), lambda s, n: s.oneof(n, list(Color))),
        'intenum': (cs.enum_schema(Num, list(Num), sub_type='int'), lambda s, n: Num.one),
        'literal': (cs.literal_schema(['p', 'q']), lambda s, n: s.oneof(n, ['p', 'q'])),
        'list[int]': (cs.list_schema(i_), lambda s, n: [num(s, n + str(k)) for k in range(s.pick(n + 'len', 3))]),
        'list[date]': (cs.list_schema(cs.date_schema()), lambda s, n: [dt.date(2020, 1, 2)] * s.pick(n + 'len', 3)),
        'tuple[int]': (cs.tuple_schema([i_]), lambda s, n: (num(s, n),)),
        'tuple[int,str]': (cs.tuple_schema([i_, s_]), lambda s, n: (num(s, n), 'v')),
        'tuple[str,...]': (cs.tuple_schema([s_], variadic_item_index=0), lambda s, n: ('a',) * s.pick(n, 3)),
        'set': (cs.set_schema(i_), lambda s, n: {s.pick(n, 3)}),
        'frozenset': (cs.frozenset_schema(td_), lambda s, n: frozenset([day])),
        'dict[str,int]': (cs.dict_schema(s_, i_), lambda s, n: {k: num(s, n + k) for k in 'kl'[:s.pick(n, 3)]}),
        'dict[int,str]': (cs.dict_schema(i_, s_), lambda s, n: {4: 'v'} if s.flag(n) else {}),
        'A': (m_a, a_val(A)),
        'A sub': (m_a, a_val(SubA)),
        'B': (m_b, lambda s, n: B(x=num(s, n), y=ychoice(s, n), t=day, z=1)),
        'dict[A]': (cs.dict_schema(s_, m_a), lambda s, n: {'k': a_val(A)(s, n)}),
        'dict[A] sub': (cs.dict_schema(s_, m_a), lambda s, n: {'k': a_val(SubA)(s, n)}),
        'list[A] sub': (cs.list_schema(m_a), lambda s, n: [a_val(SubA)(s, n)]),
        'R1': (cs.model_schema(R1, i_, root_model=True), lambda s, n: R1(root=num(s, n))),
        'R2': (cs.model_schema(R2, cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: [v])), root_model=True), lambda s, n: R2(root=num(s, n))),
        'D': (dclass(), lambda s, n: D(num(s, n), None)),
        'D sub': (dclass(), lambda s, n: SubD(num(s, n), 1)),
        'TD1': (tdict({'a': i_, 'b': td_}, a='TA'), lambda s, n: {'a': num(s, n), 'b': day}),
        'TD2': (tdict({'a': i_, 'c': s_}, a='TC'), lambda s, n: {'a': num(s, n), 'c': 'v'}),
        'TD3 sub': (tdict({'m': m_a}), lambda s, n: {'m': a_val(SubA)(s, n)}),
        'nullable': (cs.nullable_schema(cs.dict_schema(s_, td_)), lambda s, n: s.oneof(n, [None, {'k': day}])),
    }
    # pairs which are both members for some value, with different outputs
    AMBIGUOUS = [{'TD3 sub', 'dict[A] sub'}, {'TD3 sub', 'dict[A]'}]

    POS = {
        'top': (lambda u: u, lambda v: v),
        'list': (cs.list_schema, lambda v: [v]),
        'dict': (lambda u: cs.dict_schema(s_, u), lambda v: {'k': v}),
        'field': (lambda u: cs.typed_dict_schema({'f': cs.typed_dict_field(u)}), lambda v: {'f': v}),
        'model': (lambda u: model(R1, {'f': mf(u)}), lambda v: R1(f=v)),
        'tuple': (lambda u: cs.tuple_schema([u, i_]), lambda v: (v, 1)),
        'nullable': (cs.nullable_schema, lambda v: v),
        'default': (lambda u: cs.with_default_schema(u, default=None), lambda v: v),
        'ref': (lambda u: cs.definitions_schema(cs.definition_reference_schema('r'), [dict(u, ref='r')]), lambda v: v),
    }
    SMALL_POS = ['top', 'list', 'dict', 'model']
    MODES = ['py', 'json', 'text']

    def ser(s, schema, v, mode, kw):
        z = SchemaSerializer(schema)
        if mode == 'text':
            return z.to_json(v, warnings='error', **kw)
        return z.to_python(v, mode='json' if mode == 'json' else 'python', warnings='error', **kw)

    def compare(s, union, alone, v, mode, kw, what):
        """the union does what the member alone does"""
        what = '%s %s %s' % (what, mode, kw or '')
        try:
            exp = ser(s, alone, v, mode, kw)
        except Exception as e:
            s.check(False, '%s: the member itself refuses %s' % (what, str(e)[:100]))
            return
        try:
            got = ser(s, union, v, mode, kw)
        except Exception as e:
            s.check(False, '%s: %s' % (what, str(e)[:200]))
            return
        same(s, got, exp, what)

    names = sorted(MEMBERS)

    def pairs(first, mode):
        def path(s):
            i, j = first, s.pick('other', len(names))
            s.assume(names[i] != names[j] and {names[i], names[j]} not in AMBIGUOUS)
            sch, make = MEMBERS[names[i]]
            other = MEMBERS[names[j]][0]
            s.assume(sch is not other)
            wrap, obj = POS[SMALL_POS[(i + j) % len(SMALL_POS)]]
            v = obj(make(s, 'v'))
            kw = dict(by_alias=True) if (i + j) % 3 == 0 else {}
            for ch in ([sch, other], [other, sch]):
                compare(s, wrap(cs.union_schema(ch)), wrap(sch), v, mode, kw, '%s or %s' % (names[i], names[j]))
        return path

    FAMILIES = [
        ['A', 'B', 'D', 'TD1', 'TD2', 'int'],
        ['D', 'R1', 'TD2', 'B', 'A sub', 'str'],
        ['dict[A] sub', 'TD1', 'list[A] sub', 'tuple[int,str]', 'none'],
        ['TD3 sub', 'set', 'list[date]', 'D sub', 'timedelta', 'dict[int,str]'],
    ]
    NEST = {
        'flat': lambda c: cs.union_schema(c),
        'left': lambda c: cs.union_schema([cs.union_schema(c[:2])] + c[2:]),
        'right': lambda c: cs.union_schema(c[:-2] + [cs.union_schema(c[-2:])]),
        'deep': lambda c: cs.union_schema([c[0], cs.nullable_schema(cs.union_schema([c[1], cs.with_default_schema(cs.union_schema(c[2:]), default=None)]))]),
        'l2r': lambda c: cs.union_schema(c, mode='left_to_right'),
        'custom': lambda c: cs.union_schema([cs.no_info_after_validator_function(lambda v: v, x) for x in c]),
    }

    def family(f, mode):
        """more members, nested unions, all positions"""
        fam = FAMILIES[f]

        def path(s):
            k, rot = s.pick('k', len(fam)), s.pick('rot', len(fam))
            p = s.oneof('pos', sorted(POS))
            nest = sorted(NEST)[(k + rot + len(p)) % len(NEST)]
            sch, make = MEMBERS[fam[k]]
            wrap, obj = POS[p]
            order = fam[rot:] + fam[:rot]
            u = NEST[nest]([MEMBERS[x][0] for x in order])
            v = obj(make(s, 'v'))
            compare(s, wrap(u), wrap(sch), v, mode, {}, '%s in %s of %s at %s' % (fam[k], nest, order, p))
        return path

    OPTS = {
        'include': dict(include={'x'}), 'include2': dict(include={'x': True, 'y': True}), 'exclude': dict(exclude={'x'}), 'exclude2': dict(exclude={'x', 't'}),
        'both': dict(include={'x', 't'}, exclude={'x'}), 'none': dict(exclude_none=True), 'unset': dict(exclude_unset=True), 'defaults': dict(exclude_defaults=True),
        'alias': dict(by_alias=True), 'rt': dict(round_trip=True), 'empty': dict(include=set()), 'emptyx': dict(exclude=set()),
        'all': dict(exclude_none=True, exclude_unset=True, exclude_defaults=True, by_alias=True, exclude={'z'}),
    }

    def options(mode):
        """models and dataclasses are told apart by their class, whatever is left out"""
        fam = ['A', 'B', 'D', 'A sub', 'D sub']

        def path(s):
            k, oi, at = s.pick('k', len(fam)), s.pick('o', len(OPTS)), s.pick('at', 3)
            o = sorted(OPTS)[oi]
            rot = s.pick('rot', 4) if big else (oi + at) % 4
            kw = dict(OPTS[o])
            if at:
                for f in ('include', 'exclude'):
                    if f in kw:
                        kw[f] = {('k' if at == 1 else 0): kw[f]}
                        if not kw[f]['k' if at == 1 else 0]:
                            del kw[f]
            wrap, obj = POS[['top', 'dict', 'list'][at]]
            sch, make = MEMBERS[fam[k]]
            x = make(s, 'v')
            if isinstance(x, Base) and s.flag('set'):
                object.__setattr__(x, '__pydantic_fields_set__', {'y', 't'})
            order = [MEMBERS[n][0] for n in ('A', 'B', 'D', 'str')]
            order = order[rot:] + order[:rot]
            compare(s, wrap(cs.union_schema(order)), wrap(sch), obj(x), mode, kw, '%s first=%d %s at %d' % (fam[k], rot, o, at))
        return path

    SCALARS = ['int', 'str', 'bool', 'date', 'datetime', 'time', 'timedelta', 'uuid', 'decimal', 'enum', 'bytes', 'none', 'literal', 'tuple[int]', 'intenum']

    def keys(mode):
        def path(s):
            i, j = s.pick('i', len(SCALARS)), s.pick('j', len(SCALARS))
            s.assume(i != j)
            sch, make = MEMBERS[SCALARS[i]]
            other = MEMBERS[SCALARS[j]][0]
            first = s.flag('first')
            with_quiet = s.quiet
            k = make(s, 'v')
            u = cs.union_schema([sch, other] if first else [other, sch])
            with_quiet(True)
            v = {k: 1}
            with_quiet(False)
            compare(s, cs.dict_schema(u, i_), cs.dict_schema(sch, i_), v, mode, {}, 'key %s with %s first=%s' % (SCALARS[i], SCALARS[j], first))
        return path

    class Tag(enum.Enum):
        a = 'a'
        b = 'b'

    class T0(Base):
        pass

    class T1(Base):
        pass

    class T1s(T1):
        pass

    @dataclasses.dataclass
    class TD0:
        kind: object
        x: object

    def tagged(mode):
        def path(s):
            si, ti, di = s.pick('shape', 5), s.pick('tags', 4), s.pick('disc', 5)
            shape = ['model', 'sub', 'dataclass', 'dict', 'extra'][si]
            tags = [('a', 'b'), (Tag.a, Tag.b), (1, 2), (False, True)][ti]
            which = s.pick('which', 2)
            disc = ['kind', ['kind'], [['k'], ['kind']], 'func', 'path'][di]
            x = num(s, 'x')
            any_ = cs.any_schema()
            fields = lambda n: {'kind': any_, 'x': any_ if n == 0 else cs.any_schema(serialization=cs.plain_serializer_function_ser_schema(lambda v: [v]))}
            mem = []
            for n, c in enumerate([T0, T1]):
                f = fields(n)
                if shape in ('model', 'sub'):
                    mem.append(model(c, {k: mf(q, serialization_alias='%s%d' % (k, n)) for k, q in f.items()}))
                elif shape == 'dict':
                    mem.append(tdict(f, x='x%d' % n))
                elif shape == 'extra':
                    mem.append(cs.typed_dict_schema({'x': cs.typed_dict_field(f['x'])}, extra_behavior='allow'))
                else:
                    mem.append(cs.dataclass_schema(TD0, cs.dataclass_args_schema('TD0', [cs.dataclass_field(k, q, serialization_alias='%s%d' % (k, n)) for k, q in f.items()]), ['kind', 'x']))
            t = tags[which]
            if shape in ('model', 'sub'):
                v = [T0, T1s if shape == 'sub' else T1][which](kind=t, x=x)
            elif shape in ('dict', 'extra'):
                v = {'kind': t, 'x': x}
            else:
                v = TD0(t, x)
            if disc == 'func':
                d = lambda o: o['kind'] if isinstance(o, dict) else o.kind
            elif disc == 'path':
                s.assume(shape == 'dict')
                d = ['kind', 'v']
                v = {'kind': {'v': t}, 'x': x}
            else:
                d = disc
            order = [0, 1] if s.flag('order') else [1, 0]
            u = cs.tagged_union_schema({tags[n]: mem[n] for n in order}, d)
            p = s.pick('p', 3) if big else (si + ti + di) % 3
            if p == 1:
                u = cs.union_schema([i_, u])
            wrap, obj = POS['list' if p == 2 else 'top']
            f = s.pick('f', 3)
            kw = dict(by_alias=s.flag('alias') if big else (si + ti + di + f) % 2 == 0)
            if f and p != 2:
                kw['include' if f == 1 else 'exclude'] = {'x'}
            compare(s, wrap(u), wrap(mem[which]), obj(v), mode, kw, 'tagged %s by %s tags %s' % (shape, disc, tags))
        return path

    def recursive(mode):
        """a tree: an int, a date or a list or dict of trees"""
        tree = cs.definitions_schema(cs.definition_reference_schema('t'), [cs.union_schema([cs.list_schema(cs.definition_reference_schema('t')), i_, cs.dict_schema(s_, cs.definition_reference_schema('t')), td_, m_a], ref='t')])

        def path(s):
            count = [0]

            def gen(d):
                count[0] += 1
                n = 'n%d' % count[0]
                k = s.pick(n, 5 if d else 3)
                if k == 0:
                    v = num(s, n + 'v')
                    return v, v
                if k == 1:
                    return day, day if mode == 'py' else 'P1D'
                if k == 2:
                    return (A if s.flag(n + 's') else SubA)(x=1, y=None, t=day), {'x': 1, 'y': None, 't': day if mode == 'py' else 86400.0}
                items = [gen(d - 1) for _ in range(2)]
                if k == 3:
                    return [a for a, _ in items], [b for _, b in items]
                return {'a': items[0][0], 'b': items[1][0]}, {'a': items[0][1], 'b': items[1][1]}
            v, exp = gen(2 if big else 1)
            if mode == 'text':
                exp = SchemaSerializer(cs.any_schema()).to_json(exp)
            try:
                got = ser(s, tree, v, mode, {})
            except Exception as e:
                s.check(False, 'tree: %s' % str(e)[:200])
                return
            same(s, got, exp, 'tree %s' % mode)
        return path

    def nan(s):
        """the settings of the model apply in a union"""
        mode = s.oneof('mode', MODES)
        m = model(A, {'f': mf(cs.float_schema())}, {'ser_json_inf_nan': s.oneof('c', ['constants', 'null', 'strings'])})
        v = A(f=s.oneof('f', [float('inf'), -float('inf'), 1.5]))
        compare(s, cs.union_schema([m, i_]), m, v, mode, {}, 'inf in a model')

    out = []
    for m in MODES:
        for i, n in enumerate(names):
            out.append(Case('%s or another %s' % (n, m), pairs(i, m), 'the value of one member with each other member, in both orders'))
        for f in range(len(FAMILIES)):
            if big or m != 'json' or f == 0:
                out.append(Case('family %d %s' % (f, m), family(f, m), 'five or six members, nested unions, nine positions'))
        out.append(Case('options %s' % m, options(m), 'models and dataclasses with each option'))
        if m != 'json' or big:
            out.append(Case('keys %s' % m, keys(m), 'fifteen types of keys'))
        out.append(Case('tagged %s' % m, tagged(m), ''))
        out.append(Case('recursive %s' % m, recursive(m), 'depth %d' % (3 if big else 2)))
    out.append(Case('settings', nan, ''))
    return out
