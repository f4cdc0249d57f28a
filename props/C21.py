"""C21 - assignment changes the assigned field alone (or, refused, nothing); validation never changes its input nor shares its containers; instances are revalidated as configured."""
from hlib import *


def KNOWN(case, result, inputs):
    if case.startswith('after model') and result[1].startswith('refused by the function after'):
        return 'assign-after-model'
    return None


def attempt(f, *a, **k):
    """(accepted, the result or the error)"""
    try:
        return True, f(*a, **k)
    except (ValidationError, TypeError) as e:
        return False, e


def cases(tier):
    big = tier != 'quick'
    import dataclasses
    from pydantic_core import ArgsKwargs
    i_, s_, any_ = cs.int_schema(), cs.str_schema(), cs.any_schema()

    class M:
        __slots__ = '__dict__', '__pydantic_extra__', '__pydantic_fields_set__', '__pydantic_private__'

    class SubM(M):
        pass

    class G(M):
        """the origin of a generic class"""

    class G1(G):
        pass

    @dataclasses.dataclass
    class D:
        a: object
        b: object
        f: object

    @dataclasses.dataclass
    class SubD(D):
        pass

    @dataclasses.dataclass
    class DS:
        __slots__ = 'a', 'b', 'f'
        a: object
        b: object
        f: object

    def inst(cls, d, fset=(), extra=None):
        m = cls()
        m.__dict__ = dict(d)
        m.__pydantic_extra__ = extra
        m.__pydantic_fields_set__ = set(fset)
        m.__pydantic_private__ = None
        return m

    def small(s, n):
        return s.int(s.bv(n, 3, 2).zext(32))

    def kwargs_model(**k):
        return k

    WRAPPED = ['no', 'before', 'after', 'wrap', 'ref', 'inner']

    def wrapped(how, sch, inner=False):
        """validators which change nothing around the model"""
        if how == 'before':
            return cs.no_info_before_validator_function(lambda v: v, sch)
        if how == 'after':
            return cs.no_info_after_validator_function(lambda v: v, sch)
        if how == 'wrap':
            return cs.no_info_wrap_validator_function(lambda v, h: h(v), sch)
        if how == 'ref':
            return cs.definitions_schema(cs.definition_reference_schema('r'), [dict(sch, ref='r')])
        return sch

    def state(kind, m):
        if kind == 'slots':
            return {k: getattr(m, k) for k in 'abf'}, None, None
        d = dict(m.__dict__)
        if isinstance(m, D):
            return d, None, None
        e = m.__pydantic_extra__
        return d, None if e is None else dict(e), set(m.__pydantic_fields_set__)

    def unchanged(s, a, b, what):
        for x, y in zip(a, b):
            if isinstance(x, dict):
                s.check(list(x) == list(y) and all(x[k] is y[k] for k in x), what + ' %s %s' % (list(x), list(y)))
            else:
                s.check(x == y, what)

    def assign(kind):
        """kind: ignore, forbid, allow, extras, dataclass, dcallow, slots"""
        isdc = kind in ('dataclass', 'dcallow', 'slots')

        def path(s):
            seen = []

            def fb(v, info):
                seen.append((info.field_name, dict(info.data)))
                return v
            fields = {
                'a': cs.int_schema(lt=5),
                'b': cs.with_info_after_validator_function(fb, cs.nullable_schema(i_), field_name='b'),
                'f': any_,
            }
            if isdc:
                fl = [cs.dataclass_field(k, x, frozen=(k == 'f') or None) for k, x in fields.items()]
                args = cs.dataclass_args_schema('D', fl, extra_behavior='allow' if kind == 'dcallow' else 'ignore')
                cls = DS if kind == 'slots' else D
                sch = cs.dataclass_schema(cls, args, list(fields), slots=kind == 'slots')
            else:
                fl = {k: cs.model_field(x, frozen=(k == 'f') or None) for k, x in fields.items()}
                eb = {'extras': 'allow'}.get(kind, kind)
                ex = dict(extras_schema=cs.int_schema(lt=5)) if kind == 'extras' else {}
                sch = cs.model_schema(M, cs.model_fields_schema(fl, extra_behavior=eb, **ex), extra_behavior=eb)
            how = s.pick('how', len(WRAPPED) - 1)
            v = V(wrapped(WRAPPED[how], sch))
            extras = kind in ('allow', 'extras')
            start = {'a': small(s, 'a'), 'b': None, 'f': [1]}
            if isdc:
                m = cls(**start)
            else:
                m = inst(M, start, (['f'], ['a'], ['a', 'b', 'f'])[how % 3], {'x': 1} if extras else None)
            hidden = kind != 'slots' and s.flag('hidden')
            if hidden:
                m.__dict__['cached'] = 7
            if not extras and not isdc and how in (1, 2):
                m.__dict__ = dict(reversed(list(m.__dict__.items())))
            for step in range(2):
                n = 'n%d' % step
                at = s.oneof(n, ['a', 'b', 'f', 'x', 'z'])
                t = s.pick(n + 't', 3 if step == 0 or big else 2) if at != 'f' else 0
                new = small(s, n + 'v') if t == 0 else ('q' if t == 1 else None)
                before = state(kind, m)
                refused = None
                if at == 'f':
                    refused = 'frozen_field'
                elif at in 'ab' or kind == 'extras':
                    if t == 1:
                        refused = 'int_parsing'
                    elif t == 2 and at != 'b':
                        refused = 'int_type'
                    elif at != 'b' and t == 0 and not bool(s.val(new, 32).slt(cst(32, 5))):
                        refused = 'less_than'
                elif kind not in ('allow', 'dcallow'):
                    refused = 'no_such_attribute'
                what = '%s %s=%r after %d %s' % (kind, at, type(new).__name__, step, WRAPPED[how])
                ok, r = attempt(v.validate_assignment, m, at, new)
                s.check(ok == (refused is None), what + (': refused' if refused is None else ': not refused'))
                if refused:
                    unchanged(s, before, state(kind, m), what + ': refused but changed')
                    e = errs(r)
                    s.check(e == [(refused, (at,))], what + ' error %s' % e)
                    s.check(r.errors()[0]['input'] is new, what + ' input of the error')
                    continue
                s.check(r is m, what + ': another object')
                d, e, fs = before
                if not isdc:
                    fs = fs | {at}
                if isdc or at in 'abf':
                    d[at] = new
                elif e is not None:
                    e[at] = new
                got = state(kind, m)
                s.check(sorted(got[0]) == sorted(d), what + ': attributes %s instead of %s' % (sorted(got[0]), sorted(d)))
                for k in d:
                    if k == at:
                        same(s, got[0][k], d[k], what + ': the value')
                    else:
                        s.check(got[0][k] is d[k], what + ': another attribute')
                s.check((got[1] is None) == (e is None) and (e is None or sorted(got[1]) == sorted(e)), what + ': extras')
                for k in e or ():
                    same(s, got[1][k], e[k], what + ': extra value')
                s.check(got[2] == fs, what + ': fields set %s instead of %s' % (got[2], fs))
                if at == 'b':
                    s.check(len(seen) == 1 and seen[0][0] == 'b', what + ': calls')
                    data = seen[0][1]
                    want = {k: x for k, x in list(before[0].items()) + list((before[1] or {}).items()) if k != 'b' and not (isdc and k not in 'abf')}
                    s.check(sorted(data) == sorted(want) and all(data[k] is want[k] for k in want), what + ': info.data %s instead of %s' % (sorted(data), sorted(want)))
                seen.clear()
        return path

    def whole(s):
        """frozen classes, root models, unsupported schemas"""
        k = s.pick('k', 4)
        x, t = small(s, 'x'), s.flag('bad')
        new = 'q' if t else x
        if k == 0:
            m = inst(M, {'a': 1}, ['a'])
            v = V(cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(i_)}), frozen=True))
            ok, e = attempt(v.validate_assignment, m, 'a', new)
            s.check(not ok and errs(e)[0][0] == 'frozen_instance' and m.__dict__ == {'a': 1}, 'frozen model')
        elif k == 1:
            m = D(1, 2, 3)
            v = V(cs.dataclass_schema(D, cs.dataclass_args_schema('D', [cs.dataclass_field(n, i_) for n in 'abf']), list('abf'), frozen=True))
            ok, e = attempt(v.validate_assignment, m, 'a', new)
            s.check(not ok and errs(e)[0][0] == 'frozen_instance' and m.a == 1, 'frozen dataclass')
        elif k == 2:
            m = inst(M, {'root': 1}, ['root'])
            v = V(cs.model_schema(M, i_, root_model=True))
            other = s.flag('other')
            ok, e = attempt(v.validate_assignment, m, 'a' if other else 'root', new)
            s.check(ok == (not other and not t), 'root model')
            if ok:
                same(s, m.root, x, 'root value')
            else:
                s.check(m.__dict__ == {'root': 1}, 'root model changed')
                e = errs(e)[0]
                s.check(e[0] == ('no_such_attribute' if other else 'int_parsing'), 'root error %s' % (e,))
        else:
            ok, e = attempt(V(i_).validate_assignment, 1, 'a', new)
            s.check(not ok and isinstance(e, TypeError), 'assignment to an int')

    def after_model(s):
        """a function after the model which refuses"""
        x = small(s, 'x')
        m = inst(M, {'a': 1}, [])

        def f(o):
            if o.a == 4:
                raise ValueError('four')
            return o
        which = s.pick('which', 2)
        if which == 0:
            sch = cs.no_info_after_validator_function(f, cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(i_)})))
        else:
            sch = cs.model_schema(M, cs.no_info_after_validator_function(lambda t: f(inst(M, t[0])) and t, cs.model_fields_schema({'a': cs.model_field(i_)})))
        four = bool(s.val(x, 32) == 4)
        ok, r = attempt(V(sch).validate_assignment, m, 'a', x)
        s.check(ok != four, 'function')
        if ok:
            same(s, m.a, x, 'value')
            s.check(m.__pydantic_fields_set__ == {'a'}, 'fields set')
        else:
            s.check(m.a == 1 and m.__pydantic_fields_set__ == set(), 'refused by the function after the %s, but changed' % ('fields' if which else 'model'))

    # ---- inputs

    def snap(v):
        """the value and what it consists of, by identity"""
        if type(v) in (list, tuple):
            return type(v), id(v), [snap(x) for x in v]
        if type(v) is dict:
            return dict, id(v), [(k, snap(x)) for k, x in v.items()]
        if type(v) in (set, frozenset):
            return type(v), id(v), sorted(map(repr, v))
        if isinstance(v, M):
            return M, id(v), snap(v.__dict__), snap(v.__pydantic_extra__), snap(v.__pydantic_fields_set__)
        if dataclasses.is_dataclass(v):
            return D, id(v), snap(v.__dict__)
        return id(v)

    def mutable(v, out):
        """the ids of all mutable containers within"""
        if type(v) in (list, tuple, dict, set):
            if type(v) is not tuple:
                out[id(v)] = v
            for x in (list(v.values()) if type(v) is dict else v):
                mutable(x, out)
        if isinstance(v, M):
            out[id(v)] = v
            for x in (v.__dict__, getattr(v, '__pydantic_extra__', None), v.__pydantic_fields_set__):
                mutable(x, out)
        elif dataclasses.is_dataclass(v):
            out[id(v)] = v
            mutable(v.__dict__, out)
        return out

    def td(**k):
        return cs.typed_dict_schema({n: cs.typed_dict_field(x) for n, x in k.items()}, extra_behavior='allow')

    def mdl(rev=None, allow=False, cls=M, field=i_, **kw):
        eb = 'allow' if allow else 'ignore'
        f = {'a': cs.model_field(field), 'b': cs.model_field(cs.with_default_schema(cs.list_schema(i_), default=[]))}
        return cs.model_schema(cls, cs.model_fields_schema(f, extra_behavior=eb), revalidate_instances=rev, extra_behavior=eb, **kw)

    def dcl(rev=None, field=i_):
        f = [cs.dataclass_field('a', field), cs.dataclass_field('b', cs.list_schema(i_)), cs.dataclass_field('f', any_)]
        return cs.dataclass_schema(D, cs.dataclass_args_schema('D', f), list('abf'), revalidate_instances=rev)

    SHAPES = {
        'list': (cs.list_schema(i_), lambda x: [1, x]),
        'list any': (cs.list_schema(), lambda x: [x, 2]),
        'list strict': (cs.list_schema(i_, strict=True), lambda x: [x]),
        'dict': (cs.dict_schema(s_, i_), lambda x: {'k': x, 'l': 2}),
        'dict any': (cs.dict_schema(), lambda x: {'k': x}),
        'dict of lists': (cs.dict_schema(s_, cs.list_schema(i_)), lambda x: {'k': [x], 'l': [1]}),
        'set': (cs.set_schema(any_), lambda x: {1, 2}),
        'set int': (cs.set_schema(i_), lambda x: {1, 2}),
        'tuple': (cs.tuple_schema([cs.list_schema(i_), cs.list_schema()]), lambda x: ([x], [3])),
        'typeddict': (td(a=i_, b=cs.list_schema(i_)), lambda x: {'a': x, 'b': [1], 'c': 2}),
        'model': (mdl(), lambda x: {'a': x, 'b': [1], 'c': 2}),
        'model allow': (mdl(allow=True), lambda x: {'a': x, 'b': [1], 'c': 2}),
        'always': (mdl('always'), lambda x: inst(M, {'a': x, 'b': [1]}, ['a'])),
        'always allow': (mdl('always', True), lambda x: inst(M, {'a': x, 'b': [1]}, ['a'], {'c': 1})),
        'always in list': (cs.list_schema(mdl('always')), lambda x: [inst(M, {'a': x, 'b': [1]}, ['a'])]),
        'subclass': (mdl('subclass-instances'), lambda x: inst(SubM, {'a': x, 'b': [1]}, ['a'])),
        'dataclass': (dcl(), lambda x: {'a': x, 'b': [1], 'f': 2}),
        'dataclass always': (dcl('always'), lambda x: D(x, [1], 2)),
        'arguments': (cs.arguments_schema([cs.arguments_parameter('a', i_), cs.arguments_parameter('b', cs.list_schema(i_))]), lambda x: ArgsKwargs((x,), {'b': [1]})),
        'union': (cs.union_schema([cs.list_schema(s_), cs.list_schema(i_)]), lambda x: [1, x]),
        'union model': (cs.union_schema([cs.list_schema(s_), mdl('always')]), lambda x: inst(M, {'a': x, 'b': [1]}, ['a'])),
        'tagged': (cs.tagged_union_schema({1: td(k=i_, a=i_), 2: td(k=i_)}, 'k'), lambda x: {'k': 1, 'a': x}),
        'function': (cs.no_info_after_validator_function(lambda v: v, cs.list_schema(i_)), lambda x: [x, 1]),
        'wrap': (cs.no_info_wrap_validator_function(lambda v, h: h(v), cs.dict_schema(s_, i_)), lambda x: {'k': x}),
        'default': (cs.with_default_schema(cs.list_schema(i_), default=[1]), lambda x: [x]),
        'frozenset': (cs.frozenset_schema(i_), lambda x: {1, 2}),
        'generator': (cs.generator_schema(i_), lambda x: [x, 1]),
        'root': (cs.model_schema(M, cs.list_schema(i_), root_model=True, revalidate_instances='always'), lambda x: inst(M, {'root': [x]}, ['root'])),
        'json or python': (cs.json_or_python_schema(s_, cs.list_schema(i_)), lambda x: [x]),
        'chain': (cs.chain_schema([cs.list_schema(i_), cs.list_schema(i_)]), lambda x: [x]),
    }

    def inputs(s):
        names = sorted(SHAPES)
        n = names[s.pick('shape', len(names))]
        sch, make = SHAPES[n]
        t = s.pick('t', 3)
        x = small(s, 'x') if t == 0 else ('q' if t == 1 else '3')
        v = make(x)
        s.quiet(True)
        a = snap(v)
        s.quiet(False)
        strict = s.flag('strict')
        ok, r = attempt(V(sch).validate_python, v, strict=strict or None)
        if ok and n == 'generator':
            ok, r = attempt(list, r)
        s.quiet(True)
        b = snap(v)
        s.quiet(False)
        s.check(a == b, 'the input of %s was changed' % n)
        if ok:
            mine = mutable(v, {})
            theirs = mutable(r, {})
            both = [type(theirs[k]).__name__ for k in theirs if k in mine and n != 'never']
            # (items of lists and dicts without a schema are kept)
            s.check(not both or n in ('tuple',) and False, 'the output of %s shares %s with the input' % (n, both))

    def defaults(s):
        """two validations do not share what they made"""
        n = s.oneof('n', ['model', 'extra', 'typeddict', 'union'])
        k = s.pick('kind', 3)
        if k == 0:
            d = dict(default=[])
        elif k == 1:
            d = dict(default_factory=list)
        else:
            d = dict(default={'k': [1]})
        f = cs.with_default_schema(any_, **d)
        if n == 'model' or n == 'extra':
            sch, x = cs.model_schema(M, cs.model_fields_schema({'a': cs.model_field(f)}, extra_behavior='allow'), extra_behavior='allow'), {'z': 1}
        elif n == 'typeddict':
            sch, x = cs.typed_dict_schema({'a': cs.typed_dict_field(f)}), {}
        else:
            sch, x = cs.union_schema([i_, cs.typed_dict_schema({'a': cs.typed_dict_field(f)})]), {}
        v = V(sch)
        a, b = v.validate_python(x), v.validate_python(x)
        a, b = (mutable(q, {}) for q in (a, b))
        s.check(not set(a) & set(b), 'two outputs of %s share containers' % n)

    def revalidate(s):
        """which instances are validated again, what comes of them"""
        rev = s.oneof('rev', [None, 'never', 'always', 'subclass-instances'])
        kind = s.oneof('kind', ['model', 'allow', 'dataclass', 'root', 'generic'])
        sub = s.flag('sub')
        t = s.pick('t', 3)
        x = small(s, 'x') if t == 0 else ('q' if t == 1 else '3')
        where = s.pick('where', 3)
        fset = ['a'] if s.flag('fs') else []
        strict = s.flag('strict') if kind != 'generic' else False
        again = rev == 'always' or (rev == 'subclass-instances' and sub)
        if kind == 'model':
            sch, v = mdl(rev), inst(SubM if sub else M, {'a': x, 'b': [1]}, fset)
        elif kind == 'allow':
            sch, v = mdl(rev, True), inst(SubM if sub else M, {'a': x, 'b': [1]}, fset, {'z': x})
        elif kind == 'root':
            sch, v = cs.model_schema(M, i_, root_model=True, revalidate_instances=rev), inst(SubM if sub else M, {'root': x}, ['root'] if fset else [])
        elif kind == 'generic':
            # an instance of the origin of the class, or of the class
            sch, v = mdl(rev, cls=G1, generic_origin=G), inst(G if sub else G1, {'a': x, 'b': [1]}, fset)
            again = sub or rev == 'always'
        else:
            sch, v = dcl(rev), (SubD if sub else D)(x, [1], 2)
        if where == 1:
            sch, w = cs.list_schema(sch), [v]
        elif where == 2:
            sch, w = cs.union_schema([s_, sch]), v
        else:
            w = v
        what = '%s %s sub=%s x=%s strict=%s in %d' % (kind, rev, sub, type(x).__name__, strict, where)
        val = V(sch)
        ok, r = attempt(val.validate_python, w, strict=strict or None)
        valid = not again or t == 0 or (t == 2 and not strict)
        s.check(ok == valid, what + (': refused %s' % r if valid else ': accepted'))
        s.check(val.isinstance_python(w, strict=strict or None) == valid, what + ': isinstance')
        if not ok:
            return
        if where == 1:
            r = r[0]
        s.check((r is v) == (not again), what + ': the same object or not')
        if not again:
            return
        s.check(type(r) is {'dataclass': D, 'generic': G1}.get(kind, M), what + ': class')
        y = 3 if t == 2 else x
        same(s, r.__dict__, {'root': y} if kind == 'root' else {'a': y, 'b': [1], 'f': 2} if kind == 'dataclass' else {'a': y, 'b': [1]}, what)
        if kind != 'dataclass':
            s.check(r.__pydantic_fields_set__ == v.__pydantic_fields_set__, what + ': fields set %s instead of %s' % (r.__pydantic_fields_set__, v.__pydantic_fields_set__))
            e = getattr(r, '__pydantic_extra__', None)
            if kind == 'allow':
                same(s, e, {'z': x}, what + ': extra')
            else:
                s.check(e is None, what + ': extra')

    def chain(s):
        """an assignment to what came of an instance does not reach the instance"""
        allow, sub = s.flag('allow'), s.flag('sub')
        x = small(s, 'x')
        v = inst(SubM if sub else M, {'a': 1, 'b': [1]}, ['b'], {'z': 1} if allow else None)
        val = V(mdl('always', allow))
        r = val.validate_python(v)
        at = 'z' if allow and s.flag('z') else 'a'
        val.validate_assignment(r, at, x)
        s.check(v.__dict__ == {'a': 1, 'b': [1]} and v.__pydantic_fields_set__ == {'b'} and v.__pydantic_extra__ == ({'z': 1} if allow else None), 'the instance was changed through what came of it')
        s.check(r.__pydantic_fields_set__ == {'b', at}, 'fields set')

    out = []
    for k in ('ignore', 'forbid', 'allow', 'extras', 'dataclass', 'dcallow', 'slots'):
        out.append(Case('assign ' + k, assign(k), 'two assignments in a row to five names, ints below 8, strings, None; five kinds of wrapping'))
    out += [Case('whole', whole, ''), Case('after model', after_model, ''), Case('inputs', inputs, 'thirty schemas'), Case('defaults', defaults, ''),
            Case('revalidate', revalidate, ''), Case('revalidate and assign', chain, '')]
    return out
