"""C23 - recursive definitions: validated and serialized at every depth as if written out; an object within itself is an error there and nowhere else, whatever was tried before; too deep input is refused."""
from hlib import *
import dataclasses
from pydantic_core import from_json

REF = cs.definition_reference_schema
from pydantic_core._pydantic_core import _recursion_limit as LIMIT


def KNOWN(case, result, inputs):
    if case == 'generator' and inputs.get('gone') and result[0] == 'FAIL':
        return 'generator-reuse'
    return None


class M:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'


@dataclasses.dataclass
class D:
    v: object = None
    l: object = None
    r: object = None


class Obj:
    pass


def inst(d):
    m = M()
    m.__dict__ = d
    m.__pydantic_extra__ = None
    m.__pydantic_fields_set__ = set(d)
    m.__pydantic_private__ = None
    return m


def fields(kind, l, r, v=None):
    v = v or cs.int_schema(ge=2)
    if kind == 'td':
        f = lambda x: cs.typed_dict_field(x, required=False)
        return cs.typed_dict_schema({'v': f(v), 'l': f(l), 'r': f(r)})
    if kind == 'dc':
        f = lambda n, x: cs.dataclass_field(n, cs.with_default_schema(cs.nullable_schema(x), default=None))
        return cs.dataclass_schema(D, cs.dataclass_args_schema('D', [f('v', v), f('l', l), f('r', r)]), ['v', 'l', 'r'], revalidate_instances='always')
    f = lambda x: cs.model_field(cs.with_default_schema(x, default=None))
    return cs.model_schema(M, cs.model_fields_schema({'v': f(v), 'l': f(l), 'r': f(r)}), revalidate_instances='always')


# how a node is written in the schema: (definitions, names of the definitions an l and an r lead to, the kind of container)
def definitions(form):
    n = REF('N')
    if form in ('td', 'model', 'dc'):
        return [dict(fields(form, n, n), ref='N')]
    if form == 'mutual':
        return [dict(fields('td', REF('M'), n), ref='N'), dict(fields('td', n, REF('M')), ref='M')]
    if form == 'list':
        return [cs.list_schema(n, ref='N')]
    if form == 'tuple':
        return [cs.tuple_schema([n], variadic_item_index=0, ref='N')]
    if form == 'dict':
        return [cs.dict_schema(cs.str_schema(), n, ref='N')]
    if form == 'nullable':
        return [cs.nullable_schema(fields('td', n, n), ref='N')]
    if form == 'union':
        u = cs.union_schema([(n, 'N'), (cs.int_schema(), 'I')], mode='left_to_right')
        return [dict(fields('td', u, u), ref='N')]
    if form == 'smart':
        u = cs.union_schema([(cs.int_schema(), 'I'), (n, 'N')])
        return [dict(fields('td', u, u), ref='N')]
    if form == 'tagged':
        u = cs.tagged_union_schema({'N': n}, lambda v: 'N')
        return [dict(fields('td', u, u), ref='N')]
    if form == 'default':
        u = cs.with_default_schema(n, default=7, on_error='default')
        return [dict(fields('td', u, u), ref='N')]
    if form == 'omit':
        u = cs.with_default_schema(n, on_error='omit')
        return [dict(fields('td', u, u), ref='N')]
    if form == 'wrap':
        return [dict(cs.no_info_wrap_validator_function(lambda v, h: h(v), fields('td', n, n), serialization=cs.wrap_serializer_function_ser_schema(lambda v, h: h(v), schema=fields('td', n, n))), ref='N')]
    if form == 'functions':
        u = cs.no_info_after_validator_function(lambda v: v, cs.no_info_before_validator_function(lambda v: v, n))
        return [dict(fields('td', u, cs.lax_or_strict_schema(n, n)), ref='N')]
    if form == 'through':
        return [cs.chain_schema([cs.any_schema(), REF('B')], ref='N'), dict(fields('td', n, REF('C')), ref='B'), cs.nullable_schema(REF('N'), ref='C')]
    raise KeyError(form)


VALIDATED = ['td', 'model', 'dc', 'mutual', 'list', 'tuple', 'dict', 'nullable', 'union', 'smart', 'tagged', 'default', 'omit', 'wrap', 'functions', 'through']


def tried(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'err', e


class Graph:
    """up to three nodes with up to two edges each, chosen where the walk gets to them; the last node has a symbolic digit"""
    def __init__(self, s, make, put, extra=0, digits=True):
        self.s, self.put, self.digits = s, put, digits
        self.obj = [make() for _ in range(3)]
        self.edges = {}
        self.x = s.bv('x', 4, 5).zext(8)
        s.assume(self.x.ule(9))
        self.extra = extra

    def node(self, i):
        if i not in self.edges:
            out = []
            if self.digits:
                v = self.x if i == 2 else cst(8, 5)
                out.append(('v', v))
                self.put(self.obj[i], 'v', self.s.int(self.x.zext(32)) if i == 2 else 5)
            a = self.s.pick('l%d' % i, 4)
            if a:
                out.append(('l', a - 1))
                self.put(self.obj[i], 'l', self.obj[a - 1])
            b = self.s.pick('r%d' % i, 3 if self.extra else 2)
            if b:
                out.append(('r', (i + b) % 3))
                self.put(self.obj[i], 'r', self.obj[(i + b) % 3])
            self.edges[i] = out
        return self.edges[i]


def put_item(o, k, v):
    o[k] = v


def put_seq(o, k, v):
    o.append(v)


def put_attr(o, k, v):
    o.__dict__[k] = v
    if type(o) is M:
        o.__pydantic_fields_set__.add(k)


def cases(tier):
    big = tier != 'quick'

    def check_tree(s, r, t, msg):
        """r is the value of the tree t: {..}, [..], a digit, or a plain value"""
        if isinstance(t, B):
            same(s, r, t.zext(32), msg + ': value')
        elif isinstance(t, dict):
            d = r if type(r) is dict else {k: x for k, x in r.__dict__.items() if x is not None}
            s.check(list(d) == list(t), msg + ': keys')
            for k in t:
                check_tree(s, d[k], t[k], msg)
        elif isinstance(t, list):
            s.check(type(r) in (list, tuple) and len(r) == len(t), msg + ': items')
            for a, b in zip(r, t):
                check_tree(s, a, b, msg)
        else:
            s.check(r is t or r == t, msg + ': plain value')

    def graph(form, mode):
        v = V(cs.definitions_schema(REF('N'), definitions(form)))
        seq = form in ('list', 'tuple')
        num = mode == 'strings'

        def path(s):
            if mode == 'attrs':
                make, put = Obj, put_attr
            elif mode == 'inst':
                make, put = (lambda: inst({})) if form == 'model' else D, put_attr
            elif seq:
                make, put = list, put_seq
            else:
                make, put = dict, put_item
            if num:
                base = put
                put = lambda o, k, x: base(o, k, '5' if x == 5 and k == "v" and type(x) is int and o is not g.obj[2] else s.str([g.x + 48]) if k == 'v' else x)
            g = Graph(s, make, put, 1 if big or form == 'mutual' and mode == 'python' else 0, not seq and form != 'dict')
            other = {'N': 'M', 'M': 'N'}

            def val(i, name, active, loc):
                if (i, name) in active:
                    return None, [('recursion_loop', loc)]
                active = active | {(i, name)}
                if form == 'through':
                    # N is a chain to B, r leads to N through C: C and B are on the way too
                    active = active | {(i, 'B')}
                out, bad = {}, []
                for q, (k, t) in enumerate(g.node(i)):
                    at = loc + (q if seq else k,)
                    if k == 'v':
                        if bool(t.ult(2)):
                            bad.append(('greater_than_equal', at))
                        out[k] = t
                        continue
                    to = name
                    if form == 'mutual':
                        to = {'l': other[name], 'r': 'N' if name == 'N' else 'M'}[k]
                    if form in ('union', 'smart'):
                        o, b = val(t, to, active, at + ('N',))
                        if b:
                            b = b + [('int_type', at + ('I',))] if form == 'union' else [('int_type', at + ('I',))] + b
                    elif form == 'tagged':
                        o, b = val(t, to, active, at + ('N',))
                    else:
                        o, b = val(t, to, active, at)
                    if b and form == 'default':
                        o, b = 7, []
                    if b and form == 'omit':
                        continue
                    bad += b
                    out[k] = o
                if form == 'default':
                    out = {k: out.get(k, 7) for k in 'vlr'}
                return (list(out.values()) if seq else out), bad
            want, bad = val(0, 'N', frozenset(), ())
            if mode == 'strings':
                k, r = attempt(v.validate_strings, g.obj[0])
            else:
                k, r = attempt(v.validate_python, g.obj[0], from_attributes=True if mode == 'attrs' else None)
            s.out(k)
            if bad:
                s.check(k == 'err', 'accepted')
                s.check(errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')
            check_tree(s, r, want, 'result')
        return path
    for form in VALIDATED:
        for mode in ('python', 'strings', 'attrs', 'inst'):
            if mode == 'strings' and form not in ('td', 'mutual', 'model', 'dict') or mode == 'attrs' and form not in ('model',) or mode == 'inst' and form not in ('model', 'dc'):
                continue
            yield Case('%s %s' % (form, mode), graph(form, mode), 'any graph of up to three nodes with edges l and r, one symbolic digit')

    # ---- serialization: forms with a schema, and those inferred from the values ----
    N_SER = SchemaSerializer(cs.model_schema(M, cs.model_fields_schema({k: cs.model_field(cs.any_schema()) for k in 'vlr'})))

    def out(form, mode):
        schema = cs.any_schema() if form.startswith('any') else cs.definitions_schema(REF('N'), definitions(form))
        ser = SchemaSerializer(schema)

        def path(s):
            M.__pydantic_serializer__ = N_SER
            seq = form in ('list', 'tuple', 'any list', 'any tuple in list')
            if form in ('model', 'any model'):
                make, put = (lambda: inst({})), put_attr
            elif seq:
                make, put = list, put_seq
            else:
                make, put = dict, put_item
            if form == 'tuple':
                make, put = dict, put_item
            g = Graph(s, make, put, 1 if big or form == 'any dict' and mode == 'python' else 0, not seq and form != 'dict')
            other = {'N': 'M', 'M': 'N'}

            def val(i, name, active):
                """the tree written, or None if there is a cycle in it (or the value itself where that is returned)"""
                if (i, name) in active:
                    return ('raw', g.obj[i]) if form.startswith('any') and mode == 'python' else None
                active = active | {(i, name)}
                o, dead = {}, False
                for k, t in g.node(i):
                    if k == 'v':
                        o[k] = t
                        continue
                    to = name
                    if form == 'mutual':
                        to = {'l': other[name], 'r': 'N' if name == 'N' else 'M'}[k]
                    o[k] = val(t, to, active)
                    dead |= o[k] is None
                return None if dead else list(o.values()) if seq else o
            want = val(0, 'N', frozenset())
            if mode == 'text':
                k, r = tried(ser.to_json, g.obj[0], warnings='error')
            else:
                k, r = tried(ser.to_python, g.obj[0], mode=mode, warnings='error')
            s.out(k)
            if want is None:
                s.check(k == 'err', 'a cycle was written')
                if form in ('union', 'smart', 'tagged'):
                    return
                s.check(isinstance(r, ValueError), 'kind of error')
                s.quiet(True)
                s.check('Circular reference detected (id repeated)' in str(r), 'error')
                s.quiet(False)
                return
            s.check(k == 'ok', 'refused')
            if mode == 'text':
                r = from_json(r, cache_strings=False)

            def tree(r, t):
                if isinstance(t, tuple):
                    s.check(r is t[1], 'value at a cycle')
                elif isinstance(t, B):
                    same(s, r, t.zext(32), 'value')
                elif isinstance(t, dict):
                    s.check(type(r) is dict and list(r) == list(t), 'keys')
                    for k in t:
                        tree(r[k], t[k])
                else:
                    s.check(type(r) is list and len(r) == len(t), 'items')
                    for a, b in zip(r, t):
                        tree(a, b)
            tree(r, want)
        return path
    for form in ('td', 'model', 'mutual', 'list', 'dict', 'nullable', 'union', 'smart', 'tagged', 'default', 'wrap', 'any dict', 'any list', 'any model'):
        for mode in ('python', 'json', 'text'):
            if not big and mode == 'json' and form not in ('model', 'any dict'):
                continue
            yield Case('write %s %s' % (form, mode), out(form, mode), 'any graph of up to three nodes with edges l and r, one symbolic digit')

    # ---- depth ----
    def chain(n, x, key='l'):
        """n nodes within each other, and the nodes; the innermost has v"""
        o = {'v': x}
        all = [o]
        for _ in range(n - 1):
            o = {key: o}
            all.append(o)
        return all[::-1]

    node = dict(fields('td', REF('N'), REF('N')), ref='N')
    flt = (cs.bool_schema(), 'I')
    deep = {
        'union': V(cs.definitions_schema(cs.list_schema(cs.union_schema([(REF('N'), 'N'), flt], mode='left_to_right')), [node])),
        'smart': V(cs.definitions_schema(cs.list_schema(cs.union_schema([(REF('N'), 'N'), flt])), [node])),
        'default': V(cs.definitions_schema(cs.list_schema(cs.with_default_schema(REF('N'), default=7, on_error='default')), [node])),
        'omit': V(cs.definitions_schema(cs.list_schema(cs.with_default_schema(REF('N'), on_error='omit')), [node])),
        'list': V(cs.definitions_schema(cs.list_schema(REF('N')), [node])),
    }

    def depth(form, mode):
        v = deep[form]

        def path(s):
            n = LIMIT + s.pick('n', 3) - 1
            x = s.bv('x', 4, 5).zext(8)
            s.assume(x.ule(9))
            nodes = chain(n, s.int(x.zext(32)))
            at = min(n - 1, [0, 1, n // 2, LIMIT - 1, n][s.pick('at', 5)])
            items = [nodes[0]] * (1 + s.pick('twice', 2)) + [nodes[at]]
            k, r = attempt(v.validate_python, items)
            bad, want = [], []
            for i, d in enumerate([n] * (len(items) - 1) + [n - at]):
                if d > LIMIT:
                    e = [('recursion_loop', (i,) + (('N',) if form in ('union', 'smart') else ()) + ('l',) * LIMIT)]
                elif bool(x.ult(2)):
                    e = [('greater_than_equal', (i,) + (('N',) if form in ('union', 'smart') else ()) + ('l',) * (d - 1) + ('v',))]
                else:
                    want.append(d)
                    continue
                if form == 'default':
                    want.append(7)
                elif form != 'omit':
                    bad += e
                    if form in ('union', 'smart'):
                        bad.append(('bool_type', (i, 'I')))
            s.out(k)
            if bad:
                s.check(k == 'err', 'accepted')
                s.check(errs(r) == bad, 'errors')
                return
            s.check(k == 'ok', 'rejected')
            s.check(len(r) == len(want), 'items')
            for o, d in zip(r, want):
                if o == 7:
                    s.check(form == 'default' and d == 7, 'default')
                    continue
                for _ in range(d - 1):
                    o = o['l']
                same(s, o['v'], x.zext(32), 'value')
        return path
    for form in deep:
        yield Case('depth ' + form, depth(form, 'python'), 'chains of as many nodes as the limit, one more and one less, once or twice, then a node of one of them')

    def deep_out(form, mode):
        ser = SchemaSerializer(cs.any_schema() if form == 'any' else cs.definitions_schema(cs.list_schema(REF('N')), [node]))

        def path(s):
            n = LIMIT + s.pick('n', 5) - 3
            x = s.bv('x', 4, 5).zext(8)
            s.assume(x.ule(9))
            nodes = chain(n, s.int(x.zext(32)))
            at = min(n - 1, [0, 1, n // 2, LIMIT - 1, n][s.pick('at', 5)])
            items = [nodes[0]] * (1 + s.pick('twice', 2)) + [nodes[at]]
            if mode == 'text':
                k, r = tried(ser.to_json, items)
            else:
                k, r = tried(ser.to_python, items, mode=mode)
            # what is on the way to the innermost value: the list and the value itself count where they are inferred
            if n + (2 if form == 'any' else 0) > LIMIT and (form != 'any' or mode != 'python'):
                s.check(k == 'err' and isinstance(r, ValueError), 'accepted')
                s.quiet(True)
                s.check('Circular reference detected (depth exceeded)' in str(r), 'error')
                s.quiet(False)
                return
            s.check(k == 'ok', 'rejected')
            if mode == 'text':
                # (deeper than what from_json takes)
                text = [cst(8, 91)]
                for i, d in enumerate([n] * (len(items) - 1) + [n - at]):
                    text += [cst(8, c) for c in (b',' if i else b'') + b'{"l":' * (d - 1) + b'{"v":'] + [x + 48] + [cst(8, 125)] * d
                text.append(cst(8, 93))
                r = s.content(r)
                s.check(len(r) == len(text), 'length of the text')
                s.check(all_([a == b for a, b in zip(r, text)]), 'text')
                return
            s.check(len(r) == len(items), 'items')
            for o, src, d in zip(r, items, [n] * (len(items) - 1) + [n - at]):
                for i in range(d):
                    if mode == 'python' and form == 'any' and i + 2 > LIMIT:
                        s.check(o is src, 'too deep: the value itself')
                    else:
                        s.check(o is not src, 'not copied')
                    if i < d - 1:
                        o, src = o['l'], src['l']
                same(s, o['v'], x.zext(32), 'value')
        return path
    for form in ('any', 'td'):
        for mode in ('python', 'json', 'text'):
            yield Case('depth write %s %s' % (form, mode), deep_out(form, mode), 'chains of nodes around the limit, once or twice, then a node of one of them')

    # ---- history: a validator and a serializer know nothing of what they were given before ----
    once = {f: (V(cs.definitions_schema(REF('N'), definitions(f))), SchemaSerializer(cs.definitions_schema(REF('N'), definitions(f)))) for f in ('td', 'mutual', 'wrap')}

    def history(form):
        v, ser = once[form]

        def path(s):
            x = s.bv('x', 4, 5).zext(8)
            s.assume(x.ule(9))
            for step in range(3):
                what = s.pick('what%d' % step, 5)
                a = {'v': s.int(x.zext(32))}
                b = {'l': a}
                if what == 0:
                    a['l'] = b
                elif what == 1:
                    b = {'l': a, 'r': a}
                elif what == 2:
                    b = chain(LIMIT + 1, 5)[0]
                if what == 3:
                    k, r = tried(ser.to_python, b)
                elif what == 4:
                    a['l'] = b
                    k, r = tried(ser.to_json, b)
                else:
                    k, r = attempt(v.validate_python, b)
                if what == 3:
                    s.check(k == 'ok', 'serializer refused')
                    same(s, r['l']['v'], x.zext(32), 'value written')
                elif what == 4:
                    s.check(k == 'err' and isinstance(r, ValueError), 'a cycle was written')
                elif what == 2 and form != 'wrap':
                    s.check(k == 'err' and errs(r) == [('recursion_loop', ('l',) * LIMIT)], 'too deep')
                elif what == 2:
                    s.check(k == 'err', 'too deep')
                else:
                    bad = [('greater_than_equal', ('l', 'v'))] if bool(x.ult(2)) else []
                    if what == 0:
                        bad.append(('recursion_loop', ('l', 'l')) if form != 'mutual' else ('recursion_loop', ('l', 'l')))
                    elif what == 1 and bad:
                        bad.append(('greater_than_equal', ('r', 'v')))
                    if bad:
                        s.check(k == 'err' and errs(r) == bad, 'errors')
                    else:
                        s.check(k == 'ok', 'rejected')
                        same(s, r['l']['v'], x.zext(32), 'value')
        return path
    for form in once:
        yield Case('history ' + form, history(form), 'three values in a row: cyclic, shared, too deep, written, cyclic and written')

    # ---- definitions are what they would be written out ----
    def inline(form):
        leaf = cs.with_default_schema(cs.int_schema(ge=2), default=3)
        names = cs.str_schema(max_length=1)
        inner = lambda x, y: cs.typed_dict_schema({'p': cs.typed_dict_field(x, required=False), 'q': cs.typed_dict_field(cs.list_schema(y, max_length=2), required=False)}, extra_behavior='forbid')
        top = lambda a, b, c: cs.typed_dict_schema({'a': cs.typed_dict_field(a), 'b': cs.typed_dict_field(cs.dict_schema(b, a), required=False), 'c': cs.typed_dict_field(cs.nullable_schema(c), required=False), 'd': cs.typed_dict_field(c, required=False)})
        out = top(inner(leaf, names), names, leaf)
        defs = {'A': inner(REF('L'), REF('S')), 'S': names, 'L': leaf}
        order = {'before': 'LSA', 'after': 'ASL'}
        if form == 'nested':
            refs = cs.definitions_schema(cs.definitions_schema(top(REF('A'), REF('S'), REF('L')), [dict(defs['A'], ref='A')]), [dict(defs['S'], ref='S'), dict(defs['L'], ref='L')])
        else:
            refs = cs.definitions_schema(top(REF('A'), REF('S'), REF('L')), [dict(defs[k], ref=k) for k in order[form]])
        both = [(V(z), SchemaSerializer(z)) for z in (out, refs)]

        def path(s):
            x, y = s.bv('x', 4, 5).zext(8), s.bv('y', 4, 5).zext(8)
            s.assume(x.ule(9))
            s.assume(y.ule(9))
            xi, yi = s.int(x.zext(32)), s.int(y.zext(32))
            def a(n):
                o = {}
                w = s.pick('p' + n, 3)
                if w:
                    o['p'] = xi if w == 1 else 'bad'
                w = s.pick('q' + n, 4)
                if w:
                    o['q'] = [None, ['u'], ['u', 'vv'], ['u', 'v', 'w']][w]
                return o
            v = {'a': a('a')}
            if s.flag('b'):
                v['b'] = {'k': {'p': yi}}
                if s.flag('b2'):
                    v['b']['kk'] = {'z': 1}
            w = s.pick('c', 4)
            if w:
                v['c'] = [None, None, yi, 'bad'][w]
            if s.flag('d'):
                v['d'] = xi
            got = [attempt(z[0].validate_python, v) for z in both]
            s.out(got[0][0])
            s.check(got[0][0] == got[1][0], 'accepted by one')
            if got[0][0] == 'err':
                s.check(errs(got[0][1]) == errs(got[1][1]), 'errors')
                return
            def eq(a, b):
                if type(a) is dict:
                    s.check(list(a) == list(b), 'keys')
                    for k in a:
                        eq(a[k], b[k])
                elif type(a) is list:
                    s.check(len(a) == len(b), 'items')
                    for i, k in zip(a, b):
                        eq(i, k)
                else:
                    s.check(a is b or bool(a == b), 'value')
            eq(got[0][1], got[1][1])
            for mode in ('python', 'json'):
                eq(*[z[1].to_python(got[0][1], mode=mode) for z in both])
            eq(s.content(both[0][1].to_json(got[0][1])), s.content(both[1][1].to_json(got[0][1])))
        return path
    for form in ('before', 'after', 'nested'):
        yield Case('written out ' + form, inline(form), 'a typed dict of definitions which refer to each other, and the same schema written out')

    gen = V(cs.definitions_schema(REF('G'), [cs.typed_dict_schema({'v': cs.typed_dict_field(cs.int_schema(ge=2), required=False), 'n': cs.typed_dict_field(cs.generator_schema(REF('G')), required=False)}, ref='G')]))

    def lazily(s):
        """an item which a generator yields later has nothing to do with an object which is no more"""
        x = s.bv('x', 4, 5).zext(8)
        s.assume(x.ule(9))
        gone = s.flag('gone')

        def items():
            kept = []
            for _ in range(9):
                d = {'v': s.int(x.zext(32))}
                kept.append(d)
                yield d
        d = {'n': items()}
        r = gen.validate_python(d)
        if gone:
            del d
        try:
            k, r = 'ok', list(r['n'])
        except ValidationError as e:
            k, r = 'err', e
        if bool(x.ult(2)):
            s.check(k == 'err' and errs(r) == [('greater_than_equal', (0, 'v'))], 'errors')
            return
        s.check(k == 'ok', 'rejected')
        for o in r:
            same(s, o['v'], x.zext(32), 'value')
    yield Case('generator', lazily, 'items of a generator, at the address of an object which is gone or not')

    def ring(form):
        v = V(cs.definitions_schema(REF('N'), definitions(form)))
        ser = SchemaSerializer(cs.definitions_schema(REF('N'), definitions(form)))
        inferred = SchemaSerializer(cs.any_schema())

        def path(s):
            n = [1, 2, 8, 15, 16, 17, 18, 19, 33][s.pick('n', 9)]
            to = min(n - 1, [0, 1, 7, 14, 15, 16, 17, 18, n - 1][s.pick('to', 9)])
            closed = s.flag('closed')
            x = s.bv('x', 4, 5).zext(8)
            s.assume(x.ule(9))
            nodes = chain(n, s.int(x.zext(32)))
            if closed:
                nodes[-1]['l'] = nodes[to]
            k, r = attempt(v.validate_python, nodes[0])
            bad = [('greater_than_equal', ('l',) * (n - 1) + ('v',))] if bool(x.ult(2)) else []
            if closed:
                bad.append(('recursion_loop', ('l',) * n))
            if bad:
                s.check(k == 'err', 'accepted')
                s.check(errs(r) == bad, 'errors')
            else:
                s.check(k == 'ok', 'rejected')
            for f in (ser.to_python, ser.to_json, inferred.to_json):
                k, r = tried(f, nodes[0])
                s.check(k == ('err' if closed else 'ok'), 'written' if closed else 'refused')
            o = inferred.to_python(nodes[0])
            for i in range(n):
                s.check(o is not nodes[i], 'not copied')
                if i == n - 1:
                    same(s, o['v'], x.zext(32), 'value')
                o = o.get('l')
            s.check(o is nodes[to] if closed else o is None, 'where it closes')
        return path
    for form in ('td', 'wrap'):
        yield Case('ring ' + form, ring(form), 'chains of up to 33 objects, open or leading back to any of them near the ends and around the sixteenth')
