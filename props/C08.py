"""C08 - literals and enums accept exactly the values listed, and return the listed value or the member."""
from hlib import *
import enum

BIG = 2 ** 70


class Plain(enum.Enum):
    a = 1
    b = 'x'
    c = 300
    d = 'yz'
    e = BIG


class Ints(int, enum.Enum):
    a = 1
    b = -5
    c = 2 ** 40
    d = BIG


class Strs(str, enum.Enum):
    a = 'x'
    b = 'yz'
    c = 'Xy'


class Floats(float, enum.Enum):
    a = 1.5
    b = 2.0
    c = -0.25


class WithNone(enum.Enum):
    n = None
    t = 'x'
    i = 7


def cases(tier):
    big = tier != 'quick'
    LITS = {
        'ints': [1, -5, 300, 2 ** 62, BIG],
        'strs': ['x', 'yz', 'Xy', ''],
        'mixed': [1, 'x', None, 2.5, BIG, 'yz', b'x'],
        'bools': [True, 0, 'x'],
        'twos': [False, 1, 2],
    }

    def eq(x, e):
        """condition: the symbolic int x equals the listed value e"""
        if isinstance(e, (int, float)) and e == int(e):
            return x == cst(x.w, int(e))
        return false()

    def lit_int(name, strict):
        def path(s):
            v = V(cs.literal_schema(LITS[name]), strict=strict)
            x = s.bv('x', 80, 1)
            o = s.int(x)
            k, r = attempt(v.validate_python, o)
            hit = any_([eq(x, e) for e in LITS[name]])
            if k == 'ok':
                s.check(hit, 'accepted an int which is not listed')
                s.check(type(r) in (int, bool) and r in LITS[name], 'result is a listed value')
                s.check(x == cst(80, int(r)), 'result equals the input')
                exact = [e for e in LITS[name] if type(e) is int and e == r]
                s.check(not exact or type(r) is int, 'the listed int is preferred')
            else:
                s.check(errs(r) == [('literal_error', ())], 'error')
                s.check(hit ^ 1, 'rejected a listed int')
        return path
    for name in LITS:
        for strict in (False, True):
            yield Case('lit-%s-int%s' % (name, '-strict' if strict else ''), lit_int(name, strict), 'literal %r, every 80-bit int%s' % (LITS[name], ', strict' if strict else ''))

    def lit_text(name, how, n):
        def path(s):
            v = V(cs.literal_schema(LITS[name]), strict=s.flag('strict'))
            ch = s.chars('c', n, default='xyz')
            if how == 'json':
                for c in ch:
                    s.assume((c != 34) & (c != 92) & c.uge(32))
                k, r = attempt(v.validate_json, s.bytes([34] + ch + [34]))
            elif how == 'bytes':
                k, r = attempt(v.validate_python, s.bytes(ch))
            else:
                k, r = attempt(v.validate_python if how == 'str' else v.validate_strings, s.str(ch))
            t = bytes if how == 'bytes' else str
            want = [e for e in LITS[name] if type(e) is t and len(e) == n]
            hit = any_([all_([c == (e[i] if t is bytes else ord(e[i])) for i, c in enumerate(ch)]) for e in want])
            if k == 'ok':
                s.check(hit, 'accepted text which is not listed')
                s.check(type(r) is t and r in want, 'result is a listed value')
                s.check(all_([c == (r[i] if t is bytes else ord(r[i])) for i, c in enumerate(ch)]), 'result equals the input')
            else:
                s.check(errs(r) == [('literal_error', ())], 'error')
                s.check(hit ^ 1, 'rejected listed text')
        return path
    for name in ('ints', 'strs', 'mixed', 'bools'):
        for how in ('str', 'json', 'bytes', 'strings'):
            for n in (0, 1, 2, 3) if how != 'strings' or name == 'strs' else ():
                yield Case('lit-%s-%s%d' % (name, how, n), lit_text(name, how, n), 'literal %r, every ASCII text of %d characters as %s' % (LITS[name], n, how))

    def lit_float(s):
        name = s.oneof('name', list(LITS))
        v = V(cs.literal_schema(LITS[name]))
        x = s.bv('x', 64, 0x3ff0000000000000)
        k, r = attempt(v.validate_python, s.float(x))
        hit = any_([x.feq(fcst(float(e))) for e in LITS[name] if isinstance(e, (int, float))])
        if k == 'ok':
            s.check(hit, 'accepted')
            s.check(type(r) in (int, float, bool) and r in LITS[name], 'result is a listed value')
            s.check(x.feq(fcst(float(r))), 'result equals the input')
        else:
            s.check(errs(r) == [('literal_error', ())], 'error')
            s.check(hit ^ 1, 'rejected a listed number')
    yield Case('lit-float', lit_float, 'every literal set above, every float64')

    def lit_jsonint(n):
        def path(s):
            name = s.oneof('name', list(LITS))
            v = V(cs.literal_schema(LITS[name]))
            ds = s.chars('c', n, default='300', alphabet='0123456789')
            s.assume(ds[0] != 48) if n > 1 else None
            neg = s.flag('neg')
            x = cst(32, 0)
            for d in ds:
                x = x * 10 + (d - 48).zext(32)
            if neg:
                x = -x
            k, r = attempt(v.validate_json, s.bytes(([45] if neg else []) + ds))
            hit = any_([x == cst(32, int(e)) for e in LITS[name] if isinstance(e, (int, float)) and abs(e) < 2 ** 31 and e == int(e)])
            if k == 'ok':
                s.check(hit, 'accepted')
                s.check(type(r) in (int, bool) and r in LITS[name] and True, 'result is a listed value')
                s.check(x == cst(32, int(r)), 'result equals the input')
            else:
                s.check(errs(r) == [('literal_error', ())], 'error')
                s.check(hit ^ 1, 'rejected a listed number')
        return path
    for n in (1, 2, 3):
        yield Case('lit-json-int%d' % n, lit_jsonint(n), 'JSON ints of %d digits and a sign' % n)

    def lit_other(s):
        name = s.oneof('name', list(LITS) + ['none', 'lists'])
        lst = LITS.get(name) or {'none': [None], 'lists': [[1], (2,), 'x']}[name]
        v = V(cs.literal_schema(lst))
        x = s.oneof('x', [None, True, False, [1], (2,), [], {}, {'a': 1}, object(), 'x', 1.5, 2.5, b'x', BIG, -BIG, 2 ** 63, -2 ** 63 - 1, Plain.a, Ints.a, Strs.a])
        k, r = attempt(v.validate_python, x)
        same = [e for e in lst if type(e) is type(x) and e == x]
        like = [e for e in lst if e == x]
        s.out(k)
        if k == 'ok':
            s.check(like, 'accepted')
            s.check(any(r is e for e in like), 'result is the listed object')
            s.check(not same or type(r) is type(x), 'the value of the same type is preferred')
        else:
            s.check(errs(r) == [('literal_error', ())], 'error')
            s.check(not like, 'rejected')
    yield Case('lit-other', lit_other, 'other objects against every literal set')

    def schema(E, sub=None, **kw):
        if sub:
            kw['sub_type'] = sub
        return cs.enum_schema(E, list(E.__members__.values()), **kw)

    def en_int(E, sub):
        def path(s):
            strict = s.flag('strict')
            v = V(schema(E, sub, strict=strict))
            x = s.bv('x', 80, 1)
            how = s.pick('how', 2)
            if how == 0:
                k, r = attempt(v.validate_python, s.int(x))
            else:
                # as an int inside JSON: at most one digit and a sign
                s.assume(x.sbetween(-9, 9))
                neg = bool(x.slt(0))
                m = -x if neg else x
                k, r = attempt(v.validate_json, s.bytes(([45] if neg else []) + [m.bits(0, 8) + 48]))
            vals = [m for m in E if isinstance(m.value, (int, float)) and m.value == int(m.value)]
            hit = any_([x == cst(80, int(m.value)) for m in vals])
            if strict and how == 0:
                s.check(k == 'err' and errs(r) == [('is_instance_of', ())], 'strict enum from an int')
            elif k == 'ok':
                s.check(hit, 'accepted an int which is no member value')
                s.check(type(r) is E, 'result is a member')
                s.check(x == cst(80, int(r.value)), 'the member has that value')
            else:
                s.check(errs(r) == [('enum', ())], 'error')
                s.check(hit ^ 1, 'rejected the value of a member')
        return path
    for E, sub in ((Plain, None), (Ints, None), (Ints, 'int'), (Floats, 'float'), (WithNone, None), (Strs, 'str')):
        yield Case('enum-%s-%s-int' % (E.__name__, sub), en_int(E, sub), 'every 80-bit int and JSON ints -9..9 for %s%s' % (E.__name__, ', sub_type %s' % sub if sub else ''))

    def en_text(E, sub, how, n):
        def path(s):
            strict = s.flag('strict')
            v = V(schema(E, sub, strict=strict))
            ch = s.chars('c', n, default='xyz')
            if how == 'json':
                for c in ch:
                    s.assume((c != 34) & (c != 92) & c.uge(32))
                k, r = attempt(v.validate_json, s.bytes([34] + ch + [34]))
            else:
                k, r = attempt(v.validate_python, s.str(ch))
            vals = [m for m in E if type(m.value) is str and len(m.value) == n]
            hit = any_([all_([c == ord(a) for c, a in zip(ch, m.value)]) for m in vals])
            if strict and how == 'str':
                s.check(k == 'err' and errs(r) == [('is_instance_of', ())], 'strict enum from a str')
            elif k == 'ok':
                s.check(hit, 'accepted text which is no member value')
                s.check(type(r) is E and r in vals, 'result is a member')
                s.check(all_([c == ord(a) for c, a in zip(ch, r.value)]), 'the member has that value')
            else:
                s.check(errs(r) == [('enum', ())], 'error')
                s.check(hit ^ 1, 'rejected the value of a member')
        return path
    for E, sub in ((Plain, None), (Strs, 'str'), (Strs, None), (WithNone, None)):
        for how in ('str', 'json'):
            for n in (1, 2, 3):
                yield Case('enum-%s-%s-%s%d' % (E.__name__, sub, how, n), en_text(E, sub, how, n), 'every ASCII text of %d characters as %s for %s' % (n, how, E.__name__))

    def en_float(E, sub):
        def path(s):
            v = V(schema(E, sub))
            x = s.bv('x', 64, 0x3ff0000000000000)
            k, r = attempt(v.validate_python, s.float(x))
            hit = any_([x.feq(fcst(float(m.value))) for m in E if isinstance(m.value, (int, float))])
            if k == 'ok':
                s.check(hit, 'accepted')
                s.check(type(r) is E and x.feq(fcst(float(r.value))), 'the member has that value')
            else:
                s.check(errs(r) == [('enum', ())], 'error')
                s.check(hit ^ 1, 'rejected the value of a member')
        return path
    for E, sub in ((Plain, None), (Ints, 'int'), (Floats, 'float'), (Floats, None), (WithNone, None)):
        yield Case('enum-%s-%s-float' % (E.__name__, sub), en_float(E, sub), 'every float64 for %s' % E.__name__)

    def en_other(s):
        E = s.oneof('E', [Plain, Ints, Strs, Floats, WithNone])
        sub = {Ints: 'int', Strs: 'str', Floats: 'float'}.get(E) if s.flag('sub') else None
        strict = s.flag('strict')
        v = V(schema(E, sub, strict=strict))
        if s.flag('json'):
            j, x = s.oneof('j', [(b'null', None), (b'true', True), (b'[1]', [1]), (b'{"a":1}', {'a': 1}), (b'1.5', 1.5), (str(BIG).encode(), BIG), (str(BIG + 1).encode(), BIG + 1), (b'"1"', '1'), (b'"zzz"', 'zzz')])
            k, r = attempt(v.validate_json, j)
        else:
            x = s.oneof('x', list(E) + [Plain.b, Ints.b, None, True, [1], {}, object(), BIG, BIG + 1, b'x', 'nope'])
            k, r = attempt(v.validate_python, x)
            if type(x) is E:
                s.check(k == 'ok' and r is x, 'a member stays itself')
                return
            if strict:
                s.check(k == 'err' and errs(r) == [('is_instance_of', ())], 'strict enum')
                return
        s.out(k)
        if k == 'ok':
            s.check(type(r) is E and (r.value == x or (sub == 'int' and str(r.value) == str(x)) or (sub == 'str' and isinstance(x, bytes) and r.value == x.decode()) or (sub == 'str' and r.value == getattr(x, 'value', None)) or (isinstance(x, enum.Enum) and r.value == x.value)), 'the member has that value')
        else:
            s.check(errs(r) == [('enum', ())], 'error')
            hit = [m for m in E if type(m.value) is type(x) and m.value == x]
            s.check(not hit, 'rejected the value of a member')
    yield Case('enum-other', en_other, 'other objects and JSON values for every enum')

    def missing(s):
        """the `missing` hook: only asked for values of no member; its answer must be a member or None"""
        ans = s.oneof('ans', [None, 'member', 'bad', 'raise'])

        def hook(x):
            asked.append(x)
            if ans == 'raise':
                raise ValueError('no')
            return {'member': Plain.c, 'bad': 5}.get(ans)
        asked = []
        v = V(cs.enum_schema(Plain, list(Plain), missing=hook))
        x = s.bv('x', 70, 1)
        hit = any_([x == cst(70, m.value) for m in Plain if type(m.value) is int and m.value < 2 ** 69])
        member = bool(hit)
        try:
            k, r = attempt(v.validate_python, s.int(x))
        except TypeError:
            k, r = 'type', None
        if member:
            s.check(k == 'ok' and not asked, 'hook not asked')
            s.check(x == r.value, 'value')
        else:
            s.check(len(asked) == 1, 'hook asked')
            s.check({None: k == 'err', 'member': k == 'ok' and r is Plain.c, 'bad': k == 'type', 'raise': k == 'err'}[ans], 'outcome of the hook')
    yield Case('missing', missing, 'every 70-bit int, every kind of answer')
