"""Shared helpers of the harnesses."""
from sx import *  # noqa: F401,F403
import sx
from pydantic_core import SchemaValidator, SchemaSerializer, ValidationError, core_schema as cs  # noqa: F401
import pydantic_core


class Case:
    def __init__(self, name, path, bounds='', timeout=120, warm=()):
        self.name, self.path, self.bounds, self.timeout, self.warm = name, path, bounds, timeout, list(warm)


def V(schema, **config):
    c = {'cache_strings': False}
    c.update(config)
    return SchemaValidator(schema, c)


def attempt(f, *a, **k):
    """('ok', value) or ('err', ValidationError)"""
    try:
        return 'ok', f(*a, **k)
    except ValidationError as e:
        return 'err', e


def errs(e):
    """[(type, loc)] of a ValidationError; the message is rendered from the concrete values only"""
    if sx.L is not None:
        sx.L.sx_quiet(1)
    try:
        return [(x['type'], x['loc']) for x in e.errors(include_url=False, include_input=False, include_context=False)]
    finally:
        if sx.L is not None:
            sx.L.sx_quiet(0)


def leap(y):
    """y: 16+ bit value"""
    return ((y & 3) == 0) & (((y.urem(100)) != 0) | (y.urem(400) == 0))


def ymd_ok(y, m, d):
    """term: a date of the proleptic Gregorian calendar (years from 1); 32-bit values"""
    dim = (m == 2).ite(leap(y).ite(cst(y.w, 29), cst(y.w, 28)), m.isin((4, 6, 9, 11)).ite(cst(y.w, 30), cst(y.w, 31)))
    return y.between(1, 9999) & m.between(1, 12) & d.uge(1) & d.ule(dim)


def sym_date(s, n, free='ymd', base=(2020, 2, 28)):
    y = s.bv(n + 'y', 14, base[0]).zext(32) if 'y' in free else cst(32, base[0])
    m = s.bv(n + 'm', 4, base[1]).zext(32) if 'm' in free else cst(32, base[1])
    d = s.bv(n + 'd', 5, base[2]).zext(32) if 'd' in free else cst(32, base[2])
    s.assume(ymd_ok(y, m, d))
    return [y, m, d]


def sym_time(s, n, free='hmsu', base=(12, 30, 15, 250000)):
    w, lim = (5, 6, 6, 20), (23, 59, 59, 999999)
    out = []
    for i, k in enumerate('hmsu'):
        if k in free:
            x = s.bv(n + 'hisu'[i], w[i], base[i]).zext(32)
            s.assume(x.ule(lim[i]))
        else:
            x = cst(32, base[i])
        out.append(x)
    return out


def lex_cmp(s, a, b):
    """-1, 0, 1: forks on the fields in order"""
    for x, y in zip(a, b):
        if bool(x == y):
            continue
        return -1 if bool(x.slt(y)) else 1
    return 0


def ops_ok(c, op):
    return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[op]


OPERR = {'lt': 'less_than', 'le': 'less_than_equal', 'gt': 'greater_than', 'ge': 'greater_than_equal'}


def same(s, a, b, msg, w=96):
    """a and b: results, or 32-bit (int) / 64-bit (float) values / lists of characters - equal in type and value"""
    if isinstance(a, B) or isinstance(b, B):
        if isinstance(a, B):
            a, b = b, a
        if isinstance(a, B):
            s.check(a == b, msg)
        elif type(a) is float:
            s.check(s.fbits(a) == b, msg)
        else:
            s.check(type(a) is int, msg + ' (type)')
            s.check(s.val(a, w) == b.sext(w), msg)
        return
    s.check(type(a) is type(b), msg + ' (type)')
    if a is b:
        return
    if type(a) is int:
        s.check(s.val(a, w) == s.val(b, w), msg)
    elif type(a) is float:
        s.check(s.fbits(a) == s.fbits(b), msg)
    elif type(a) in (str, bytes):
        x, y = s.content(a), s.content(b)
        s.check(len(x) == len(y), msg + ' (length)')
        s.check(all_([p == q for p, q in zip(x, y)]), msg)
    elif isinstance(a, (list, tuple)):
        s.check(len(a) == len(b), msg + ' (length)')
        for x, y in zip(a, b):
            same(s, x, y, msg, w)
    elif type(a) is dict:
        s.check(list(a) == list(b), msg + ' (keys)')
        for x, y in zip(a.values(), b.values()):
            same(s, x, y, msg, w)
    elif hasattr(a, '__dict__'):
        same(s, a.__dict__, b.__dict__, msg, w)
    else:
        s.check(a == b, msg)


def uchar(s, name, maxlen=4):
    """one symbolic character: (bytes, code point term); the encoded length is a fork"""
    k = s.pick(name + 'k', maxlen)
    if k == 0:
        b = s.bv(name + 'a', 7, 97).zext(8)
        return [b], b.zext(32)
    if k == 1:
        b0, b1 = s.bv(name + 'b', 8, 0xc3), s.bv(name + 'c', 8, 0xa9)
        s.assume(b0.between(0xc2, 0xdf) & b1.between(0x80, 0xbf))
        return [b0, b1], ((b0 & 0x1f).zext(32) * 64) | (b1 & 0x3f).zext(32)
    if k == 2:
        b0, b1, b2 = s.bv(name + 'b', 8, 0xe2), s.bv(name + 'c', 8, 0x82), s.bv(name + 'd', 8, 0xac)
        s.assume(b0.between(0xe0, 0xef) & b1.between(0x80, 0xbf) & b2.between(0x80, 0xbf))
        cp = ((b0 & 0xf).zext(32) * 4096) | ((b1 & 0x3f).zext(32) * 64) | (b2 & 0x3f).zext(32)
        s.assume(cp.uge(0x800) & (cp.between(0xd800, 0xdfff) ^ 1))
        return [b0, b1, b2], cp
    b0, b1, b2, b3 = s.bv(name + 'b', 8, 0xf0), s.bv(name + 'c', 8, 0x9f), s.bv(name + 'd', 8, 0x98), s.bv(name + 'e', 8, 0x80)
    s.assume(b0.between(0xf0, 0xf4) & b1.between(0x80, 0xbf) & b2.between(0x80, 0xbf) & b3.between(0x80, 0xbf))
    cp = ((b0 & 7).zext(32) * 262144) | ((b1 & 0x3f).zext(32) * 4096) | ((b2 & 0x3f).zext(32) * 64) | (b3 & 0x3f).zext(32)
    s.assume(cp.between(0x10000, 0x10ffff))
    return [b0, b1, b2, b3], cp


# ---- a reader of JSON over terms: strings are lists of UTF-8 octets, numbers lists of characters ----
class Num(list):
    pass


class Txt(list):
    pass


class NotJson(Exception):
    pass


def jparse(s, bs, refuse=False):
    """the value of a JSON text (8-bit terms); Fail if it is not one. Objects are lists of (key, value) pairs in a tuple."""
    pos = [0]

    def bad(m):
        if refuse:
            raise NotJson(m)
        s.check(False, 'not JSON: ' + m)

    def peek():
        if pos[0] >= len(bs):
            bad('end')
        return bs[pos[0]]

    def is_(*cs):
        return pos[0] < len(bs) and any(bool(bs[pos[0]] == ord(c)) for c in cs)

    def ws():
        while is_(' ', '\n'):
            pos[0] += 1

    def expect(t):
        for c in t:
            if not is_(c):
                bad('expected ' + c)
            pos[0] += 1

    def hex4():
        v = cst(32, 0)
        for _ in range(4):
            c = peek()
            pos[0] += 1
            if bool(c.between(48, 57)):
                d = c - 48
            elif bool(c.between(97, 102)):
                d = c - 87
            elif bool(c.between(65, 70)):
                d = c - 55
            else:
                bad('hex digit')
            v = v * 16 + d.zext(32)
        return v

    def string():
        expect('"')
        out = Txt()
        while True:
            c = peek()
            if c.w != 8:
                raise TypeError
            if bool(c == 34):
                pos[0] += 1
                return out
            if bool(c.ult(32)):
                bad('control character')
            pos[0] += 1
            if not bool(c == 92):
                out.append(c)
                continue
            e = peek()
            pos[0] += 1
            for a, b in zip('"\\/bfnrt', '"\\/\b\f\n\r\t'):
                if bool(e == ord(a)):
                    out.append(cst(8, ord(b)))
                    break
            else:
                if not bool(e == ord('u')):
                    bad('escape')
                v = hex4()
                if bool(v.ult(128)):
                    out.append(v.bits(0, 8))
                elif bool(v.ult(2048)):
                    out += [(v.bits(6, 8) & 0x1f) | 0xc0, (v.bits(0, 8) & 0x3f) | 0x80]
                else:
                    if bool(v.between(0xd800, 0xdfff)):
                        if not bool(v.ult(0xdc00)):
                            bad('surrogate')
                        expect('\\u')
                        w = hex4()
                        if not bool(w.between(0xdc00, 0xdfff)):
                            bad('surrogate')
                        v = ((v & 0x3ff) * 1024 + (w & 0x3ff)) + 0x10000
                        out += [v.bits(18, 8) & 7 | 0xf0, (v.bits(12, 8) & 0x3f) | 0x80]
                    else:
                        out += [(v.bits(12, 8) & 0xf) | 0xe0]
                    out += [(v.bits(6, 8) & 0x3f) | 0x80, (v.bits(0, 8) & 0x3f) | 0x80]

    def value():
        ws()
        if is_('"'):
            r = string()
        elif is_('['):
            pos[0] += 1
            r = []
            ws()
            if is_(']'):
                pos[0] += 1
            else:
                while True:
                    r.append(value())
                    if is_(','):
                        pos[0] += 1
                        continue
                    expect(']')
                    break
        elif is_('{'):
            pos[0] += 1
            r = []
            ws()
            if is_('}'):
                pos[0] += 1
            else:
                while True:
                    ws()
                    k = string()
                    ws()
                    expect(':')
                    r.append((k, value()))
                    if is_(','):
                        pos[0] += 1
                        continue
                    expect('}')
                    break
            r = tuple(r)
        elif is_('t'):
            expect('true')
            r = True
        elif is_('f'):
            expect('false')
            r = False
        elif is_('n'):
            expect('null')
            r = None
        elif is_('N'):
            expect('NaN')
            r = Num([cst(8, 78)])
        else:
            r = Num()
            if is_('-'):
                r.append(peek())
                pos[0] += 1
            if is_('I') and r is not None:
                expect('Infinity')
                r.append(cst(8, 73))
            else:
                nd = 0
                lead0 = is_('0')
                while pos[0] < len(bs) and bool(bs[pos[0]].between(48, 57)):
                    r.append(bs[pos[0]])
                    pos[0] += 1
                    nd += 1
                if nd == 0 or (lead0 and nd > 1):
                    bad('number')
                if is_('.'):
                    r.append(peek())
                    pos[0] += 1
                    nd = 0
                    while pos[0] < len(bs) and bool(bs[pos[0]].between(48, 57)):
                        r.append(bs[pos[0]])
                        pos[0] += 1
                        nd += 1
                    if nd == 0:
                        bad('fraction')
                if is_('e', 'E'):
                    r.append(peek())
                    pos[0] += 1
                    if is_('+', '-'):
                        r.append(peek())
                        pos[0] += 1
                    nd = 0
                    while pos[0] < len(bs) and bool(bs[pos[0]].between(48, 57)):
                        r.append(bs[pos[0]])
                        pos[0] += 1
                        nd += 1
                    if nd == 0:
                        bad('exponent')
        ws()
        return r

    r = value()
    if pos[0] != len(bs):
        bad('trailing text')
    return r


def decimal_value(s, cs, w=64):
    """the value of [-]digits (a w-bit term)"""
    neg = bool(cs[0] == 45)
    v = cst(w, 0)
    for c in cs[1:] if neg else cs:
        s.check(c.between(48, 57), 'a digit')
        v = v * 10 + (c - 48).zext(w)
    return -v if neg else v
