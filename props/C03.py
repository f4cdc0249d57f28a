"""C03 - bool coercion: exactly the documented spellings and 0/1 are booleans, in every input form."""
from hlib import *

TRUE, FALSE = ['1', 't', 'y', 'on', 'yes', 'true'], ['0', 'f', 'n', 'no', 'off', 'false']


def spelled(cs_, words):
    r = false()
    for w in words:
        if len(w) == len(cs_):
            m = true()
            for c, x in zip(cs_, w):
                m = m & ((c == ord(x)) | ((c == ord(x.upper())) if x.isalpha() else false()))
            r = r | m
    return r


def cases(tier):
    v, vs = V(cs.bool_schema()), V(cs.bool_schema(strict=True))

    def text(n, how):
        def path(s):
            ch = s.chars('c', n, default='true')
            if how == 'json':
                for c in ch:
                    s.assume((c != 34) & (c != 92) & c.uge(32))
                k, r = attempt(v.validate_json, s.bytes([34] + ch + [34]))
            else:
                k, r = attempt({'str': v.validate_python, 'bytes': v.validate_python, 'strings': v.validate_strings}[how], s.bytes(ch) if how == 'bytes' else s.str(ch))
            t, f = spelled(ch, TRUE), spelled(ch, FALSE)
            if k == 'ok':
                s.check(type(r) is bool, 'type')
                s.check(t if r else f, 'accepted as %s' % r)
                s.out(r)
            else:
                s.check(errs(r) == [('bool_parsing', ())], 'type')
                s.check((t | f) ^ 1, 'rejected a boolean')
        return path
    for n in range(1, 7):
        for how in ('str', 'bytes', 'json', 'strings'):
            yield Case('%s%d' % (how, n), text(n, how), 'every %s of %d ASCII characters' % (how, n))

    def beyond(how):
        """a word of which one letter is a character beyond ASCII"""
        def path(s):
            n = s.pick('n', 5) + 1
            at = s.pick('at', n)
            u = []
            if n == 1 or s.flag('long'):
                # ﬀ, K and others: three octets
                u = [s.bv('u0', 8, 0xef), s.bv('u1', 8, 0xac), s.bv('u2', 8, 0x80)]
                s.assume(u[0].between(0xe1, 0xef) & (u[0] != 0xed) & u[1].between(0x80, 0xbf) & u[2].between(0x80, 0xbf))
            else:
                u = [s.bv('u0', 8, 0xc5), s.bv('u1', 8, 0xbf)]
                s.assume(u[0].between(0xc2, 0xdf) & u[1].between(0x80, 0xbf))
            ch = s.chars('c', n - 1, default='yetrue'[:n - 1])
            ch = ch[:at] + u + ch[at:]
            if how == 'json':
                for c in ch:
                    s.assume((c != 34) & (c != 92) & c.uge(32))
                k, r = attempt(v.validate_json, s.bytes([34] + ch + [34]))
            else:
                k, r = attempt(v.validate_python, s.bytes(ch) if how == 'bytes' else s.str(ch))
            s.check(k == 'err' and errs(r) == [('bool_parsing', ())], 'a letter beyond ASCII is accepted')
        return path
    for how in ('str', 'bytes', 'json'):
        yield Case('beyond ASCII %s' % how, beyond(how), 'one character of two or three octets anywhere among up to 4 ASCII characters')

    # characters with an ASCII letter or digit as (part of) their upper, lower, folded or compatibility form
    ALIKE = ['ſ', 'K', 'ﬀ', 'ﬁ', 'ﬂ', 'ﬃ', 'ﬅ', 'ﬆ', 'ı', 'İ', 'ŉ', 'ǰ', 'ẞ', 'ß', 'Ａ', 'ｔ', 'Ｔ', '０', '１', '٠', '١', '¹', 'ⁿ', 'ᵗ', 'ⅰ', '\u0660', '\xad', '\u200b', '\ufeff', 'е', 'о']

    def alike(how):
        def path(s):
            u = [cst(8, b) for b in s.oneof('u', ALIKE).encode()]
            n = s.pick('n', 5)
            at = s.pick('at', n + 1)
            ch = s.chars('c', n, default='yetrue'[:n] or 'y')
            ch = ch[:at] + u + ch[at:]
            if how == 'json':
                for c in ch:
                    s.assume((c != 34) & (c != 92) & c.uge(32))
                k, r = attempt(v.validate_json, s.bytes([34] + ch + [34]))
            else:
                k, r = attempt(v.validate_python, s.bytes(ch) if how == 'bytes' else s.str(ch))
            s.check(k == 'err' and errs(r) == [('bool_parsing', ())], 'a letter like an ASCII letter is accepted')
        return path
    for how in ('str', 'json'):
        yield Case('alike %s' % how, alike(how), 'one of %d characters which fold to ASCII, anywhere among up to 4 ASCII characters' % len(ALIKE))

    def empty(s):
        k, r = attempt(v.validate_python, s.oneof('e', ['', b'', ' true', 'true ', 'TRUE', None, 2, -1, 1.5, [], 'nan']))
        s.log.append(k)
    yield Case('misc', empty)

    def ints(s):
        x = s.bv('x', 70, 1)
        strict = s.flag('strict')
        k, r = attempt((vs if strict else v).validate_python, s.int(x))
        if k == 'ok':
            s.check(not strict, 'strict bool from int')
            s.check((x == 1) if r else (x == 0), 'accepted')
        elif strict:
            s.check(errs(r) == [('bool_type', ())], 'type')
        else:
            s.check((x != 0) & (x != 1), 'rejected 0 or 1')
    yield Case('int', ints, 'every 70-bit int')

    def floats(s):
        x = s.bv('x', 64, 0x3ff0000000000000)
        strict = s.flag('strict')
        how = s.flag('json')
        k, r = attempt((vs if strict else v).validate_python, s.float(x))
        one, zero = x.feq(fcst(1.0)), x.feq(fcst(0.0))
        if k == 'ok':
            s.check(not strict, 'strict bool from float')
            s.check(one if r else zero, 'accepted')
        else:
            s.check((one | zero) ^ 1 if not strict else True, 'rejected')
    yield Case('float', floats, 'every float64')

    def jsonnum(n):
        def path(s):
            ch = s.chars('c', n, default='1', alphabet='0123456789.-e')
            strict = s.flag('strict')
            k, r = attempt((vs if strict else v).validate_json, s.bytes(ch))
            s.log.append(k)
            if k == 'ok':
                s.check(not strict, 'strict bool from a JSON number')
                import json
                s.quiet(True)
                x = json.loads(bytes(c.v for c in ch))
                s.quiet(False)
                s.check(x == (1 if r else 0), 'value')
                s.out(r)
        return path
    for n in (1, 2, 3) if tier != 'quick' else (1, 2):
        yield Case('jsonnum%d' % n, jsonnum(n), 'JSON documents of %d characters over digits . - e' % n)

    def kw(s):
        b = s.flag('b')
        vv = vs if s.flag('strict') else v
        k, r = attempt(vv.validate_json, b'true' if b else b'false')
        s.check(k == 'ok' and r is b, 'JSON keyword')
        k, r = attempt(vv.validate_python, b)
        s.check(k == 'ok' and r is b, 'bool')
    yield Case('keywords', kw)

    def strictstr(n):
        def path(s):
            ch = s.chars('c', n, default='true')
            k, r = attempt(vs.validate_python, s.str(ch))
            s.check(k == 'err' and errs(r) == [('bool_type', ())], 'strict bool from str')
            for c in ch:
                s.assume((c != 34) & (c != 92) & c.uge(32))
            k, r = attempt(vs.validate_json, s.bytes([34] + ch + [34]))
            s.check(k == 'err' and errs(r) == [('bool_type', ())], 'strict bool from JSON str')
        return path
    for n in (1, 4):
        yield Case('strict%d' % n, strictstr(n), 'strings of %d characters' % n)
