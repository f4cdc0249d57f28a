"""C25 - UUIDs: exactly the four spellings (and 16 octets) are read, to the number spelled; versions hold exactly; what is written reads back."""
from hlib import *
import uuid

BASE = '0023456789abcdefABCDEF9876543210'
CLASS = uuid.UUID


def make(i):
    u = object.__new__(CLASS)
    object.__setattr__(u, 'int', i)
    object.__setattr__(u, 'is_safe', uuid.SafeUUID.unknown)
    return u


def cases(tier):
    big = tier != 'quick'
    v, sv = V(cs.uuid_schema()), V(cs.uuid_schema(strict=True))
    ser, anyser = SchemaSerializer(cs.uuid_schema()), SchemaSerializer(cs.any_schema())
    keyser = SchemaSerializer(cs.dict_schema(cs.uuid_schema(), cs.int_schema()))

    def digit(c):
        """(is a hexadecimal digit, value)"""
        up = c | 32
        return c.between(48, 57) | up.between(97, 102), c.between(48, 57).ite(c - 48, up - 87)

    def spell(form, ds):
        d = list(ds)
        if form == 'simple':
            return d
        h = d[:8] + [45] + d[8:12] + [45] + d[12:16] + [45] + d[16:20] + [45] + d[20:]
        return {'hyphens': h, 'braces': [123] + h + [125], 'urn': list(b'urn:uuid:') + h}[form]

    def value(vals):
        """128-bit value of the digits"""
        t = None
        for x in vals:
            x = x.bits(0, 4) if isinstance(x, B) else cst(4, x)
            t = x if t is None else t.cat(x)
        return t

    def is_uuid(s, r, want, msg):
        s.check(type(r) is CLASS, msg + ' (type)')
        s.check(s.val(r.int, 136) == want.zext(136), msg)

    ERR = [('uuid_parsing', ())]
    FORMS = ('simple', 'hyphens', 'braces', 'urn')

    def read(pos, kind):
        def path(s):
            form = s.oneof('form', FORMS)
            ds = [ord(c) for c in BASE]
            vals = [int(c, 16) for c in BASE]
            ok = true()
            for i, p in enumerate(pos):
                c = s.bv('c%d' % i, 7, ord(BASE[p])).zext(8)
                if kind == 'json':
                    s.assume(c.uge(32) & (c != 34) & (c != 92))
                ds[p] = c
                good, vals[p] = digit(c)
                ok = ok & good
            t = spell(form, ds)
            if kind == 'json':
                k, r = attempt(v.validate_json, s.bytes([34] + t + [34]))
            else:
                k, r = attempt(v.validate_python, s.bytes(t) if kind == 'bytes' else s.str(t))
            if kind != 'json':
                k2, r2 = attempt(sv.validate_python, s.str(t))
                s.check(k2 == 'err' and errs(r2) == [('is_instance_of', ())], 'strict: text is not a UUID')
            else:
                k2, r2 = attempt(sv.validate_json, s.bytes([34] + t + [34]))
                s.check(k2 == k, 'strict JSON')
            if bool(ok):
                s.check(k == 'ok', 'rejected')
                is_uuid(s, r, value(vals), 'value')
            else:
                s.check(k == 'err' and errs(r) == ERR, 'accepted')
        return path
    for kind in ('str', 'bytes', 'json'):
        for pos in ((2, 3, 15), (7, 8, 31), (12, 16, 20), (0,)):
            yield Case('read %s %s' % (kind, pos), read(pos, kind), 'the four spellings, any ASCII character at the digits %s' % (pos,))


    def octets(s):
        # (the first octet alone, or all others; 0xff: no text)
        top = s.flag('top')
        bs = [s.bv('b%d' % i, 8, 0x30 + i) if (i == 0) == top else cst(8, 0x77 * (i > 0)) for i in range(16)]
        bs[1] = cst(8, 0xff)
        n = s.pick('n', 3)
        k, r = attempt(v.validate_python, s.bytes(bs[:16] if n == 0 else bs[:15] if n == 1 else bs + [cst(8, 0)]))
        if n == 0:
            t = None
            for b in bs:
                t = b if t is None else t.cat(b)
            s.check(k == 'ok', 'sixteen octets')
            is_uuid(s, r, t, 'value')
        else:
            s.check(k == 'err' and errs(r) == ERR, 'not sixteen octets')
    yield Case('octets', octets, 'any 15, 16 or 17 octets')

    VERS = (1, 3, 4, 5, 6, 7, 8)
    vers = {n: [V(cs.uuid_schema(version=n)), V(cs.uuid_schema(version=n, strict=True))] for n in VERS}

    def version(kind):
        def path(s):
            n = s.oneof('version', VERS)
            a, b = s.bv('a', 4, 4), s.bv('b', 4, 8)
            lo = s.bv('lo', 8, 7) if kind == 'octets' else cst(8, 7)
            val = cst(48, 0x003456789abc).cat(a).cat(cst(12, 0xdef)).cat(b).cat(cst(52, 0x123456789abcd)).cat(lo)
            good = (a == n) & b.between(8, 11)
            if kind in ('instance', 'strict instance'):
                # UUID.version is computed by Python from the number; the covering set is enough
                s.assume((a == n) | (b == 9))
                u = make(int('003456789abc%xdef%x123456789abcd07' % (a.conc(), b.conc()), 16))
                k, r = attempt(vers[n][kind == 'strict instance'].validate_python, u)
                if k == 'ok':
                    s.check(r is u, 'the instance')
            else:
                if kind == 'octets':
                    k, r = attempt(vers[n][0].validate_python, s.bytes([val.bits(8 * (15 - i), 8) for i in range(16)]))
                else:
                    hx = [x.ugt(9).ite(x + 87, x + 48) for x in (a.zext(8), b.zext(8))]
                    t = list(b'003456789abc') + [hx[0]] + list(b'def') + [hx[1]] + list(b'123456789abcd07')
                    k, r = attempt(vers[n][0].validate_json, s.bytes([34] + t + [34])) if kind == 'json' else attempt(vers[n][0].validate_python, s.str(t))
                if k == 'ok':
                    is_uuid(s, r, val, 'value')
            if k == 'ok':
                s.check(good, 'another version or variant')
            else:
                s.check(~good, 'rejected')
                s.check(errs(r) == [('uuid_version', ())], 'type')
        return path
    for kind in ('instance', 'strict instance', 'octets', 'text', 'json'):
        yield Case('version ' + kind, version(kind), 'seven versions; the version and variant digits')

    def write(s):
        at, how = s.pick('at', 4), s.pick('how', 5)
        n = s.bv('n', 8, 0x9d)
        val = cst(128, 0x00234567_89abcdef_01020304_0a0b0c0d)
        off = (16, 60, 96, 120)[at]
        val = val.bits(128 - off, off).cat(n).cat(val.bits(0, 120 - off)) if off < 120 else val.bits(8, 120).cat(n)
        u = make(s.uint(val.bits(0, 120)))
        if how == 0:
            t = s.content(ser.to_json(u))[1:-1]
        elif how == 1:
            t = s.content(ser.to_python(u, mode='json'))
        elif how == 2:
            t = s.content(anyser.to_json(u))[1:-1]
        elif how == 3:
            t = s.content(keyser.to_json({u: 1}))[2:-4]
        else:
            r, = keyser.to_python({u: 1}, mode='json')
            t = s.content(r)
        s.check(ser.to_python(u) is u, 'Python mode')
        want = []
        for j in range(32):
            x = val.bits(4 * (31 - j), 4).zext(8)
            want.append(x.ule(9).ite(x + 48, x + 87))
        want = spell('hyphens', want)
        s.check(len(t) == 36 and all_([x == y for x, y in zip(t, want)]), 'text')
    yield Case('write', write, 'any octet at four places; as a value or key, with and without a schema, two modes')
