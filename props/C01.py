"""C01 - integer coercion is exact: which strings / floats / JSON numbers are ints, and which int they are."""
from hlib import *

DIG, US, SGP, SGM, WS, DOT, OTH = range(7)
WSCH = '\t\n\x0b\x0c\r '


def spec_str(cs, w=64):
    """(accepted, value) of the documented notation: ws* [+-]? (leading zeros, '_' allowed among them)? digits with single
    underscores between them ('.' 0+)? ws*.  A deterministic automaton that forks on the class of each character; the value
    stays a term over the digits (64-bit arithmetic cannot wrap: at most 18 of them)."""
    st, val, neg = 'start', cst(w, 0), False
    for c in cs:
        nx = 'dead'
        if st == 'frac0' or st == 'frac':
            nx = 'frac' if bool(c == 48) else 'dead'
            if st == 'frac' and nx == 'dead' and bool(in_alpha(c, WSCH)):
                nx = 'end'
        elif st == 'end':
            nx = 'end' if bool(in_alpha(c, WSCH)) else 'dead'
        elif bool(c.between(49, 57)):
            nx, val = 'num', val * 10 + (c & 15).zext(w)
        elif bool(c == 48):
            nx, val = ('num' if st in ('num', 'us') else 'zeros'), val * 10
        elif st == 'start':
            if bool(in_alpha(c, WSCH)):
                nx = 'start'
            elif bool((c == 43) | (c == 45)):
                nx, neg = 'sign', bool(c == 45)
        elif st == 'zeros' or st == 'num':
            if bool(c == 95):
                nx = 'zus' if st == 'zeros' else 'us'
            elif bool(c == 46):
                nx = 'frac0'
            elif bool(in_alpha(c, WSCH)):
                nx = 'end'
        elif st == 'zus':
            if bool(c == 95):
                nx = 'zus'
        st = nx
        if st == 'dead':
            break
    ok = st in ('zeros', 'num', 'frac', 'end')
    return ok, (-val if neg else val).sext(128)


def result_is(s, k, r, ok, val, bad='int_parsing'):
    if k == 'ok':
        s.check(type(r) is int, 'result is an int')
        s.check(ok, 'accepted a string that is not an integer')
        s.check(s.val(r) == val, 'wrong integer')
        s.out(r)
    else:
        s.log.append(errs(r))
        s.check(errs(r) == [(bad, ())], 'error type')
        s.check(not ok, 'rejected an integer')


def cases(tier):
    big = tier != 'quick'
    v = V(cs.int_schema())
    vs = V(cs.int_schema(strict=True))

    def text(n, alpha=None, kind='str'):
        def path(s):
            ch = s.chars('c', n, default='1', alphabet=alpha)
            ok, val = spec_str(ch)
            if kind == 'str':
                k, r = attempt(v.validate_python, s.str(ch))
            elif kind == 'bytes':
                k, r = attempt(v.validate_python, s.bytes(ch))
            elif kind == 'strings':
                k, r = attempt(v.validate_strings, s.str(ch))
            else:
                k, r = attempt(v.validate_json, s.bytes([34] + ch + [34]))
            result_is(s, k, r, ok, val)
        return path
    for n in range(1, 6 if big else 5):
        yield Case('str%d' % n, text(n), 'every string of %d ASCII characters' % n)
    for n in range(5, 9 if big else 7):
        yield Case('num%d' % n, text(n, '0123456789_.+- '), 'every string of %d characters over 0-9 _ . + - space' % n)
    yield Case('bytes3', text(3, kind='bytes'), 'every bytes of 3 ASCII characters')
    yield Case('strings3', text(3, kind='strings'), 'validate_strings, 3 ASCII characters')
    al = '0123456789_.+-eE '
    for n in (3, 4):
        yield Case('json%d' % n, text(n, al, 'json'), 'JSON strings of %d characters over %s' % (n, al))

    def digits(n, lo, neg, kind):
        """n decimal digits, the first lo of them fixed to 9223372036854775807's"""
        def path(s):
            ref = '9223372036854775807' + '0' * 60
            ch = [cst(8, ord(x)) for x in ref[:lo]] + s.chars('d', n - lo, default=ref[lo:n], alphabet='0123456789')
            if lo == 0:
                s.assume(ch[0] != 48)
            # below 10^19: machine arithmetic cannot wrap; longer ones in 128 bits
            w = 64 if n <= 18 else 128
            val = cst(w, 0)
            for c in ch:
                val = val * 10 + (c & 15).zext(w)
            val = (-val if neg else val).sext(128)
            full = ([cst(8, 45)] if neg else []) + ch
            if kind == 'str':
                k, r = attempt(v.validate_python, s.str(full))
            else:
                k, r = attempt((v if kind == 'json' else vs).validate_json, s.bytes(full))
            result_is(s, k, r, True, val)
        return path
    for n, lo in ((17, 0), (18, 0), (19, 16), (20, 17)) + (((19, 15), (20, 16), (30, 27), (37, 34)) if big else ((30, 28), (37, 35))):
        for neg in (0, 1):
            for kind in ('str', 'json', 'jsonstrict'):
                if kind != 'str' and not big and n not in (19, 20):
                    continue
                yield Case('digits_%d_%d_%s_%s' % (n, lo, '-' if neg else '+', kind), digits(n, lo, neg, kind), '%d digits, last %d symbolic' % (n, n - lo))

    def flt(s):
        b = s.bv('f', 64, 0x4008000000000000)
        k, r = attempt(v.validate_python, s.float(b))
        fin = b.bits(52, 11) != 0x7ff
        lim = 9223372036854775808.0
        inr = fcst(-lim).flt(b) & b.flt(fcst(lim))
        if k == 'ok':
            s.check(type(r) is int, 'type')
            x = s.val(r, 64)
            s.check(fin & inr, 'accepted')
            s.check(x.s2f().feq(b), 'int(float) must equal the float')
            s.out(r)
        else:
            t = errs(r)[0][0]
            s.log.append(errs(r))
            if t == 'finite_number':
                s.check(fin ^ 1, 'finite_number on a finite number')
            elif t == 'int_parsing_size':
                s.check(fin & (inr ^ 1), 'int_parsing_size inside the range')
            else:
                s.check(t == 'int_from_float', t)
                # a float with a fractional part: exponent below 52 and some bit below the point
                e = b.bits(52, 11)
                mant = b.bits(0, 52).zext(64) | (1 << 52)
                frac = false()
                for k_ in range(1023, 1075):
                    frac = frac | ((e == k_) & ((mant & ((1 << (1075 - k_)) - 1)) != 0))
                frac = frac | (e.ult(1023) & ((b & (2**63 - 1)) != 0))
                s.check(frac, 'int_from_float on an integral float')
    yield Case('float', flt, 'every float64 bit pattern')

    def fstrict(s):
        b = s.bv('f', 64, 0)
        k, r = attempt(vs.validate_python, s.float(b))
        s.check(k == 'err' and errs(r) == [('int_type', ())], 'strict int from float')
    yield Case('float_strict', fstrict, 'every float64 bit pattern')

    def ident(s):
        x = s.bv('x', 80, 5)
        k, r = attempt((vs if s.flag('strict') else v).validate_python, s.int(x))
        s.check(k == 'ok' and type(r) is int, 'int accepted')
        s.check(s.val(r) == x.sext(128), 'int unchanged')
    yield Case('int', ident, 'every 80-bit int')

    def big_digits(s):
        """length limit: 4300 digits"""
        n = s.pick('n', 5) + 4298
        k, r = attempt(v.validate_python, '1' + '0' * (n - 1))
        if n <= 4300:
            s.check(k == 'ok' and r == 10 ** (n - 1), 'long integer')
        else:
            s.check(k == 'err' and errs(r) == [('int_parsing_size', ())], 'over-long integer')
    yield Case('maxlen', big_digits, 'lengths 4298..4302')

    def objects(s):
        """numbers which are not plain ints or floats: the result, if any, is a plain int of the same value"""
        import decimal, enum, fractions

        class I(int):
            pass

        class F(float):
            pass

        class St(str):
            pass

        class Ix:
            def __index__(self):
                return 5

            def __float__(self):
                return 5.5
        n = s.oneof('n', [0, 1, -1, 7, 2 ** 63, -2 ** 63 - 1, 2 ** 200, 1.0, 1.5, 'x', '12', b'7', None, True, [1], float('nan'), float('inf'), 1e300])
        E = enum.Enum('E', {'m': n})
        num = isinstance(n, (int, float)) and n == n and abs(n) != float('inf')
        wrap = s.pick('wrap', 7)
        if wrap == 0:
            x, want = E.m, int(n) if isinstance(n, int) else None
        elif wrap == 1:
            x, want = (I(n), int(n)) if type(n) is int else (None, None)
        elif wrap == 2:
            x, want = (F(n), int(n) if num and n == int(n) and -2 ** 63 < n < 2 ** 63 else None) if isinstance(n, (int, float)) else (None, None)
        elif wrap == 3:
            x, want = (decimal.Decimal(n), int(n) if num and n == int(n) else None) if isinstance(n, (int, float)) else (None, None)
        elif wrap == 4:
            x, want = (fractions.Fraction(n), int(n) if n == int(n) and -2 ** 63 < n < 2 ** 63 else None) if num else (None, None)
        elif wrap == 5:
            x, want = (St(n), 12 if n == '12' else None) if isinstance(n, str) else (None, None)
        else:
            x, want = Ix(), None
        strict = s.flag('strict')
        k, r = attempt((vs if strict else v).validate_python, x)
        s.out(r if k == 'ok' else errs(r))
        if k == 'ok':
            s.check(type(r) is int, 'a plain int')
            s.check(want is not None and r == want, 'value')
            s.check(not strict or isinstance(x, int) and not isinstance(x, bool), 'strict')
        else:
            s.check(want is None or (strict and not isinstance(x, int)), 'rejected')
    yield Case('objects', objects, 'enum members, int, float and str subclasses, decimals, fractions, objects with __index__ and __float__')
