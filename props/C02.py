"""C02 - numeric constraints accept exactly the numbers that satisfy them."""
from hlib import *

OPS = {'gt': ('greater_than', lambda x, b: x.sgt(b)), 'ge': ('greater_than_equal', lambda x, b: x.sge(b)), 'lt': ('less_than', lambda x, b: x.slt(b)), 'le': ('less_than_equal', lambda x, b: x.sle(b))}
FOPS = {'gt': ('greater_than', lambda x, b: b.flt(x)), 'ge': ('greater_than_equal', lambda x, b: b.fle(x)), 'lt': ('less_than', lambda x, b: x.flt(b)), 'le': ('less_than_equal', lambda x, b: x.fle(b))}


def cases(tier):
    big = tier != 'quick'

    # ---- int
    def int1(names, w, how):
        def path(s):
            x = s.bv('x', w, 5)
            bs = {n: s.bv('b_' + n, w, 7) for n in names}
            v = V(cs.int_schema(**{n: s.int(b) for n, b in bs.items()}))
            k, r = attempt(v.validate_python if how == 'py' else v.validate_json, s.int(x))
            sat = {n: OPS[n][1](x, b) for n, b in bs.items()}
            if k == 'ok':
                s.check(all_(sat.values()), 'accepted a violating int')
                s.check(s.val(r) == x.sext(128), 'value changed')
            else:
                t = errs(r)
                s.log.append(t)
                s.check(len(t) == 1 and t[0][1] == (), 'one error')
                n = [n for n in names if OPS[n][0] == t[0][0]]
                s.check(len(n) == 1, 'error names a constraint in force')
                s.check(sat[n[0]] ^ 1, 'reported constraint is satisfied')
        return path
    for n in OPS:
        yield Case('int_' + n, int1([n], 64, 'py'), 'every int64 value x every int64 bound')
        yield Case('int66_' + n, int1([n], 66, 'py'), 'every 66-bit value x bound (bigint comparisons)')
    yield Case('int_range', int1(['ge', 'lt'], 64, 'py'), 'every int64 value x bounds')
    yield Case('int_range2', int1(['gt', 'le'], 64, 'py'), 'every int64 value x bounds')

    MODS = [1, 2, 3, 7, 10, 64, 1000, 2**31, 2**62 + 1] + ([5, 12, 360, 2**63 - 1, 997] if big else [])
    mv = [V(cs.int_schema(multiple_of=m)) for m in MODS]

    def mult(s):
        i = s.pick('m', len(MODS))
        m = MODS[i]
        x = s.bv('x', 64, 6)
        k, r = attempt(mv[i].validate_python, s.int(x))
        rem = x.srem(m)
        if k == 'ok':
            s.check(rem == 0, 'accepted a non-multiple')
            s.check(s.val(r) == x.sext(128), 'value')
        else:
            s.check(errs(r) == [('multiple_of', ())], 'type')
            s.check(rem != 0, 'rejected a multiple')
    yield Case('int_multiple', mult, 'every int64 value; multiple_of in %s' % MODS)

    # bigint: a base beyond 64 bits (or a modulus beyond them) plus a symbolic offset
    BIG = [(2**32 + 3, 2**70), (7, 2**64), (2**62 + 1, -2**80), (2**65 + 1, 2**66 + 2), (2**64, 3 * 2**64), (3, -2**63), (2**65, 2**63), (10, 10**30)]
    bv_ = [V(cs.int_schema(multiple_of=m)) for m, _ in BIG]

    def bigmult(s):
        i = s.pick('m', len(BIG))
        m, base = BIG[i]
        k = base // m * m
        x = s.bv('x', 8, 0)
        # the ints around a multiple of m near base: offset -128..127
        o = s.int(cst(128, k) + x.sext(128))
        kk, r = attempt(bv_[i].validate_python, o)
        want = any_(x == (j % 256) for j in range(-128, 128) if j % m == 0)
        if kk == 'ok':
            s.check(want, 'accepted a non-multiple')
        else:
            s.check(errs(r) == [('multiple_of', ())], 'type')
            s.check(want ^ 1, 'rejected a multiple')
    yield Case('bigint_multiple', bigmult, '256 ints around a multiple beyond 64 bits, for 8 pairs of moduli and bases')

    # digits through JSON and strings: the constraint applies to the parsed value
    vr = V(cs.int_schema(ge=-37, lt=112, multiple_of=3))

    def parsed(n, how):
        def path(s):
            ch = s.chars('c', n, default='5', alphabet='0123456789')
            if how == 'json':
                s.assume((ch[0] != 48))
            neg = s.flag('neg')
            val = cst(32, 0)
            for c in ch:
                val = val * 10 + (c & 15).zext(32)
            val = -val if neg else val
            txt = ([45] if neg else []) + ch
            k, r = attempt(vr.validate_json, s.bytes(txt)) if how == 'json' else attempt(vr.validate_python, s.str(txt))
            ok = val.sge(-37) & val.slt(112) & (val.srem(3) == 0)
            if k == 'ok':
                s.check(ok, 'accepted')
                s.check(s.val(r, 32) == val, 'value')
            else:
                s.log.append(errs(r))
                s.check(ok ^ 1, 'rejected')
        return path
    for how in ('json', 'str'):
        for n in (1, 2, 3):
            yield Case('int_%s%d' % (how, n), parsed(n, how), '%d digits, with and without sign' % n)

    # ---- float
    def flt1(names, strict=False):
        def path(s):
            x = s.bv('x', 64, 0x3ff0000000000000)
            bs = {n: s.bv('b_' + n, 64, 0x4000000000000000) for n in names}
            v = V(cs.float_schema(strict=strict, **{n: s.float(b) for n, b in bs.items()}))
            k, r = attempt(v.validate_python, s.float(x))
            sat = {n: FOPS[n][1](x, b) for n, b in bs.items()}
            if k == 'ok':
                s.check(all_(sat.values()), 'accepted a violating float')
                s.check(s.fbits(r) == x, 'value changed')
            else:
                t = errs(r)
                s.log.append(t)
                n = [n for n in names if FOPS[n][0] == t[0][0]]
                s.check(len(t) == 1 and len(n) == 1, 'error names a constraint in force')
                s.check(sat[n[0]] ^ 1, 'reported constraint is satisfied')
        return path
    for n in FOPS:
        yield Case('float_' + n, flt1([n]), 'every float64 value x every float64 bound (NaN and infinities included)')
    yield Case('float_range', flt1(['ge', 'le']), 'every float64 value x bounds')
    yield Case('float_range2', flt1(['gt', 'lt'], True), 'every float64 value x bounds')

    nf = {(a, how): V(cs.float_schema(allow_inf_nan=a, **({'ge': -1e300} if how == 'c' else {})) if how != 'cfg' else cs.float_schema(), **({'allow_inf_nan': a} if how == 'cfg' else {}))
          for a in (True, False) for how in ('plain', 'c', 'cfg')}

    def infnan(s):
        x = s.bv('x', 64, 0x3ff0000000000000)
        key = (s.flag('allow'), s.oneof('how', ('plain', 'c', 'cfg')))
        k, r = attempt(nf[key].validate_python, s.float(x))
        fin = x.bits(52, 11) != 0x7ff
        lo = (fcst(-1e300).fle(x)) if key[1] == 'c' else true()
        ok = (fin | int(key[0])) & lo
        if k == 'ok':
            s.check(ok, 'accepted')
            s.check(s.fbits(r) == x, 'value')
        else:
            s.check(ok ^ 1, 'rejected')
            s.check((errs(r)[0][0] == 'finite_number') == (not key[0] and not bool(fin)), 'finite_number iff not finite and not allowed')
    yield Case('float_inf_nan', infnan, 'every float64')

    FM = [0.5, 1.0, 2.0, 0.25, 4096.0]
    fm = [V(cs.float_schema(multiple_of=m)) for m in FM]

    def fmult(s):
        # k/8 for |k| < 2^15: exactly representable, so divisibility is decidable in integers
        i = s.pick('m', len(FM))
        n = s.bv('n', 16, 8)
        x = n.sext(64).s2f()
        import struct
        bits = x  # n as float; scale by 1/8 through the exponent
        y = (n == 0).ite(bits, bits - (3 << 52))
        k, r = attempt(fm[i].validate_python, s.float(y))
        m8 = int(FM[i] * 8)
        rem = n.sext(32).srem(m8)
        if k == 'ok':
            s.check(rem == 0, 'accepted a non-multiple')
            s.check(s.fbits(r) == y, 'value')
        else:
            s.check(errs(r) == [('multiple_of', ())], 'type')
            s.check(rem != 0, 'rejected a multiple')
    yield Case('float_multiple', fmult, 'x = n/8 for every int16 n; multiple_of in %s' % FM)

    def intfloat(s):
        """an int given to a float field becomes the nearest float; constraints apply to it"""
        x = s.bv('x', 64, 3)
        v = fi[s.flag('strict')]
        k, r = attempt(v.validate_python, s.int(x))
        f = x.s2f()
        if k == 'ok':
            s.check(type(r) is float, 'type')
            s.check(s.fbits(r) == f, 'value')
            s.check(fcst(-2.5).flt(f) & f.fle(fcst(2.0**62)), 'accepted')
        else:
            s.check((fcst(-2.5).flt(f) & f.fle(fcst(2.0**62))) ^ 1, 'rejected')
    fi = {st: V(cs.float_schema(gt=-2.5, le=2.0**62, strict=st)) for st in (False, True)}
    yield Case('float_from_int', intfloat, 'every int64')
