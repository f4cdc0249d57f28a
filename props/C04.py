"""C04 - string constraints and transformations: strip, case, length in code points, pattern, and what counts as a string."""
from hlib import *

UWS = [(0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]


def is_ws(cp):
    r = cp.between(9, 13) | (cp == 32)
    for a, b in UWS:
        r = r | cp.between(a, b)
    return r


def is_ws_ascii(c):
    return c.between(9, 13) | (c == 32)


def low(c):
    return (c.between(65, 90)).ite(c + 32, c)


def up(c):
    return (c.between(97, 122)).ite(c - 32, c)


def cases(tier):
    big = tier != 'quick'

    def same(s, r, want, msg='string'):
        got = s.content(r)
        s.check(type(r) is str and len(got) == len(want), msg + ' length')
        s.check(all_(a == b for a, b in zip(got, want)), msg)

    def give(s, v, how, bs):
        if how == 'str':
            return attempt(v.validate_python, s.str(bs))
        if how == 'bytes':
            return attempt(v.validate_python, s.bytes(bs))
        if how == 'strings':
            return attempt(v.validate_strings, s.str(bs))
        for b in bs:
            s.assume((b != 34) & (b != 92) & b.uge(32))
        return attempt(v.validate_json, s.bytes([34] + bs + [34]))

    def mk(**k):
        return V(cs.str_schema(**k))

    # ---- length in code points, over every Unicode scalar value
    LENS = [(lo, hi) for lo in (None, 0, 1, 2, 3) for hi in (None, 0, 1, 2)]
    vlen = [mk(**{k: x for k, x in (('min_length', a), ('max_length', b)) if x is not None}) for a, b in LENS]
    vlenc = [V(cs.str_schema(), **{k: x for k, x in (('str_min_length', a), ('str_max_length', b)) if x is not None}) for a, b in LENS]

    def length(n, how):
        def path(s):
            i = s.pick('i', len(LENS))
            lo, hi = LENS[i]
            cs_ = [uchar(s, 'c%d' % j) for j in range(n)]
            bs = [b for c, _ in cs_ for b in c]
            k, r = give(s, (vlenc if how == 'bytes' else vlen)[i], how, bs)
            if k == 'ok':
                s.check((lo is None or n >= lo) and (hi is None or n <= hi), 'accepted length %d for %s..%s' % (n, lo, hi))
                same(s, r, bs)
            else:
                t = errs(r)
                s.check(t == [('string_too_short', ())] and lo is not None and n < lo or t == [('string_too_long', ())] and hi is not None and n > hi, 'error %s' % t)
        return path
    for how in ('str', 'bytes', 'json'):
        for n in (0, 1, 2):
            yield Case('len_%s%d' % (how, n), length(n, how), '%d characters, every Unicode scalar value; bounds None/0..3' % n)

    # ---- stripping
    vs0 = mk(strip_whitespace=True)
    vsl = mk(strip_whitespace=True, min_length=2, max_length=2)
    vsc = V(cs.str_schema(), str_strip_whitespace=True)

    def strip_u(v, how):
        def path(s):
            # white space or not, any scalar value, around an ASCII letter
            a, ca = uchar(s, 'a', 3)
            b, cb = uchar(s, 'b', 3)
            m = [s.bv('m', 7, 120).zext(8)]
            s.assume(is_ws_ascii(m[0]) ^ 1)
            k, r = give(s, v, how, a + m + b)
            wa, wb = bool(is_ws(ca)), bool(is_ws(cb))
            want = ([] if wa else a) + m + ([] if wb else b)
            n = 1 + (not wa) + (not wb)
            if k == 'ok':
                s.check(v is not vsl or n == 2, 'length after stripping')
                same(s, r, want)
            else:
                s.check(v is vsl and n != 2 and errs(r) == [('string_too_long' if n > 2 else 'string_too_short', ())], 'rejected')
        return path
    yield Case('strip_str', strip_u(vs0, 'str'), 'char, ASCII, char: every scalar below U+10000 on both sides')
    yield Case('strip_cfg_bytes', strip_u(vsc, 'bytes'), 'char, ASCII, char')
    yield Case('strip_len', strip_u(vsl, 'str'), 'char, ASCII, char')

    # ---- all ASCII transformations together
    COMB = [(st, ca, lo, hi) for st in (False, True) for ca in (None, 'lower', 'upper') for lo, hi in ((None, None), (2, None), (None, 1), (1, 2))]

    def comb(st, ca, lo, hi, cfg):
        k = {}
        p = 'str_' if cfg else ''
        if st:
            k[p + 'strip_whitespace'] = True
        if ca:
            k[p + 'to_' + ca] = True
        if lo is not None:
            k[p + 'min_length'] = lo
        if hi is not None:
            k[p + 'max_length'] = hi
        return V(cs.str_schema(), **k) if cfg else mk(**k)
    vcomb = {cfg: [comb(*c, cfg) for c in COMB] for cfg in (False, True)}

    def trans(n, how, cfg):
        def path(s):
            i = s.pick('i', len(COMB))
            st, ca, lo, hi = COMB[i]
            ch = s.chars('c', n, default='aB ')
            k, r = give(s, vcomb[cfg][i], how, ch)
            want = list(ch)
            if st:
                while want and bool(is_ws_ascii(want[0])):
                    want.pop(0)
                while want and bool(is_ws_ascii(want[-1])):
                    want.pop()
            if ca:
                want = [(low if ca == 'lower' else up)(c) for c in want]
            m = len(want)
            if k == 'ok':
                s.check((lo is None or m >= lo) and (hi is None or m <= hi), 'accepted length %d' % m)
                same(s, r, want)
                s.out(r)
            else:
                t = errs(r)
                s.check(t == [('string_too_short', ())] and lo is not None and m < lo or t == [('string_too_long', ())] and hi is not None and m > hi, 'error %s for length %d' % (t, m))
        return path
    for n in (1, 2, 3):
        yield Case('ascii_str%d' % n, trans(n, 'str', False), '%d ASCII characters x %d combinations of strip/case/length' % (n, len(COMB)))
    yield Case('ascii_cfg2', trans(2, 'str', True), '2 ASCII characters, options in the config')
    yield Case('ascii_bytes2', trans(2, 'bytes', False), '2 ASCII characters in bytes')
    yield Case('ascii_json2', trans(2, 'json', False), '2 ASCII characters in JSON')
    yield Case('ascii_strings2', trans(2, 'strings', True), '2 ASCII characters, validate_strings')

    # ---- schema-level options win over config
    def override(s):
        # config says one thing, the schema another
        c = s.pick('c', 3)
        ch = s.chars('c', 3, default='aaa', alphabet='aA ')
        v = over[c]
        k, r = attempt(v.validate_python, s.str(ch))
        if c == 0:
            s.check(k == 'err' and errs(r) == [('string_too_long', ())], 'schema max_length')
        elif c == 1:
            s.check(k == 'ok', 'schema max_length')
            same(s, r, ch)
        else:
            s.check(k == 'ok', 'schema strip')
            same(s, r, [low(x) for x in ch])
    over = [V(cs.str_schema(max_length=2), str_max_length=5), V(cs.str_schema(max_length=5), str_max_length=2), V(cs.str_schema(strip_whitespace=False), str_strip_whitespace=True, str_to_lower=True)]
    yield Case('override', override, '3 characters over a A space')

    # ---- invalid UTF-8 bytes are never a string
    v0, v0s = mk(), mk(strict=True)

    def utf8(n, how):
        def path(s):
            bs = s.octets('b', n, default=b'\xc3\xa9\x80\x80')
            ok, i = True, 0
            # reference decoder (Unicode table 3-7)
            while i < n and ok:
                b = bs[i]
                if bool(b.ult(0x80)):
                    i += 1
                    continue
                if bool(b.between(0xc2, 0xdf)):
                    need = [(0x80, 0xbf)]
                elif bool(b == 0xe0):
                    need = [(0xa0, 0xbf), (0x80, 0xbf)]
                elif bool(b == 0xed):
                    need = [(0x80, 0x9f), (0x80, 0xbf)]
                elif bool(b.between(0xe1, 0xef)):
                    need = [(0x80, 0xbf)] * 2
                elif bool(b == 0xf0):
                    need = [(0x90, 0xbf)] + [(0x80, 0xbf)] * 2
                elif bool(b.between(0xf1, 0xf3)):
                    need = [(0x80, 0xbf)] * 3
                elif bool(b == 0xf4):
                    need = [(0x80, 0x8f)] + [(0x80, 0xbf)] * 2
                else:
                    ok = False
                    break
                for j, (lo, hi) in enumerate(need):
                    if i + 1 + j >= n or not bool(bs[i + 1 + j].between(lo, hi)):
                        ok = False
                        break
                i += 1 + len(need)
            if how == 'json':
                for b in bs:
                    s.assume((b != 34) & (b != 92) & b.uge(32))
                k, r = attempt(v0.validate_json, s.bytes([34] + bs + [34]))
                bad = 'json_invalid'
            elif how == 'bytearray':
                s.assume(True)
                k, r = attempt(v0.validate_python, s.bytes(bs))
                bad = 'string_unicode'
            else:
                k, r = attempt(v0.validate_python, s.bytes(bs))
                bad = 'string_unicode'
            if k == 'ok':
                s.check(ok, 'accepted invalid UTF-8')
                same(s, r, bs)
            else:
                s.check(errs(r) == [(bad, ())], 'type %s' % errs(r))
                s.check(not ok, 'rejected valid UTF-8')
        return path
    for n in (1, 2, 3) + ((4,) if big else ()):
        yield Case('utf8_%d' % n, utf8(n, 'bytes'), 'every bytes of length %d' % n)
        yield Case('utf8_json%d' % n, utf8(n, 'json'), 'every JSON string of %d unescaped bytes' % n)

    # ---- only strings are strings
    def types(s):
        strict = s.flag('strict')
        which = s.pick('w', 7)
        v = (v0s if strict else v0)
        vn = V(cs.str_schema(coerce_numbers_to_str=True, strict=strict))
        x = s.bv('x', 3, 7).zext(8)
        o = [lambda: s.int(x), lambda: s.float(x.sext(64).s2f()), lambda: True, lambda: None, lambda: [], lambda: s.bytes([x & 127]), lambda: s.str([x & 127])][which]()
        k, r = attempt(v.validate_python, o)
        s.check((k == 'ok') == (which == 6 or which == 5 and not strict), 'str without coercion')
        k, r = attempt(vn.validate_python, o)
        s.check((k == 'ok') == (which == 6 or which in (5, 0, 1) and not strict), 'str with coerce_numbers_to_str')
        if k == 'ok' and which == 0:
            s.quiet(True)
            s.check(r == str(o), 'str(int)')
            s.quiet(False)
    yield Case('types', types, '3-bit int / float / bool / None / list / bytes / str')

    # ---- patterns (Rust regex and Python re agree with the language of the pattern)
    vp = {e: V(cs.str_schema(pattern=r'^a[0-9]+b?$', regex_engine=e) if False else cs.str_schema(pattern=r'^a[0-9]+b?$'), regex_engine=e) for e in ('rust-regex',)}
    vsearch = mk(pattern='xy')

    def pattern(n):
        def path(s):
            ch = s.chars('c', n, default='a1b')
            k, r = attempt(vp['rust-regex'].validate_python, s.str(ch))
            def m(c, st):
                if st == 0:
                    return 1 if bool(c == 97) else 9
                if st in (1, 2):
                    if bool(c.between(48, 57)):
                        return 2
                    return 3 if st == 2 and bool(c == 98) else 9
                return 9
            st = 0
            for c in ch:
                st = m(c, st)
                if st == 9:
                    break
            if k == 'ok':
                s.check(st in (2, 3), 'accepted')
                same(s, r, ch)
            else:
                s.check(st not in (2, 3), 'rejected a match')
                s.check(errs(r) == [('string_pattern_mismatch', ())], 'type')
        return path
    for n in (1, 2, 3):
        yield Case('pattern%d' % n, pattern(n), 'every ASCII string of length %d against ^a[0-9]+b?$' % n)
