"""C05 - dates, times and datetimes: what an ISO string means, conversions between them, constraints and time zones."""
from hlib import *
import datetime as dt
from pydantic_core import TzInfo


def num(cs, w=32):
    r = cst(w, 0)
    for c in cs:
        r = r * 10 + (c & 15).zext(w)
    return r


def cases(tier):
    big = tier != 'quick'
    vd, vt, vdt = V(cs.date_schema()), V(cs.time_schema()), V(cs.datetime_schema())
    sd, st_, sdt = V(cs.date_schema(strict=True)), V(cs.time_schema(strict=True)), V(cs.datetime_schema(strict=True))

    def give(s, v, how, bs):
        if how == 'str':
            return attempt(v.validate_python, s.str(bs))
        if how == 'bytes':
            return attempt(v.validate_python, s.bytes(bs))
        if how == 'strings':
            return attempt(v.validate_strings, s.str(bs))
        return attempt(v.validate_json, s.bytes([34] + bs + [34]))

    def digits(s, n, k, default='0'):
        return s.chars(n, k, default=default, alphabet='0123456789')

    def lit(x):
        return [cst(8, ord(c)) for c in x]

    def fields_are(s, r, want, msg):
        got = s.fields(r)
        s.check(all_(a == b for a, b in zip(got, want)), msg)

    # ---- YYYY-MM-DD
    def date_str(how, strict):
        def path(s):
            y, m, d = digits(s, 'y', 4, '2020'), digits(s, 'm', 2, '02'), digits(s, 'd', 2, '29')
            k, r = give(s, sd if strict else vd, how, y + lit('-') + m + lit('-') + d)
            ok = ymd_ok(num(y), num(m), num(d))
            if k == 'ok':
                s.check(type(r) is dt.date, 'type')
                s.check(ok, 'accepted')
                fields_are(s, r, [num(y), num(m), num(d)], 'fields')
            else:
                s.check(errs(r)[0][0] in ('date_parsing', 'date_from_datetime_parsing'), 'type %s' % errs(r))
                s.check(ok ^ 1, 'rejected a date')
        return path
    for how, strict in (('str', False), ('bytes', False), ('json', False), ('json', True), ('strings', False)):
        yield Case('date_%s%s' % (how, '_strict' if strict else ''), date_str(how, strict), 'dddd-dd-dd, every digit')

    # ---- datetime strings
    TZS = ['', 'Z', '+hm', '-hm']

    def tz_chars(s, k):
        if k < 2:
            return lit(TZS[k]), (None if k == 0 else cst(32, 0))
        h, m = digits(s, 'zh', 2, '01'), digits(s, 'zm', 2, '30')
        off = num(h) * 3600 + num(m) * 60
        s.assume(num(m).ule(59) & off.ult(86400))
        return lit(TZS[k][0]) + h + lit(':') + m, (off if k == 2 else -off)

    def tz_is(s, r, off):
        if off is None:
            s.check(r.tzinfo is None, 'no time zone')
        else:
            s.check(type(r.tzinfo) is TzInfo, 'time zone type')
            f = s.fields(r.tzinfo.utcoffset(r))
            s.check((f[0] * 86400 + f[1]) == off, 'time zone offset')
            s.check(f[2] == 0, 'time zone offset')

    def datetime_str(how, date_free, nfrac, strict):
        def path(s):
            if date_free:
                y, m, d = digits(s, 'y', 4, '2020'), digits(s, 'm', 2, '02'), digits(s, 'd', 2, '29')
                h, mi, se = lit('12'), digits(s, 'i', 2, '30'), lit('56')
            else:
                y, m, d = lit('2020'), lit('02'), lit('29')
                h, mi, se = digits(s, 'h', 2, '12'), digits(s, 'i', 2, '30'), digits(s, 's', 2, '59')
            sep = s.oneof('sep', 'T t_')
            bs = y + lit('-') + m + lit('-') + d + lit(sep) + h + lit(':') + mi
            withsec = bool(nfrac) or s.flag('sec', 1)
            us = cst(32, 0)
            if withsec:
                bs = bs + lit(':') + se
            if nfrac:
                f = digits(s, 'f', nfrac, '1')
                bs = bs + lit(s.oneof('dot', '.,')) + f
                us = num((f + lit('000000'))[:6])
            zc, off = tz_chars(s, s.pick('tz', 4))
            k, r = give(s, sdt if strict else vdt, how, bs + zc)
            ok = ymd_ok(num(y), num(m), num(d)) & num(h).ule(23) & num(mi).ule(59)
            if withsec:
                ok = ok & num(se).ule(59)
            if k == 'ok':
                s.check(type(r) is dt.datetime, 'type')
                s.check(ok, 'accepted')
                fields_are(s, r, [num(y), num(m), num(d), num(h), num(mi), num(se) if withsec else cst(32, 0), us], 'fields')
                s.check(r.fold == 0, 'fold')
                tz_is(s, r, off)
            else:
                s.check(errs(r)[0][0] in ('datetime_parsing', 'datetime_from_date_parsing'), 'type %s' % errs(r))
                s.check(ok ^ 1, 'rejected a datetime')
        return path
    yield Case('datetime_date', datetime_str('str', True, 0, False), 'every digit of the date and the minutes, 4 separators, 4 kinds of offset')
    yield Case('datetime_time', datetime_str('str', False, 0, False), 'every digit of the time')
    yield Case('datetime_frac3', datetime_str('bytes', False, 3, False), '3 fractional digits')
    yield Case('datetime_frac7', datetime_str('json', False, 7, True), '7 fractional digits (truncated to 6)')
    if big:
        yield Case('datetime_frac9', datetime_str('strings', True, 9, False), '9 fractional digits')

    def time_str(how, nfrac):
        def path(s):
            h, mi, se = digits(s, 'h', 2, '12'), digits(s, 'i', 2, '30'), digits(s, 's', 2, '59')
            withsec = bool(nfrac) or s.flag('sec', 1)
            bs, us = h + lit(':') + mi, cst(32, 0)
            if withsec:
                bs = bs + lit(':') + se
            if nfrac:
                f = digits(s, 'f', nfrac, '1')
                bs = bs + lit('.') + f
                us = num((f + lit('000000'))[:6])
            zc, off = tz_chars(s, s.pick('tz', 4))
            k, r = give(s, vt, how, bs + zc)
            ok = num(h).ule(23) & num(mi).ule(59)
            if withsec:
                ok = ok & num(se).ule(59)
            if k == 'ok':
                s.check(type(r) is dt.time, 'type')
                s.check(ok, 'accepted')
                fields_are(s, r, [num(h), num(mi), num(se) if withsec else cst(32, 0), us], 'fields')
                tz_is(s, r, off)
            else:
                s.check(errs(r) == [('time_parsing', ())], 'type %s' % errs(r))
                s.check(ok ^ 1, 'rejected a time')
        return path
    yield Case('time_str', time_str('str', 0), 'every digit, 4 kinds of offset')
    yield Case('time_json6', time_str('json', 6), '6 fractional digits')

    # ---- more than 6 fractional digits: truncated or an error
    ve = {'datetime': V(cs.datetime_schema(microseconds_precision='error')), 'time': V(cs.time_schema(microseconds_precision='error')), 'delta': V(cs.timedelta_schema(microseconds_precision='error'))}
    vr = {'datetime': V(cs.datetime_schema(microseconds_precision='truncate')), 'time': V(cs.time_schema()), 'delta': V(cs.timedelta_schema(microseconds_precision='truncate'))}

    def precision(s):
        kind = s.oneof('kind', ('datetime', 'time', 'delta'))
        err = s.flag('err')
        n = 5 + s.pick('n', 4)
        f = digits(s, 'f', n, '123456789')
        t = lit('12:30:59.') + f
        how = s.oneof('how', ('str', 'json', 'bytes', 'strings'))
        pre = lit('2020-02-29T') if kind == 'datetime' else []
        k, r = give(s, (ve if err else vr)[kind], how, pre + t)
        if err and n > 6:
            s.check(k == 'err' and errs(r)[0][0].endswith('_parsing'), 'too many digits')
        else:
            s.check(k == 'ok', 'accepted')
            s.check(s.fields(r)[-1] == num((f + lit('0'))[:6]), 'microseconds')
    yield Case('precision', precision, '5..8 fractional digits, date-time / time / timedelta, 4 input kinds')

    # ---- a date from a date-time: only at midnight
    def date_from(kind):
        def path(s):
            if kind == 'obj':
                D, T = sym_date(s, 'd'), sym_time(s, 't', base=(0, 0, 0, 0))
                x = s.datetime(*D, *T, tz=s.oneof('tz', (None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=-5)))))
                z = all_(t == 0 for t in T)
                k, r = attempt(vd.validate_python, x)
                ks, rs = attempt(sd.validate_python, x)
                s.check(ks == 'err' and errs(rs) == [('date_type', ())], 'strict date from a datetime')
                D3 = D
            else:
                h, mi, se, f = digits(s, 'h', 2), digits(s, 'i', 2), digits(s, 's', 2), digits(s, 'f', 1)
                s.assume(num(h).ule(23) & num(mi).ule(59) & num(se).ule(59))
                zc, off = tz_chars(s, s.pick('tz', 4))
                z = all_(num(t) == 0 for t in (h, mi, se, f))
                bs = lit('2020-02-29T') + h + lit(':') + mi + lit(':') + se + lit('.') + f + zc
                k, r = give(s, vd, kind, bs)
                D3 = [cst(32, 2020), cst(32, 2), cst(32, 29)]
                if kind == 'str':
                    ks, rs = give(s, sd, kind, bs)
                    s.check(ks == 'err' and errs(rs) == [('date_type', ())], 'strict date from a string')
            if k == 'ok':
                s.check(type(r) is dt.date, 'type')
                s.check(z, 'date from a datetime that is not midnight')
                fields_are(s, r, D3, 'fields')
            else:
                s.check(errs(r) == [('date_from_datetime_inexact', ())], 'type %s' % errs(r))
                s.check(z ^ 1, 'midnight rejected')
        return path
    for k in ('obj', 'str', 'json'):
        yield Case('date_from_datetime_' + k, date_from(k), 'every date and time')

    def datetime_from(s):
        D = sym_date(s, 'd')
        x = s.date(*D)
        k, r = attempt(vdt.validate_python, x)
        s.check(k == 'ok' and type(r) is dt.datetime and r.tzinfo is None, 'datetime of a date')
        fields_are(s, r, D + [cst(32, 0)] * 4, 'fields')
        k, r = attempt(sdt.validate_python, x)
        s.check(k == 'err' and errs(r) == [('datetime_type', ())], 'strict datetime from a date')
        k, r = attempt(vt.validate_python, x)
        s.check(k == 'err' and errs(r) == [('time_type', ())], 'time from a date')
    yield Case('datetime_from_date', datetime_from, 'every date')

    def datetime_from_str(s):
        y, m, d = digits(s, 'y', 4, '2020'), digits(s, 'm', 2, '02'), digits(s, 'd', 2, '29')
        how = s.oneof('how', ('str', 'json', 'bytes', 'strings'))
        k, r = give(s, vdt, how, y + lit('-') + m + lit('-') + d)
        ok = ymd_ok(num(y), num(m), num(d))
        if k == 'ok':
            s.check(ok, 'accepted')
            s.check(r.tzinfo is None, 'naive')
            fields_are(s, r, [num(y), num(m), num(d)] + [cst(32, 0)] * 4, 'fields')
        else:
            s.check(ok ^ 1, 'rejected')
    yield Case('datetime_from_date_str', datetime_from_str, 'dddd-dd-dd, every digit')

    # ---- objects pass through unchanged
    def identity(s):
        D, T = sym_date(s, 'd', 'yd'), sym_time(s, 't', 'hu')
        strict = s.flag('strict')
        which = s.pick('w', 3)
        x = [lambda: s.date(*D), lambda: s.time(*T), lambda: s.datetime(*D, *T)][which]()
        v = [(vd, sd), (vt, st_), (vdt, sdt)][which][strict]
        k, r = attempt(v.validate_python, x)
        s.check(k == 'ok' and r is x, 'an instance is returned as it is')
    yield Case('identity', identity, 'every date / time / datetime')

    # ---- constraints: comparison of the fields
    OPS4 = ('lt', 'le', 'gt', 'ge')

    def constraint(kind, how):
        mk = {'date': cs.date_schema, 'time': cs.time_schema, 'datetime': cs.datetime_schema}[kind]

        def path(s):
            op = s.oneof('op', OPS4)
            if kind == 'date':
                a, b = sym_date(s, 'a'), sym_date(s, 'b')
                x, y = s.date(*a), s.date(*b)
            elif kind == 'time':
                a, b = sym_time(s, 'a'), sym_time(s, 'b')
                x, y = s.time(*a), s.time(*b)
            else:
                a, b = sym_date(s, 'a', 'yd') + sym_time(s, 'at', 'hu'), sym_date(s, 'b', 'yd') + sym_time(s, 'bt', 'hu')
                x, y = s.datetime(*a), s.datetime(*b)
            v = V(mk(**{op: y}))
            k, r = attempt(v.validate_python, x)
            c = lex_cmp(s, a, b)
            if k == 'ok':
                s.check(ops_ok(c, op), '%s accepted' % op)
                s.check(r is x, 'unchanged')
            else:
                s.check(errs(r) == [(OPERR[op], ())], 'type %s' % errs(r))
                s.check(not ops_ok(c, op), '%s rejected' % op)
        return path
    for kind in ('date', 'time', 'datetime'):
        yield Case('constraint_' + kind, constraint(kind, 'obj'), 'every value and every bound')

    # aware against aware: by instant
    def aware(s):
        op = s.oneof('op', OPS4)
        ha, hb = s.bv('ha', 5, 12).zext(32), s.bv('hb', 5, 12).zext(32)
        us, ub = s.bv('ua', 4, 3).zext(32), s.bv('ub', 4, 3).zext(32)
        s.assume(ha.ule(23) & hb.ule(23))
        oa, ob = s.pick('oa', 3), s.pick('ob', 3)
        tz = lambda i: dt.timezone(dt.timedelta(hours=(0, 5, -7)[i]))  # noqa: E731
        c0 = [cst(32, x) for x in (2020, 2, 28)]
        x = s.datetime(*c0, ha, cst(32, 0), cst(32, 0), us, tz=tz(oa))
        y = s.datetime(*c0, hb, cst(32, 0), cst(32, 0), ub, tz=tz(ob))
        k, r = attempt(V(cs.datetime_schema(**{op: y})).validate_python, x)
        c = lex_cmp(s, [ha - (0, 5, -7)[oa], us], [hb - (0, 5, -7)[ob], ub])
        s.check((k == 'ok') == ops_ok(c, op), '%s of instants' % op)
    yield Case('constraint_aware', aware, '24 x 16 times, offsets 0 / +5h / -7h on both sides')

    def both(s):
        # two bounds: both apply
        a, b, x = [sym_date(s, n, 'd', (2020, 2, 15)) for n in 'abx']
        v = V(cs.date_schema(ge=s.date(*a), lt=s.date(*b)))
        k, r = attempt(v.validate_python, s.date(*x))
        lo, hi = bool(x[2].uge(a[2])), bool(x[2].ult(b[2]))
        s.check((k == 'ok') == (lo and hi), 'both bounds')
    yield Case('two_bounds', both, 'days of one month')

    # ---- tz_constraint
    vn, va = [{k: V(f(tz_constraint=k)) for k in ('naive', 'aware')} for f in (cs.datetime_schema, cs.time_schema)]

    def tzc(s):
        kind = s.pick('kind', 2)
        want = s.pick('want', 3)
        e = s.bv('e', 12, 90)
        if want == 2:
            exp = s.int(e.sext(32) * 60)
            v = V((cs.datetime_schema, cs.time_schema)[kind](tz_constraint=exp))
        else:
            v = (vn, va)[kind][('naive', 'aware')[want]]
        zc, off = tz_chars(s, s.pick('tz', 4))
        bs = lit('2020-02-29T')[(11 if kind else 0):] + lit('12:30:00') + zc
        k, r = give(s, v, s.oneof('how', ('str', 'json')), bs)
        if want == 0:
            s.check((k == 'ok') == (off is None), 'naive')
            s.check(k == 'ok' or errs(r) == [('timezone_naive', ())], 'type')
        elif off is None:
            s.check(k == 'err' and errs(r) == [('timezone_aware', ())], 'aware')
        elif want == 1:
            s.check(k == 'ok', 'aware')
        else:
            if k == 'ok':
                s.check(off == e.sext(32) * 60, 'offset accepted')
            else:
                s.check(errs(r) == [('timezone_offset', ())], 'type')
                s.check(off != e.sext(32) * 60, 'offset rejected')
    yield Case('tz_constraint', tzc, 'every hh:mm offset against every required offset of 12-bit minutes')

    # ---- now_op, far from now
    vnow = {(f, op): V(mk(now_op=op, now_utc_offset=0)) for f, mk in (('date', cs.date_schema), ('datetime', cs.datetime_schema)) for op in ('past', 'future')}

    def now(s):
        f, op = s.oneof('f', ('date', 'datetime')), s.oneof('op', ('past', 'future'))
        D = sym_date(s, 'd', 'ym', (1990, 2, 20))
        s.assume(D[0].ule(2020) | D[0].uge(2200))
        x = s.date(*D) if f == 'date' else s.datetime(*D, *[cst(32, 1)] * 4)
        k, r = attempt(vnow[f, op].validate_python, x)
        past = bool(D[0].ule(2020))
        s.check((k == 'ok') == (past == (op == 'past')), 'now_op')
        s.check(k == 'ok' or errs(r) == [('%s_%s' % (f, op), ())], 'type')
    yield Case('now_op', now, 'years 1-2020 and 2200-9999')

    # ---- TzInfo
    def tzinfo(s):
        e = s.bv('o', 18, 3600)
        n = e.sext(32)
        s.assume(n.sbetween(-86399 if big else -4000, 86399 if big else 4000) | n.sbetween(86300, 86399) | n.sbetween(-86399, -86300) | (n == 86400) | (n == -86400))
        inside = bool(n.sbetween(-86399, 86399))
        try:
            t = TzInfo(s.int(e))
        except ValueError:
            s.check(not inside, 'rejected an offset')
            return
        s.check(inside, 'accepted an offset')
        f = s.fields(t.utcoffset(None))
        s.check((f[0] * 86400 + f[1]) == n, 'utcoffset')
        s.check(t.dst(None) is None, 'dst')
        o2 = t.__reduce__()[1][0]
        s.check(s.val(o2, 32) == n, 'pickled offset')
        u = TzInfo(o2)
        s.check(t == u, 'a copy is equal')
        s.quiet(True)
        s.check(hash(t) == hash(u), 'a copy has the same hash')
        s.quiet(False)
    yield Case('tzinfo', tzinfo, 'every whole number of seconds within the stated ranges')

    def tzname(s):
        n = s.bv('o', 18, 300).sext(32)
        lo, hi = s.oneof('rng', ((-86399, -82800), (-7400, -1), (0, 7400), (82800, 86399)) if not big else ((-86399, -1), (0, 86399)), 2)
        s.assume(n.sbetween(lo, hi))
        t = TzInfo(s.int(n))
        name = s.content(str(t))
        neg = bool(n.slt(0))
        if bool(n == 0):
            want = [cst(8, ord(c)) for c in 'UTC']
        else:
            a = -n if neg else n
            h, m, se = a.udiv(3600), a.urem(3600).udiv(60), a.urem(60)
            d2 = lambda x: [(x.udiv(10) + 48).bits(0, 8), (x.urem(10) + 48).bits(0, 8)]  # noqa: E731
            want = [cst(8, ord('-' if neg else '+'))] + d2(h) + [cst(8, 58)] + d2(m)
            if bool(se != 0):
                want += [cst(8, 58)] + d2(se)
        s.check(len(name) == len(want) and all_(x == y for x, y in zip(name, want)), 'name of the offset')
        s.check(str(t) == t.tzname(None) and repr(t) == 'TzInfo(%s)' % t, 'tzname')
    yield Case('tzname', tzname, 'every offset of whole seconds within 2 h 3 min of 0 or 1 h of a day' if not big else 'every offset')

    def tzcmp(s):
        a, b = s.bv('a', 12, 60), s.bv('b', 12, 60)
        x = TzInfo(s.int(a))
        bn = b.sext(32)
        neg = bool(bn.slt(0))
        m = bn + 86400 if neg else bn
        y = TzInfo(s.int(b))
        s.check((x == y) == bool(a == b), '==')
        s.check((x != y) == bool(a != b), '!=')
    yield Case('tzcmp', tzcmp, 'pairs of 12-bit offsets')
