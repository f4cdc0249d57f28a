"""C06 - numbers as dates, times and durations; durations and their bounds."""
from hlib import *
import datetime as dt
from pydantic_core import TzInfo
from C05 import num

EPOCH = dt.datetime(1970, 1, 1)


def cases(tier):
    big = tier != 'quick'
    vd, vt, vdt, vtd = V(cs.date_schema()), V(cs.time_schema()), V(cs.datetime_schema()), V(cs.timedelta_schema())
    sdt, st_, std = V(cs.datetime_schema(strict=True)), V(cs.time_schema(strict=True)), V(cs.timedelta_schema(strict=True))

    def lit(x):
        return [cst(8, ord(c)) for c in x]

    def at(s, r, day, sec, us):
        """r is the UTC datetime `day` (concrete date) plus sec (term below 86400) and us (term)"""
        f = s.fields(r)
        s.check(all_(a == b for a, b in zip(f[:3], (day.year, day.month, day.day))), 'day')
        s.check(f[3] * 3600 + f[4] * 60 + f[5] == sec, 'time of day')
        s.check(f[5].ule(59) & f[4].ule(59), 'normalised')
        s.check(f[6] == us, 'microseconds')
        s.check(type(r.tzinfo) is TzInfo and r.utcoffset() == dt.timedelta(0), 'UTC')

    DAYS = [dt.date(1970, 1, 1), dt.date(1969, 12, 31), dt.date(2000, 2, 29), dt.date(1904, 3, 1), dt.date(2038, 1, 19), dt.date(2603, 10, 11), dt.date(1336, 3, 23), dt.date(1600, 1, 1)]

    # ---- whole seconds
    def int_seconds(how):
        def path(s):
            day = s.oneof('day', DAYS)
            sec = s.bv('sec', 17, 45296).zext(32)
            s.assume(sec.ult(86400))
            ts = sec.zext(64) + (day - EPOCH.date()).days * 86400
            s.assume(ts.sbetween(-20_000_000_000, 20_000_000_000))
            x = s.int(ts) if how == 'int' else s.float(ts.s2f())
            k, r = attempt(vdt.validate_python, x)
            s.check(k == 'ok', 'accepted')
            at(s, r, day, sec, cst(32, 0))
            k, r = attempt(sdt.validate_python, x)
            s.check(k == 'err' and errs(r) == [('datetime_type', ())], 'strict datetime from a number')
            k, r = attempt(vd.validate_python, x)
            if k == 'ok':
                s.check(sec == 0, 'date of a timestamp that is not midnight')
                s.check(type(r) is dt.date and r == day, 'date')
            else:
                s.check(sec != 0, 'date of a timestamp at midnight')
                s.check(errs(r) == [('date_from_datetime_inexact', ())], 'type')
        return path
    for how in ('int', 'float'):
        yield Case('seconds_' + how, int_seconds(how), 'every second of %d days between 1336 and 2603' % len(DAYS))

    # ---- milliseconds beyond 2e10
    MDAYS = [dt.date(1970, 8, 20), dt.date(2000, 2, 29), dt.date(9999, 12, 31), dt.date(1969, 5, 13), dt.date(1600, 3, 1)]

    def hms(s):
        h, m, se = s.bv('h', 5, 12), s.bv('m', 6, 34), s.bv('se', 6, 56)
        s.assume(h.ult(24) & m.ult(60) & se.ult(60))
        return h.zext(64), m.zext(64), se.zext(64)

    def int_millis(s):
        day = s.oneof('day', MDAYS)
        h, m, se = hms(s)
        ms = s.bv('ms', 10, 789).zext(64)
        s.assume(ms.ult(1000))
        ts = ((h * 60 + m) * 60 + se) * 1000 + ms + (day - EPOCH.date()).days * 86400000
        s.assume(ts.slt(-20_000_000_000) | ts.sgt(20_000_000_000))
        k, r = attempt(vdt.validate_python, s.int(ts))
        s.check(k == 'ok', 'accepted')
        f = s.fields(r)
        s.check(all_(a == b for a, b in zip(f[:3], (day.year, day.month, day.day))), 'day')
        for a, b in zip(f[3:], (h, m, se, ms * 1000)):
            s.check(a == b.bits(0, 32), 'time of day')
    yield Case('milliseconds', int_millis, 'every millisecond of %d days' % len(MDAYS))

    # ---- fractions of a second / of a millisecond (eighths: exact in binary)
    def frac(unit):
        def path(s):
            q = s.bv('q', 3, 5)
            d = s.oneof('day', DAYS[:5] if unit == 's' else MDAYS)
            n = s.bv('n', 6, 20)
            if unit == 's':
                base = (d - EPOCH.date()).days * 86400 + 3600
                sec, us = n.zext(32) + 3600, q.zext(32) * 125000
            else:
                base = (d - EPOCH.date()).days * 86400000 + 43200000
                sec, us = cst(32, 43200), n.zext(32) * 1000 + q.zext(32) * 125
            x8 = n.zext(64) * 8 + q.zext(64) + base * 8
            x = x8.s2f().fmul(fcst(0.125))
            k, r = attempt(vdt.validate_python, s.float(x))
            s.check(k == 'ok', 'accepted')
            at(s, r, d, sec, us)
        return path
    yield Case('fraction_s', frac('s'), '64 x 8 eighths of a second on 5 days, before and after 1970')
    yield Case('fraction_ms', frac('ms'), '64 x 8 eighths of a millisecond on 5 days')

    # ---- out of range: an error, never a wrapped value
    def extreme(s):
        n = s.bv('n', 64, 1 << 62)
        s.assume(n.sgt(253402300799999) | n.slt(-62167219200000))
        x = s.int(n) if s.flag('int') else s.float(n.s2f())
        for v, t in ((vdt, 'datetime_parsing'), (vd, 'date_from_datetime_parsing')):
            k, r = attempt(v.validate_python, x)
            s.check(k == 'err' and errs(r) == [(t, ())], 'out of range')
    yield Case('out_of_range', extreme, 'every 64-bit number beyond year 9999 or before year 0')

    def special(s):
        x = s.oneof('x', (float('nan'), float('inf'), float('-inf'), 1e300, -1e300, 10**30, -10**30, True, False))
        for v in (vdt, vt, vtd, vd):
            k, r = attempt(v.validate_python, x)
            s.check(k == 'err' and len(errs(r)) == 1, 'error')
    yield Case('special', special, 'NaN, infinities, huge numbers, bool')

    # ---- time of day
    def tod(how):
        def path(s):
            n = s.bv('n', 20 if how != 'wide' else 64, 45296)
            bool(n.slt(0))
            x = n.sext(64)
            if how == 'frac':
                q = s.bv('q', 3, 3)
                k, r = attempt(vt.validate_python, s.float((x * 8 + q.zext(64)).s2f().fmul(fcst(0.125))))
                us = q.zext(32) * 125000
            else:
                k, r = attempt(vt.validate_python, s.int(x))
                us = cst(32, 0)
            ok = x.between(0, 86399)
            if k == 'ok':
                s.check(ok, 'accepted')
                f = s.fields(r)
                s.check(f[0] * 3600 + f[1] * 60 + f[2] == x.bits(0, 32), 'time of day')
                s.check(f[1].ule(59) & f[2].ule(59), 'normalised')
                s.check(f[3] == us, 'microseconds')
                s.check(r.utcoffset() == dt.timedelta(0), 'UTC')
            else:
                s.check(errs(r) == [('time_parsing', ())], 'type')
                s.check(ok ^ 1, 'rejected')
        return path
    yield Case('time_int', tod('int'), 'every 20-bit int')
    yield Case('time_wide', tod('wide'), 'every 64-bit int')
    yield Case('time_frac', tod('frac'), 'every multiple of 1/8 in 20 bits')

    # ---- durations
    def is_delta(s, r, days, secs, us):
        f = s.fields(r)
        s.check((f[0] == days) & (f[1] == secs) & (f[2] == us), 'duration')

    def delta_int(how):
        def path(s):
            w = 64
            n = s.bv('n', w, 90061)
            if how == 'int':
                k, r = attempt(vtd.validate_python, s.int(n))
            else:
                s.assume(n.sbetween(-(1 << 47), 1 << 47))
                k, r = attempt(vtd.validate_python, s.float(n.s2f()))
            a = bool(n.slt(0))
            m = (-n) if a else n
            ok = bool(m.ule(999999999 * 86400 + 86399))
            if not ok or (a and not bool(m.ule(999999999 * 86400))):
                s.check(k == 'err' or a, 'out of range accepted')
                if k == 'err':
                    s.check(errs(r) == [('time_delta_parsing', ())], 'type')
                return
            s.check(k == 'ok', 'accepted')
            f = s.fields(r)
            s.check(f[0].sext(64) * 86400 + f[1].sext(64) == n, 'duration')
            s.check(f[1].between(0, 86399) & (f[2] == 0), 'normalised')
        return path

    def delta_small(how):
        def path(s):
            n = s.bv('n', 22, 90061)
            bool(n.slt(0))
            n = n.sext(64)
            if how == 'int':
                k, r = attempt(vtd.validate_python, s.int(n))
                us = cst(32, 0)
            else:
                q = s.bv('q', 3, 3)
                k, r = attempt(vtd.validate_python, s.float((n * 8 + q.zext(64)).s2f().fmul(fcst(0.125))))
                us = q.zext(32) * 125000
            s.check(k == 'ok', 'accepted')
            f = s.fields(r)
            s.check(f[0] * 86400 + f[1] == n.bits(0, 32), 'duration')
            s.check(f[1].between(0, 86399) & (f[2] == us), 'normalised')
        return path
    yield Case('delta_int', delta_small('int'), 'every 22-bit int')
    yield Case('delta_frac', delta_small('float'), 'every multiple of 1/8 in 22 bits')

    def delta_huge(s):
        n = s.bv('n', 64, 1 << 60)
        bool(n.slt(0))
        s.assume(n.sgt(999999999 * 86400 + 86399) | n.slt(-999999999 * 86400 - 86399))
        k, r = attempt(vtd.validate_python, s.int(n))
        s.check(k == 'err' and errs(r) == [('time_delta_parsing', ())], 'duration out of range accepted')
        k, r = attempt(vtd.validate_python, s.float(n.s2f()))
        s.check(k == 'err' and errs(r) == [('time_delta_parsing', ())], 'duration out of range accepted')
    yield Case('delta_huge', delta_huge, 'every 64-bit int beyond a billion days')

    def dig(s, n, k, default='0'):
        return s.chars(n, k, default=default, alphabet='0123456789')

    def delta_iso(frac):
        def path(s):
            how = s.oneof('how', ('str', 'json', 'bytes', 'strings'))
            neg = s.flag('neg')
            if frac:
                f = dig(s, 'f', 2, '25')
                f = [cst(8, c.conc()) for c in f]
                d, h, m, se = [lit(x) for x in ('01', '02', '03', '04')]
                f3 = f if s.flag('f2') else f + lit('5')
            else:
                d, h, m, se = dig(s, 'd', 2, '12'), dig(s, 'h', 2, '07'), dig(s, 'm', 2, '30'), dig(s, 's', 2, '15')
                for x, lim in ((h, 23), (m, 59), (se, 59)):
                    s.assume(num(x).ule(lim))
                f3 = []
            bs = lit('-P' if neg else 'P') + d + lit('DT') + h + lit('H') + m + lit('M') + se + ((lit('.') + f3) if frac else []) + lit('S')
            x = s.bytes([34] + bs + [34]) if how == 'json' else s.bytes(bs) if how == 'bytes' else s.str(bs)
            k, r = attempt({'json': vtd.validate_json, 'strings': vtd.validate_strings}.get(how, vtd.validate_python), x)
            s.check(k == 'ok', 'accepted')
            us = num((f3 + lit('000000'))[:6])
            g = s.fields(r)
            sec = num(h) * 3600 + num(m) * 60 + num(se)
            D = num(d)
            if neg:
                # -(D, sec, us) in the normal form with non-negative seconds and microseconds
                D = -D
                bor = bool(us != 0)
                u2 = 1000000 - us if bor else us
                s2 = -sec - 1 if bor else -sec
                if bor or bool(sec != 0):
                    s2, D = s2 + 86400, D - 1
                s.check((g[0] == D) & (g[1] == s2) & (g[2] == u2), 'negative duration')
            else:
                s.check((g[0] == D) & (g[1] == sec) & (g[2] == us), 'duration')
        return path
    yield Case('delta_iso', delta_iso(False), 'every digit of PddDThhHmmMssS with either sign')
    yield Case('delta_iso_frac', delta_iso(True), 'PddDThhHmmMss.ff[f]S with every two fractional digits and either sign')

    def delta_id(s):
        d, se, us = s.bv('d', 31, 5).sext(32), s.bv('s', 17, 7).zext(32), s.bv('u', 20, 9).zext(32)
        s.assume(d.sbetween(-999999999, 999999999) & se.ult(86400) & us.ult(1000000))
        x = s.delta(d, se, us)
        for v in (vtd, std):
            k, r = attempt(v.validate_python, x)
            s.check(k == 'ok' and r is x, 'a timedelta is returned as it is')
        k, r = attempt(std.validate_python, s.int(d))
        s.check(k == 'err' and errs(r) == [('time_delta_type', ())], 'strict timedelta from a number')
    yield Case('delta_identity', delta_id, 'every timedelta')

    def sym_delta(s, n, default):
        d, se, us = s.bv(n + 'd', 31, default[0]).sext(32), s.bv(n + 's', 17, default[1]).zext(32), s.bv(n + 'u', 20, default[2]).zext(32)
        s.assume(d.sbetween(-999999999, 999999999) & se.ult(86400) & us.ult(1000000))
        return [d, se, us]

    BOUNDS = [dt.timedelta(0), dt.timedelta(1, 2, 3), dt.timedelta(-1, 2, 3), dt.timedelta(-2), dt.timedelta(0, 0, 1), dt.timedelta(-1, 86399, 999999), dt.timedelta(999999999, 86399, 999999), dt.timedelta(0, 86399)]
    vb = {(op, i): V(cs.timedelta_schema(**{op: b})) for op in OPERR for i, b in enumerate(BOUNDS)}

    def delta_constraint(s):
        op = s.oneof('op', tuple(OPERR))
        i = s.pick('b', len(BOUNDS))
        B_ = BOUNDS[i]
        a = sym_delta(s, 'a', (1, 2, 3))
        b = [cst(32, x) for x in (B_.days, B_.seconds, B_.microseconds)]
        x = s.delta(*a)
        k, r = attempt(vb[op, i].validate_python, x)
        c = lex_cmp(s, a, b)
        if k == 'ok':
            s.check(ops_ok(c, op), '%s accepted' % op)
            s.check(r is x, 'unchanged')
        else:
            s.check(errs(r) == [(OPERR[op], ())], 'type')
            s.check(not ops_ok(c, op), '%s rejected' % op)
    yield Case('delta_constraint', delta_constraint, 'every timedelta against %d bounds, negative ones included' % len(BOUNDS))

    def delta_constraint_int(s):
        op = s.oneof('op', tuple(OPERR))
        i = s.pick('b', len(BOUNDS))
        n = s.bv('n', 24, 5)
        n = n.sext(64)
        k, r = attempt(vb[op, i].validate_python, s.int(n))
        B_ = BOUNDS[i]
        whole = B_.days * 86400 + B_.seconds
        c = -1 if bool(n.slt(whole)) else 1 if bool(n.sgt(whole)) else -1 if B_.microseconds else 0
        if k == 'ok':
            s.check(ops_ok(c, op), '%s accepted' % op)
        else:
            s.check(errs(r) == [(OPERR[op], ())], 'type')
            s.check(not ops_ok(c, op), '%s rejected' % op)
    yield Case('delta_constraint_int', delta_constraint_int, 'every 24-bit int against the same bounds')
