"""C15 - dates, times and durations serialize to ISO 8601 text (or seconds) which means the value and reads back as the same value."""
from hlib import *
import datetime as dt


def num(s, cs, w=32):
    v = cst(w, 0)
    for c in cs:
        s.check(c.between(48, 57), 'a digit')
        v = v * 10 + (c - 48).zext(w)
    return v


def lit(s, c, ch):
    s.check(c == ord(ch), 'expected ' + ch)


def rd_date(s, cs):
    s.check(len(cs) == 10, 'length of a date')
    lit(s, cs[4], '-')
    lit(s, cs[7], '-')
    return [num(s, cs[:4]), num(s, cs[5:7]), num(s, cs[8:10])]


def rd_time(s, cs):
    """h, m, s, us and what follows"""
    s.check(len(cs) >= 8, 'length of a time')
    lit(s, cs[2], ':')
    lit(s, cs[5], ':')
    out = [num(s, cs[:2]), num(s, cs[3:5]), num(s, cs[6:8])]
    cs = cs[8:]
    us = cst(32, 0)
    if cs and bool(cs[0] == 46):
        n = 1
        while n < len(cs) and n < 7 and bool(cs[n].between(48, 57)):
            n += 1
        s.check(n > 1, 'digits of the fraction')
        us = num(s, cs[1:n]) * 10 ** (7 - n)
        cs = cs[n:]
    return out + [us], cs


def rd_zone(s, cs, off):
    """off: the offset in seconds, or None"""
    if off is None:
        s.check(not cs, 'no zone')
    elif off == 0 and len(cs) == 1:
        lit(s, cs[0], 'Z')
    else:
        s.check(len(cs) == 6, 'length of the zone')
        lit(s, cs[0], '-' if off < 0 else '+')
        lit(s, cs[3], ':')
        s.check(num(s, cs[1:3]) * 60 + num(s, cs[4:6]) == abs(off) // 60, 'the zone')


def rd_duration(s, cs):
    """sign, seconds (64-bit), microseconds of a duration in ISO 8601: years of 365 days, days, hours, minutes, seconds"""
    neg = bool(cs[0] == 45)
    cs = cs[1:] if neg else cs
    lit(s, cs[0], 'P')
    cs = cs[1:]
    s.check(len(cs) > 1, 'an empty duration')
    tot, us = cst(64, 0), cst(32, 0)
    time = False
    last = -1
    while cs:
        if not time and bool(cs[0] == 84):
            time = True
            cs = cs[1:]
            s.check(len(cs) > 0, 'nothing after T')
            continue
        n = 0
        while n < len(cs) and bool(cs[n].between(48, 57)):
            n += 1
        s.check(n > 0, 'digits of the duration')
        v = num(s, cs[:n], 64)
        cs = cs[n:]
        s.check(len(cs) > 0, 'a unit')
        if bool(cs[0] == 46):
            n = 1
            while n < len(cs) and bool(cs[n].between(48, 57)):
                n += 1
            s.check(1 < n <= 7, 'digits of the fraction')
            us = num(s, cs[1:n]) * 10 ** (7 - n)
            cs = cs[n:]
            lit(s, cs[0], 'S')
        units = [('H', 3600), ('M', 60), ('S', 1)] if time else [('Y', 365 * 86400), ('W', 7 * 86400), ('D', 86400)]
        for i, (u, f) in enumerate(units):
            if bool(cs[0] == ord(u)):
                i += 3 if time else 0
                s.check(i > last, 'units in order')
                last = i
                tot = tot + v * f
                break
        else:
            s.check(False, 'unknown unit')
        cs = cs[1:]
    return neg, tot, us


ZONES = [None, 0, 3600, -3600, 19800, -16200, 50400, -43200, 86340, -86340, 60, -60]


def cases(tier):
    big = tier != 'quick'
    import pydantic_core as pc
    any_s = cs.any_schema()
    T = {'date': cs.date_schema(), 'time': cs.time_schema(), 'datetime': cs.datetime_schema(), 'delta': cs.timedelta_schema()}

    def texts(s, kind, v, how, **cfg):
        """the text of the value in all forms of JSON mode"""
        typed = how != 'any'
        sch = T[kind] if typed else any_s
        if how == 'key':
            s.quiet(True)
            d = {v: 1}
            s.quiet(False)
            for ks in (T[kind], any_s):
                ser = SchemaSerializer(cs.dict_schema(ks, any_s), cfg)
                t = jparse(s, s.content(ser.to_json(d)))
                s.check(isinstance(t, tuple) and len(t) == 1, 'one key')
                yield t[0][0], None
            return
        ser = SchemaSerializer(sch, cfg)
        out = ser.to_json(v)
        t = jparse(s, s.content(out))
        yield t, out
        py = ser.to_python(v, mode='json')
        if type(py) is str:
            yield Txt(s.content(py)), None
        same(s, ser.to_python(v), v, 'Python mode') if v.__class__ is not dt.time and v.__class__ is not dt.datetime else s.check(ser.to_python(v) is v, 'Python mode')
        if how == 'any':
            yield jparse(s, s.content(pc.to_json(v))), None

    def date(how, free):
        def path(s):
            y, m, d = sym_date(s, 'd', free)
            v = s.date(y, m, d)
            for t, out in texts(s, 'date', v, how):
                s.check(isinstance(t, Txt), 'a string')
                f = rd_date(s, t)
                s.check(all_([a == b for a, b in zip(f, [y, m, d])]), 'the date')
                if out is not None:
                    k, r = attempt(V(T['date']).validate_json, out)
                    s.check(k == 'ok' and type(r) is dt.date, 'reads back')
                    s.check(all_([a == b for a, b in zip(s.fields(r), [y, m, d])]), 'reads back as the same date')
        return path

    def tz(off):
        return None if off is None else dt.timezone(dt.timedelta(seconds=off))

    WB = 7 if not big else 12

    def window(s, n, bases, top):
        x = s.bv(n, WB, 1).zext(32) + s.oneof(n + 'b', bases)
        s.assume(x.ult(top))
        return x

    UB = [0, 99900, 499900, 10 ** 6 - (1 << WB)]

    def sym_clock(s, free):
        h = sym_time(s, 't', free.replace('w', ''))
        if 'w' in free:
            h[3] = window(s, 'us', UB, 10 ** 6)
        return h

    def time(how, free, zones):
        def path(s):
            h = sym_clock(s, free)
            off = s.oneof('z', zones)
            v = s.time(*h, tz(off))
            for t, out in texts(s, 'time', v, how):
                s.check(isinstance(t, Txt), 'a string')
                f, rest = rd_time(s, t)
                s.check(all_([a == b for a, b in zip(f, h)]), 'the time')
                rd_zone(s, rest, off)
                if out is not None:
                    k, r = attempt(V(T['time']).validate_json, out)
                    s.check(k == 'ok' and type(r) is dt.time, 'reads back')
                    s.check(all_([a == b for a, b in zip(s.fields(r), h)]), 'reads back as the same time')
                    zone_back(s, r, off)
        return path

    def zone_back(s, r, off):
        s.quiet(True)
        z = r.utcoffset()
        s.quiet(False)
        s.check((z is None) == (off is None) and (z is None or int(z.total_seconds()) == off), 'reads back with the same zone')

    def datetime(how, dfree, tfree, zones):
        def path(s):
            y, m, d = sym_date(s, 'd', dfree)
            h = sym_clock(s, tfree)
            off = s.oneof('z', zones)
            v = s.datetime(y, m, d, *h, tz(off))
            for t, out in texts(s, 'datetime', v, how):
                s.check(isinstance(t, Txt) and len(t) > 11, 'a string')
                f = rd_date(s, t[:10])
                lit(s, t[10], 'T')
                g, rest = rd_time(s, t[11:])
                s.check(all_([a == b for a, b in zip(f + g, [y, m, d] + h)]), 'the datetime')
                rd_zone(s, rest, off)
                if out is not None:
                    k, r = attempt(V(T['datetime']).validate_json, out)
                    s.check(k == 'ok' and type(r) is dt.datetime, 'reads back')
                    s.check(all_([a == b for a, b in zip(s.fields(r), [y, m, d] + h)]), 'reads back as the same datetime')
                    zone_back(s, r, off)
        return path

    def delta(how, dbits, base, sfree, ufree):
        """days: base + a window"""
        def path(s):
            days = (s.bv('d', dbits, 1).zext(32) + base) if dbits else cst(32, base)
            sec = window(s, 's', [0, 3500, 43000, 86400 - (1 << WB)], 86400) if sfree else cst(32, s.oneof('s', [0, 1, 60, 3600, 86399, 3661] if big else [0, 3661, 86399]))
            us = window(s, 'u', UB, 10 ** 6) if ufree else cst(32, s.oneof('u', [0, 1, 500000, 999999] if big else [0, 500000]))
            s.assume(sec.ult(86400) & us.ult(1000000) & days.sbetween(-999999999, 999999999))
            v = s.delta(days, sec, us)
            neg = bool(days.slt(0))
            # |value|: seconds and microseconds
            tot = days.sext(64) * 86400 + sec.zext(64)
            if neg:
                if bool(us == 0):
                    tot, mus = -tot, us
                else:
                    tot, mus = -tot - 1, cst(32, 1000000) - us
            else:
                mus = us
            for t, out in texts(s, 'delta', v, how):
                s.check(isinstance(t, Txt), 'a string')
                g, a, b = rd_duration(s, t)
                s.check(g == neg, 'sign')
                s.check((a == tot) & (b == mus), 'the duration')
                if out is not None and not ufree:
                    k, r = attempt(V(T['delta']).validate_json, out)
                    s.check(k == 'ok' and type(r) is dt.timedelta, 'reads back')
                    s.check(all_([p == q for p, q in zip(s.fields(r), [days, sec, us])]), 'reads back as the same duration')
        return path

    def delta_float(how):
        """ser_json_timedelta='float': seconds"""
        import json

        def path(s):
            d = s.oneof('d', [0, 1, -1, 365, -400, 999999999, -999999999])
            sec = s.oneof('s', [0, 1, 59, 86399])
            us = s.oneof('u', [0, 1, 250000, 999999])
            v = dt.timedelta(d, sec, us)
            cfg = {'ser_json_timedelta': 'float'}
            if how == 'std':
                out, py = pc.to_json(v, timedelta_mode='float'), pc.to_jsonable_python(v, timedelta_mode='float')
            else:
                ser = SchemaSerializer(T['delta'] if how == 'delta' else any_s, cfg)
                out, py = ser.to_json(v), ser.to_python(v, mode='json')
            s.check(json.loads(out) == v.total_seconds() and type(py) is float and py == v.total_seconds(), 'seconds')
        return path

    out = []
    for how in ('typed', 'any', 'key'):
        full = how == 'typed' or big
        out.append(Case('date %s' % how, date(how, 'ymd' if how != 'key' else 'yd'), 'every date'))
        out.append(Case('time %s' % how, time(how, 'hmsu' if full else 'hmsw', [None]), 'every time' if full else 'every second, windows of microseconds'))
        out.append(Case('time %s, zones' % how, time(how, 'sw', ZONES), 'windows of microseconds, twelve zones'))
        out.append(Case('datetime %s' % how, datetime(how, 'ymd' if full else 'y', 'hmsu' if full else 'hw', [None]), 'every naive datetime' if full else 'every year and hour, windows of microseconds'))
        out.append(Case('datetime %s, zones' % how, datetime(how, 'd', 'hw', ZONES), 'every day of the month and hour, windows of microseconds, twelve zones'))
        wins = ', windows of 2^%d' % WB
        out.append(Case('timedelta %s' % how, delta(how, (6 if full else 3) if not big else 12, -40, True, False), 'days -40..23 (others: -40..-33; thorough: 12 bits), seconds, selected microseconds' + wins))
        out.append(Case('timedelta %s, years' % how, delta(how, 12 if full else 8, -2000 if full else -500, False, False), 'days -2000..2095 (others: -500..-245)'))
        out.append(Case('timedelta %s, microseconds' % how, delta(how, 0, -1, False, True), 'microseconds of the day before' + wins))
        out.append(Case('timedelta %s, microseconds after' % how, delta(how, 0, 0, False, True), 'microseconds of the day after' + wins))
        for b, n in ((999999999 - 63, 'largest'), (-999999999, 'smallest')):
            out.append(Case('timedelta %s, %s' % (how, n), delta(how, 6, b, False, False), '64 days at the bound'))
    for how in ('delta', 'any', 'std'):
        out.append(Case('timedelta as seconds %s' % how, delta_float(how), 'selected durations'))
    return out
