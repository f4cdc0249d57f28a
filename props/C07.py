"""C07 - collections: every item validated, every failing item reported at its index, lengths enforced, nothing lost or reordered."""
from hlib import *


class It:
    """a one-shot iterable which counts how many items were taken"""
    def __init__(self, xs):
        self.xs, self.n = list(xs), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.xs):
            raise StopIteration
        self.n += 1
        return self.xs[self.n - 1]


def sameints(s, out, vals):
    s.check(len(out) == len(vals), 'number of items')
    for o, x in zip(out, vals):
        s.check(s.val(o, 32) == x, 'item')


def items(s, n, w=16):
    """n symbolic ints and, for each, whether it is valid (not negative): forks per item"""
    xs = [s.bv('x%d' % i, w, 5 + i).sext(32) for i in range(n)]
    return xs, [s.int(x) for x in xs], [not bool(x.slt(0)) for x in xs]


def bounds(s, **kw):
    """min_length and max_length: absent, or any 62-bit value"""
    lo = s.bv('lo', 62, 0).zext(64) if s.flag('has_lo') else None
    hi = s.bv('hi', 62, 9).zext(64) if s.flag('has_hi') else None
    if lo is not None:
        kw['min_length'] = s.int(lo)
    if hi is not None:
        kw['max_length'] = s.int(hi)
    return lo, hi, kw


def over(n, hi):
    return hi is not None and bool(hi.ult(n))


def under(n, lo):
    return lo is not None and bool(lo.ugt(n))


def expect(good, lo, hi, fast, head_only=False):
    """outcome of a list-like field: None or [(type, loc)]; hi: None or max_length"""
    bad = []
    for i, g in enumerate(good):
        if over(i + 1, hi):
            return [('too_long', ())]
        if not g:
            bad.append(('greater_than_equal', (i,)))
            if fast:
                return bad
    if bad:
        return bad
    if under(len(good), lo):
        return [('too_short', ())]
    return None


def cases(tier):
    big = tier != 'quick'
    item = cs.int_schema(ge=0)

    def seq(kind, form, n):
        typ = {'list': list, 'vtuple': tuple, 'set': set, 'frozenset': frozenset}[kind]

        def path(s):
            fast, strict = s.flag('fast'), s.flag('strict')
            lo, hi, kw = bounds(s, fail_fast=fast, strict=strict)
            v = V(cs.list_schema(item, **kw) if kind == 'list' else cs.tuple_schema([item], variadic_item_index=0, **kw))
            xs, objs, good = items(s, n)
            src = None
            if form == 'json':
                ch = [91]
                for i in range(n):
                    # a minus sign makes the item invalid
                    d = s.bv('d%d' % i, 4, 5).zext(8)
                    s.assume(d.between(1, 9))
                    xs[i], good[i] = d.zext(32), True
                    if s.flag('neg%d' % i):
                        ch.append(45)
                        good[i] = False
                    ch += [d + 48, 44]
                ch[-1:] = [93] if n else [91, 93]
                k, r = attempt(v.validate_json, s.bytes(ch))
            else:
                src = It(objs) if form == 'iter' else {'list': list, 'tuple': tuple}[form](objs)
                k, r = attempt(v.validate_python, src)
            natural = form in ('json', kind, {'vtuple': 'tuple'}.get(kind))
            if strict and not natural:
                s.check(k == 'err' and errs(r) == [({'list': 'list_type', 'vtuple': 'tuple_type'}[kind], ())], 'strict collection type')
                s.check(form != 'iter' or src.n == 0, 'strict consumed')
                return
            want = (expect if kind == 'list' else expect_tuple)(good, lo, hi, fast)
            if k == 'ok':
                s.check(want is None, 'accepted')
                s.check(type(r) is typ and (r is not src or not n), 'result type')
                sameints(s, r, xs)
            else:
                s.check(errs(r) == want, 'errors')
            if form == 'iter' and hi is not None:
                s.check(hi.uge(max(src.n - 2, 0)) | (not all(good)), 'took items beyond the limit')
        return path

    def expect_tuple(good, lo, hi, fast):
        bad, taken = [], 0
        for i, g in enumerate(good):
            if g:
                taken += 1
                if over(taken, hi):
                    return [('too_long', ())]
            else:
                bad.append(('greater_than_equal', (i,)))
                if fast:
                    break
        if under(taken, lo):
            bad.append(('too_short', ()))
        return bad or None
    for kind in ('list', 'vtuple'):
        for form in ('list', 'tuple', 'iter', 'json'):
            for n in range(4 if big else 3 if form != kind else 4):
                yield Case('%s-%s%d' % (kind, form, n), seq(kind, form, n), '%s field, %s input of %d symbolic 16-bit ints; min_length and max_length absent or any 62-bit value; fail_fast, strict' % (kind, form, n))

    def sets(kind, n):
        typ = {'set': set, 'frozenset': frozenset}[kind]
        mk = {'set': cs.set_schema, 'frozenset': cs.frozenset_schema}[kind]

        def path(s):
            fast = s.flag('fast')
            lo, hi, kw = bounds(s, fail_fast=fast)
            v = V(mk(item, **kw))
            xs = [s.pick('x%d' % i, 4) - 1 for i in range(n)]
            k, r = attempt(v.validate_json, str(xs)) if s.flag('json') else attempt(v.validate_python, xs)
            want, bad, seen = None, [], []
            for i, x in enumerate(xs):
                if x < 0:
                    bad.append(('greater_than_equal', (i,)))
                    if fast:
                        break
                elif x not in seen:
                    seen.append(x)
                    if over(len(seen), hi):
                        want = [('too_long', ())]
                        break
            want = want or bad or ([('too_short', ())] if under(len(seen), lo) else None)
            if k == 'ok':
                s.check(want is None, 'accepted')
                s.check(type(r) is typ and sorted(r) == sorted(seen), 'items')
            else:
                s.check(errs(r) == want, 'errors')
            s.out(k)
        return path
    for kind in ('set', 'frozenset'):
        for n in range(4 if big else 3):
            yield Case('%s%d' % (kind, n), sets(kind, n), '%s of %d items out of -1..2, every 62-bit bound' % (kind, n))

    def fixed(n, var):
        """positional schemas h (fields 0..), optional variadic at every place, defaults"""
        def path(s):
            fast = s.flag('fast')
            nfix = s.pick('nfix', 3)
            sch, at = [], None
            lows = []
            for i in range(nfix):
                lows.append(10 * (i + 1))
                f = cs.int_schema(ge=10 * (i + 1))
                sch.append(f)
            dflt = nfix and not var and s.flag('dflt')
            if dflt:
                sch[-1] = cs.with_default_schema(sch[-1], default=77)
            if var:
                at = s.pick('at', nfix + 1)
                sch.insert(at, cs.int_schema(ge=0))
                lows.insert(at, 0)
            v = V(cs.tuple_schema(sch, variadic_item_index=at, fail_fast=fast))
            xs = [s.bv('x%d' % i, 8, 50 + i).sext(32) for i in range(n)]
            k, r = attempt(v.validate_python, tuple(s.int(x) for x in xs) if s.flag('t') else [s.int(x) for x in xs])
            # oracle: which bound applies to which item
            if var:
                nv = max(n - nfix, 0)
                lim = lows[:at] + [0] * nv + lows[at + 1:]
            else:
                lim = lows
            bad, miss = [], []
            for i, l in enumerate(lim):
                if i < n:
                    if bool(xs[i].slt(l)):
                        bad.append(('greater_than_equal', (i,)))
                elif dflt and i == nfix - 1:
                    miss.append(77)
                else:
                    bad.append(('missing', (i,)))
                if fast and bad:
                    break
            if not var and n > nfix and not (fast and bad):
                bad = [('too_long', ())]
            if k == 'ok':
                s.check(not bad, 'accepted')
                s.check(type(r) is tuple, 'type')
                sameints(s, r[:n] if miss else r, xs)
                s.check(not miss or r[n:] == (77,), 'default')
            else:
                s.check(errs(r) == bad, 'errors')
        return path
    for n in range(4 if not big else 5):
        for var in (False, True):
            yield Case('tuple-%s%d' % ('var' if var else 'fix', n), fixed(n, var), 'tuple of up to 2 positional items%s, %d 8-bit values' % (' and a variadic one at every position' if var else ', default on the last one', n))

    def pairs(n, json):
        """items which have several errors each, before, among and after the variadic ones"""
        pair = cs.tuple_schema([item, item])
        vs = [V(cs.tuple_schema([pair] * 3, variadic_item_index=at)) for at in range(3)]

        def path(s):
            at = s.pick('at', 3)
            xs = [[s.bv('x%d%d' % (i, j), 3, 2).zext(8) for j in range(2)] for i in range(n)]
            neg = [[bool(x.uge(6)) for x in p] for p in xs]
            if json:
                ch = []
                for p, q in zip(xs, neg):
                    ch += ([44] if ch else []) + [91] + ([45] if q[0] else []) + [p[0] + 48, 44] + ([45] if q[1] else []) + [p[1] + 48, 93]
                k, r = attempt(vs[at].validate_json, s.bytes([91] + ch + [93]))
            else:
                k, r = attempt(vs[at].validate_python, [tuple(s.int((cst(8, 0) - x if b else x).sext(32)) for x, b in zip(p, q)) for p, q in zip(xs, neg)])
            bad = [('greater_than_equal', (i, j)) for i in range(n) for j in range(2) if neg[i][j]]
            if k == 'ok':
                s.check(not bad, 'accepted')
                s.check(len(r) == n and all(len(t) == 2 for t in r), 'lengths')
                for p, t in zip(xs, r):
                    sameints(s, t, [x.zext(32) for x in p])
            else:
                s.check(errs(r) == bad, 'errors')
        return path
    for n in (2, 3):
        for json in (False, True):
            if json and n == 3 and not big:
                continue
            yield Case('tuple-pairs%d%s' % (n, '-json' if json else ''), pairs(n, json), 'tuple of %d pairs, two fixed ones and a variadic one at every place' % n)

    def dicts(n, form):
        def path(s):
            lo, hi, kw = bounds(s)
            v = V(cs.dict_schema(cs.str_schema(max_length=2), item, **kw))
            xs = [s.bv('x%d' % i, 16, 5 + i).sext(32) for i in range(n)]
            keys = ['ab', 'c', 'def', 'ghij'][s.pick('off', 2):][:n]
            if form == 'json':
                ch, neg = [123], []
                for i, key in enumerate(keys):
                    d = s.bv('d%d' % i, 4, 5).zext(8)
                    s.assume(d.between(1, 9))
                    neg.append(s.flag('neg%d' % i))
                    ch += ([44] if i else []) + [34] + [ord(c) for c in key] + [34, 58] + ([45] if neg[-1] else []) + [d + 48]
                    xs[i] = d.zext(32)
                k, r = attempt(v.validate_json, s.bytes(ch + [125]))
                good = [not b for b in neg]
            else:
                d = {key: s.int(x) for key, x in zip(keys, xs)}
                if form == 'map':
                    import types
                    k, r = attempt(v.validate_python, types.MappingProxyType(d))
                else:
                    k, r = attempt(v.validate_python, d)
                    s.check(r is not d, 'a new dict')
                good = [not bool(x.slt(0)) for x in xs]
            bad = []
            for key, g in zip(keys, good):
                if len(key) > 2:
                    bad.append(('string_too_long', (key, '[key]')))
                if not g:
                    bad.append(('greater_than_equal', (key,)))
            if not bad and under(n, lo):
                bad = [('too_short', ())]
            elif not bad and over(n, hi):
                bad = [('too_long', ())]
            if k == 'ok':
                s.check(not bad, 'accepted')
                s.check(type(r) is dict and list(r) == keys, 'keys')
                sameints(s, list(r.values()), xs)
            else:
                s.check(errs(r) == bad, 'errors')
        return path
    for n in range(4 if big else 3):
        for form in ('py', 'map', 'json'):
            yield Case('dict-%s%d' % (form, n), dicts(n, form), 'dict of %d entries, symbolic values, keys valid or not, every 62-bit bound' % n)

    def plain(n):
        """no item schema"""
        def path(s):
            lo, hi, kw = bounds(s)
            v = V(cs.list_schema(**kw))
            xs = [s.bv('x%d' % i, 16, 5 + i).sext(32) for i in range(n)]
            objs = [s.int(x) for x in xs]
            how = s.pick('how', 4)
            src = objs if how == 0 else tuple(objs) if how == 1 else It(objs) if how == 2 else None
            k, r = attempt(v.validate_python, src) if how < 3 else attempt(v.validate_json, b'[' + b','.join([b'7'] * n) + b']')
            want = None
            if over(n, hi):
                want = [('too_long', ())]
            if under(n, lo):
                want = [('too_short', ())] if not want else want
            if k == 'ok':
                s.check(want is None, 'accepted')
                s.check(type(r) is list and r is not src, 'a new list')
                if how < 3:
                    sameints(s, r, xs)
                else:
                    s.check(r == [7] * n, 'items')
            elif want == [('too_long', ())] and under(n, lo):
                s.check(errs(r) in (want, [('too_short', ())]), 'errors')
            else:
                s.check(errs(r) == want, 'errors')
        return path
    for n in range(4 if big else 3):
        yield Case('any%d' % n, plain(n), 'list of anything, %d items, from a list, a tuple, an iterator and JSON' % n)

    def nested(s):
        v = V(cs.dict_schema(cs.str_schema(), cs.list_schema(cs.tuple_schema([item, item]))))
        xs = [s.bv('x%d' % i, 8, 5 + i).sext(32) for i in range(4)]
        o = [s.int(x) for x in xs]
        k, r = attempt(v.validate_python, {'a': [(o[0], o[1]), (o[2], o[3])]})
        bad = [('greater_than_equal', ('a', i // 2, i % 2)) for i in range(4) if bool(xs[i].slt(0))]
        if k == 'ok':
            s.check(not bad, 'accepted')
            sameints(s, r['a'][0] + r['a'][1], xs)
        else:
            s.check(errs(r) == bad, 'errors')
    yield Case('nested', nested, 'dict of lists of pairs, 4 symbolic values')

    def on_error(kind, n):
        def path(s):
            mode = s.oneof('mode', ['omit', 'default', 'raise'])
            lo, hi, kw = bounds(s)
            f = cs.with_default_schema(item, on_error=mode, default=77) if mode == 'default' else cs.with_default_schema(item, on_error=mode)
            v = V(cs.list_schema(f, **kw) if kind == 'list' else cs.tuple_schema([f], variadic_item_index=0, **kw) if kind == 'tuple' else cs.dict_schema(cs.str_schema(), f, **kw))
            xs, objs, good = items(s, n)
            k, r = attempt(v.validate_python, objs if kind != 'dict' else dict(zip('abc', objs)))
            bad = [('greater_than_equal', (i if kind != 'dict' else 'abc'[i],)) for i, g in enumerate(good) if not g] if mode == 'raise' else []
            left = [(x if g else 77) for x, g in zip(xs, good) if g or mode != 'omit']
            counted = sum(good) if mode == 'raise' and kind == 'tuple' else n if mode == 'raise' and kind == 'list' else len(left)
            if kind == 'dict' and bad:
                pass
            elif over(counted, hi):
                bad = [('too_long', ())] if kind != 'dict' or not under(counted, lo) else [('too_short', ())]
            elif under(counted, lo) and (not bad or kind == 'tuple'):
                bad.append(('too_short', ()))
            if k == 'ok':
                s.check(not bad, 'accepted')
                sameints(s, list(r.values()) if kind == 'dict' else r, left)
                s.check(kind != 'dict' or list(r) == [c for c, g in zip('abc', good) if g or mode != 'omit'], 'keys')
            else:
                s.check(errs(r) == bad, 'errors')
        return path
    for kind in ('list', 'tuple', 'dict'):
        for n in range(4 if big else 3):
            yield Case('onerror-%s%d' % (kind, n), on_error(kind, n), '%s of %d items whose failures are omitted, replaced or raised; every 62-bit bound' % (kind, n))

    def wrong(s):
        """what is not a collection at all is a type error, and a failing iterator is an error at its index"""
        kind = s.pick('kind', 5)
        v = V([cs.list_schema(item), cs.tuple_schema([item], variadic_item_index=0), cs.set_schema(item), cs.frozenset_schema(item), cs.dict_schema(cs.str_schema(), item)][kind])
        t = ['list_type', 'tuple_type', 'set_type', 'frozen_set_type', 'dict_type'][kind]
        x = s.bv('x', 16, 3)

        def gen():
            yield 1
            raise ValueError('broken')
        src = s.oneof('src', [s.int(x), 'ab', b'ab', bytearray(b'a'), None, 1.5, gen, object()])
        k, r = attempt(v.validate_python, src)
        s.check(k == 'err' and errs(r) == [(t, ())], 'type error')
        j = s.oneof('j', [b'1', b'"ab"', b'null', b'true', b'{"a": 1}', b'[1]'])
        k, r = attempt(v.validate_json, j)
        if (j[:1] == b'{' and kind == 4) or (j[:1] == b'[' and kind < 4):
            s.check(k == 'ok' and type(r) is [list, tuple, set, frozenset, dict][kind], 'JSON collection')
        else:
            s.check(k == 'err' and errs(r) == [(t, ())], 'JSON type error')
        if kind < 4:
            k, r = attempt(v.validate_python, gen())
            s.check(k == 'err' and errs(r) == [('iteration_error', (1,))], 'failing iterator')
            k, r = attempt(v.validate_python, {3: 4})
            s.check(k == 'err' and errs(r) == [(t, ())], 'dict as a list')
            k, r = attempt(v.validate_python, {3: 4}.values())
            s.check(k == 'ok', 'dict view')
    yield Case('wrong', wrong, 'values of other types for every kind of collection')
