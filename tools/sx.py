"""Harness interface: the same harness code runs under the symbolic executor (values carry
solver expressions) and natively (values are plain numbers), so that every explored path can
be replayed against the really compiled extension."""
import ctypes, struct, sys

OPS = ['Nop', 'Var', 'Const', 'Add', 'Sub', 'Mul', 'UDiv', 'SDiv', 'URem', 'SRem', 'Shl', 'LShr', 'AShr', 'And', 'Or', 'Xor', 'Eq', 'Ult', 'Ule', 'Slt', 'Sle',
       'Ite', 'Concat', 'Extract', 'ZExt', 'SExt', 'Lookup', 'FAdd', 'FSub', 'FMul', 'FDiv', 'FRem1', 'FEq', 'FLt', 'FLe', 'FUno', 'FRound', 'FToS', 'FToU',
       'SToF', 'UToF', 'FCvt', 'FAbs', 'FNeg', 'FSqrt']
OP = {n: i for i, n in enumerate(OPS)}
K_BRANCH, K_CONC, K_CHECK, K_ASSUME, K_BOUND = 0, 1, 2, 3, 4

L = None  # engine library (None: native mode)
_two = (ctypes.c_uint64 * 2)()


def load_engine(path):
    global L
    L = ctypes.PyDLL(path)
    u64, u32, cp = ctypes.c_uint64, ctypes.c_uint32, ctypes.c_char_p
    for n, r, a in [('sx_call0', u64, [cp]), ('sx_icount', u64, []), ('sx_nfuncs', u64, []), ('sx_var', u32, [cp, u32, u64, u64]), ('sx_cst', u32, [u32, u64, u64]),
                    ('sx_mk', u32, [u32, u32, u32, u32, u32, u64]), ('sx_val', None, [u32, ctypes.c_void_p]), ('sx_w', u32, [u32]), ('sx_isconst', ctypes.c_int, [u32]),
                    ('sx_branch', ctypes.c_int, [u32, u32]), ('sx_conc', None, [u32]), ('sx_int_obj', ctypes.py_object, [u32]), ('sx_int_expr', u32, [u64]), ('sx_float_obj', ctypes.py_object, [u32]),
                    ('sx_buf_obj', ctypes.py_object, [u32, u64, ctypes.c_void_p, ctypes.c_char_p]), ('sx_mem', u32, [u64, u32]), ('sx_store', None, [u64, u32, u32]),
                    ('sx_content', ctypes.c_int, [u64, ctypes.c_void_p]), ('sx_conc_obj', None, [u64]), ('sx_end', None, [u32, cp]), ('sx_shm_status', None, [ctypes.c_void_p]),
                    ('sx_shm_out', cp, []), ('sx_shm_vars', cp, []), ('sx_ran', cp, [u32]), ('sx_events', cp, [u32]), ('sx_solver', None, [cp, u32]), ('sx_expand', cp, [u32, u32, ctypes.c_void_p]),
                    ('sx_prefix_hash', u64, [u32]), ('sx_solver_stats', None, [ctypes.c_void_p]), ('sx_input', None, [cp, u64, u64]), ('sx_begin', None, [u64]), ('sx_reset', None, []),
                    ('sx_quiet', None, [ctypes.c_int]), ('sx_silent', cp, []), ('sx_private', None, []), ('sx_warm', u32, []), ('sx_load', None, [cp]), ('sx_finish_load', None, [])]:
        f = getattr(L, n)
        f.restype = r
        f.argtypes = a
    return L


def _m(w):
    return (1 << w) - 1


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def _f(v, w):
    return struct.unpack('<d', struct.pack('<Q', v))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', v))[0]


class B:
    """bit vector of width w with concrete value v and (symbolic mode) expression e"""
    __slots__ = ('w', 'v', 'e')

    def __init__(self, w, v, e=0):
        self.w, self.v, self.e = w, v & _m(w), e

    # --- construction ---
    def ex(self):
        return self.e or L.sx_cst(self.w, self.v & _m(64), self.v >> 64)

    def _mk(self, op, w, v, b=None, c=None, k=0):
        if L is None or not (self.e or (b is not None and b.e) or (c is not None and c.e)):
            return B(w, v)
        e = L.sx_mk(OP[op], w, self.ex(), 0 if b is None else b.ex(), 0 if c is None else c.ex(), k)
        L.sx_val(e, _two)
        return B(w, _two[0] | _two[1] << 64, 0 if L.sx_isconst(e) else e)

    def _co(self, o):
        if isinstance(o, B):
            if o.w != self.w:
                raise TypeError('width %d vs %d' % (self.w, o.w))
            return o
        return B(self.w, int(o))

    def sym(self):
        return self.e != 0

    # --- arithmetic (modular) ---
    def __add__(self, o):
        o = self._co(o)
        return self._mk('Add', self.w, self.v + o.v, o)

    def __sub__(self, o):
        o = self._co(o)
        return self._mk('Sub', self.w, self.v - o.v, o)

    def __mul__(self, o):
        o = self._co(o)
        return self._mk('Mul', self.w, self.v * o.v, o)

    def __and__(self, o):
        o = self._co(o)
        return self._mk('And', self.w, self.v & o.v, o)

    def __or__(self, o):
        o = self._co(o)
        return self._mk('Or', self.w, self.v | o.v, o)

    def __xor__(self, o):
        o = self._co(o)
        return self._mk('Xor', self.w, self.v ^ o.v, o)

    __radd__, __rmul__, __rand__, __ror__, __rxor__ = __add__, __mul__, __and__, __or__, __xor__

    def __rsub__(self, o):
        return self._co(o) - self

    def __neg__(self):
        return B(self.w, 0) - self

    def __invert__(self):
        return self ^ _m(self.w)

    def udiv(self, o):
        o = self._co(o)
        return self._mk('UDiv', self.w, self.v // o.v if o.v else _m(self.w), o)

    def urem(self, o):
        o = self._co(o)
        return self._mk('URem', self.w, self.v % o.v if o.v else self.v, o)

    def sdiv(self, o):
        """truncating division; divisor non-zero"""
        o = self._co(o)
        a, b = _s(self.v, self.w), _s(o.v, self.w)
        q = abs(a) // abs(b)
        return self._mk('SDiv', self.w, q if (a < 0) == (b < 0) else -q, o)

    def srem(self, o):
        o = self._co(o)
        a, b = _s(self.v, self.w), _s(o.v, self.w)
        r = abs(a) % abs(b)
        return self._mk('SRem', self.w, -r if a < 0 else r, o)

    def fmul(self, o):
        o = self._co(o)
        return self._mk('FMul', self.w, struct.unpack('<Q', struct.pack('<d', _f(self.v, 64) * _f(o.v, 64)))[0], o)

    def fdiv(self, o):
        """floor division by a positive constant"""
        q, r = self.sdiv(o), self.srem(o)
        return r.slt(0).ite(q - 1, q)

    def fmod(self, o):
        r = self.srem(o)
        return r.slt(0).ite(r + o, r)

    # --- comparisons (width-1 results) ---
    def __eq__(self, o):
        o = self._co(o)
        return self._mk('Eq', 1, int(self.v == o.v), o)

    def __ne__(self, o):
        return (self == o) ^ 1

    __hash__ = None

    def ult(self, o):
        o = self._co(o)
        return self._mk('Ult', 1, int(self.v < o.v), o)

    def ule(self, o):
        o = self._co(o)
        return self._mk('Ule', 1, int(self.v <= o.v), o)

    def ugt(self, o):
        return self._co(o).ult(self)

    def uge(self, o):
        return self._co(o).ule(self)

    def slt(self, o):
        o = self._co(o)
        return self._mk('Slt', 1, int(_s(self.v, self.w) < _s(o.v, self.w)), o)

    def sle(self, o):
        o = self._co(o)
        return self._mk('Sle', 1, int(_s(self.v, self.w) <= _s(o.v, self.w)), o)

    def sgt(self, o):
        return self._co(o).slt(self)

    def sge(self, o):
        return self._co(o).sle(self)

    def between(self, lo, hi):
        return self.uge(lo) & self.ule(hi)

    def sbetween(self, lo, hi):
        return self.sge(lo) & self.sle(hi)

    def isin(self, vals):
        r = B(1, 0)
        for v in vals:
            r = r | (self == v)
        return r

    # --- structure ---
    def ite(self, a, b):
        if not isinstance(a, B):
            a = b._co(a)
        b = a._co(b)
        if not self.e:
            return a if self.v else b
        return self._mk('Ite', a.w, a.v if self.v else b.v, a, b)

    def zext(self, w):
        return self if w == self.w else self._mk('ZExt', w, self.v)

    def sext(self, w):
        return self if w == self.w else self._mk('SExt', w, _s(self.v, self.w))

    def bits(self, lo, w):
        if lo + w > self.w:
            return self.zext(lo + w).bits(lo, w)
        return self._mk('Extract', w, self.v >> lo, k=lo) if (lo or w != self.w) else self

    def cat(self, lo):
        return self._mk('Concat', self.w + lo.w, self.v << lo.w | lo.v, lo)

    # --- floats on bit patterns ---
    def feq(self, o):
        return self._mk('FEq', 1, int(_f(self.v, self.w) == _f(o.v, o.w)), o)

    def flt(self, o):
        return self._mk('FLt', 1, int(_f(self.v, self.w) < _f(o.v, o.w)), o)

    def fle(self, o):
        return self._mk('FLe', 1, int(_f(self.v, self.w) <= _f(o.v, o.w)), o)

    def isnan(self):
        x = _f(self.v, self.w)
        return self._mk('FUno', 1, int(x != x), self)

    def s2f(self):
        x = struct.unpack('<Q', struct.pack('<d', float(_s(self.v, self.w))))[0]
        return self._mk('SToF', 64, x)

    # --- use ---
    def __bool__(self):
        if self.w != 1:
            raise TypeError('truth of a %d-bit value' % self.w)
        if self.e:
            return bool(L.sx_branch(self.e, K_BRANCH))
        return bool(self.v)

    def conc(self):
        """fork on the value (every value is explored)"""
        if self.e:
            L.sx_conc(self.e)
        return self.v

    def s(self):
        """signed concrete value - for reporting only"""
        return _s(self.v, self.w)

    def __repr__(self):
        return 'B%d(%d)' % (self.w, self.v)


def true():
    return B(1, 1)


def false():
    return B(1, 0)


def cst(w, v):
    return B(w, v)


def fcst(x):
    return B(64, struct.unpack('<Q', struct.pack('<d', x))[0])


def all_(xs):
    r = true()
    for x in xs:
        r = r & x
    return r


def any_(xs):
    r = false()
    for x in xs:
        r = r | x
    return r


class Fail(BaseException):
    pass


class Discard(BaseException):
    pass


class S:
    """one execution of a harness"""

    def __init__(self, inputs=None):
        self.inputs = inputs or {}
        self.log = []
        self.used = {}

    # ---- symbolic inputs ----
    def bv(self, name, w, default=0):
        v = self.inputs.get(name, default) & _m(w)
        self.used[name] = v
        if L is None:
            return B(w, v)
        e = L.sx_var(name.encode(), w, v & _m(64), v >> 64)
        L.sx_val(e, _two)
        return B(w, _two[0] | _two[1] << 64, e)

    def bit(self, name, default=0):
        return self.bv(name, 1, default)

    def flag(self, name, default=0):
        return bool(self.bv(name, 1, default))

    def pick(self, name, n, default=0):
        """a structural choice among 0..n-1 (every alternative explored)"""
        w = max(1, (n - 1).bit_length())
        x = self.bv(name, w, default)
        if n < 1 << w:
            self.assume(x.ult(n))
        for i in range(n - 1):
            if x == i:
                return i
        return n - 1

    def oneof(self, name, seq, default=0):
        return seq[self.pick(name, len(seq), default)]

    def chars(self, name, n, default='0', alphabet=None):
        """n symbolic ASCII characters (8-bit values below 128)"""
        out = []
        for i in range(n):
            d = ord(default[i] if i < len(default) else default[-1])
            c = self.bv('%s%d' % (name, i), 7, d).zext(8)
            if alphabet is not None:
                self.assume(in_alpha(c, alphabet))
            out.append(c)
        return out

    def octets(self, name, n, default=b'0'):
        return [self.bv('%s%d' % (name, i), 8, default[i] if i < len(default) else default[-1]) for i in range(n)]

    # ---- objects built from symbolic values ----
    def int(self, b):
        """Python int with the signed value of b"""
        if L is None or not b.e:
            return _s(b.v, b.w)
        return L.sx_int_obj(b.e)

    def uint(self, b):
        return self.int(b.zext(b.w + 1))

    def float(self, b):
        if L is None or not b.e:
            return _f(b.v, 64)
        return L.sx_float_obj(b.e)

    def _buf(self, kind, cs):
        cs = [c if isinstance(c, B) else B(8, c if isinstance(c, int) else ord(c)) for c in cs]
        raw = bytes(c.v for c in cs)
        if L is None or not any(c.e for c in cs):
            return raw.decode() if kind == 0 else raw
        es = (ctypes.c_uint32 * len(cs))(*[c.e for c in cs])
        return L.sx_buf_obj(kind, len(cs), es, raw)

    def str(self, cs):
        return self._buf(0, cs)

    def bytes(self, cs):
        return self._buf(1, cs)

    # ---- values of result objects ----
    def val(self, o, w=128):
        """signed value of an int object"""
        if type(o) is not int:
            raise TypeError(type(o))
        if L is not None:
            e = L.sx_int_expr(id(o))
            if e:
                L.sx_val(e, _two)
                b = B(L.sx_w(e), _two[0] | _two[1] << 64, 0 if L.sx_isconst(e) else e)
                return b.sext(w) if b.w <= w else b.bits(0, w)
        return B(w, o)

    def _mem(self, a, n):
        e = L.sx_mem(a, n)
        if not e:
            return B(8 * n, int.from_bytes(ctypes.string_at(a, n), 'little'))
        L.sx_val(e, _two)
        return B(8 * n, _two[0] | _two[1] << 64, e)

    def content(self, o):
        """bytes of a str / bytes object as 8-bit values"""
        if L is not None and L.sx_content(id(o), _two):
            a, n = _two[0], _two[1]
            return [self._mem(a + i, 1) for i in range(n)]
        return [B(8, x) for x in (o.encode('utf-8', 'surrogatepass') if isinstance(o, str) else o)]

    def fbits(self, o):
        if L is not None:
            return self._mem(id(o) + 16, 8)
        return B(64, struct.unpack('<Q', struct.pack('<d', o))[0])

    def fields(self, o):
        """fields of a date / datetime / time / timedelta as 32-bit values"""
        import datetime as dt
        t = type(o)
        if t is dt.datetime:
            lay, val = [(25, 2), (27, 1), (28, 1), (29, 1), (30, 1), (31, 1), (32, 3)], (o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond)
        elif t is dt.date:
            lay, val = [(25, 2), (27, 1), (28, 1)], (o.year, o.month, o.day)
        elif t is dt.time:
            lay, val = [(25, 1), (26, 1), (27, 1), (28, 3)], (o.hour, o.minute, o.second, o.microsecond)
        elif t is dt.timedelta:
            if L is None:
                return [B(32, x) for x in (o.days, o.seconds, o.microseconds)]
            return [self._mem(id(o) + k, 4) for k in (24, 28, 32)]
        else:
            raise TypeError(t)
        if L is None:
            return [B(32, x) for x in val]
        out = []
        for off, n in lay:
            acc = self._mem(id(o) + off, 1)
            for i in range(1, n):
                acc = acc.cat(self._mem(id(o) + off + i, 1))
            out.append(acc.zext(32))
        return out

    # ---- date / time objects with symbolic fields (the caller assumes the fields in range) ----
    def _dt(self, o, lay):
        import ctypes as c
        if L is not None and any(b.e for _, _, b in lay):
            c.pythonapi.Py_IncRef(c.py_object(o))
            for off, n, b in lay:
                for i in range(n):  # big endian
                    self.store(id(o) + off + i, 1, b.bits(8 * (n - 1 - i), 8))
        return o

    def date(self, y, m, d):
        import datetime as dt
        return self._dt(dt.date(y.v, m.v, d.v), [(25, 2, y), (27, 1, m), (28, 1, d)])

    def datetime(self, y, m, d, h, mi, se, us, tz=None):
        import datetime as dt
        return self._dt(dt.datetime(y.v, m.v, d.v, h.v, mi.v, se.v, us.v, tz), [(25, 2, y), (27, 1, m), (28, 1, d), (29, 1, h), (30, 1, mi), (31, 1, se), (32, 3, us)])

    def time(self, h, mi, se, us, tz=None):
        import datetime as dt
        return self._dt(dt.time(h.v, mi.v, se.v, us.v, tz), [(25, 1, h), (26, 1, mi), (27, 1, se), (28, 3, us)])

    def delta(self, d, se, us):
        """32-bit normalised fields"""
        import datetime as dt
        o = dt.timedelta(d.s(), se.v, us.v)
        if L is not None and (d.e or se.e or us.e):
            ctypes.pythonapi.Py_IncRef(ctypes.py_object(o))
            for off, b in ((24, d), (28, se), (32, us)):
                for i in range(4):
                    self.store(id(o) + off + i, 1, b.bits(8 * i, 8))
        return o

    def store(self, addr, n, b):
        if L is not None and b.e:
            L.sx_store(addr, n, b.e)

    # ---- property ----
    def assume(self, c):
        if not isinstance(c, B):
            if not c:
                raise Discard()
            return
        ok = L.sx_branch(c.e, K_ASSUME) if c.e else c.v
        if not ok:
            raise Discard()

    def check(self, c, msg):
        """the property: c must hold on every execution that gets here"""
        if isinstance(c, B):
            ok = L.sx_branch(c.e, K_CHECK) if c.e else c.v
        else:
            ok = bool(c)
        if not ok:
            raise Fail(msg)

    def quiet(self, on):
        if L is not None:
            L.sx_quiet(1 if on else 0)

    def errs(self, e):
        """[(type, loc)] of a ValidationError; rendering its message adds no path conditions"""
        self.quiet(True)
        try:
            return [(x['type'], x['loc']) for x in e.errors(include_url=False, include_input=False, include_context=False)]
        finally:
            self.quiet(False)

    def out(self, o):
        """add the (concrete) representation of a result to the path's outcome"""
        self.quiet(True)
        try:
            r = show(o)
        finally:
            self.quiet(False)
        self.log.append(r)

    def raw(self, o):
        """concrete text for a message (no path condition)"""
        self.quiet(True)
        try:
            return show(o)
        finally:
            self.quiet(False)


def show(o, d=0):
    t = type(o)
    if t is B:
        return '%d' % o.s()
    if isinstance(o, (list, tuple)):
        return t.__name__ + '[' + ', '.join(show(x, d + 1) for x in o) + ']'
    if t is dict:
        return '{' + ', '.join(show(k, d + 1) + ': ' + show(v, d + 1) for k, v in o.items()) + '}'
    if t in (set, frozenset):
        return t.__name__ + '(' + ', '.join(sorted(show(x, d + 1) for x in o)) + ')'
    if t in (int, float, str, bytes, bool, type(None)) or t.__module__ in ('datetime', 'decimal', 'uuid', 'fractions'):
        return repr(o)
    if hasattr(o, '__dict__') and d < 6:
        return t.__name__ + show(dict(o.__dict__), d + 1)
    return t.__name__


def in_alpha(c, alphabet):
    """c's character is one of `alphabet` (ranges collapsed)"""
    s = sorted(set(ord(x) if isinstance(x, str) else x for x in alphabet))
    r = false()
    i = 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and s[j + 1] == s[j] + 1:
            j += 1
        r = r | ((c == s[i]) if i == j else (c - s[i]).ule(s[j] - s[i]))
        i = j + 1
    return r
