//! Models of the environment: the allocator, CPython entry points that read or create
//! objects whose content may be symbolic, and a few libc functions.
use crate::expr::*;
use crate::ffi;
use crate::interp::*;
use std::collections::HashMap;

pub struct HookState {
    pub ints: HashMap<u64, E>, // PyLong object -> signed expression
    pub capi: bool,
    pub cache: HashMap<&'static str, u64>,
    pub hashed: Vec<(usize, usize)>,
    pub silent: HashMap<String, u64>,
    pub nsym: u64,
    pub symobjs: std::collections::HashSet<u64>,
    pub quiet: bool,
}
impl HookState { pub fn new() -> Self { HookState { ints: HashMap::new(), capi: false, cache: HashMap::new(), hashed: vec![], silent: HashMap::new(), nsym: 0, symobjs: Default::default(), quiet: false } } }

type NH = fn(&mut Engine, &[V], u32) -> Option<V>;

const NH_TAB: &[(&str, NH)] = &[
    ("", h_none),
    ("12___rust_alloc", h_alloc), ("14___rust_dealloc", h_dealloc), ("14___rust_realloc", h_realloc), ("19___rust_alloc_zeroed", h_alloc_zeroed), ("35___rust_no_alloc_shim_is_unstable_v2", h_zero),
    ("memchr", h_memchr), ("memcmp", h_memcmp), ("bcmp", h_bcmp), ("strlen", h_strlen), ("getrandom", h_getrandom), ("__cxa_thread_atexit_impl", h_zero), ("free", h_free), ("malloc", h_malloc), ("realloc", h_realloc_c),
    ("PyLong_FromLong", h_long_from_i64), ("PyLong_FromSsize_t", h_long_from_i64), ("PyLong_FromLongLong", h_long_from_i64), ("PyLong_FromUnsignedLongLong", h_long_from_u64),
    ("PyLong_AsLong", h_as_long), ("PyLong_AsLongLong", h_as_long), ("PyLong_AsUnsignedLongLong", h_as_ull), ("_PyLong_NumBits", h_numbits), ("_PyLong_AsByteArray", h_as_bytearray), ("_PyLong_FromByteArray", h_from_bytearray),
    ("PyFloat_FromDouble", h_float_from), ("PyFloat_AsDouble", h_float_as),
    ("PyUnicode_FromStringAndSize", h_str_from), ("PyUnicode_InternInPlace", h_intern), ("PyBytes_FromStringAndSize", h_bytes_from),
    ("PyObject_RichCompare", h_richcmp), ("PyObject_IsTrue", h_istrue), ("PyObject_Hash", h_observe),
    ("PyDict_GetItemWithError", h_key), ("PyDict_Contains", h_key), ("PyDict_SetItem", h_key), ("PyDict_DelItem", h_key), ("PySet_Contains", h_key), ("PySet_Add", h_key), ("PyObject_GetItem", h_key), ("PyObject_SetItem", h_key), ("PyObject_DelItem", h_key), ("PySequence_Contains", h_key),
    ("PyNumber_Remainder", h_rem), ("PyNumber_TrueDivide", h_observe), ("PyObject_Str", h_observe), ("PyObject_Repr", h_observe), ("PyUnicode_AsEncodedString", h_observe),
    ("PyObject_Call", h_pycall), ("PyObject_Vectorcall", h_vectorcall), ("PyObject_VectorcallMethod", h_vectorcall_method), ("_PyObject_MakeTpCall", h_maketpcall), ("PyComplex_FromDoubles", h_none),
    ("@Date_FromDate", h_date), ("@DateTime_FromDateAndTime", h_datetime), ("@Time_FromTime", h_time), ("@Delta_FromDelta", h_delta), ("@DateTime_FromDateAndTimeAndFold", h_datetime_fold), ("@Time_FromTimeAndFold", h_time_fold), ("PyObject_GetAttr", h_getattr),
];

pub fn native_hook(name: &str) -> u32 {
    for (i, (n, _)) in NH_TAB.iter().enumerate().skip(1) {
        if *n == name || (n.as_bytes()[0].is_ascii_digit() && name.starts_with("_R") && name.ends_with(n)) { return i as u32; }
    }
    0
}
pub fn call_native(e: &mut Engine, h: u32, ni: u32, a: &[V]) -> Option<V> { NH_TAB[h as usize].1(e, a, ni) }

pub fn func_hook(n: &[u8]) -> u32 {
    let s = unsafe { std::str::from_utf8_unchecked(n) };
    if s.ends_with("rust_begin_unwind") || s.contains("14panic_nounwind") || s.contains("19panic_cannot_unwind") || s.ends_with("18___rust_start_panic") || s.ends_with("20rust_panic_with_hook") { return 1; }
    if s.contains("BuildHasher8hash_one") { return 2; }
    if s.contains("8hash_mapINtB6_8AHashMap") {
        if s.contains("xjE3getx") { return 3; }
        if s.contains("6StringjE3gete") { return 4; }
    }
    0
}
pub fn call_func(e: &mut Engine, h: u32, f: u32, a: &[V]) -> Option<Vec<V>> {
    match h {
        1 => {
            let _ = f;
            e.fault("PANIC")
        }
        2 => hash_one(e, f, a),
        3 | 4 => map_get(e, a, h == 4),
        _ => None,
    }
}

fn h_none(_: &mut Engine, _: &[V], _: u32) -> Option<V> { None }
fn h_zero(_: &mut Engine, _: &[V], _: u32) -> Option<V> { Some(cv(0)) }

// ---------- allocation ----------
impl Engine {
    pub fn bump(&mut self, n: u64, al: u64) -> u64 {
        let a = (self.heap + al - 1) / al * al;
        self.heap = a + n.max(1);
        if self.heap > self.heap_end { self.fault("out of memory"); }
        a
    }
    fn in_heap(&self, p: u64) -> bool { p < self.heap_end && p >= self.heap_end - (2 << 30) }
    fn alloc(&mut self, n: u64, al: u64) -> u64 {
        if self.path { return self.bump(n, al.max(16)); }
        unsafe { let mut p = std::ptr::null_mut(); if ffi::posix_memalign(&mut p, al.max(16) as usize, n.max(1) as usize) != 0 { return 0; } p as u64 }
    }
    fn dealloc(&mut self, p: u64, n: u64) {
        self.clear_sh(p, n);
        if !self.path && !self.in_heap(p) { unsafe { ffi::free(p as *mut u8); } }
    }
    pub fn fnaddr(&mut self, n: &'static str) -> u64 {
        if let Some(&a) = self.hk.cache.get(n) { return a; }
        let a = ffi::dlsym_bytes(n.as_bytes());
        if a == 0 { crate::die(&format!("no native symbol {}", n)); }
        self.hk.cache.insert(n, a);
        a
    }
    pub fn py(&mut self, n: &'static str, a: &[u64]) -> u64 { let f = self.fnaddr(n); ffi::nc(f, a) }
    pub fn ty_of(&self, o: u64) -> u64 { unsafe { *((o + 8) as *const u64) } }
    pub fn incref(&mut self, o: u64) { unsafe { let r = o as *mut u32; let v = (*r).wrapping_add(1); if v != 0 { *r = v; } } }
    pub fn leak(&mut self, o: u64) { self.incref(o); self.hk.nsym += 1; self.hk.symobjs.insert(o); }
    pub fn is_ty(&mut self, o: u64, t: &'static str) -> bool { let x = self.fnaddr(t); o != 0 && self.ty_of(o) == x }
}
fn conc_args(e: &mut Engine, a: &[V], why: &'static str) -> Vec<u64> { a.iter().map(|x| { let w = if x.e != 0 { e.arena.w(x.e) } else { 64 }; e.conc(*x, w, why) as u64 }).collect() }
fn h_alloc(e: &mut Engine, a: &[V], _: u32) -> Option<V> { let c = conc_args(e, a, "alloc size"); Some(cv(e.alloc(c[0], c[1]) as u128)) }
fn h_alloc_zeroed(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let c = conc_args(e, a, "alloc size");
    let p = e.alloc(c[0], c[1]);
    if p != 0 { unsafe { std::ptr::write_bytes(p as *mut u8, 0, c[0] as usize); } e.clear_sh(p, c[0]); }
    Some(cv(p as u128))
}
fn h_dealloc(e: &mut Engine, a: &[V], _: u32) -> Option<V> { let c = conc_args(e, a, "dealloc"); e.dealloc(c[0], c[1]); Some(cv(0)) }
fn h_realloc(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let c = conc_args(e, a, "alloc size");
    let p = e.alloc(c[3], c[2]);
    if p != 0 { e.copy_mem(p, c[0], c[1].min(c[3])); e.dealloc(c[0], c[1]); }
    Some(cv(p as u128))
}
fn h_malloc(e: &mut Engine, a: &[V], _: u32) -> Option<V> { let c = conc_args(e, a, "alloc size"); if e.path { let p = e.bump(c[0] + 16, 16); unsafe { *(p as *mut u64) = c[0]; } return Some(cv(p as u128 + 16)); } None }
fn h_free(e: &mut Engine, a: &[V], _: u32) -> Option<V> { if e.path || e.in_heap(a[0].c as u64) { return Some(cv(0)); } None }
fn h_realloc_c(e: &mut Engine, a: &[V], _: u32) -> Option<V> { if e.path { e.fault("realloc in path"); } let _ = a; None }
fn h_getrandom(_: &mut Engine, a: &[V], _: u32) -> Option<V> { unsafe { std::ptr::write_bytes(a[0].c as *mut u8, 0x5a, a[1].c as usize); } Some(a[1]) }

// ---------- native functions that do not look at the value of an object ----------
const BLIND: &[&str] = &[
    "Py_IncRef", "Py_DecRef", "_Py_Dealloc", "PyList_Append", "PyList_New", "PyList_SetItem", "PyTuple_SetItem", "PyTuple_New", "PyErr_SetObject", "PyErr_SetRaisedException", "PyErr_Restore", "PyException_SetCause", "PyException_SetContext", "PyException_GetCause", "PyObject_SetAttr", "PyObject_SetAttrString",
    "PyObject_GenericSetAttr", "PyObject_GenericSetDict", "PyObject_GenericGetDict", "PyObject_Size", "PyUnicode_AsUTF8AndSize", "PyBytes_AsString", "PyBytes_Size", "PyObject_IsInstance", "PyType_IsSubtype", "PyObject_IsSubclass", "PyObject_Type", "PyUnicode_GetLength", "PyCallable_Check", "PyMapping_Check", "PySequence_Check", "PyIter_Check", "PyIter_Next", "PyIndex_Check", "PyNumber_Check",
    "PyObject_GC_Track", "PyObject_GC_UnTrack", "PyObject_GetAttrString", "_PyObject_GetDictPtr", "PyWeakref_NewRef", "PyDict_Next", "PyDict_Size", "PyErr_GivenExceptionMatches", "PyException_SetTraceback", "PyException_GetTraceback", "PyErr_NormalizeException", "PyType_GetFlags", "_PyUnicode_Ready", "PyErr_PrintEx", "PyObject_ClearWeakRefs", "PySet_Size", "PyList_Size", "PyTuple_Size", "PyFrozenSet_New", "PySet_New", "PyDict_New", "PyDict_Copy", "PyDict_Update", "PyDict_Merge",
    "PyObject_Str_", "PyObject_GetOptionalAttr", "PyObject_HasAttr", "PyBytes_AsStringAndSize", "memcpy", "memmove", "memset",
];
impl Engine {
    pub fn guard_native(&mut self, ni: Option<u32>, addr: u64, args: &[V]) {
        if !self.path || self.hk.quiet || (self.hk.symobjs.is_empty() && self.hk.ints.is_empty()) { return; }
        let mut name: Option<String> = None;
        for a in args {
            let o = a.c as u64;
            if o < 0x10000 { continue; }
            let sym = (self.hk.symobjs.contains(&o) || self.hk.ints.contains_key(&o)) && self.is_sym(o);
            let raw = !sym && o < 0x8000_0000_0000 && self.has_sh(o, 8);
            if !sym && !raw { continue; }
            if name.is_none() {
                if let Some(i) = ni {
                    let n = &self.natives[i as usize];
                    if n.hook != 0 || BLIND.contains(&n.name.as_str()) { return; }
                    name = Some(n.name.clone());
                } else { name = Some(format!("{:#x}", addr)); }
            }
            let n = name.clone().unwrap();
            if sym && n == "PyObject_GetIter" && (self.is_int(o) || self.is_ty(o, "PyFloat_Type")) { continue; } // never iterable
            if sym { *self.hk.silent.entry(format!("conc:{}", n)).or_insert(0) += 1; self.conc_obj(o, "native function"); } else { *self.hk.silent.entry(format!("raw:{}", n)).or_insert(0) += 1; }
        }
    }
}

// ---------- libc ----------
impl Engine {
    pub fn bytes_eq(&mut self, a: u64, b: u64, n: u64) -> V {
        let mut acc = cv(1);
        let mut i = 0;
        // compare in words of up to 8 bytes
        while i < n {
            let k = (n - i).min(8);
            let (x, y) = (self.load(a + i, 8 * k as u32), self.load(b + i, 8 * k as u32));
            let mut all = cv(1);
            if x.e != 0 || y.e != 0 {
                for j in 0..k { let (p, q) = (self.op1(Op::Extract, 8, x, 8 * k as u32, 8 * j as u128), self.op1(Op::Extract, 8, y, 8 * k as u32, 8 * j as u128)); let c = self.op2(Op::Eq, 1, p, q, 8); all = self.op2(Op::And, 1, all, c, 1); }
            } else { all = cv((x.c == y.c) as u128); }
            acc = self.op2(Op::And, 1, acc, all, 1);
            if acc.e == 0 && acc.c == 0 { return acc; }
            i += k;
        }
        acc
    }
}
fn h_bcmp(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let c = conc_args(e, a, "bcmp");
    if !e.maybe_shadow(c[0], c[2]) && !e.maybe_shadow(c[1], c[2]) { return None; }
    let q = e.bytes_eq(c[0], c[1], c[2]);
    Some(e.ite(q, cv(0), cv(1), 32))
}
fn h_memcmp(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let c = conc_args(e, a, "memcmp");
    if !e.maybe_shadow(c[0], c[2]) && !e.maybe_shadow(c[1], c[2]) { return None; }
    let mut r = cv(0);
    for i in (0..c[2]).rev() {
        let (x, y) = (e.load(c[0] + i, 8), e.load(c[1] + i, 8));
        let (lt, eq) = (e.op2(Op::Ult, 1, x, y, 8), e.op2(Op::Eq, 1, x, y, 8));
        let d = e.ite(lt, cv(0xffff_ffff), cv(1), 32);
        r = e.ite(eq, r, d, 32);
    }
    Some(r)
}
fn h_memchr(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let (p, n) = (a[0].c as u64, a[2].c as u64);
    if !e.maybe_shadow(p, n) && a[1].e == 0 { return None; }
    let ch = e.op1(Op::Extract, 8, a[1], 32, 0);
    for i in 0..n {
        let b = e.load(p + i, 8);
        let z = e.op2(Op::Eq, 1, b, ch, 8);
        if e.branch(z, K_BRANCH, "memchr") { return Some(cv((p + i) as u128)); }
    }
    Some(cv(0))
}
fn h_strlen(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let p = a[0].c as u64;
    let mut n = 0;
    loop {
        let b = e.load(p + n, 8);
        let z = e.op2(Op::Eq, 1, b, cv(0), 8);
        if e.branch(z, K_BRANCH, "strlen") { return Some(cv(n as u128)); }
        n += 1;
    }
}

// ---------- int ----------
impl Engine {
    /// exact value of a PyLong of at most 120 bits
    pub fn pylong_val(&self, o: u64) -> Option<i128> {
        unsafe {
            let tag = *((o + 16) as *const u64);
            let (n, s) = (tag >> 3, tag & 3);
            if n > 4 { return None; }
            let mut v: i128 = 0;
            for i in (0..n).rev() { v = (v << 30) | *((o + 24 + 4 * i) as *const u32) as i128; }
            Some(if s == 2 { -v } else { v })
        }
    }
    pub fn fresh_long(&mut self, v: i128) -> u64 {
        let mut m = v.unsigned_abs();
        let mut d = vec![];
        while m != 0 { d.push((m & 0x3fff_ffff) as u32); m >>= 30; }
        let o = self.py("_PyLong_New", &[d.len() as u64]);
        if o == 0 { self.fault("PyLong_New"); }
        unsafe {
            *((o + 16) as *mut u64) = (d.len() as u64) << 3 | if v == 0 { 1 } else if v < 0 { 2 } else { 0 };
            for (i, x) in d.iter().enumerate() { *((o + 24 + 4 * i as u64) as *mut u32) = *x; }
        }
        o
    }
    pub fn int_expr(&mut self, o: u64) -> Option<E> {
        if self.hk.ints.is_empty() { return None; }
        let e = *self.hk.ints.get(&o)?;
        let w = self.arena.w(e);
        if self.pylong_val(o) != Some(sext(self.arena.val(e), w)) { return None; }
        Some(e)
    }
    pub fn reg_int(&mut self, e: E) -> u64 {
        let w = self.arena.w(e);
        let v = sext(self.arena.val(e), w);
        let o = self.fresh_long(v);
        self.leak(o);
        self.hk.ints.insert(o, e);
        o
    }
    pub fn is_int(&mut self, o: u64) -> bool { self.is_ty(o, "PyLong_Type") }
    /// signed expression of an int object at width w (None: not an int or too large)
    pub fn int_at(&mut self, o: u64, w: u32) -> Option<V> {
        if !self.is_int(o) { return None; }
        if let Some(e) = self.int_expr(o) {
            let ew = self.arena.w(e);
            if ew > w { return None; }
            let v = self.mkv(e);
            return Some(self.op1(Op::SExt, w, v, ew, 0));
        }
        let v = self.pylong_val(o)?;
        if w < 128 && (v >= 1i128 << (w - 1) || v < -(1i128 << (w - 1))) { return None; }
        Some(cv(v as u128 & mask(w)))
    }
}
fn h_long_from_i64(e: &mut Engine, a: &[V], _: u32) -> Option<V> { if a[0].e == 0 { return None; } Some(cv(e.reg_int(a[0].e) as u128)) }
fn h_long_from_u64(e: &mut Engine, a: &[V], _: u32) -> Option<V> { if a[0].e == 0 { return None; } let z = e.arena.mk(Op::ZExt, 65, a[0].e, 0, 0, 0); Some(cv(e.reg_int(z) as u128)) }
fn range_branch(e: &mut Engine, x: E, lo: i128, hi: i128) -> bool {
    let w = e.arena.w(x);
    let v = e.mkv(x);
    let fits = |k: i128| w >= 128 || (k >= -(1i128 << (w - 1)) && k < (1i128 << (w - 1)));
    let mut c = cv(1);
    if fits(lo) { let t = e.op2(Op::Sle, 1, cv(lo as u128 & mask(w)), v, w); c = e.op2(Op::And, 1, c, t, 1); }
    if fits(hi) { let t = e.op2(Op::Sle, 1, v, cv(hi as u128 & mask(w)), w); c = e.op2(Op::And, 1, c, t, 1); }
    e.branch(c, K_BRANCH, "int range")
}
fn resize(e: &mut Engine, x: E, w: u32) -> V {
    let ew = e.arena.w(x);
    let v = e.mkv(x);
    if ew >= w { e.op1(Op::Extract, w, v, ew, 0) } else { e.op1(Op::SExt, w, v, ew, 0) }
}
fn h_as_long(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let x = e.int_expr(a[0].c as u64)?;
    if !range_branch(e, x, i64::MIN as i128, i64::MAX as i128) { return None; }
    Some(resize(e, x, 64))
}
fn h_as_ull(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let x = e.int_expr(a[0].c as u64)?;
    if !range_branch(e, x, 0, u64::MAX as i128) { return None; }
    Some(resize(e, x, 64))
}
fn h_numbits(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let x = e.int_expr(a[0].c as u64)?;
    let w = e.arena.w(x);
    let v = e.mkv(x);
    let n = e.op2(Op::Slt, 1, v, cv(0), w);
    let m = e.op2(Op::Sub, w, cv(0), v, w);
    let m = e.ite(n, m, v, w);
    let mut acc = cv(0);
    for i in 0..w { let b = e.op1(Op::Extract, 1, m, w, i as u128); acc = e.ite(b, cv((i + 1) as u128), acc, 64); }
    Some(acc)
}
fn h_as_bytearray(e: &mut Engine, a: &[V], ni: u32) -> Option<V> {
    let o = a[0].c as u64;
    let x = e.int_expr(o)?;
    let c = conc_args(e, a, "AsByteArray");
    let f = e.natives[ni as usize].addr;
    let r = ffi::nc(f, &c);
    e.clear_sh(c[1], c[2]);
    if r as u32 == 0 {
        if c[3] == 0 { e.fault("big endian int export"); }
        let w = e.arena.w(x);
        let v = e.mkv(x);
        for i in 0..c[2] {
            let b = if (8 * i + 8) as u32 <= w { e.op1(Op::Extract, 8, v, w, 8 * i as u128) } else { let s = e.op1(Op::SExt, 128, v, w, 0); if 8 * i + 8 <= 128 { e.op1(Op::Extract, 8, s, 128, 8 * i as u128) } else { let t = e.op1(Op::Extract, 1, s, 128, 127); e.op1(Op::SExt, 8, t, 1, 0) } };
            e.store(c[1] + i, b, 8);
        }
    }
    Some(cv(r as u32 as u128))
}
fn h_from_bytearray(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let c = conc_args(e, a, "FromByteArray");
    if !e.maybe_shadow(c[0], c[1]) { return None; }
    if c[2] == 0 || c[1] > 24 { for i in 0..c[1] { let v = e.load(c[0] + i, 8); e.conc(v, 8, "large int"); } return None; }
    let mut acc = e.load(c[0], 8);
    let mut w = 8;
    for i in 1..c[1] {
        let b = e.load(c[0] + i, 8);
        if w >= 120 { let bz = e.op2(Op::Eq, 1, b, cv(0), 8); if !e.branch(bz, K_BRANCH, "large int") { for i in 0..c[1] { let v = e.load(c[0] + i, 8); e.conc(v, 8, "large int"); } return None; } continue; }
        acc = e.concat(b, 8, acc, w);
        w += 8;
    }
    if acc.e == 0 { return None; }
    let x = if c[3] == 0 { e.arena.mk(Op::ZExt, w + 1, acc.e, 0, 0, 0) } else { acc.e };
    Some(cv(e.reg_int(x) as u128))
}

// ---------- float ----------
fn h_float_from(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    if a[0].e == 0 { return None; }
    let f = e.fnaddr("PyFloat_FromDouble");
    let (o, _, _) = ffi::ncall(f, &[true], &[a[0].c as u64]);
    e.leak(o);
    e.store(o + 16, a[0], 64);
    Some(cv(o as u128))
}
fn h_float_as(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let o = a[0].c as u64;
    if e.is_ty(o, "PyFloat_Type") { return Some(e.load(o + 16, 64)); }
    let x = e.int_expr(o)?;
    let v = e.mkv(x);
    let w = e.arena.w(x);
    if w > 64 { return Some(e.op1(Op::SToF, 64, v, w, 0)); }
    let v = resize(e, x, 64);
    Some(e.op1(Op::SToF, 64, v, 64, 0))
}

// ---------- str / bytes ----------
impl Engine {
    /// (address of UTF-8 data, length) of an exact str, without running Python code
    pub fn str_data(&mut self, o: u64) -> (u64, u64) {
        let st = unsafe { *((o + 32) as *const u32) };
        if st & 0x60 == 0x60 { return (o + 40, unsafe { *((o + 16) as *const u64) }); }
        let mut n = 0u64;
        let f = self.fnaddr("PyUnicode_AsUTF8AndSize");
        let p = ffi::nc(f, &[o, &mut n as *mut u64 as u64]);
        (p, n)
    }
    pub fn is_str(&mut self, o: u64) -> bool { self.is_ty(o, "PyUnicode_Type") }
    pub fn has_sh(&self, a: u64, n: u64) -> bool { self.maybe_shadow(a, n) && (0..n).any(|i| self.get_sh(a + i).is_some()) }
    pub fn new_str(&mut self, p: u64, n: u64) -> u64 {
        let mut ascii = true;
        for i in 0..n {
            let b = self.load(p + i, 8);
            if b.c >= 0x80 { ascii = false; }
            if b.e != 0 { let c = self.op2(Op::Ult, 1, b, cv(0x80), 8); self.branch(c, K_BRANCH, "str ascii"); }
        }
        if ascii {
            let o = self.py("PyUnicode_New", &[n, 127]);
            self.leak(o);
            self.copy_mem(o + 40, p, n);
            return o;
        }
        // build natively (fresh object), then attach the bytes to its UTF-8 cache
        let s = self.py("PyUnicode_DecodeUTF8", &[p, n, 0]);
        if s == 0 { return 0; }
        let len = unsafe { *((s + 16) as *const u64) };
        let o = if len == 1 {
            let ch = self.py("PyUnicode_ReadChar", &[s, 0]);
            let o = self.py("PyUnicode_New", &[1, ch]);
            self.py("PyUnicode_WriteChar", &[o, 0, ch]);
            o
        } else { s };
        self.leak(o);
        let (d, m) = self.str_data(o);
        if m == n { self.copy_mem(d, p, n); }
        o
    }
}
fn h_str_from(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let c = conc_args(e, a, "str size");
    if c[0] == 0 || !e.has_sh(c[0], c[1]) { return None; }
    Some(cv(e.new_str(c[0], c[1]) as u128))
}
fn h_intern(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let o = unsafe { *(a[0].c as u64 as *const u64) };
    if e.path && e.is_sym(o) { return Some(cv(0)); }
    None
}
fn h_bytes_from(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let c = conc_args(e, a, "bytes size");
    if c[0] == 0 || !e.has_sh(c[0], c[1]) { return None; }
    let o = e.py("PyBytes_FromStringAndSize", &[0, c[1]]);
    e.leak(o);
    e.copy_mem(o + 32, c[0], c[1]);
    Some(cv(o as u128))
}

// ---------- generic object treatment ----------
/// byte range of an object's content that may carry shadows
impl Engine {
    pub fn content(&mut self, o: u64) -> Option<(u64, u64)> {
        if o == 0 { return None; }
        let t = self.ty_of(o);
        if t == self.fnaddr("PyUnicode_Type") { let r = self.str_data(o); return if r.0 == 0 { None } else { Some(r) }; }
        if t == self.fnaddr("PyFloat_Type") { return Some((o + 16, 8)); }
        if t == self.fnaddr("PyBytes_Type") { return Some((o + 32, unsafe { *((o + 16) as *const u64) })); }
        if self.hk.capi {
            let k = |s: &Self, n: &'static str| s.hk.cache.get(n).copied().unwrap_or(0);
            if t == k(self, "#Date") { return Some((o + 25, 4)); }
            if t == k(self, "#DateTime") { return Some((o + 25, 11)); }
            if t == k(self, "#Time") { return Some((o + 25, 7)); }
            if t == k(self, "#Delta") { return Some((o + 24, 12)); }
        }
        None
    }
    pub fn is_sym(&mut self, o: u64) -> bool {
        if !self.path || o == 0 || (self.hk.nsym == 0 && !self.any_shadow) { return false; }
        if self.hk.ints.contains_key(&o) { return self.int_expr(o).is_some(); }
        match self.content(o) { Some((a, n)) => self.has_sh(a, n), None => false }
    }
    /// native code is about to observe the object's value
    pub fn conc_obj(&mut self, o: u64, why: &'static str) {
        if !self.path || o == 0 { return; }
        if let Some(x) = self.int_expr(o) { let w = self.arena.w(x); let v = self.mkv(x); self.conc(v, w, why); return; }
        let t = self.ty_of(o);
        if t == self.fnaddr("PyTuple_Type") {
            let n = unsafe { *((o + 16) as *const u64) };
            for i in 0..n { let x = unsafe { *((o + 24 + 8 * i) as *const u64) }; self.conc_obj(x, why); }
            return;
        }
        if t == self.fnaddr("PyList_Type") {
            let n = unsafe { *((o + 16) as *const u64) };
            let items = unsafe { *((o + 24) as *const u64) };
            for i in 0..n { let x = unsafe { *((items + 8 * i) as *const u64) }; self.conc_obj(x, why); }
            return;
        }
        if let Some((a, n)) = self.content(o) {
            if self.has_sh(a, n) {
                if t == self.fnaddr("PyFloat_Type") { let v = self.load(a, 64); self.conc(v, 64, why); } else { for i in 0..n { let v = self.load(a + i, 8); self.conc(v, 8, why); } }
            }
        }
    }
    /// equality of two simple objects as a condition; None when not modelled
    pub fn obj_eq(&mut self, a: u64, b: u64) -> Option<V> {
        if a == b { return Some(cv(1)); }
        if self.is_int(a) && self.is_int(b) {
            let (x, y) = (self.int_at(a, 128)?, self.int_at(b, 128)?);
            return Some(self.op2(Op::Eq, 1, x, y, 128));
        }
        if self.is_str(a) && self.is_str(b) {
            let (x, y) = (self.str_data(a), self.str_data(b));
            if x.1 != y.1 { return Some(cv(0)); }
            return Some(self.bytes_eq(x.0, y.0, x.1));
        }
        if self.is_ty(a, "PyBytes_Type") && self.is_ty(b, "PyBytes_Type") {
            let (x, y) = (self.content(a)?, self.content(b)?);
            if x.1 != y.1 { return Some(cv(0)); }
            return Some(self.bytes_eq(x.0, y.0, x.1));
        }
        if self.is_ty(a, "PyFloat_Type") && self.is_ty(b, "PyFloat_Type") {
            let (x, y) = (self.load(a + 16, 64), self.load(b + 16, 64));
            return Some(self.fcmp(1, x, y, 64));
        }
        let bv = |e: &mut Self, o: u64| if e.is_ty(o, "PyBool_Type") { e.pylong_val(o).map(|v| cv(v as u128)) } else if e.is_int(o) { e.int_at(o, 128) } else { None };
        if let (Some(x), Some(y)) = (bv(self, a), bv(self, b)) { return Some(self.op2(Op::Eq, 1, x, y, 128)); }
        for (i, f) in [(a, b), (b, a)] {
            // an int against a float constant
            if self.is_ty(f, "PyFloat_Type") && !self.is_sym(f) {
                if let Some(x) = bv(self, i) {
                    let c = f64::from_bits(unsafe { *((f + 16) as *const u64) });
                    if c != c.trunc() || c.abs() >= 1e30 { return Some(cv(0)); }
                    return Some(self.op2(Op::Eq, 1, x, cv(c as i128 as u128), 128));
                }
            }
        }
        for (f, i) in [(a, b), (b, a)] {
            // a float against an int constant
            if self.is_ty(f, "PyFloat_Type") && (self.is_ty(i, "PyBool_Type") || self.is_int(i)) && !self.is_sym(i) {
                if let Some(v) = self.pylong_val(i) {
                    let c = v as f64;
                    if c as i128 != v { return Some(cv(0)); }
                    let x = self.load(f + 16, 64);
                    return Some(self.fcmp(1, x, cv(c.to_bits() as u128), 64));
                }
            }
        }
        let (sa, sb) = (self.simple(a), self.simple(b));
        if sa != 0 && sb != 0 && sa != sb && !(sa <= 2 && sb <= 2) { return Some(cv(0)); }
        None
    }
    fn simple(&mut self, o: u64) -> u8 {
        if self.is_ty(o, "PyLong_Type") || self.is_ty(o, "PyBool_Type") { 1 } else if self.is_ty(o, "PyFloat_Type") { 2 } else if self.is_str(o) { 3 } else if self.is_ty(o, "PyBytes_Type") { 4 } else if self.is_ty(o, "PyTuple_Type") { 5 } else if o == self.fnaddr("_Py_NoneStruct") { 6 } else { 0 }
    }
    /// make the outcome of looking `key` up in a dict / set follow from path conditions
    pub fn resolve_key(&mut self, cont: u64, key: u64) {
        if !self.path || (self.hk.nsym == 0 && !self.any_shadow) { return; }
        let ks = self.is_sym(key);
        let mut keys = vec![];
        let t = self.ty_of(cont);
        let flags = unsafe { *((t + 168) as *const u64) };
        if flags & (1 << 29) != 0 {
            let n = self.py("PyDict_Size", &[cont]);
            if !ks && n > 64 { return; }
            let (mut pos, mut k, mut v) = (0u64, 0u64, 0u64);
            while self.py("PyDict_Next", &[cont, &mut pos as *mut u64 as u64, &mut k as *mut u64 as u64, &mut v as *mut u64 as u64]) as u32 != 0 { keys.push(k); }
        } else if t == self.fnaddr("PySet_Type") || t == self.fnaddr("PyFrozenSet_Type") {
            let (mut pos, mut k, mut h) = (0u64, 0u64, 0u64);
            while self.py("_PySet_NextEntry", &[cont, &mut pos as *mut u64 as u64, &mut k as *mut u64 as u64, &mut h as *mut u64 as u64]) as u32 != 0 { keys.push(k); }
        } else {
            if ks { self.conc_obj(key, "key of unknown container"); }
            return;
        }
        for k in keys {
            if !ks && !self.is_sym(k) { continue; }
            match self.obj_eq(k, key) {
                Some(c) => { if self.branch(c, K_BRANCH, "key equality") { break; } }
                None => { self.conc_obj(k, "key"); self.conc_obj(key, "key"); }
            }
        }
    }
}
fn h_key(e: &mut Engine, a: &[V], _: u32) -> Option<V> { e.resolve_key(a[0].c as u64, a[1].c as u64); None }
fn h_observe(e: &mut Engine, a: &[V], _: u32) -> Option<V> { if e.path { for x in a.iter().take(2) { if x.c > 0x10000 { e.conc_obj(x.c as u64, "observed by native code"); } } } None }
fn is_builtin_type(e: &mut Engine, o: u64) -> bool {
    // a static (non-heap) type object or a builtin function: C code that reads its arguments
    let t = e.ty_of(o);
    if t == e.fnaddr("PyType_Type") { let fl = unsafe { *((o + 168) as *const u64) }; return fl & (1 << 9) == 0; }
    t == e.fnaddr("PyCFunction_Type") || t == e.fnaddr("PyMethodDescr_Type") || t == e.fnaddr("PyType_Type")
}
fn h_pycall(e: &mut Engine, a: &[V], _: u32) -> Option<V> { if e.path && is_builtin_type(e, a[0].c as u64) { e.conc_obj(a[1].c as u64, "argument of builtin"); } None }
fn h_vectorcall(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    if e.path && is_builtin_type(e, a[0].c as u64) { let n = a[2].c as u64 & !(1 << 63); for i in 0..n { let x = unsafe { *((a[1].c as u64 + 8 * i) as *const u64) }; e.conc_obj(x, "argument of builtin"); } }
    None
}
fn h_maketpcall(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    if e.path && is_builtin_type(e, a[1].c as u64) { let n = a[3].c as u64 & !(1 << 63); for i in 0..n { let x = unsafe { *((a[2].c as u64 + 8 * i) as *const u64) }; e.conc_obj(x, "argument of builtin"); } }
    None
}
fn h_vectorcall_method(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    if e.path {
        let n = a[2].c as u64 & !(1 << 63);
        let me = unsafe { *(a[1].c as u64 as *const u64) };
        if n == 1 && e.hk.capi && e.hk.cache.get("#Delta") == Some(&e.ty_of(me)) && e.is_sym(me) {
            let (p, l) = e.str_data(a[0].c as u64);
            let us = e.load(me + 32, 32);
            if unsafe { std::slice::from_raw_parts(p as *const u8, l as usize) } == b"total_seconds" && us.e == 0 && us.c == 0 {
                let (d, s) = (e.load(me + 24, 32), e.load(me + 28, 32));
                let (d, s) = (e.op1(Op::SExt, 64, d, 32, 0), e.op1(Op::SExt, 64, s, 32, 0));
                let d = e.op2(Op::Mul, 64, d, cv(86400), 64);
                let t = e.op2(Op::Add, 64, d, s, 64);
                let f = e.op1(Op::SToF, 64, t, 64, 0);
                if f.e == 0 { return None; }
                return h_float_from(e, &[f], 0);
            }
        }
        if e.is_sym(me) { for i in 0..n { let x = unsafe { *((a[1].c as u64 + 8 * i) as *const u64) }; e.conc_obj(x, "method of symbolic object"); } }
    }
    None
}
fn h_rem(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let (x, y) = (a[0].c as u64, a[1].c as u64);
    if !e.is_sym(x) && !e.is_sym(y) { return None; }
    if e.is_int(x) && e.is_int(y) && e.int_expr(y).is_none() {
        if let (Some(p), Some(q)) = (e.int_at(x, 128), e.int_at(y, 128)) {
            if q.c != 0 {
                // floor modulo
                let r = e.op2(Op::SRem, 128, p, q, 128);
                let z = e.op2(Op::Eq, 1, r, cv(0), 128);
                let rn = e.op2(Op::Slt, 1, r, cv(0), 128);
                let qn = cv((q.c >> 127) & 1);
                let diff = e.op2(Op::Xor, 1, rn, qn, 1);
                let nz = e.not(z);
                let adj = e.op2(Op::And, 1, diff, nz, 1);
                let rq = e.op2(Op::Add, 128, r, q, 128);
                let v = e.ite(adj, rq, r, 128);
                if v.e != 0 { return Some(cv(e.reg_int(v.e) as u128)); }
                return Some(cv(e.fresh_long(v.c as i128) as u128));
            }
        }
    }
    e.conc_obj(x, "remainder");
    e.conc_obj(y, "remainder");
    None
}
fn h_istrue(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let o = a[0].c as u64;
    if let Some(x) = e.int_expr(o) {
        let w = e.arena.w(x);
        let v = e.mkv(x);
        let z = e.op2(Op::Eq, 1, v, cv(0), w);
        return Some(cv(!e.branch(z, K_BRANCH, "truth of int") as u128));
    }
    if e.path && e.is_ty(o, "PyFloat_Type") && e.is_sym(o) { let v = e.load(o + 16, 64); let z = e.fcmp(1, v, cv(0), 64); return Some(cv(!e.branch(z, K_BRANCH, "truth of float") as u128)); }
    None
}
fn h_richcmp(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let (x, y, op) = (a[0].c as u64, a[1].c as u64, a[2].c as u32);
    if !e.path || (!e.is_sym(x) && !e.is_sym(y)) { return None; }
    let mut c = None;
    if op == 2 || op == 3 {
        if let Some(q) = e.obj_eq(x, y) { c = Some(if op == 3 { e.not(q) } else { q }); }
    } else if e.is_int(x) && e.is_int(y) {
        if let (Some(p), Some(q)) = (e.int_at(x, 128), e.int_at(y, 128)) {
            c = Some(match op { 0 => e.op2(Op::Slt, 1, p, q, 128), 1 => e.op2(Op::Sle, 1, p, q, 128), 4 => e.op2(Op::Slt, 1, q, p, 128), _ => e.op2(Op::Sle, 1, q, p, 128) });
        }
    } else if e.is_ty(x, "PyFloat_Type") && e.is_ty(y, "PyFloat_Type") {
        let (p, q) = (e.load(x + 16, 64), e.load(y + 16, 64));
        c = Some(e.fcmp(match op { 0 => 4, 1 => 5, 4 => 2, _ => 3 }, p, q, 64));
    }
    match c {
        Some(c) => {
            let r = e.branch(c, K_BRANCH, "rich comparison");
            let o = e.fnaddr(if r { "_Py_TrueStruct" } else { "_Py_FalseStruct" });
            Some(cv(o as u128))
        }
        None => { e.conc_obj(x, "comparison"); e.conc_obj(y, "comparison"); None }
    }
}
fn h_getattr(e: &mut Engine, a: &[V], _: u32) -> Option<V> {
    let o = a[0].c as u64;
    if !e.path || !e.hk.capi { return None; }
    let t = e.ty_of(o);
    let dt = [("#Date", 0), ("#DateTime", 1), ("#Time", 2), ("#Delta", 3)];
    let k = dt.iter().find(|x| e.hk.cache.get(x.0) == Some(&t))?.1;
    if !e.is_sym(o) { return None; }
    let (p, n) = e.str_data(a[1].c as u64);
    let name = unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) };
    let be = |e: &mut Engine, off: u64, n: u64| -> V {
        let mut acc = e.load(o + off, 8);
        for i in 1..n { let b = e.load(o + off + i, 8); acc = e.concat(acc, 8 * i as u32, b, 8); }
        e.op1(Op::ZExt, 64, acc, 8 * n as u32, 0)
    };
    let v = match (k, name) {
        (0 | 1, b"year") => be(e, 25, 2), (0 | 1, b"month") => be(e, 27, 1), (0 | 1, b"day") => be(e, 28, 1),
        (1, b"hour") => be(e, 29, 1), (1, b"minute") => be(e, 30, 1), (1, b"second") => be(e, 31, 1), (1, b"microsecond") => be(e, 32, 3),
        (2, b"hour") => be(e, 25, 1), (2, b"minute") => be(e, 26, 1), (2, b"second") => be(e, 27, 1), (2, b"microsecond") => be(e, 28, 3),
        (3, b"days") => { let v = e.load(o + 24, 32); e.op1(Op::SExt, 64, v, 32, 0) }
        (3, b"seconds") => { let v = e.load(o + 28, 32); e.op1(Op::SExt, 64, v, 32, 0) }
        (3, b"microseconds") => { let v = e.load(o + 32, 32); e.op1(Op::SExt, 64, v, 32, 0) }
        _ => return None,
    };
    if v.e != 0 { Some(cv(e.reg_int(v.e) as u128)) } else { None }
}

// ---------- datetime C API ----------
pub fn addr_hook(e: &mut Engine, a: u64) -> Option<u32> {
    if !e.hk.capi { load_capi(e); return e.nat_addr.get(&a).copied(); }
    None
}
pub fn load_capi(e: &mut Engine) {
    if e.hk.capi { return; }
    let f = e.fnaddr("PyCapsule_Import");
    let c = ffi::nc(f, &[b"datetime.datetime_CAPI\0".as_ptr() as u64, 0]);
    if c == 0 { e.py("PyErr_Clear", &[]); return; }
    e.hk.capi = true;
    let g = |i: u64| unsafe { *((c + 8 * i) as *const u64) };
    e.hk.cache.insert("#Date", g(0));
    e.hk.cache.insert("#DateTime", g(1));
    e.hk.cache.insert("#Time", g(2));
    e.hk.cache.insert("#Delta", g(3));
    for (i, n) in [(6, "@Date_FromDate"), (7, "@DateTime_FromDateAndTime"), (8, "@Time_FromTime"), (9, "@Delta_FromDelta"), (13, "@DateTime_FromDateAndTimeAndFold"), (14, "@Time_FromTimeAndFold")] {
        let k = e.natives.len() as u32;
        e.natives.push(NativeFn { name: n.to_string(), addr: g(i), hook: native_hook(n) });
        e.nat_addr.insert(g(i), k);
    }
}
impl Engine {
    fn and(&mut self, a: V, b: V) -> V { self.op2(Op::And, 1, a, b, 1) }
    fn in_rng(&mut self, v: V, lo: i64, hi: i64) -> V {
        let a = self.op2(Op::Sle, 1, cv(lo as u128 & mask(32)), v, 32);
        let b = self.op2(Op::Sle, 1, v, cv(hi as u128 & mask(32)), 32);
        self.and(a, b)
    }
    fn valid_ymd(&mut self, y: V, m: V, d: V) -> V {
        let a = self.in_rng(y, 1, 9999);
        let b = self.in_rng(m, 1, 12);
        let ab = self.and(a, b);
        let y4 = self.op2(Op::URem, 32, y, cv(4), 32);
        let y100 = self.op2(Op::URem, 32, y, cv(100), 32);
        let y400 = self.op2(Op::URem, 32, y, cv(400), 32);
        let l4 = self.op2(Op::Eq, 1, y4, cv(0), 32);
        let n100 = { let t = self.op2(Op::Eq, 1, y100, cv(0), 32); self.not(t) };
        let l400 = self.op2(Op::Eq, 1, y400, cv(0), 32);
        let t = self.op2(Op::Or, 1, n100, l400, 1);
        let leap = self.and(l4, t);
        let feb = self.ite(leap, cv(29), cv(28), 32);
        let is30 = self.in_set(m, 32, &[4, 6, 9, 11]);
        let isf = self.op2(Op::Eq, 1, m, cv(2), 32);
        let dim = self.ite(is30, cv(30), cv(31), 32);
        let dim = self.ite(isf, feb, dim, 32);
        let d1 = self.op2(Op::Sle, 1, cv(1), d, 32);
        let d2 = self.op2(Op::Sle, 1, d, dim, 32);
        let dd = self.and(d1, d2);
        self.and(ab, dd)
    }
    fn put_be(&mut self, a: u64, v: V, n: u64) {
        self.arena.nopush = true;
        for i in 0..n { let b = self.op1(Op::Extract, 8, v, 32, 8 * (n - 1 - i) as u128); self.store(a + i, b, 8); }
        self.arena.nopush = false;
    }
}
fn any_sym(a: &[V], n: usize) -> bool { a.iter().take(n).any(|x| x.e != 0) }
fn call_plain(e: &mut Engine, a: &[V], ni: u32) -> u64 { let raw: Vec<u64> = a.iter().map(|x| x.c as u64).collect(); ffi::nc(e.natives[ni as usize].addr, &raw) }
fn h_date(e: &mut Engine, a: &[V], ni: u32) -> Option<V> {
    if !any_sym(a, 3) { return None; }
    let ok = e.valid_ymd(a[0], a[1], a[2]);
    e.branch(ok, K_BRANCH, "valid date");
    let o = call_plain(e, a, ni);
    if o != 0 { e.leak(o); e.put_be(o + 25, a[0], 2); e.put_be(o + 27, a[1], 1); e.put_be(o + 28, a[2], 1); }
    Some(cv(o as u128))
}
fn hms_ok(e: &mut Engine, a: &[V]) -> V {
    let x = e.in_rng(a[0], 0, 23);
    let y = e.in_rng(a[1], 0, 59);
    let z = e.in_rng(a[2], 0, 59);
    let u = e.in_rng(a[3], 0, 999999);
    let xy = e.and(x, y);
    let zu = e.and(z, u);
    e.and(xy, zu)
}
fn h_datetime(e: &mut Engine, a: &[V], ni: u32) -> Option<V> { dt_common(e, a, ni, None) }
fn h_datetime_fold(e: &mut Engine, a: &[V], ni: u32) -> Option<V> { dt_common(e, a, ni, Some(8)) }
fn dt_common(e: &mut Engine, a: &[V], ni: u32, fold: Option<usize>) -> Option<V> {
    if !any_sym(a, 7) && !fold.map_or(false, |f| a[f].e != 0) { return None; }
    let ok = e.valid_ymd(a[0], a[1], a[2]);
    let ok2 = hms_ok(e, &a[3..7]);
    let ok = e.and(ok, ok2);
    e.branch(ok, K_BRANCH, "valid datetime");
    if let Some(f) = fold { e.conc(a[f], 32, "fold"); }
    let o = call_plain(e, a, ni);
    if o != 0 {
        e.leak(o);
        e.put_be(o + 25, a[0], 2); e.put_be(o + 27, a[1], 1); e.put_be(o + 28, a[2], 1);
        e.put_be(o + 29, a[3], 1); e.put_be(o + 30, a[4], 1); e.put_be(o + 31, a[5], 1); e.put_be(o + 32, a[6], 3);
    }
    Some(cv(o as u128))
}
fn h_time(e: &mut Engine, a: &[V], ni: u32) -> Option<V> { time_common(e, a, ni, None) }
fn h_time_fold(e: &mut Engine, a: &[V], ni: u32) -> Option<V> { time_common(e, a, ni, Some(5)) }
fn time_common(e: &mut Engine, a: &[V], ni: u32, fold: Option<usize>) -> Option<V> {
    if !any_sym(a, 4) && !fold.map_or(false, |f| a[f].e != 0) { return None; }
    let ok = hms_ok(e, a);
    e.branch(ok, K_BRANCH, "valid time");
    if let Some(f) = fold { e.conc(a[f], 32, "fold"); }
    let o = call_plain(e, a, ni);
    if o != 0 { e.leak(o); e.put_be(o + 25, a[0], 1); e.put_be(o + 26, a[1], 1); e.put_be(o + 27, a[2], 1); e.put_be(o + 28, a[3], 3); }
    Some(cv(o as u128))
}
fn h_delta(e: &mut Engine, a: &[V], ni: u32) -> Option<V> {
    if !any_sym(a, 3) { return None; }
    let (mut d, mut s, mut u) = (e.op1(Op::SExt, 64, a[0], 32, 0), e.op1(Op::SExt, 64, a[1], 32, 0), e.op1(Op::SExt, 64, a[2], 32, 0));
    let fdm = |e: &mut Engine, x: V, k: i64| -> (V, V) {
        let q = e.op2(Op::SDiv, 64, x, cv(k as u128), 64);
        let r = e.op2(Op::SRem, 64, x, cv(k as u128), 64);
        let n = e.op2(Op::Slt, 1, r, cv(0), 64);
        let q1 = e.op2(Op::Sub, 64, q, cv(1), 64);
        let r1 = e.op2(Op::Add, 64, r, cv(k as u128), 64);
        (e.ite(n, q1, q, 64), e.ite(n, r1, r, 64))
    };
    let norm = a[3].c != 0;
    // already normalised?
    let c1 = e.in_rng(a[1], 0, 86399);
    let c2 = e.in_rng(a[2], 0, 999999);
    let c = e.and(c1, c2);
    let already = e.branch(c, K_BRANCH, "normalised delta");
    if norm && !already {
        let (q, r) = fdm(e, u, 1_000_000);
        u = r;
        s = e.op2(Op::Add, 64, s, q, 64);
        let (q, r) = fdm(e, s, 86400);
        s = r;
        d = e.op2(Op::Add, 64, d, q, 64);
    }
    let lo = e.op2(Op::Sle, 1, cv((-999999999i64) as u64 as u128), d, 64);
    let hi = e.op2(Op::Sle, 1, d, cv(999999999), 64);
    let ok = e.and(lo, hi);
    e.branch(ok, K_BRANCH, "delta range");
    let o = call_plain(e, a, ni);
    if o != 0 {
        e.leak(o);
        for (off, v) in [(24, d), (28, s), (32, u)] { let t = e.op1(Op::Extract, 32, v, 64, 0); e.store(o + off, t, 32); }
    }
    Some(cv(o as u128))
}

// ---------- hashing of symbolic content ----------
/// AHashMap<i64 or String, usize>::get: decided by the equality of the key with each key of the table; a
/// key which equals none of them is absent, one which does is looked up as that constant
fn map_get(e: &mut Engine, a: &[V], st: bool) -> Option<Vec<V>> {
    if !e.path { return None; }
    let (m, kp) = (a[0].c as u64, a[1].c as u64);
    let kn = if st { a[2].c as u64 } else { 8 };
    if kn == 0 || !e.has_sh(kp, kn) || (st && a[2].e != 0) { return None; }
    let rd = |p: u64| unsafe { *(p as *const u64) };
    let (ctrl, mask, items) = (rd(m), rd(m + 8), rd(m + 24));
    let sz = if st { 32 } else { 16 };
    if !(mask + 1).is_power_of_two() || mask > 1 << 16 || items > mask || e.has_sh(m, 32) { return None; }
    let full: Vec<u64> = (0..=mask).filter(|i| unsafe { *((ctrl + i) as *const u8) } < 0x80).map(|i| ctrl - (i + 1) * sz).collect();
    if full.len() as u64 != items { return None; }
    for b in full {
        let q = if st {
            // (String, usize): the pointer and the length are the two words of the string which are not its capacity
            let (p, n) = (rd(b + 8), rd(b + 16));
            if n != kn { continue; }
            e.bytes_eq(p, kp, n)
        } else {
            let (x, y) = (e.load(b, 64), e.load(kp, 64));
            e.op2(Op::Eq, 1, x, y, 64)
        };
        if e.branch(q, K_BRANCH, "map key") {
            let mut i = 0;
            while i < kn { let w = if st { 1 } else { 8 }; let v = e.load(kp + i, 8 * w as u32); e.conc(v, 8 * w as u32, "map key"); e.store(kp + i, cv(v.c), 8 * w as u32); i += w; }
            return None;
        }
    }
    Some(vec![cv(0)])
}
fn hash_one(_e: &mut Engine, _f: u32, _a: &[V]) -> Option<Vec<V>> { None }
