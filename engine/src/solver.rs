//! Translation of path conditions to z3 and the expansion of an explored path into the
//! unexplored alternatives of each of its events.
use crate::expr::*;
use crate::ffi;
use crate::interp::*;
use std::collections::HashMap;

type P = u64;
macro_rules! z3fns { ($($n:ident($($a:ty),*) -> $r:ty;)*) => {
    #[allow(non_snake_case)]
    pub struct Z3 { $(pub $n: extern "C" fn($($a),*) -> $r,)* }
    impl Z3 { pub fn load(path: &str) -> Z3 {
        let h = ffi::open_lib(path);
        if h.is_null() { crate::die("cannot load z3"); }
        Z3 { $($n: unsafe { let a = ffi::sym(h, stringify!($n)); if a == 0 { crate::die(concat!("no ", stringify!($n))); } std::mem::transmute::<u64, extern "C" fn($($a),*) -> $r>(a) },)* }
    } }
} }
z3fns! {
    Z3_mk_config() -> P; Z3_set_param_value(P, *const u8, *const u8) -> (); Z3_mk_context(P) -> P; Z3_del_context(P) -> (); Z3_del_config(P) -> ();
    Z3_mk_bv_sort(P, u32) -> P; Z3_mk_string_symbol(P, *const u8) -> P; Z3_mk_const(P, P, P) -> P; Z3_mk_unsigned_int64(P, u64, P) -> P;
    Z3_mk_bvadd(P, P, P) -> P; Z3_mk_bvsub(P, P, P) -> P; Z3_mk_bvmul(P, P, P) -> P; Z3_mk_bvudiv(P, P, P) -> P; Z3_mk_bvsdiv(P, P, P) -> P; Z3_mk_bvurem(P, P, P) -> P; Z3_mk_bvsrem(P, P, P) -> P;
    Z3_mk_bvshl(P, P, P) -> P; Z3_mk_bvlshr(P, P, P) -> P; Z3_mk_bvashr(P, P, P) -> P; Z3_mk_bvand(P, P, P) -> P; Z3_mk_bvor(P, P, P) -> P; Z3_mk_bvxor(P, P, P) -> P; Z3_mk_bvnot(P, P) -> P;
    Z3_mk_eq(P, P, P) -> P; Z3_mk_not(P, P) -> P; Z3_mk_and(P, u32, *const P) -> P; Z3_mk_or(P, u32, *const P) -> P; Z3_mk_xor(P, P, P) -> P; Z3_mk_true(P) -> P; Z3_mk_false(P) -> P;
    Z3_mk_bvult(P, P, P) -> P; Z3_mk_bvule(P, P, P) -> P; Z3_mk_bvslt(P, P, P) -> P; Z3_mk_bvsle(P, P, P) -> P; Z3_mk_ite(P, P, P, P) -> P; Z3_mk_concat(P, P, P) -> P; Z3_mk_extract(P, u32, u32, P) -> P; Z3_mk_zero_ext(P, u32, P) -> P; Z3_mk_sign_ext(P, u32, P) -> P;
    Z3_mk_fpa_sort(P, u32, u32) -> P; Z3_mk_fpa_to_fp_bv(P, P, P) -> P; Z3_mk_fpa_to_ieee_bv(P, P) -> P; Z3_mk_fpa_rne(P) -> P; Z3_mk_fpa_rna(P) -> P; Z3_mk_fpa_rtz(P) -> P; Z3_mk_fpa_rtp(P) -> P; Z3_mk_fpa_rtn(P) -> P;
    Z3_mk_fpa_add(P, P, P, P) -> P; Z3_mk_fpa_sub(P, P, P, P) -> P; Z3_mk_fpa_mul(P, P, P, P) -> P; Z3_mk_fpa_div(P, P, P, P) -> P; Z3_mk_fpa_sqrt(P, P, P) -> P; Z3_mk_fpa_round_to_integral(P, P, P) -> P;
    Z3_mk_fpa_eq(P, P, P) -> P; Z3_mk_fpa_lt(P, P, P) -> P; Z3_mk_fpa_leq(P, P, P) -> P; Z3_mk_fpa_is_nan(P, P) -> P; Z3_mk_fpa_is_zero(P, P) -> P; Z3_mk_fpa_abs(P, P) -> P; Z3_mk_fpa_neg(P, P) -> P;
    Z3_mk_fpa_to_sbv(P, P, P, u32) -> P; Z3_mk_fpa_to_ubv(P, P, P, u32) -> P; Z3_mk_fpa_to_fp_signed(P, P, P, P) -> P; Z3_mk_fpa_to_fp_unsigned(P, P, P, P) -> P; Z3_mk_fpa_to_fp_float(P, P, P, P) -> P; Z3_mk_fpa_numeral_double(P, f64, P) -> P;
    Z3_mk_solver(P) -> P; Z3_mk_simple_solver(P) -> P; Z3_solver_inc_ref(P, P) -> (); Z3_solver_dec_ref(P, P) -> (); Z3_solver_assert(P, P, P) -> (); Z3_solver_check(P, P) -> i32; Z3_solver_get_model(P, P) -> P; Z3_solver_push(P, P) -> (); Z3_solver_pop(P, P, u32) -> ();
    Z3_model_eval(P, P, P, bool, *mut P) -> bool; Z3_get_numeral_uint64(P, P, *mut u64) -> bool; Z3_mk_params(P) -> P; Z3_params_inc_ref(P, P) -> (); Z3_params_set_uint(P, P, P, u32) -> (); Z3_solver_set_params(P, P, P) -> (); Z3_set_error_handler(P, P) -> (); Z3_get_error_code(P) -> u32;
    Z3_ast_to_string(P, P) -> *const i8; Z3_solver_to_string(P, P) -> *const i8;
}

pub struct Solver {
    z: Z3,
    cache: HashMap<u128, Option<Vec<(u64, u128)>>>, // None = unsat; model by variable-name hash
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub slowest: f64,
    pub timeout: u32,
    ctx: P,
    used: u32,
    pub fallback: u64,
}

struct Tr<'a> { z: &'a Z3, c: P, bv: HashMap<E, P>, bo: HashMap<E, P>, fp: HashMap<E, P>, vars: HashMap<E, P> }

fn node(e: E) -> &'static Node { let a = &eng().arena; unsafe { &*(a.get(e) as *const Node) } }
fn tab(k: u128) -> &'static [u128] { let g = eng(); unsafe { let s = &*g.shm; std::slice::from_raw_parts(g.tabmem.add(s.tab_off[k as usize] as usize), s.tab_len[k as usize] as usize) } }

impl<'a> Tr<'a> {
    fn sort(&self, w: u32) -> P { (self.z.Z3_mk_bv_sort)(self.c, w) }
    fn num(&self, w: u32, v: u128) -> P {
        if w <= 64 { (self.z.Z3_mk_unsigned_int64)(self.c, v as u64, self.sort(w)) } else {
            let hi = (self.z.Z3_mk_unsigned_int64)(self.c, (v >> 64) as u64, self.sort(w - 64));
            let lo = (self.z.Z3_mk_unsigned_int64)(self.c, v as u64, self.sort(64));
            (self.z.Z3_mk_concat)(self.c, hi, lo)
        }
    }
    fn fsort(&self, w: u32) -> P { if w == 32 { (self.z.Z3_mk_fpa_sort)(self.c, 8, 24) } else { (self.z.Z3_mk_fpa_sort)(self.c, 11, 53) } }
    fn is_bool_op(op: Op, w: u32) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno) || (w == 1 && matches!(op, Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const)) }
    fn is_fp_op(op: Op) -> bool { matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem1 | Op::FRound | Op::SToF | Op::UToF | Op::FCvt | Op::FSqrt) }
    fn bool_(&mut self, e: E) -> P {
        if let Some(&x) = self.bo.get(&e) { return x; }
        let (z, c) = (self.z, self.c);
        let n = node(e);
        let r = match n.op {
            Op::Const => if n.v != 0 { (z.Z3_mk_true)(c) } else { (z.Z3_mk_false)(c) },
            Op::Eq => if node(n.a).w == 1 { let (x, y) = (self.bool_(n.a), self.bool_(n.b)); (z.Z3_mk_eq)(c, x, y) } else { let (x, y) = (self.bv(n.a), self.bv(n.b)); (z.Z3_mk_eq)(c, x, y) },
            Op::Ult => { let (x, y) = (self.bv(n.a), self.bv(n.b)); (z.Z3_mk_bvult)(c, x, y) }
            Op::Ule => { let (x, y) = (self.bv(n.a), self.bv(n.b)); (z.Z3_mk_bvule)(c, x, y) }
            Op::Slt => { let (x, y) = (self.bv(n.a), self.bv(n.b)); (z.Z3_mk_bvslt)(c, x, y) }
            Op::Sle => { let (x, y) = (self.bv(n.a), self.bv(n.b)); (z.Z3_mk_bvsle)(c, x, y) }
            Op::And | Op::Or if n.w == 1 => { let v = [self.bool_(n.a), self.bool_(n.b)]; if n.op == Op::And { (z.Z3_mk_and)(c, 2, v.as_ptr()) } else { (z.Z3_mk_or)(c, 2, v.as_ptr()) } }
            Op::Xor if n.w == 1 => { let x = self.bool_(n.a); if node(n.b).op == Op::Const { if node(n.b).v != 0 { (z.Z3_mk_not)(c, x) } else { x } } else { let y = self.bool_(n.b); (z.Z3_mk_xor)(c, x, y) } }
            Op::Ite if n.w == 1 => { let (x, y, w) = (self.bool_(n.a), self.bool_(n.b), self.bool_(n.c)); (z.Z3_mk_ite)(c, x, y, w) }
            Op::FEq => { let (x, y) = (self.fp(n.a), self.fp(n.b)); (z.Z3_mk_fpa_eq)(c, x, y) }
            Op::FLt => { let (x, y) = (self.fp(n.a), self.fp(n.b)); (z.Z3_mk_fpa_lt)(c, x, y) }
            Op::FLe => { let (x, y) = (self.fp(n.a), self.fp(n.b)); (z.Z3_mk_fpa_leq)(c, x, y) }
            Op::FUno => { let (x, y) = (self.fp(n.a), self.fp(n.b)); let v = [(z.Z3_mk_fpa_is_nan)(c, x), (z.Z3_mk_fpa_is_nan)(c, y)]; (z.Z3_mk_or)(c, 2, v.as_ptr()) }
            _ => { let x = self.bv(e); let one = self.num(1, 1); (z.Z3_mk_eq)(c, x, one) }
        };
        self.bo.insert(e, r);
        r
    }
    fn fp(&mut self, e: E) -> P {
        if let Some(&x) = self.fp.get(&e) { return x; }
        let (z, c) = (self.z, self.c);
        let n = node(e);
        let w = n.w as u32;
        let s = self.fsort(w);
        let rne = (z.Z3_mk_fpa_rne)(c);
        let r = match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => { let (x, y) = (self.fp(n.a), self.fp(n.b)); (match n.op { Op::FAdd => z.Z3_mk_fpa_add, Op::FSub => z.Z3_mk_fpa_sub, Op::FMul => z.Z3_mk_fpa_mul, _ => z.Z3_mk_fpa_div })(c, rne, x, y) }
            Op::FRound => { let x = self.fp(n.a); let m = match n.k { 0 => (z.Z3_mk_fpa_rtz)(c), 1 => (z.Z3_mk_fpa_rtn)(c), 2 => (z.Z3_mk_fpa_rtp)(c), 3 => (z.Z3_mk_fpa_rna)(c), _ => rne }; (z.Z3_mk_fpa_round_to_integral)(c, m, x) }
            Op::FRem1 => { let x = self.fp(n.a); let t = (z.Z3_mk_fpa_round_to_integral)(c, (z.Z3_mk_fpa_rtz)(c), x); (z.Z3_mk_fpa_sub)(c, rne, x, t) }
            Op::SToF => { let x = self.bv(n.a); (z.Z3_mk_fpa_to_fp_signed)(c, rne, x, s) }
            Op::UToF => { let x = self.bv(n.a); (z.Z3_mk_fpa_to_fp_unsigned)(c, rne, x, s) }
            Op::FCvt => { let x = self.fp(n.a); (z.Z3_mk_fpa_to_fp_float)(c, rne, x, s) }
            Op::FSqrt => { let x = self.fp(n.a); (z.Z3_mk_fpa_sqrt)(c, rne, x) }
            Op::FAbs => { let x = self.fp(n.a); (z.Z3_mk_fpa_abs)(c, x) }
            Op::FNeg => { let x = self.fp(n.a); (z.Z3_mk_fpa_neg)(c, x) }
            _ => { let x = self.bv(e); (z.Z3_mk_fpa_to_fp_bv)(c, x, s) }
        };
        self.fp.insert(e, r);
        r
    }
    fn bv(&mut self, e: E) -> P {
        if let Some(&x) = self.bv.get(&e) { return x; }
        let (z, c) = (self.z, self.c);
        let n = node(e);
        let w = n.w as u32;
        let r = if n.op == Op::Const { self.num(w, n.v) } else if Self::is_bool_op(n.op, w) {
            let b = self.bool_(e);
            let (o, zz) = (self.num(1, 1), self.num(1, 0));
            (z.Z3_mk_ite)(c, b, o, zz)
        } else if Self::is_fp_op(n.op) { let f = self.fp(e); (z.Z3_mk_fpa_to_ieee_bv)(c, f) } else {
            macro_rules! b2 { ($f:ident) => {{ let (x, y) = (self.bv(n.a), self.bv(n.b)); (z.$f)(c, x, y) }}; }
            match n.op {
                Op::Var => { let nm = format!("v{}\0", n.a); let s = (z.Z3_mk_string_symbol)(c, nm.as_ptr()); let r = (z.Z3_mk_const)(c, s, self.sort(w)); self.vars.insert(e, r); r }
                Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul), Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
                Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr), Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor), Op::Concat => b2!(Z3_mk_concat),
                Op::Ite => { let x = self.bool_(n.a); let (a, b) = (self.bv(n.b), self.bv(n.c)); (z.Z3_mk_ite)(c, x, a, b) }
                Op::Extract => { let x = self.bv(n.a); (z.Z3_mk_extract)(c, n.k as u32 + w - 1, n.k as u32, x) }
                Op::ZExt => { let x = self.bv(n.a); (z.Z3_mk_zero_ext)(c, w - node(n.a).w as u32, x) }
                Op::SExt => { let x = self.bv(n.a); (z.Z3_mk_sign_ext)(c, w - node(n.a).w as u32, x) }
                Op::FAbs => { let x = self.bv(n.a); let m = self.num(w, mask(w) >> 1); (z.Z3_mk_bvand)(c, x, m) }
                Op::FNeg => { let x = self.bv(n.a); let m = self.num(w, 1u128 << (w - 1)); (z.Z3_mk_bvxor)(c, x, m) }
                Op::Lookup => {
                    let x = self.bv(n.a);
                    let iw = node(n.a).w as u32;
                    let t = tab(n.k);
                    // maximal runs of equal values, decided by a balanced comparison tree
                    let mut runs: Vec<(u128, u128)> = vec![];
                    for (i, v) in t.iter().enumerate() { if runs.last().map_or(true, |r| r.1 != *v) { runs.push((i as u128, *v)); } }
                    self.tree(x, iw, w, &runs)
                }
                Op::FToS | Op::FToU => {
                    let aw = node(n.a).w as u32;
                    let f = self.fp(n.a);
                    let s = self.fsort(aw);
                    let rtz = (z.Z3_mk_fpa_rtz)(c);
                    let (lo, hi, vlo, vhi, conv) = if n.op == Op::FToS { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), 1u128 << (w - 1), mask(w) >> 1, (z.Z3_mk_fpa_to_sbv)(c, rtz, f, w)) } else { (0.0, 2f64.powi(w as i32), 0, mask(w), (z.Z3_mk_fpa_to_ubv)(c, rtz, f, w)) };
                    let (flo, fhi) = ((z.Z3_mk_fpa_numeral_double)(c, lo, s), (z.Z3_mk_fpa_numeral_double)(c, hi, s));
                    let (l, h, nn) = ((z.Z3_mk_fpa_leq)(c, f, flo), (z.Z3_mk_fpa_leq)(c, fhi, f), (z.Z3_mk_fpa_is_nan)(c, f));
                    let r = (z.Z3_mk_ite)(c, h, self.num(w, vhi), conv);
                    let r = (z.Z3_mk_ite)(c, l, self.num(w, vlo), r);
                    (z.Z3_mk_ite)(c, nn, self.num(w, 0), r)
                }
                o => crate::die(&format!("no translation for {:?}", o)),
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn tree(&self, x: P, iw: u32, w: u32, runs: &[(u128, u128)]) -> P {
        if runs.len() == 1 { return self.num(w, runs[0].1); }
        let m = runs.len() / 2;
        let (l, r) = (self.tree(x, iw, w, &runs[..m]), self.tree(x, iw, w, &runs[m..]));
        let c = (self.z.Z3_mk_bvult)(self.c, x, self.num(iw, runs[m].0));
        (self.z.Z3_mk_ite)(self.c, c, l, r)
    }
}

fn h2(a: u128, b: u128) -> u128 {
    let x = (a ^ b.rotate_left(61)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    (x ^ (x >> 67)).wrapping_mul(0xD6E8FEB86659FD93A3B195354A39B70D)
}
pub fn name_hash(s: &[u8]) -> u64 { let mut h = 1u128; for b in s { h = h2(h, *b as u128); } h as u64 }

pub struct Item { pub inputs: Vec<(String, u128)>, pub bound: u32, pub excl: Vec<u128>, pub hash: u64, pub kind: u8 }

extern "C" fn z3_err(_c: P, _e: u32) {}

impl Solver {
    pub fn new(path: &str, timeout: u32) -> Self {
        Solver { z: Z3::load(path), cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, cached: 0, time: 0.0, slowest: 0.0, timeout, ctx: 0, used: 0, fallback: 0 }
    }
    pub fn var_name(i: u32) -> Vec<u8> { let s = unsafe { &(*eng().shm).vars[i as usize].name }; let n = s.iter().position(|c| *c == 0).unwrap_or(48); s[..n].to_vec() }

    /// Explore the alternatives of every event at index >= bound of the finished path in shared memory.
    pub fn expand(&mut self, bound: u32, excl: &[u128]) -> (Vec<Item>, u32) {
        let g = eng();
        let shm = unsafe { &mut *g.shm };
        let ne = shm.n_events as usize;
        let evs = unsafe { std::slice::from_raw_parts(g.events, ne) };
        let nn = shm.n_nodes as usize;
        let z = &self.z as *const Z3;
        let z = unsafe { &*z };
        if self.ctx != 0 && self.used >= 64 { (z.Z3_del_context)(self.ctx); self.ctx = 0; }
        if self.ctx == 0 {
            let cfg = (z.Z3_mk_config)();
            self.ctx = (z.Z3_mk_context)(cfg);
            (z.Z3_del_config)(cfg);
            (z.Z3_set_error_handler)(self.ctx, z3_err as *const () as P);
            self.used = 0;
        }
        self.used += 1;
        let ctx = self.ctx;
        let mut tr = Tr { z, c: ctx, bv: HashMap::new(), bo: HashMap::new(), fp: HashMap::new(), vars: HashMap::new() };
        let nvars = shm.n_vars;
        let names: Vec<u64> = (0..nvars).map(|i| name_hash(&Self::var_name(i))).collect();
        // structural hash and variable set per node
        let mut hs: Vec<u128> = vec![0; nn];
        let mut vs: Vec<[u64; 8]> = vec![[0; 8]; nn];
        for i in 1..nn {
            let n = node(i as E);
            let mut h = h2(n.op as u128 + 1000 * n.w as u128, n.k);
            match n.op {
                Op::Var => { h = h2(h, names[n.a as usize] as u128); vs[i][(n.a >> 6) as usize] |= 1 << (n.a & 63); }
                Op::Const => {}
                _ => {
                    for c in [n.a, n.b, n.c] { h = h2(h, if c == 0 { 7 } else { hs[c as usize] }); if c != 0 { for j in 0..8 { let x = vs[c as usize][j]; vs[i][j] |= x; } } }
                    if n.op == Op::Lookup { for v in tab(n.k) { h = h2(h, *v); } }
                }
            }
            hs[i] = h;
        }
        let mut items = vec![];
        let mut unknown = 0;
        let cur: Vec<(String, u128)> = (0..nvars).map(|i| (String::from_utf8_lossy(&Self::var_name(i)).to_string(), shm.vars[i as usize].v)).collect();
        let mut prefix: u64 = 0;
        let start = (bound as usize).saturating_sub(1);
        for i in 0..ne {
            let ev = &evs[i];
            let reexp = bound > 0 && i + 1 == bound as usize;
            if i >= start && (i >= bound as usize || (reexp && ev.kind == K_CONC && !excl.is_empty())) && !(ev.kind == K_ASSUME && ev.taken != 0) {
                // relevant prefix constraints
                let mut set = vs[ev.cond as usize];
                let mut use_: Vec<usize> = vec![];
                let mut inn = vec![false; i];
                loop {
                    let mut ch = false;
                    for j in 0..i {
                        if inn[j] { continue; }
                        let s = &vs[evs[j].cond as usize];
                        if (0..8).any(|k| s[k] & set[k] != 0) { inn[j] = true; use_.push(j); for k in 0..8 { set[k] |= s[k]; } ch = true; }
                    }
                    if !ch { break; }
                }
                let mut ex: Vec<u128> = if reexp { excl.to_vec() } else { vec![] };
                if ev.kind == K_CONC { ex.push(node(ev.aux).v); }
                // several further values of a concretised term at a time; the last one goes on enumerating
                let mut batch = if ev.kind == K_CONC { 12 } else { 1 };
                loop {
                batch -= 1;
                let mut key: u128 = 0;
                for &j in &use_ { key = key.wrapping_add(h2(hs[evs[j].cond as usize], 99)); }
                let mut nk = h2(hs[ev.cond as usize], 1234567);
                { let mut s = ex.clone(); s.sort(); for v in s { nk = h2(nk, v); } }
                key = h2(key, nk);
                let res = if let Some(r) = self.cache.get(&key) { self.cached += 1; Some(r.clone()) } else {
                    let t0 = std::time::Instant::now();
                    let mut asserts: Vec<P> = vec![];
                    for &j in &use_ { asserts.push(tr.bool_(evs[j].cond)); }
                    if ev.kind == K_CONC {
                        let x = tr.bv(ev.aux);
                        for v in &ex { let k = tr.num(node(ev.aux).w as u32, *v); asserts.push((z.Z3_mk_not)(ctx, (z.Z3_mk_eq)(ctx, x, k))); }
                    } else { let b = tr.bool_(ev.cond); asserts.push((z.Z3_mk_not)(ctx, b)); }
                    let mut r = 0;
                    let mut s = 0;
                    // the incremental core first, the full strategy when it does not answer quickly
                    for round in 0..2 {
                        s = if round == 0 { (z.Z3_mk_simple_solver)(ctx) } else { self.fallback += 1; (z.Z3_mk_solver)(ctx) };
                        (z.Z3_solver_inc_ref)(ctx, s);
                        let pr = (z.Z3_mk_params)(ctx);
                        (z.Z3_params_inc_ref)(ctx, pr);
                        (z.Z3_params_set_uint)(ctx, pr, (z.Z3_mk_string_symbol)(ctx, b"timeout\0".as_ptr()), if round == 0 { 1500 } else { self.timeout });
                        (z.Z3_solver_set_params)(ctx, s, pr);
                        for a in &asserts { (z.Z3_solver_assert)(ctx, s, *a); }
                        r = (z.Z3_solver_check)(ctx, s);
                        if r != 0 || round == 1 { break; }
                        (z.Z3_solver_dec_ref)(ctx, s);
                    }
                    let out = if r == 1 {
                        let m = (z.Z3_solver_get_model)(ctx, s);
                        let mut mv = vec![];
                        for (&e, &a) in &tr.vars {
                            let idx = node(e).a;
                            if set[(idx >> 6) as usize] & (1 << (idx & 63)) == 0 { continue; }
                            let w = node(e).w as u32;
                            let mut val: u128 = 0;
                            let mut lo = 0;
                            while lo < w {
                                let n = (w - lo).min(64);
                                let part = if w <= 64 { a } else { (z.Z3_mk_extract)(ctx, lo + n - 1, lo, a) };
                                let mut o: P = 0;
                                (z.Z3_model_eval)(ctx, m, part, true, &mut o);
                                let mut u = 0u64;
                                (z.Z3_get_numeral_uint64)(ctx, o, &mut u);
                                val |= (u as u128) << lo;
                                lo += n;
                            }
                            mv.push((names[idx as usize], val));
                        }
                        if ev.kind == K_CONC {
                            let x = tr.bv(ev.aux);
                            let w = node(ev.aux).w as u32;
                            let (mut val, mut lo) = (0u128, 0);
                            while lo < w {
                                let n = (w - lo).min(64);
                                let part = if w <= 64 { x } else { (z.Z3_mk_extract)(ctx, lo + n - 1, lo, x) };
                                let (mut o, mut u): (P, u64) = (0, 0);
                                (z.Z3_model_eval)(ctx, m, part, true, &mut o);
                                (z.Z3_get_numeral_uint64)(ctx, o, &mut u);
                                val |= (u as u128) << lo;
                                lo += n;
                            }
                            mv.push((u64::MAX, val));
                        }
                        self.sat += 1;
                        Some(Some(mv))
                    } else if r == -1 { self.unsat += 1; Some(None) } else { self.unknown += 1; unknown += 1; None };
                    (z.Z3_solver_dec_ref)(ctx, s);
                    let dt = t0.elapsed().as_secs_f64();
                    self.time += dt;
                    if dt > self.slowest { self.slowest = dt; }
                    if dt > 3.0 && std::env::var("SYMEX_SLOW").is_ok() { eprintln!("slow query {:.1}s why={} kind={} nodes={} {}", dt, ev.why, ev.kind, nn, crate::api::show(ev.cond, 30)); }
                    self.queries += 1;
                    if let Some(o) = &out { self.cache.insert(key, o.clone()); }
                    out
                };
                let more = if let Some(Some(mv)) = res {
                    let mut inp = cur.clone();
                    let mut av = None;
                    for (h, v) in mv { if h == u64::MAX { av = Some(v); continue; } if let Some(p) = names.iter().position(|x| *x == h) { inp[p].1 = v; } }
                    let fl = if ev.kind == K_CONC { 2 } else { 1 - ev.taken as u64 };
                    let hash = (prefix ^ (ev.loc as u64) << 8 ^ (ev.kind as u64) << 4 ^ fl).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
                    let last = batch == 0;
                    items.push(Item { inputs: inp, bound: i as u32 + 1, excl: if ev.kind == K_CONC && last { ex.clone() } else { vec![] }, hash, kind: ev.kind });
                    match av { Some(v) if !last => { ex.push(v); true } _ => false }
                } else { false };
                if !more { break; }
                }
            }
            let t = if ev.kind == K_CONC { 2 } else { ev.taken as u64 };
            // the value of a concretisation is part of the path
            let cvv = if ev.kind == K_CONC { (node(ev.aux).v as u64).wrapping_mul(31) } else { 0 };
            prefix = (prefix ^ (ev.loc as u64) << 8 ^ (ev.kind as u64) << 4 ^ t).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
            if ev.kind == K_CONC { prefix ^= cvv; }
        }
        (items, unknown)
    }
    /// hash of the first `bound` events of the finished path, comparable with Item::hash
    pub fn prefix_hash(bound: u32) -> u64 {
        let g = eng();
        let shm = unsafe { &*g.shm };
        let mut prefix: u64 = 0;
        for i in 0..(bound as usize) {
            if i >= shm.n_events as usize { return !0; }
            let ev = unsafe { &*g.events.add(i) };
            let t = if ev.kind == K_CONC { 2 } else { ev.taken as u64 };
            prefix = (prefix ^ (ev.loc as u64) << 8 ^ (ev.kind as u64) << 4 ^ t).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
            if ev.kind == K_CONC && i + 1 < bound as usize { prefix ^= (node(ev.aux).v as u64).wrapping_mul(31); }
        }
        prefix
    }
}
