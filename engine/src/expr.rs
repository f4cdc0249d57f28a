//! Expression DAG.  Nodes live in a MAP_SHARED arena so that the worker process that
//! forked a path can read the path condition after the path's process is gone.
use std::collections::HashMap;

pub type E = u32; // 0 = no expression (concrete)

#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Nop, Var, Const, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, Lookup,
    // floating point on bit patterns (w = 32 / 64)
    FAdd, FSub, FMul, FDiv, FRem1, FEq, FLt, FLe, FUno, FRound, FToS, FToU, SToF, UToF, FCvt, FAbs, FNeg, FSqrt,
}
pub const OPS: [Op; 45] = [
    Op::Nop, Op::Var, Op::Const, Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr,
    Op::AShr, Op::And, Op::Or, Op::Xor, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle, Op::Ite, Op::Concat, Op::Extract,
    Op::ZExt, Op::SExt, Op::Lookup, Op::FAdd, Op::FSub, Op::FMul, Op::FDiv, Op::FRem1, Op::FEq, Op::FLt, Op::FLe,
    Op::FUno, Op::FRound, Op::FToS, Op::FToU, Op::SToF, Op::UToF, Op::FCvt, Op::FAbs, Op::FNeg, Op::FSqrt,
];

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Node {
    pub k: u128,
    pub v: u128,
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    /// unsigned range implied by the node and the path condition so far (u64::MAX with w > 64: no bound)
    pub lo: u64,
    pub hi: u64,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn f_of(v: u128, w: u32) -> f64 {
    if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }
}
pub fn f_to(f: f64, w: u32) -> u128 {
    if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }
}
fn farith(op: Op, a: u128, b: u128, w: u32) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FRem1 => x % 1.0, _ => unreachable!() };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, Op::FRem1 => x % 1.0, _ => unreachable!() };
        r.to_bits() as u128
    }
}
/// rounding mode codes for FRound: 0 RTZ, 1 RTN (floor), 2 RTP (ceil), 3 RNA (round), 4 RNE
pub fn fround(x: f64, m: u128) -> f64 {
    match m { 0 => x.trunc(), 1 => x.floor(), 2 => x.ceil(), 3 => x.round(), _ => x.round_ties_even() }
}
pub fn fto_int_sat(x: f64, w: u32, signed: bool) -> u128 {
    if x.is_nan() { return 0; }
    if signed {
        let (lo, hi) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1));
        let r: i128 = if x <= lo { if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) } } else if x >= hi { if w == 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 } } else { x as i128 };
        (r as u128) & mask(w)
    } else {
        if x <= 0.0 { 0 } else if x >= 2f64.powi(w as i32) { mask(w) } else { x as u128 }
    }
}

/// Concrete semantics of every operator; `w` is the result width, `aw` the width of operand a.
pub fn eval(op: Op, w: u32, aw: u32, bw: u32, k: u128, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((sext(a, w) >> s) as u128) & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::Concat => (if bw >= 128 { 0 } else { a << bw }) | b,
        Op::Extract => (a >> k) & m,
        Op::ZExt => a,
        Op::SExt => (sext(a, aw) as u128) & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem1 => farith(op, a, b, w),
        Op::FEq => (f_of(a, aw) == f_of(b, aw)) as u128,
        Op::FLt => (f_of(a, aw) < f_of(b, aw)) as u128,
        Op::FLe => (f_of(a, aw) <= f_of(b, aw)) as u128,
        Op::FUno => (f_of(a, aw).is_nan() || f_of(b, aw).is_nan()) as u128,
        Op::FRound => f_to(fround(f_of(a, w), k), w),
        Op::FToS => fto_int_sat(f_of(a, aw), w, true),
        Op::FToU => fto_int_sat(f_of(a, aw), w, false),
        Op::SToF => { let x = sext(a, aw); if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
        Op::UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::FCvt => f_to(f_of(a, aw), w),
        Op::FAbs => a & (m >> 1),
        Op::FNeg => a ^ (1u128 << (w - 1)),
        Op::FSqrt => f_to(f_of(a, w).sqrt(), w),
        Op::Nop | Op::Var | Op::Const | Op::Lookup => unreachable!(),
    }
}

pub struct Arena {
    pub nodes: *mut Node,
    pub n: *mut u32,
    pub cap: u32,
    pub memo: HashMap<(Op, u16, E, E, E, u128), E>,
    pub tabs: Vec<Vec<u128>>,
    /// splitting a value into bytes: keep the arithmetic whole
    pub nopush: bool,
}

impl Arena {
    #[inline]
    pub fn get(&self, e: E) -> &Node { unsafe { &*self.nodes.add(e as usize) } }
    #[inline]
    pub fn val(&self, e: E) -> u128 { self.get(e).v }
    #[inline]
    pub fn w(&self, e: E) -> u32 { self.get(e).w as u32 }
    pub fn len(&self) -> u32 { unsafe { *self.n } }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128, v: u128) -> E {
        let key = (op, w as u16, a, b, c, k);
        if let Some(&e) = self.memo.get(&key) {
            let n = self.get(e);
            return if n.lo == n.hi && w <= 64 && op != Op::Const { self.cst(w, v) } else { e };
        }
        let (lo, hi) = self.range_of(op, w, a, b, c, k, v);
        if !(lo as u128 <= v && (v <= hi as u128 || hi == u64::MAX)) { crate::die(&format!("range of {:?}/{} excludes its value", op, w)); }
        if lo == hi && w <= 64 && op != Op::Const && op != Op::Var { return self.cst(w, v); }
        unsafe {
            let i = *self.n;
            if i >= self.cap { crate::die("expression arena full"); }
            *self.nodes.add(i as usize) = Node { op, w: w as u16, a, b, c, k, v, lo, hi };
            *self.n = i + 1;
            self.memo.insert(key, i);
            i
        }
    }
    pub fn var(&mut self, idx: u32, w: u32, v: u128) -> E { self.raw(Op::Var, w, idx, 0, 0, 0, v & mask(w)) }
    pub fn cst(&mut self, w: u32, v: u128) -> E { let v = v & mask(w); self.raw(Op::Const, w, 0, 0, 0, v, v) }
    pub fn is_const(&self, e: E) -> bool { self.get(e).op == Op::Const }
    pub fn not1(&mut self, a: E) -> E { let o = self.cst(1, 1); self.mk(Op::Xor, 1, a, o, 0, 0) }

    #[inline]
    pub fn rng(&self, e: E) -> (u128, u128) {
        let n = self.get(e);
        if n.hi == u64::MAX && n.w > 64 { (n.lo as u128, mask(n.w as u32)) } else { (n.lo as u128, n.hi as u128) }
    }
    fn range_of(&self, op: Op, w: u32, a: E, b: E, c: E, k: u128, v: u128) -> (u64, u64) {
        let m = mask(w);
        let ra = if a != 0 && op != Op::Var { self.rng(a) } else { (0, 0) };
        let rb = if b != 0 { self.rng(b) } else { (0, 0) };
        let full = (0u128, m);
        let aw = if a != 0 && op != Op::Var { self.w(a) } else { 0 };
        let bw = if b != 0 { self.w(b) } else { 0 };
        let p2 = |x: u128| if x == 0 { 0 } else { mask(128 - x.leading_zeros()) };
        let (lo, hi) = match op {
            Op::Const => (v, v),
            Op::Add => match (ra.1.checked_add(rb.1), ra.0.checked_add(rb.0)) {
                (Some(h), Some(l)) if h <= m => (l, h),
                (Some(h), Some(l)) if l > m => (l & m, h & m),
                _ => full,
            },
            Op::Sub => if ra.0 >= rb.1 { (ra.0 - rb.1, ra.1 - rb.0) } else if ra.1 < rb.0 { ((ra.0.wrapping_sub(rb.1)) & m, (ra.1.wrapping_sub(rb.0)) & m) } else { full },
            Op::Mul => match ra.1.checked_mul(rb.1) { Some(h) if h <= m => (ra.0 * rb.0, h), _ => full },
            Op::UDiv => if rb.0 > 0 { (ra.0 / rb.1, ra.1 / rb.0) } else { full },
            Op::URem => if rb.0 > 0 { if ra.1 < rb.0 { ra } else { (0, rb.1 - 1) } } else { full },
            Op::And => (0, ra.1.min(rb.1)),
            Op::Or => (ra.0.max(rb.0), p2(ra.1.max(rb.1))),
            Op::Xor => (0, p2(ra.1.max(rb.1))),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FUno => (0, 1),
            Op::Ite => { let rc = self.rng(c); (rb.0.min(rc.0), rb.1.max(rc.1)) }
            Op::Concat if w <= 128 && bw < 128 => ((ra.0 << bw) | rb.0, (ra.1 << bw) | rb.1),
            Op::Extract => { let (l, h) = (ra.0 >> k, ra.1 >> k); if h <= m { (l, h) } else { full } }
            Op::ZExt => ra,
            Op::SExt => { let s = 1u128 << (aw - 1); if ra.1 < s { ra } else if ra.0 >= s { (ra.0 | (m & !mask(aw)), ra.1 | (m & !mask(aw))) } else { full } }
            Op::Lookup if ra.1 - ra.0 <= 4096 => {
                let t = &self.tabs[k as usize];
                let (mut l, mut h) = (m, 0);
                for i in ra.0..=ra.1 { let x = t.get(i as usize).copied().unwrap_or(0); l = l.min(x); h = h.max(x); }
                (l, h)
            }
            _ => full,
        };
        if w > 64 && hi > (u64::MAX - 1) as u128 { return (if lo > u64::MAX as u128 { 0 } else { lo as u64 }, u64::MAX); }
        (lo as u64, hi as u64)
    }
    /// the path condition now implies lo <= e <= hi (unsigned)
    pub fn refine(&mut self, e: E, lo: u128, hi: u128) {
        let n = *self.get(e);
        if n.op == Op::Const { return; }
        let r = self.rng(e);
        let (lo, hi) = (lo.max(r.0), hi.min(r.1));
        if lo > hi || (lo, hi) == r { return; }
        let m = unsafe { &mut *self.nodes.add(e as usize) };
        if lo > u64::MAX as u128 || (n.w > 64 && hi > (u64::MAX - 1) as u128) { if lo <= u64::MAX as u128 { m.lo = lo as u64; } return; }
        m.lo = lo as u64;
        m.hi = hi as u64;
        let w = n.w as u32;
        match n.op {
            Op::ZExt => self.refine(n.a, lo, hi),
            Op::SExt => { let aw = self.w(n.a); let s = 1u128 << (aw - 1); if hi < s { self.refine(n.a, lo, hi) } else if lo >= (mask(w) - s + 1) { self.refine(n.a, lo & mask(aw), hi & mask(aw)) } }
            Op::Add if self.is_const(n.b) => {
                let k = self.val(n.b);
                let (l, h) = (lo.wrapping_sub(k) & mask(w), hi.wrapping_sub(k) & mask(w));
                if l <= h { self.refine(n.a, l, h) }
            }
            Op::Mul if self.is_const(n.b) && self.val(n.b) != 0 => {
                let k = self.val(n.b);
                let ra = self.rng(n.a);
                if ra.1.checked_mul(k).map_or(false, |x| x <= mask(w)) { self.refine(n.a, (lo + k - 1) / k, hi / k) }
            }
            Op::UDiv if self.is_const(n.b) && self.val(n.b) != 0 => {
                let k = self.val(n.b);
                if let (Some(l), Some(h)) = (lo.checked_mul(k), hi.checked_mul(k).and_then(|x| x.checked_add(k - 1))) { self.refine(n.a, l, h) }
            }
            Op::Xor if w == 1 && self.is_const(n.b) && self.val(n.b) == 1 => self.refine(n.a, 1 - hi, 1 - lo),
            Op::Extract if n.k == 0 && false => {}
            _ => {}
        }
    }
    /// `c` is now known to be `t`
    pub fn learn(&mut self, c: E, t: bool) {
        let n = *self.get(c);
        if n.w != 1 { return; }
        match (n.op, t) {
            (Op::Xor, _) if self.is_const(n.b) && self.val(n.b) == 1 => return self.learn(n.a, !t),
            (Op::And, true) | (Op::Or, false) => { self.learn(n.a, t); self.learn(n.b, t); }
            (Op::Eq, true) => {
                let (ra, rb) = (self.rng(n.a), self.rng(n.b));
                self.refine(n.a, rb.0, rb.1);
                self.refine(n.b, ra.0, ra.1);
            }
            (Op::Eq, false) => {
                for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                    let (rx, ry) = (self.rng(x), self.rng(y));
                    if ry.0 == ry.1 {
                        if ry.0 == rx.0 && rx.0 < rx.1 { self.refine(x, rx.0 + 1, rx.1) } else if ry.0 == rx.1 && rx.0 < rx.1 { self.refine(x, rx.0, rx.1 - 1) }
                    }
                }
            }
            (Op::Ult, _) | (Op::Ule, _) => {
                // a < b, a <= b, or their negations b <= a, b < a
                let strict = (n.op == Op::Ult) == t;
                let (x, y) = if t { (n.a, n.b) } else { (n.b, n.a) };
                let (rx, ry) = (self.rng(x), self.rng(y));
                let d = strict as u128;
                if ry.1 >= d { self.refine(x, 0, ry.1 - d); }
                if rx.0.checked_add(d).is_some() { self.refine(y, rx.0 + d, mask(self.w(y))); }
            }
            (Op::Slt, _) | (Op::Sle, _) => {
                let strict = (n.op == Op::Slt) == t;
                let (x, y) = if t { (n.a, n.b) } else { (n.b, n.a) };
                let w = self.w(x);
                let half = 1u128 << (w - 1);
                let d = strict as u128;
                let (rx, ry) = (self.rng(x), self.rng(y));
                // x <s y with y non-negative: x is negative or below y; y with x >= 0: y above
                if rx.1 < half { self.refine(y, rx.0 + d, half - 1); }
                if rx.0 < half && rx.1 < half && ry.1 < half && ry.1 >= d { self.refine(x, 0, ry.1 - d); }
                if ry.1 == 0 && d == 1 { self.refine(x, half, mask(w)); }
                if ry.0 >= half { let h = ry.1.wrapping_sub(d); if ry.1 >= half + d { self.refine(x, half, h); } if rx.0 >= half { self.refine(y, rx.0.saturating_add(d), mask(w)); } }
            }
            _ => {}
        }
        let u = t as u128;
        let m = unsafe { &mut *self.nodes.add(c as usize) };
        if m.op != Op::Const { m.lo = u as u64; m.hi = u as u64; }
    }
    fn unz(&self, e: E) -> E { let n = self.get(e); if n.op == Op::ZExt { n.a } else { e } }
    /// `s` is a sum that cannot overflow and `x` one of its terms
    fn sum_with(&self, s: E, x: E) -> bool {
        let t = self.unz(s);
        let n = *self.get(t);
        if n.op != Op::Add { return false; }
        let y = self.unz(x);
        let (ua, ub) = (self.unz(n.a), self.unz(n.b));
        (ua == y || ub == y || n.a == x || n.b == x) && self.rng(n.a).1.checked_add(self.rng(n.b).1).map_or(false, |v| v <= mask(n.w as u32))
    }
    // ---- linear forms over the integers (unsigned values that do not wrap)
    fn lin_into(&self, e: E, k: i128, t: &mut Vec<(E, i128)>, c0: &mut i128, depth: u32) -> bool {
        let n = *self.get(e);
        let w = n.w as u32;
        if depth == 0 || t.len() > 16 { return false; }
        match n.op {
            Op::Const => { if n.v >> 100 != 0 { return false; } match k.checked_mul(n.v as i128).and_then(|x| c0.checked_add(x)) { Some(x) => { *c0 = x; return true; } None => return false } }
            Op::ZExt => return self.lin_into(n.a, k, t, c0, depth - 1),
            Op::Add => {
                let (ra, rb) = (self.rng(n.a), self.rng(n.b));
                if ra.1.checked_add(rb.1).map_or(false, |x| x <= mask(w)) { return self.lin_into(n.a, k, t, c0, depth - 1) && self.lin_into(n.b, k, t, c0, depth - 1); }
                if self.is_const(n.b) && w <= 64 {
                    let m = (mask(w) - rb.0 + 1) as i128;
                    if ra.0 as i128 >= m { *c0 -= k * m; return self.lin_into(n.a, k, t, c0, depth - 1); }
                }
            }
            Op::Mul if self.is_const(n.b) => {
                let v = self.val(n.b);
                if v >> 60 == 0 && self.rng(n.a).1.checked_mul(v).map_or(false, |x| x <= mask(w)) { if let Some(k2) = k.checked_mul(v as i128) { return self.lin_into(n.a, k2, t, c0, depth - 1); } }
            }
            Op::Concat if self.w(n.b) < 60 => { if let Some(k2) = k.checked_mul(1i128 << self.w(n.b)) { return self.lin_into(n.a, k2, t, c0, depth - 1) && self.lin_into(n.b, k, t, c0, depth - 1); } }
            _ => {}
        }
        for x in t.iter_mut() { if x.0 == e { x.1 += k; return true; } }
        t.push((e, k));
        true
    }
    fn lin(&self, e: E) -> Option<(Vec<(E, i128)>, i128)> {
        let (mut t, mut c0) = (vec![], 0i128);
        if !self.lin_into(e, 1, &mut t, &mut c0, 24) { return None; }
        t.retain(|x| x.1 != 0);
        t.sort();
        Some((t, c0))
    }
    fn unlin(&mut self, w: u32, t: &[(E, i128)], c0: i128) -> E {
        let mut acc = 0;
        for &(e, k) in t {
            if k == 0 { continue; }
            let x = if self.w(e) < w { self.mk(Op::ZExt, w, e, 0, 0, 0) } else { self.mk(Op::Extract, w, e, 0, 0, 0) };
            let kc = self.cst(w, k as u128);
            let x = self.mk(Op::Mul, w, x, kc, 0, 0);
            acc = if acc == 0 { x } else { self.mk(Op::Add, w, acc, x, 0, 0) };
        }
        let c = self.cst(w, c0 as u128);
        if acc == 0 { c } else { self.mk(Op::Add, w, acc, c, 0, 0) }
    }
    /// floor quotient and remainder of (the integer value of `a`) + off by the constant d > 0
    fn lin_div(&mut self, w: u32, a: E, off: i128, d: i128) -> Option<(E, E)> {
        let n = self.get(a).op;
        if !matches!(n, Op::Add | Op::Mul | Op::Concat | Op::ZExt) { return None; }
        let (t, c0) = self.lin(a)?;
        let c0 = c0 + off;
        let (mut q, mut r) = (vec![], vec![]);
        let (q0, r0) = (c0.div_euclid(d), c0.rem_euclid(d));
        let mut top = r0;
        for &(e, k) in &t {
            q.push((e, k.div_euclid(d)));
            let rk = k.rem_euclid(d);
            r.push((e, rk));
            let h = self.rng(e).1;
            if h >> 64 != 0 { return None; }
            top = top.checked_add(rk.checked_mul(h as i128)?)?;
        }
        if top >= d { return None; }
        if t.len() == 1 && t[0].1 == 1 && c0 == 0 { return None; }
        Some((self.unlin(w, &q, q0), self.unlin(w, &r, r0)))
    }
    /// signed range
    fn srng(&self, e: E, depth: u32) -> (i128, i128) {
        let n = *self.get(e);
        let w = n.w as u32;
        let r = self.rng(e);
        if w > 100 { return (i128::MIN / 4, i128::MAX / 4); }
        let h = 1u128 << (w - 1);
        if r.1 < h { return (r.0 as i128, r.1 as i128); }
        if r.0 >= h { return (r.0 as i128 - (1i128 << w), r.1 as i128 - (1i128 << w)); }
        let full = (-(h as i128), h as i128 - 1);
        if depth == 0 { return full; }
        let fit = |x: (i128, i128)| if x.0 >= full.0 && x.1 <= full.1 { x } else { full };
        match n.op {
            Op::SExt => self.srng(n.a, depth - 1),
            Op::AShr if self.is_const(n.b) => { let x = self.srng(n.a, depth - 1); let k = self.val(n.b).min(100); (x.0 >> k, x.1 >> k) }
            Op::Add => { let (x, y) = (self.srng(n.a, depth - 1), self.srng(n.b, depth - 1)); fit((x.0 + y.0, x.1 + y.1)) }
            Op::Sub => { let (x, y) = (self.srng(n.a, depth - 1), self.srng(n.b, depth - 1)); fit((x.0 - y.1, x.1 - y.0)) }
            Op::Mul if w <= 64 => { let (x, y) = (self.srng(n.a, depth - 1), self.srng(n.b, depth - 1)); if x.0.abs().max(x.1.abs()) >> 62 != 0 || y.0.abs().max(y.1.abs()) >> 62 != 0 { return full; } let p = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1]; fit((*p.iter().min().unwrap(), *p.iter().max().unwrap())) }
            Op::Concat => { let x = self.srng(n.a, depth - 1); let k = 1i128 << self.w(n.b); fit((x.0 * k, x.1 * k + k - 1)) }
            Op::Extract if n.k == 0 => fit(self.srng(n.a, depth - 1)),
            Op::Ite => { let (x, y) = (self.srng(n.b, depth - 1), self.srng(n.c, depth - 1)); (x.0.min(y.0), x.1.max(y.1)) }
            _ => full,
        }
    }
    // ---- doubles that are exactly x * 2^-k for an integer node x
    fn fix(&mut self, e: E) -> Option<(E, u32)> {
        let n = *self.get(e);
        if n.w != 64 { return None; }
        match n.op {
            Op::Const => {
                let mut f = f64::from_bits(n.v as u64);
                let mut k = 0;
                while f.is_finite() && f.fract() != 0.0 && k < 20 { f *= 2.0; k += 1; }
                if f.is_finite() && f.fract() == 0.0 && f.abs() < 9e15 && !(f == 0.0 && f.is_sign_negative()) { Some((self.cst(64, f as i128 as u128), k)) } else { None }
            }
            Op::SToF | Op::UToF => {
                let (x, sg) = (n.a, n.op == Op::SToF);
                let w = self.w(x);
                if w > 64 { return None; }
                let r = if sg { self.srng(x, 12) } else { let r = self.rng(x); (r.0 as i128, r.1 as i128) };
                if r.0.abs().max(r.1.abs()) >> 53 != 0 { return None; }
                Some((if w == 64 { x } else { self.mk(if sg { Op::SExt } else { Op::ZExt }, 64, x, 0, 0, 0) }, 0))
            }
            Op::FMul if self.is_const(n.b) => {
                let f = f64::from_bits(self.val(n.b) as u64);
                let (m, ex) = ((f.to_bits() & ((1 << 52) - 1)), ((f.to_bits() >> 52) & 0x7ff) as i64 - 1023);
                if m != 0 || f <= 0.0 || ex >= 0 || ex < -20 { return None; }
                match self.fix(n.a) { Some((x, 0)) => Some((x, (-ex) as u32)), _ => None }
            }
            _ => None,
        }
    }
    fn unfix(&mut self, x: E, k: u32) -> Option<E> {
        // -0.0 cannot be told from 0.0: only used where the sign of zero does not matter (a fixed value is never -0.0 by construction)
        let r = self.srng(x, 12);
        if r.0.abs().max(r.1.abs()) >> 53 != 0 { return None; }
        let f = self.mk(Op::SToF, 64, x, 0, 0, 0);
        if k == 0 { return Some(f); }
        let c = self.cst(64, (2f64.powi(-(k as i32))).to_bits() as u128);
        Some(self.mk(Op::FMul, 64, f, c, 0, 0))
    }
    fn fix_op(&mut self, op: Op, a: E, b: E, k: u128) -> Option<E> {
        let (x, i) = self.fix(a)?;
        match op {
            Op::FAdd | Op::FSub => {
                let (y, j) = self.fix(b)?;
                let m = i.max(j);
                if self.is_const(x) && self.is_const(y) { return None; }
                let (rx, ry) = (self.srng(x, 12), self.srng(y, 12));
                let big = |r: (i128, i128), s: u32| r.0.abs().max(r.1.abs()).checked_shl(s).map_or(true, |v| v >> 52 != 0);
                if big(rx, m - i) || big(ry, m - j) { return None; }
                let (ci, cj) = (self.cst(64, 1 << (m - i)), self.cst(64, 1 << (m - j)));
                let xs = self.mk(Op::Mul, 64, x, ci, 0, 0);
                let ys = self.mk(Op::Mul, 64, y, cj, 0, 0);
                // a - b = +0.0 when equal; -0.0 cannot arise from fixed values except 0 - 0 = +0
                let r = self.mk(if op == Op::FAdd { Op::Add } else { Op::Sub }, 64, xs, ys, 0, 0);
                self.unfix(r, m)
            }
            Op::FMul => {
                let (y, j) = self.fix(b)?;
                if !self.is_const(y) || self.is_const(x) || i + j > 20 { return None; }
                let c = self.val(y) as u64 as i64;
                if c <= 0 { return None; }
                if c.count_ones() == 1 && c == 1 && i == 0 { return None; }
                let r = self.srng(x, 12);
                if r.0.abs().max(r.1.abs()).checked_mul(c as i128).map_or(true, |v| v >> 53 != 0) { return None; }
                // keep the fraction small
                let (mut c, mut m) = (c, i + j);
                while c & 1 == 0 && m > 0 { c >>= 1; m -= 1; }
                let cc = self.cst(64, c as u128);
                let p = self.mk(Op::Mul, 64, x, cc, 0, 0);
                self.unfix(p, m)
            }
            Op::FAbs => {
                let r = self.srng(x, 12);
                if r.0 >= 0 { return Some(a); }
                let z = self.cst(64, 0);
                let neg = self.mk(Op::Slt, 1, x, z, 0, 0);
                let m = self.mk(Op::Sub, 64, z, x, 0, 0);
                let y = self.mk(Op::Ite, 64, neg, m, x, 0);
                self.unfix(y, i)
            }
            Op::FRound if i > 0 && (k == 0 || k == 3) && self.srng(x, 12).1 <= 0 => {
                let (z, sh) = (self.cst(64, 0), self.cst(64, i as u128));
                let m = self.mk(Op::Sub, 64, z, x, 0, 0);
                let y = if k == 3 { let h = self.cst(64, 1 << (i - 1)); self.mk(Op::Add, 64, m, h, 0, 0) } else { m };
                let q = self.mk(Op::LShr, 64, y, sh, 0, 0);
                let q = self.mk(Op::Sub, 64, z, q, 0, 0);
                self.unfix(q, 0)
            }
            Op::FRound if i > 0 && (k == 1 || (k == 0 || k == 3) && self.srng(x, 12).0 >= 0) => {
                let sh = self.cst(64, i as u128);
                let y = if k == 3 { let h = self.cst(64, 1 << (i - 1)); self.mk(Op::Add, 64, x, h, 0, 0) } else { x };
                let q = if self.srng(y, 12).0 >= 0 { self.mk(Op::LShr, 64, y, sh, 0, 0) } else { self.mk(Op::AShr, 64, y, sh, 0, 0) };
                self.unfix(q, 0)
            }
            _ => None,
        }
    }
    /// a finite double that is an integer
    fn integral(&self, e: E) -> bool { let n = self.get(e); match n.op { Op::SToF | Op::UToF => true, Op::FAbs | Op::FNeg => self.integral(n.a), _ => false } }
    fn bits(x: u128) -> u32 { (128 - x.leading_zeros()).max(1) }
    /// floating point value of a node that is exactly an integer: the integer node
    fn as_int_fp(&self, e: E) -> Option<(E, bool)> {
        let n = self.get(e);
        let p = if n.w == 32 { 24 } else { 53 };
        match n.op {
            Op::SToF => { let r = self.srng(n.a, 12); if r.0.abs().max(r.1.abs()) < 1 << p { Some((n.a, true)) } else { None } }
            Op::UToF => if self.rng(n.a).1 < (1 << p) { Some((n.a, false)) } else { None },
            _ => None,
        }
    }

    pub fn mk(&mut self, op: Op, w: u32, mut a: E, mut b: E, mut c: E, k: u128) -> E {
        if op != Op::Lookup || true {
            for x in [&mut a, &mut b, &mut c] {
                if *x != 0 { let n = *self.get(*x); if n.lo == n.hi && n.w <= 64 && n.op != Op::Const { *x = self.cst(n.w as u32, n.lo as u128); } }
            }
        }
        let (na, nb, nc) = (*self.get(a), if b != 0 { *self.get(b) } else { *self.get(a) }, if c != 0 { *self.get(c) } else { *self.get(a) });
        let (aw, bw) = (na.w as u32, nb.w as u32);
        let v = if op == Op::Lookup { let t = &self.tabs[k as usize]; t.get(na.v as usize).copied().unwrap_or(0) } else { eval(op, w, aw, bw, k, na.v, if b != 0 { nb.v } else { 0 }, if c != 0 { nc.v } else { 0 }) };
        let ac = na.op == Op::Const;
        let bc = b != 0 && nb.op == Op::Const;
        let cc = c == 0 || nc.op == Op::Const;
        if ac && (b == 0 || bc) && cc { return self.cst(w, v); }
        // decided or simplified by ranges
        let (ra, rb) = (self.rng(a), if b != 0 { self.rng(b) } else { (0, 0) });
        match op {
            Op::Ult | Op::Ule if self.sum_with(a, b) => { if op == Op::Ult { return self.cst(1, 0); } }
            Op::Ule if self.sum_with(b, a) => return self.cst(1, 1),
            Op::Ult if ra.1 < rb.0 => return self.cst(1, 1),
            Op::Ult if ra.0 >= rb.1 => return self.cst(1, 0),
            Op::Ule if ra.1 <= rb.0 => return self.cst(1, 1),
            Op::Ule if ra.0 > rb.1 => return self.cst(1, 0),
            Op::Eq if ra.1 < rb.0 || rb.1 < ra.0 => return self.cst(1, 0),
            Op::Slt | Op::Sle => {
                let h = 1u128 << (aw - 1);
                let (an, ap, bn, bp) = (ra.0 >= h, ra.1 < h, rb.0 >= h, rb.1 < h);
                if an && bp { return self.cst(1, 1); }
                if ap && bn { return self.cst(1, 0); }
                if !((an || ap) && (bn || bp)) && aw <= 64 {
                    let (x, y) = (self.srng(a, 8), self.srng(b, 8));
                    if op == Op::Slt { if x.1 < y.0 { return self.cst(1, 1); } if x.0 >= y.1 { return self.cst(1, 0); } }
                    else { if x.1 <= y.0 { return self.cst(1, 1); } if x.0 > y.1 { return self.cst(1, 0); } }
                }
                if (an && bn) || (ap && bp) { return self.mk(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, a, b, 0, 0); }
            }
            Op::SDiv | Op::SRem if ra.1 < 1u128 << (w - 1) && rb.1 < 1u128 << (w - 1) && rb.0 > 0 => return self.mk(if op == Op::SDiv { Op::UDiv } else { Op::URem }, w, a, b, 0, 0),
            Op::URem if ra.1 < rb.0 => return a,
            Op::UDiv if ra.1 < rb.0 => return self.cst(w, 0),
            Op::SExt if w > aw && ra.1 < 1u128 << (aw - 1) => return self.mk(Op::ZExt, w, a, 0, 0, 0),
            Op::AShr if ra.1 < 1u128 << (w - 1) => return self.mk(Op::LShr, w, a, b, 0, 0),
            _ => {}
        }
        if bc && nb.v > 0 && nb.v >> 60 == 0 && matches!(op, Op::UDiv | Op::URem) && w <= 64 && w > 1 {
            if let Some((q, r)) = self.lin_div(w, a, 0, nb.v as i128) { return if op == Op::UDiv { q } else { r }; }
        }
        if bc && matches!(op, Op::SDiv | Op::SRem) && w <= 64 && nb.v > 0 && nb.v < 1u128 << (w - 1) && ra.0 >= 1u128 << (w - 1) && na.op == Op::Add && self.is_const(na.b) {
            // a negative value  x + c  with x >= 0: divide the non-negative x + c + K * d
            let d = nb.v as i128;
            let c = sext(self.val(na.b), w);
            let kk = ((1i128 << w) - ra.0 as i128 + d - 1) / d;
            if c < 0 && self.rng(na.a).1 < 1u128 << (w - 1) {
                if let Some((q, r)) = self.lin_div(w, na.a, c + kk * d, d) {
                    let z = self.cst(w, 0);
                    let rz = self.mk(Op::Eq, 1, r, z, 0, 0);
                    if op == Op::SRem {
                        let dc = self.cst(w, (-d) as u128);
                        let t = self.mk(Op::Add, w, r, dc, 0, 0);
                        return self.mk(Op::Ite, w, rz, z, t, 0);
                    }
                    let kc = self.cst(w, (-kk) as u128);
                    let q = self.mk(Op::Add, w, q, kc, 0, 0);
                    let nz = self.not1(rz);
                    let one = self.mk(Op::ZExt, w, nz, 0, 0, 0);
                    return self.mk(Op::Add, w, q, one, 0, 0);
                }
            }
        }
        if op == Op::Eq && aw > 1 && aw <= 64 && !(bc && !matches!(na.op, Op::Add | Op::Mul | Op::Concat)) && (matches!(self.get(self.unz(a)).op, Op::Add | Op::Mul) || matches!(self.get(self.unz(b)).op, Op::Add | Op::Mul)) {
            if let (Some(x), Some(y)) = (self.lin(a), self.lin(b)) { if x == y { return self.cst(1, 1); } }
        }
        // narrower arithmetic when nothing can overflow
        if w > 2 && (matches!(op, Op::UDiv | Op::URem) && rb.0 > 0 || op == Op::Mul && !(bc && nb.v.is_power_of_two() || ac) || op == Op::Add && !bc && !ac) {
            let top = match op { Op::Mul => ra.1.checked_mul(rb.1).filter(|x| *x <= mask(w)), Op::Add => ra.1.checked_add(rb.1).filter(|x| *x <= mask(w)), _ => Some(ra.1.max(rb.1)) };
            if let Some(t) = top {
                let t = t.max(ra.1).max(rb.1);
                let n = Self::bits(t);
                if n < w && !(op == Op::UDiv && bc && nb.v.is_power_of_two()) {
                    let x = self.mk(Op::Extract, n, a, 0, 0, 0);
                    let y = self.mk(Op::Extract, n, b, 0, 0, 0);
                    let r = self.mk(op, n, x, y, 0, 0);
                    return self.mk(Op::ZExt, w, r, 0, 0, 0);
                }
            }
        }
        if w == 64 && matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FAbs | Op::FRound) && !(op == Op::FMul && bc && matches!(na.op, Op::SToF) && { let f = nb.v as u64; f & ((1 << 52) - 1) == 0 && f64::from_bits(f) > 0.0 && f64::from_bits(f) < 1.0 }) {
            if let Some(e) = self.fix_op(op, a, b, k) { return e; }
        }
        if matches!(op, Op::FToS | Op::FToU) && aw == 64 {
            // conversion truncates: of x * 2^-k, or of a quotient by a positive integer
            let (num, d) = if na.op == Op::FDiv && self.is_const(na.b) { (na.a, f64::from_bits(self.val(na.b) as u64)) } else { (a, 1.0) };
            if let Some((x, i)) = self.fix(num) {
                let r = self.srng(x, 12);
                if r.0 >= 0 && d >= 1.0 && d.fract() == 0.0 && d < 1e9 && (i > 0 || d > 1.0) {
                    let dd = self.cst(64, (d as u128) << i);
                    let q = self.mk(Op::UDiv, 64, x, dd, 0, 0);
                    let top = r.1 / ((d as i128) << i);
                    if top < 1i128 << (w.min(64) - (op == Op::FToS) as u32) {
                        return if w == 64 { q } else if w < 64 { self.mk(Op::Extract, w, q, 0, 0, 0) } else { self.mk(Op::ZExt, w, q, 0, 0, 0) };
                    }
                }
            }
        }
        if matches!(op, Op::FEq | Op::FLt | Op::FLe) && aw == 64 && (self.get(a).op == Op::FMul || self.get(b).op == Op::FMul) {
            if let (Some((x, i)), Some((y, j))) = (self.fix(a), self.fix(b)) {
                let m = i.max(j);
                let (rx, ry) = (self.srng(x, 12), self.srng(y, 12));
                if rx.0.abs().max(rx.1.abs()) >> 53 == 0 && ry.0.abs().max(ry.1.abs()) >> 53 == 0 && m <= 9 {
                    let (ci, cj) = (self.cst(64, 1 << (m - i)), self.cst(64, 1 << (m - j)));
                    let xs = self.mk(Op::Mul, 64, x, ci, 0, 0);
                    let ys = self.mk(Op::Mul, 64, y, cj, 0, 0);
                    return self.mk(match op { Op::FEq => Op::Eq, Op::FLt => Op::Slt, _ => Op::Sle }, 1, xs, ys, 0, 0);
                }
            }
        }
        match op {
            Op::FCvt => if let Some((x, sg)) = self.as_int_fp(a) {
                let p = if w == 32 { 24 } else { 53 };
                let t = self.raw(if sg { Op::SToF } else { Op::UToF }, w, x, 0, 0, 0, v);
                let _ = p;
                if self.as_int_fp(t).is_some() { return t; }
            },
            Op::FEq | Op::FLt | Op::FLe if ac != bc => if let Some((x, sg)) = self.as_int_fp(if bc { a } else { b }) {
                let f = f_of(if bc { nb.v } else { na.v }, aw);
                let xw = self.w(x);
                let lim = 2f64.powi(xw as i32 - sg as i32);
                let le = |me: &mut Self, k: f64| -> E {  // x <= k, k integral or infinite
                    if k >= lim { return me.cst(1, 1); }
                    if k < (if sg { -lim } else { 0.0 }) { return me.cst(1, 0); }
                    let kc = me.cst(xw, k as i128 as u128);
                    me.mk(if sg { Op::Sle } else { Op::Ule }, 1, x, kc, 0, 0)
                };
                if f.is_nan() { return self.cst(1, 0); }
                return match (op, bc) {
                    (Op::FEq, _) => { if f.fract() != 0.0 || f.is_infinite() || f >= lim || f < (if sg { -lim } else { 0.0 }) { return self.cst(1, 0); } let kc = self.cst(xw, f as i128 as u128); self.mk(Op::Eq, 1, x, kc, 0, 0) }
                    (Op::FLe, true) => le(self, f.floor()),
                    (Op::FLt, true) => le(self, f.ceil() - 1.0),
                    (Op::FLe, false) => { let t = le(self, f.ceil() - 1.0); self.not1(t) }   // f <= x  <=>  not (x <= ceil(f) - 1)
                    _ => { let t = le(self, f.floor()); self.not1(t) }                       // f < x  <=>  not (x <= floor(f))
                };
            },
            Op::FRound if self.integral(a) => return a,
            Op::FSub if a == b && self.integral(a) => return self.cst(w, 0),
            Op::FToS | Op::FToU => if let Some((x, sg)) = self.as_int_fp(a) {
                let xw = self.w(x);
                let r = if sg { self.srng(x, 12) } else { let r = self.rng(x); (r.0 as i128, r.1.min(1 << 100) as i128) };
                let h = if w > 100 { i128::MAX } else { (1i128 << (w - (op == Op::FToS) as u32)) - 1 };
                if op == Op::FToS && r.1 <= h && (w > 100 || r.0 >= -h - 1) || op == Op::FToU && r.0 >= 0 && r.1 <= h {
                    return if xw == w { x } else if xw > w { self.mk(Op::Extract, w, x, 0, 0, 0) } else { self.mk(if sg { Op::SExt } else { Op::ZExt }, w, x, 0, 0, 0) };
                }
            },
            _ => {}
        }
        match op {
            Op::Add | Op::Or | Op::Xor if ac && na.v == 0 => return b,
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if bc && nb.v == 0 => return a,
            Op::Add | Op::And | Op::Or | Op::Xor | Op::Mul | Op::Eq if ac => { return self.mk(op, w, b, a, 0, k); }
            Op::Mul if bc && nb.v == 1 => return a,
            Op::Mul if bc && nb.v == 0 => return self.cst(w, 0),
            Op::Mul if bc && nb.v.is_power_of_two() => { let s = nb.v.trailing_zeros(); let sh = self.cst(w, s as u128); return self.mk(Op::Shl, w, a, sh, 0, 0); }
            Op::UDiv if bc && nb.v == 1 => return a,
            Op::UDiv if bc && nb.v.is_power_of_two() => { let sh = self.cst(w, nb.v.trailing_zeros() as u128); return self.mk(Op::LShr, w, a, sh, 0, 0); }
            Op::URem if bc && nb.v.is_power_of_two() => { let mm = self.cst(w, nb.v - 1); return self.mk(Op::And, w, a, mm, 0, 0); }
            Op::Sub | Op::Xor if a == b => return self.cst(w, 0),
            Op::And | Op::Or if a == b => return a,
            Op::And if bc => {
                if nb.v == 0 { return self.cst(w, 0); }
                if nb.v == mask(w) { return a; }
                if (nb.v + 1).is_power_of_two() {
                    let n = nb.v.count_ones();
                    let x = self.mk(Op::Extract, n, a, 0, 0, 0);
                    return self.mk(Op::ZExt, w, x, 0, 0, 0);
                }
            }
            Op::Or if bc && nb.v == mask(w) => return b,
            Op::Or if w > 1 => {
                // disjoint or of zext-low and shl-high becomes concat
                if let Some(e) = self.or_concat(w, a, b).or_else(|| self.or_concat(w, b, a)) { return e; }
            }
            Op::Xor if bc && w == 1 && nb.v == 1 && na.op == Op::Xor && self.is_const(na.b) => return na.a,
            Op::Add if bc && na.op == Op::ZExt && self.get(na.a).op == Op::Add && self.is_const(self.get(na.a).b) && {
                let i = *self.get(na.a);
                self.rng(i.a).1 + self.val(i.b) <= mask(i.w as u32)
            } => {
                let i = *self.get(na.a);
                let x = self.mk(Op::ZExt, w, i.a, 0, 0, 0);
                let s = self.cst(w, self.val(i.b).wrapping_add(nb.v));
                return self.mk(Op::Add, w, x, s, 0, 0);
            }
            Op::Add if bc && na.op == Op::Add && self.is_const(na.b) => {
                let s = self.cst(w, self.val(na.b).wrapping_add(nb.v));
                return self.mk(Op::Add, w, na.a, s, 0, 0);
            }
            Op::Add if nb.op == Op::ZExt && na.op == Op::Concat && self.is_const(na.b) && self.val(na.b) == 0 && rb.1 <= mask(self.w(na.b)) => {
                let l = self.w(na.b);
                let y = self.mk(Op::Extract, l, b, 0, 0, 0);
                return self.mk(Op::Concat, w, na.a, y, 0, 0);
            }
            Op::Add if nb.op == Op::ZExt && na.op == Op::SExt && { let i = *self.get(na.a); i.op == Op::Concat && self.is_const(i.b) && self.val(i.b) == 0 && rb.1 <= mask(self.w(i.b)) } => {
                let i = *self.get(na.a);
                let l = self.w(i.b);
                let y = self.mk(Op::Extract, l, b, 0, 0, 0);
                let x = self.mk(Op::Concat, i.w as u32, i.a, y, 0, 0);
                return self.mk(Op::SExt, w, x, 0, 0, 0);
            }
            Op::Add if na.op == Op::ZExt && nb.op == Op::SExt && { let i = *self.get(nb.a); i.op == Op::Concat && self.is_const(i.b) && self.val(i.b) == 0 && ra.1 <= mask(self.w(i.b)) } => return self.mk(op, w, b, a, 0, 0),
            Op::Add if na.op == Op::ZExt && nb.op == Op::Concat && self.is_const(nb.b) && self.val(nb.b) == 0 && ra.1 <= mask(self.w(nb.b)) => return self.mk(op, w, b, a, 0, 0),
            Op::Sub if {
                let (x, y) = (*self.get(self.unz(a)), *self.get(self.unz(b)));
                x.op == Op::Concat && y.op == Op::Concat && x.w == y.w && x.a == y.a && self.w(x.b) == self.w(y.b) && self.is_const(y.b) && self.val(y.b) == 0
            } => { let lo = self.get(self.unz(a)).b; return self.mk(Op::ZExt, w, lo, 0, 0, 0); }
            // a - (a with its low bits cleared)
            Op::Sub if nb.op == Op::Concat && self.is_const(nb.b) && self.val(nb.b) == 0 && {
                let l = self.w(nb.b);
                let h = self.mk(Op::Extract, w - l, a, 0, 0, l as u128);
                h == nb.a
            } => {
                let l = self.w(nb.b);
                let y = self.mk(Op::Extract, l, a, 0, 0, 0);
                return self.mk(Op::ZExt, w, y, 0, 0, 0);
            }
            Op::FUno if aw == 64 && {
                let ok = |me: &mut Self, e: E| matches!(me.get(e).op, Op::SToF | Op::UToF) || { let n = *me.get(e); n.op == Op::Const && !f64::from_bits(n.v as u64).is_nan() } || me.fix(e).is_some();
                ok(self, a) && ok(self, b)
            } => return self.cst(1, 0),
            Op::Sub if bc => { let s = self.cst(w, (0u128).wrapping_sub(nb.v)); return self.mk(Op::Add, w, a, s, 0, 0); }
            Op::Shl if bc => {
                if nb.v >= w as u128 { return self.cst(w, 0); }
                let s = nb.v as u32;
                let x = self.mk(Op::Extract, w - s, a, 0, 0, 0);
                let z = self.cst(s, 0);
                return self.mk(Op::Concat, w, x, z, 0, 0);
            }
            Op::AShr if bc && nb.v < w as u128 && w <= 64 && na.op == Op::Add && self.is_const(na.b) && self.val(na.b) & mask(nb.v as u32) == 0 && {
                let (x, c) = (self.srng(na.a, 12), sext(self.val(na.b), w));
                x.0 + c >= -(1i128 << (w - 1)) && x.1 + c < 1i128 << (w - 1)
            } => {
                let x = self.mk(Op::AShr, w, na.a, b, 0, 0);
                let y = self.cst(w, (sext(self.val(na.b), w) >> nb.v) as u128);
                return self.mk(Op::Add, w, x, y, 0, 0);
            }
            Op::LShr if bc => {
                if nb.v >= w as u128 { return self.cst(w, 0); }
                let s = nb.v as u32;
                let x = self.mk(Op::Extract, w - s, a, 0, 0, s as u128);
                return self.mk(Op::ZExt, w, x, 0, 0, 0);
            }
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if bc && aw == 1 { return if nb.v == 1 { a } else { self.not1(a) }; }
                if bc && na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if nb.v > mask(iw) { return self.cst(1, 0); }
                    let kk = self.cst(iw, nb.v);
                    return self.mk(Op::Eq, 1, na.a, kk, 0, 0);
                }
                if bc && na.op == Op::Ite && self.is_const(na.b) && self.is_const(na.c) {
                    let (x, y) = (self.val(na.b) == nb.v, self.val(na.c) == nb.v);
                    if x && y { return self.cst(1, 1); }
                    if !x && !y { return self.cst(1, 0); }
                    return if x { na.a } else { self.not1(na.a) };
                }
                if bc && na.op == Op::Add && self.is_const(na.b) {
                    let kk = self.cst(aw, nb.v.wrapping_sub(self.val(na.b)));
                    return self.mk(Op::Eq, 1, na.a, kk, 0, 0);
                }
            }
            Op::Ult | Op::Ule if a == b => return self.cst(1, (op == Op::Ule) as u128),
            Op::Slt | Op::Sle if a == b => return self.cst(1, (op == Op::Sle) as u128),
            Op::Ult if bc && nb.v == 0 => return self.cst(1, 0),
            Op::Ult if bc && nb.v == 1 => { let z = self.cst(aw, 0); return self.mk(Op::Eq, 1, a, z, 0, 0); }
            Op::Ult | Op::Ule if na.op == Op::ZExt && (bc || (nb.op == Op::ZExt && self.w(nb.a) == self.w(na.a))) => {
                let iw = self.w(na.a);
                if !bc { return self.mk(op, 1, na.a, nb.a, 0, 0); }
                if nb.v > mask(iw) { return self.cst(1, 1); }
                let kk = self.cst(iw, nb.v);
                return self.mk(op, 1, na.a, kk, 0, 0);
            }
            Op::Ult | Op::Ule if nb.op == Op::ZExt && ac => {
                let iw = self.w(nb.a);
                if na.v > mask(iw) { return self.cst(1, 0); }
                let kk = self.cst(iw, na.v);
                return self.mk(op, 1, kk, nb.a, 0, 0);
            }
            Op::Slt | Op::Sle if na.op == Op::ZExt && bc => {
                let iw = self.w(na.a);
                let sv = sext(nb.v, aw);
                if sv < 0 { return self.cst(1, 0); }
                if sv as u128 > mask(iw) { return self.cst(1, 1); }
                let kk = self.cst(iw, nb.v);
                return self.mk(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, na.a, kk, 0, 0);
            }
            Op::Slt | Op::Sle if nb.op == Op::ZExt && ac => {
                let iw = self.w(nb.a);
                let sv = sext(na.v, aw);
                if sv < 0 { return self.cst(1, 1); }
                if sv as u128 > mask(iw) { return self.cst(1, 0); }
                let kk = self.cst(iw, na.v);
                return self.mk(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, kk, nb.a, 0, 0);
            }
            Op::Ite => {
                if ac { return if na.v != 0 { b } else { c }; }
                if b == c { return b; }
                if w == 1 && bc && nc.op == Op::Const { return if nb.v == 1 { a } else { self.not1(a) }; }
            }
            Op::Extract => {
                if w == aw { return a; }
                match na.op {
                    Op::Extract => return self.mk(Op::Extract, w, na.a, 0, 0, na.k + k),
                    Op::Concat => {
                        let lw = self.w(na.b);
                        if k as u32 + w <= lw { return self.mk(Op::Extract, w, na.b, 0, 0, k); }
                        if k as u32 >= lw { return self.mk(Op::Extract, w, na.a, 0, 0, k - lw as u128); }
                        let lo = self.mk(Op::Extract, lw - k as u32, na.b, 0, 0, k);
                        let hi = self.mk(Op::Extract, w - (lw - k as u32), na.a, 0, 0, 0);
                        return self.mk(Op::Concat, w, hi, lo, 0, 0);
                    }
                    Op::ZExt => {
                        let iw = self.w(na.a);
                        if k as u32 >= iw { return self.cst(w, 0); }
                        if k as u32 + w <= iw { return self.mk(Op::Extract, w, na.a, 0, 0, k); }
                        let x = self.mk(Op::Extract, iw - k as u32, na.a, 0, 0, k);
                        return self.mk(Op::ZExt, w, x, 0, 0, 0);
                    }
                    Op::SExt if k == 0 && w > self.w(na.a) => return self.mk(Op::SExt, w, na.a, 0, 0, 0),
                    Op::SExt if k as u32 + w <= self.w(na.a) => return self.mk(Op::Extract, w, na.a, 0, 0, k),
                    Op::Ite if self.is_const(na.b) && self.is_const(na.c) => {
                        let x = self.cst(w, self.val(na.b) >> k);
                        let y = self.cst(w, self.val(na.c) >> k);
                        return self.mk(Op::Ite, w, na.a, x, y, 0);
                    }
                    Op::And | Op::Or | Op::Xor if self.is_const(na.b) => {
                        let x = self.mk(Op::Extract, w, na.a, 0, 0, k);
                        let y = self.mk(Op::Extract, w, na.b, 0, 0, k);
                        return self.mk(na.op, w, x, y, 0, 0);
                    }
                    // the low k bits of the constant are zero: no carry into the extracted part
                    Op::Add if k > 0 && self.is_const(na.b) && self.val(na.b) & mask(k as u32) == 0 && !self.nopush => {
                        let x = self.mk(Op::Extract, w, na.a, 0, 0, k);
                        let y = self.cst(w, self.val(na.b) >> k);
                        return self.mk(Op::Add, w, x, y, 0, 0);
                    }
                    Op::Add | Op::Sub | Op::Mul if k == 0 && w < aw && !self.nopush => {
                        let x = self.mk(Op::Extract, w, na.a, 0, 0, 0);
                        let y = self.mk(Op::Extract, w, na.b, 0, 0, 0);
                        return self.mk(na.op, w, x, y, 0, 0);
                    }
                    _ => {}
                }
            }
            Op::Concat => {
                if ac && na.v == 0 { return self.mk(Op::ZExt, w, b, 0, 0, 0); }
                if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + bw as u128 {
                    return self.mk(Op::Extract, w, na.a, 0, 0, nb.k);
                }
                if na.op == Op::SExt && !self.nopush {
                    let x = { let ww = self.w(na.a) + bw; self.mk(Op::Concat, ww, na.a, b, 0, 0) };
                    return self.mk(Op::SExt, w, x, 0, 0, 0);
                }
                if ac && nb.op == Op::Add && w <= 64 && self.is_const(nb.b) && !self.nopush && self.rng(nb.a).1 + self.val(nb.b) <= mask(bw) {
                    let x = self.mk(Op::ZExt, w, nb.a, 0, 0, 0);
                    let k = self.cst(w, na.v << bw | self.val(nb.b));
                    return self.mk(Op::Add, w, x, k, 0, 0);
                }
                if na.op == Op::Extract && na.k == bw as u128 && nb.op != Op::Extract && !self.nopush {
                    let t = self.mk(Op::Extract, bw, na.a, 0, 0, 0);
                    if t == b { return self.mk(Op::Extract, w, na.a, 0, 0, 0); }
                }
                if na.op == Op::ZExt {
                    let x = { let ww = self.w(na.a) + bw; self.mk(Op::Concat, ww, na.a, b, 0, 0) };
                    return self.mk(Op::ZExt, w, x, 0, 0, 0);
                }
                // Concat(Concat(x, ext1), ext2) merge
                if na.op == Op::Concat && nb.op == Op::Extract {
                    let l = *self.get(na.b);
                    if l.op == Op::Extract && l.a == nb.a && l.k == nb.k + bw as u128 {
                        let m = self.mk(Op::Extract, l.w as u32 + bw, nb.a, 0, 0, nb.k);
                        return self.mk(Op::Concat, w, na.a, m, 0, 0);
                    }
                }
                if bc && na.op == Op::Concat && self.is_const(na.b) {
                    let l = *self.get(na.b);
                    let m = self.cst(l.w as u32 + bw, (l.v << bw) | nb.v);
                    return self.mk(Op::Concat, w, na.a, m, 0, 0);
                }
            }
            Op::ZExt => {
                if w == aw { return a; }
                if na.op == Op::ZExt { return self.mk(Op::ZExt, w, na.a, 0, 0, 0); }
            }
            Op::SExt => {
                if w == aw { return a; }
                if na.op == Op::ZExt { return self.mk(Op::ZExt, w, na.a, 0, 0, 0); }
            }
            Op::FAbs if na.op == Op::FAbs => return a,
            Op::FNeg if na.op == Op::FNeg => return na.a,
            _ => {}
        }
        self.raw(op, w, a, b, c, k, v)
    }

    fn or_concat(&mut self, w: u32, hi: E, lo: E) -> Option<E> {
        // hi = Concat(x, 0_s) or ZExt(Concat(x,0_s)), lo = ZExt(y) with width(y) <= s
        let (nh, nl) = (*self.get(hi), *self.get(lo));
        if nl.op == Op::Const {
            let cat = if nh.op == Op::ZExt { *self.get(nh.a) } else { nh };
            if cat.op != Op::Concat { return None; }
            let z = *self.get(cat.b);
            if z.op != Op::Const || z.v != 0 || nl.v > mask(z.w as u32) { return None; }
            let l = self.cst(z.w as u32, nl.v);
            let cat2 = self.mk(Op::Concat, cat.w as u32, cat.a, l, 0, 0);
            return Some(self.mk(Op::ZExt, w, cat2, 0, 0, 0));
        }
        if nl.op != Op::ZExt { return None; }
        let yw = self.w(nl.a);
        let cat = if nh.op == Op::ZExt { *self.get(nh.a) } else { nh };
        if cat.op != Op::Concat { return None; }
        let z = *self.get(cat.b);
        if z.op != Op::Const || z.v != 0 || (z.w as u32) < yw { return None; }
        let l = self.mk(Op::ZExt, z.w as u32, nl.a, 0, 0, 0);
        let cw = cat.w as u32;
        let cat2 = self.mk(Op::Concat, cw, cat.a, l, 0, 0);
        Some(self.mk(Op::ZExt, w, cat2, 0, 0, 0))
    }
}
