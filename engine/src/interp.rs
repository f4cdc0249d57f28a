//! The interpreter: executes the IR of the extension on concrete native memory while
//! carrying a symbolic expression beside every value that depends on a symbolic input.
use crate::expr::*;
use crate::ffi;
use crate::ir::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct V { pub c: u128, pub e: E }
#[inline]
pub fn cv(c: u128) -> V { V { c, e: 0 } }

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Event { pub cond: E, pub aux: E, pub kind: u8, pub taken: u8, pub pad: u16, pub loc: u32, pub why: &'static str }
pub const K_BRANCH: u8 = 0;
pub const K_CONC: u8 = 1;
pub const K_CHECK: u8 = 2;
pub const K_ASSUME: u8 = 3;
pub const K_BOUND: u8 = 4;

pub const MAXNODES: u32 = 3 << 20;
pub const MAXEV: usize = 1 << 17;
pub const MAXVAR: usize = 512;
pub const TABCAP: usize = 4 << 20;
pub const OUTCAP: usize = 1 << 20;
pub const MAXFN: usize = 1 << 17;

#[repr(C)]
pub struct VarInfo { pub name: [u8; 48], pub w: u32, pub used: u32, pub v: u128 }

#[repr(C)]
pub struct Shm {
    pub n_nodes: u32,
    pub n_events: u32,
    pub n_vars: u32,
    pub n_tab: u32, // words used in tab heap
    pub n_tabs: u32,
    pub out_len: u32,
    pub status: u32, // 0 running/died, 1 finished, 2 panic, 3 limit/imprecise-die, 4 discarded
    pub icount: u64,
    pub nconc: u64,
    pub imprecise: u64,
    pub tab_off: [u32; 8192],
    pub tab_len: [u32; 8192],
    pub vars: [VarInfo; MAXVAR],
    pub ran: [u8; MAXFN],
    pub out: [u8; OUTCAP],
}

pub struct NativeFn { pub name: String, pub addr: u64, pub hook: u32 }

pub struct Engine {
    pub types: Types,
    pub modules: Vec<Module>,
    pub gsyms: HashMap<Str, Sym>,
    pub funcs: Vec<&'static mut Func>,
    pub dummies: HashMap<Str, u64>,
    pub aliases: Vec<(u32, Str, Str, bool)>,
    pub pending: Vec<(u32, usize, u64)>,
    pub init_ty: HashMap<u64, (Ty, u32)>,
    pub gobjs: Vec<(u64, u64, bool)>,
    pub newly: Vec<u32>,
    pub natives: Vec<NativeFn>,
    pub nat_idx: HashMap<Str, u32>,
    pub nat_addr: HashMap<u64, u32>,
    pub stubs: ffi::Stubs,
    gmem: *mut u8,
    gtop: usize,
    gcap: usize,
    pub arena: Arena,
    pub shm: *mut Shm,
    pub events: *mut Event,
    pub tabmem: *mut u128,
    pub regs: *mut V,
    pub rtop: usize,
    pub ret: Vec<V>,
    pub sp: u64,
    pub sbase: u64,
    pub heap: u64,
    pub heap_end: u64,
    pub shadow: HashMap<u64, Box<[u64; 64]>>,
    pub bloom: Vec<u64>,
    pub any_shadow: bool,
    pub path: bool,
    pub pcset: HashSet<E>,
    pub tabkey: HashMap<Vec<u128>, u32>,
    pub frames: Vec<(u32, u32)>,
    pub icount: u64,
    pub ilimit: u64,
    pub nat_sym: HashMap<String, u64>,
    pub inputs: HashMap<String, u128>,
    pub hk: crate::hooks::HookState,
    pub trace: bool,
}

static mut ENG: *mut Engine = std::ptr::null_mut();
pub fn eng() -> &'static mut Engine { unsafe { if ENG.is_null() { ENG = Box::leak(Box::new(Engine::new())); } &mut *ENG } }

const REGCAP: usize = 8 << 20;
const STACKCAP: usize = 512 << 20;
const HEAPCAP: usize = 2 << 30;

pub const INTR: &[&str] = &[
    "?", "memcpy", "memmove", "memset", "abs", "bitreverse", "bswap", "ceil", "floor", "round", "trunc", "fabs", "sqrt", "log2", "powi", "ctlz", "cttz", "ctpop", "fptosi.sat", "fptoui.sat", "fshl", "is.constant", "load.relative",
    "sadd.with.overflow", "uadd.with.overflow", "ssub.with.overflow", "usub.with.overflow", "smul.with.overflow", "umul.with.overflow", "scmp", "ucmp", "smax", "smin", "umax", "umin", "uadd.sat", "usub.sat", "threadlocal.address", "trap",
    "x86.addcarry.64", "x86.subborrow.64", "fshr", "x86.ssse3.pshuf.b", "expect", "copysign", "pow", "rint", "roundeven", "sadd.sat", "ssub.sat", "minnum", "maxnum", "fma", "log10", "log", "exp", "exp2", "vector.reduce", "ubsantrap", "x86.xgetbv", "eh.typeid.for", "launder", "strip.invariant", "returnaddress", "stacksave", "stackrestore", "bcmp",
];
pub fn intr_code(s: &str) -> u32 {
    let n = &s[5..];
    let mut best = (0, 0);
    for (i, p) in INTR.iter().enumerate() {
        if n.starts_with(p) && p.len() > best.1 && (n.len() == p.len() || n.as_bytes()[p.len()] == b'.') { best = (i as u32, p.len()); }
    }
    best.0
}

impl Engine {
    pub fn new() -> Self {
        let shm = ffi::map(std::mem::size_of::<Shm>(), 3, true) as *mut Shm;
        let nodes = ffi::map(MAXNODES as usize * std::mem::size_of::<Node>(), 3, true) as *mut Node;
        let events = ffi::map(MAXEV * std::mem::size_of::<Event>(), 3, true) as *mut Event;
        let tabmem = ffi::map(TABCAP * 16, 3, true) as *mut u128;
        unsafe { (*shm).n_nodes = 1; }
        let arena = Arena { nodes, n: unsafe { &mut (*shm).n_nodes }, cap: MAXNODES, memo: HashMap::new(), tabs: vec![], nopush: false };
        let gcap = 1 << 28;
        let sbase = ffi::map(STACKCAP, 3, false) as u64;
        let heap = ffi::map(HEAPCAP, 3, false) as u64;
        Engine {
            types: Types::new(), modules: vec![], gsyms: HashMap::new(), funcs: vec![], dummies: HashMap::new(), aliases: vec![], pending: vec![], init_ty: HashMap::new(), gobjs: vec![], newly: vec![],
            natives: vec![], nat_idx: HashMap::new(), nat_addr: HashMap::new(), stubs: ffi::Stubs::new(), gmem: ffi::map(gcap, 3, false), gtop: 0, gcap, arena, shm, events, tabmem,
            regs: ffi::map(REGCAP * std::mem::size_of::<V>(), 3, false) as *mut V, rtop: 0, ret: Vec::with_capacity(64), sp: sbase, sbase, heap, heap_end: heap + HEAPCAP as u64,
            shadow: HashMap::new(), bloom: vec![0; 1 << 14], any_shadow: false, path: false, pcset: HashSet::new(), tabkey: HashMap::new(), frames: vec![], icount: 0, ilimit: u64::MAX, nat_sym: HashMap::new(), inputs: HashMap::new(),
            hk: crate::hooks::HookState::new(), trace: false,
        }
    }
    pub fn galloc(&mut self, size: u64, align: u64, cst: bool) -> u64 {
        let a = (self.gtop + align as usize - 1) / align as usize * align as usize;
        self.gtop = a + size as usize;
        if self.gtop > self.gcap { crate::die("globals"); }
        let p = self.gmem as u64 + a as u64;
        self.gobjs.push((p, size, cst));
        p
    }
    pub fn func_addr(&mut self, f: u32) -> u64 {
        if self.funcs[f as usize].addr == 0 { let a = self.stubs.add(f); self.funcs[f as usize].addr = a; }
        self.funcs[f as usize].addr
    }
    pub fn native(&mut self, n: Str) -> Option<u32> {
        if let Some(&i) = self.nat_idx.get(n) { return Some(i); }
        let name = String::from_utf8_lossy(n).to_string();
        let hook = crate::hooks::native_hook(&name);
        let addr = ffi::dlsym_bytes(n);
        if addr == 0 && hook == 0 { return None; }
        let i = self.natives.len() as u32;
        self.natives.push(NativeFn { name, addr, hook });
        self.nat_idx.insert(n, i);
        if addr != 0 { self.nat_addr.insert(addr, i); }
        Some(i)
    }

    // ---------- shadow memory ----------
    #[inline]
    fn bl(&self, g: u64) -> bool { let h = (g.wrapping_mul(0x9E3779B97F4A7C15) >> 44) as usize; self.bloom[h >> 6] & (1 << (h & 63)) != 0 }
    #[inline]
    pub fn maybe_shadow(&self, a: u64, n: u64) -> bool {
        if !self.any_shadow || n == 0 { return false; }
        let (g0, g1) = (a >> 6, (a + n - 1) >> 6);
        if self.bl(g0) { return true; }
        if g1 != g0 { let mut g = g0 + 1; while g <= g1 { if self.bl(g) { return true; } g += 1; } }
        false
    }
    #[inline]
    pub fn get_sh(&self, a: u64) -> Option<(E, u32)> {
        let c = self.shadow.get(&(a >> 6))?;
        let x = c[(a & 63) as usize];
        if x == 0 { return None; }
        let (e, k) = (x as u32, (x >> 32) as u32);
        // stale if native code has overwritten the byte
        if ((self.arena.val(e) >> (8 * k)) & 0xff) as u8 != unsafe { *(a as *const u8) } { return None; }
        Some((e, k))
    }
    pub fn set_sh(&mut self, a: u64, s: Option<(E, u32)>) {
        let g = a >> 6;
        match s {
            Some((e, k)) => {
                let h = (g.wrapping_mul(0x9E3779B97F4A7C15) >> 44) as usize;
                self.bloom[h >> 6] |= 1 << (h & 63);
                self.any_shadow = true;
                self.shadow.entry(g).or_insert_with(|| Box::new([0; 64]))[(a & 63) as usize] = e as u64 | (k as u64) << 32;
            }
            None => if let Some(c) = self.shadow.get_mut(&g) { c[(a & 63) as usize] = 0; },
        }
    }
    pub fn clear_sh(&mut self, a: u64, n: u64) {
        if !self.maybe_shadow(a, n) { return; }
        let end = a + n;
        let mut p = a;
        while p < end {
            let g = p >> 6;
            let nx = ((g + 1) << 6).min(end);
            if self.bl(g) {
                if nx - p == 64 { self.shadow.remove(&g); } else if let Some(c) = self.shadow.get_mut(&g) { for q in p..nx { c[(q & 63) as usize] = 0; } }
            }
            p = nx;
        }
    }
    #[inline]
    unsafe fn rd(a: u64, n: usize) -> u128 {
        match n {
            1 => *(a as *const u8) as u128,
            2 => (a as *const u16).read_unaligned() as u128,
            4 => (a as *const u32).read_unaligned() as u128,
            8 => (a as *const u64).read_unaligned() as u128,
            16 => (a as *const u128).read_unaligned(),
            _ => { let mut b = [0u8; 16]; std::ptr::copy_nonoverlapping(a as *const u8, b.as_mut_ptr(), n); u128::from_le_bytes(b) }
        }
    }
    /// load `w` bits (little endian) from concrete address a
    #[inline]
    pub fn load(&mut self, a: u64, w: u32) -> V {
        let n = ((w + 7) / 8) as usize;
        if a < 0x1000 { self.fault("null dereference (load)"); }
        let mut c = unsafe { Self::rd(a, n) };
        if w & 7 != 0 { c &= mask(w); }
        if self.maybe_shadow(a, n as u64) { let e = self.load_sh(a, n, w); return V { c, e }; }
        V { c, e: 0 }
    }
    fn load_sh(&mut self, a: u64, n: usize, w: u32) -> E {
        let mut any = false;
        let mut b: [(E, u32); 16] = [(0, 0); 16];
        for i in 0..n { if let Some(s) = self.get_sh(a + i as u64) { b[i] = s; any = true; } }
        if !any { return 0; }
        let mut acc: E = 0;
        let mut i = 0;
        while i < n {
            let part;
            if b[i].0 == 0 {
                let s = i;
                while i < n && b[i].0 == 0 { i += 1; }
                let v = unsafe { Self::rd(a + s as u64, i - s) };
                part = self.arena.cst(8 * (i - s) as u32, v);
            } else {
                let (e, k) = b[i];
                let s = i;
                while i < n && b[i].0 == e && b[i].1 == k + (i - s) as u32 { i += 1; }
                let ew = self.arena.w(e);
                let (lo, wd) = (8 * k, 8 * (i - s) as u32);
                part = if lo + wd > ew { let t = self.arena.mk(Op::ZExt, lo + wd, e, 0, 0, 0); self.arena.mk(Op::Extract, wd, t, 0, 0, lo as u128) } else { self.arena.mk(Op::Extract, wd, e, 0, 0, lo as u128) };
            }
            acc = if acc == 0 { part } else { let ww = self.arena.w(acc) + self.arena.w(part); self.arena.mk(Op::Concat, ww, part, acc, 0, 0) };
        }
        if w & 7 != 0 { acc = self.arena.mk(Op::Extract, w, acc, 0, 0, 0); }
        if self.arena.is_const(acc) { 0 } else { acc }
    }
    #[inline]
    pub fn store(&mut self, a: u64, v: V, w: u32) {
        let n = ((w + 7) / 8) as usize;
        if a < 0x1000 { self.fault("null dereference (store)"); }
        unsafe {
            match n {
                1 => *(a as *mut u8) = v.c as u8,
                2 => (a as *mut u16).write_unaligned(v.c as u16),
                4 => (a as *mut u32).write_unaligned(v.c as u32),
                8 => (a as *mut u64).write_unaligned(v.c as u64),
                _ => std::ptr::copy_nonoverlapping(v.c.to_le_bytes().as_ptr(), a as *mut u8, n),
            }
        }
        if v.e != 0 && !self.arena.is_const(v.e) {
            let e = if w & 7 != 0 { self.arena.mk(Op::ZExt, 8 * n as u32, v.e, 0, 0, 0) } else { v.e };
            for i in 0..n {
                // keep constant bytes concrete
                self.arena.nopush = true;
                let b = self.arena.mk(Op::Extract, 8, e, 0, 0, 8 * i as u128);
                self.arena.nopush = false;
                if self.arena.is_const(b) { self.set_sh(a + i as u64, None); } else { self.set_sh(a + i as u64, Some((e, i as u32))); }
            }
        } else if self.maybe_shadow(a, n as u64) { for i in 0..n as u64 { self.set_sh(a + i, None); } }
    }
    pub fn copy_mem(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 { return; }
        if self.maybe_shadow(s, n) {
            let v: Vec<Option<(E, u32)>> = (0..n).map(|i| self.get_sh(s + i)).collect();
            unsafe { std::ptr::copy(s as *const u8, d as *mut u8, n as usize); }
            self.clear_sh(d, n);
            for (i, x) in v.into_iter().enumerate() { if x.is_some() { self.set_sh(d + i as u64, x); } }
        } else {
            unsafe { std::ptr::copy(s as *const u8, d as *mut u8, n as usize); }
            self.clear_sh(d, n);
        }
    }

    // ---------- expressions / events ----------
    #[inline]
    pub fn ex(&mut self, v: V, w: u32) -> E { if v.e != 0 { v.e } else { self.arena.cst(w, v.c) } }
    pub fn mkv(&mut self, e: E) -> V { let c = self.arena.val(e); if self.arena.is_const(e) { V { c, e: 0 } } else { V { c, e } } }
    pub fn op2(&mut self, op: Op, w: u32, a: V, b: V, ow: u32) -> V {
        if a.e == 0 && b.e == 0 { return cv(eval(op, w, ow, ow, 0, a.c, b.c, 0)); }
        let (x, y) = (self.ex(a, ow), self.ex(b, ow));
        let e = self.arena.mk(op, w, x, y, 0, 0);
        self.mkv(e)
    }
    pub fn op1(&mut self, op: Op, w: u32, a: V, aw: u32, k: u128) -> V {
        if a.e == 0 { return cv(eval(op, w, aw, aw, k, a.c, 0, 0)); }
        let e = self.arena.mk(op, w, a.e, 0, 0, k);
        self.mkv(e)
    }
    pub fn ite(&mut self, c: V, a: V, b: V, w: u32) -> V {
        if c.e == 0 { return if c.c != 0 { a } else { b }; }
        if a == b { return a; }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.arena.mk(Op::Ite, w, c.e, x, y, 0);
        self.mkv(e)
    }
    pub fn not(&mut self, a: V) -> V { if a.e == 0 { cv(a.c ^ 1) } else { let e = self.arena.not1(a.e); self.mkv(e) } }
    pub fn concat(&mut self, hi: V, hw: u32, lo: V, lw: u32) -> V {
        if hi.e == 0 && lo.e == 0 { return cv((hi.c << lw) | lo.c); }
        let (x, y) = (self.ex(hi, hw), self.ex(lo, lw));
        let e = self.arena.mk(Op::Concat, hw + lw, x, y, 0, 0);
        self.mkv(e)
    }
    pub fn event(&mut self, kind: u8, cond: E, aux: E, taken: bool, why: &'static str) {
        if !self.path { crate::die("symbolic event outside a path"); }
        if self.hk.quiet { return; }
        unsafe {
            let n = (*self.shm).n_events as usize;
            if n >= MAXEV { self.stop(3, "LIMIT events"); }
            let loc = match self.frames.last() { Some(f) => f.0.wrapping_mul(40503) ^ f.1, None => 0 };
            *self.events.add(n) = Event { cond, aux, kind, taken: taken as u8, pad: 0, loc, why };
            (*self.shm).n_events = n as u32 + 1;
            if let Some(f) = self.frames.last() { (*self.shm).ran[f.0 as usize] = 2; }
        }
        self.pcset.insert(cond);
        self.arena.learn(cond, true);
    }
    pub fn branch(&mut self, c: V, kind: u8, why: &'static str) -> bool {
        if c.e == 0 { return c.c & 1 != 0; }
        let v = self.arena.val(c.e) & 1 != 0;
        let r = self.arena.rng(c.e);
        if r.0 == r.1 { return v; }
        let cond = if v { c.e } else { self.arena.not1(c.e) };
        if self.arena.is_const(cond) || self.pcset.contains(&cond) { return v; }
        self.event(kind, cond, 0, v, why);
        v
    }
    pub fn conc(&mut self, v: V, w: u32, why: &'static str) -> u128 {
        if v.e == 0 || self.arena.is_const(v.e) { return v.c; }
        let k = self.arena.cst(w, v.c);
        let cond = self.arena.mk(Op::Eq, 1, v.e, k, 0, 0);
        if self.arena.is_const(cond) || self.pcset.contains(&cond) { return v.c; }
        unsafe { (*self.shm).nconc += 1; }
        self.event(K_CONC, cond, v.e, true, why);
        v.c
    }
    pub fn stop(&mut self, status: u32, msg: &str) -> ! {
        unsafe {
            let s = &mut *self.shm;
            let n = msg.len().min(OUTCAP);
            s.out[..n].copy_from_slice(&msg.as_bytes()[..n]);
            s.out_len = n as u32;
            s.status = status;
            s.icount = self.icount;
            ffi::_exit(0)
        }
    }
    pub fn backtrace(&self) -> String {
        let mut s = String::new();
        for (f, _) in self.frames.iter().rev().take(40) { s += "\n  "; s += &String::from_utf8_lossy(self.funcs[*f as usize].name); }
        s
    }
    pub fn fault(&mut self, m: &str) -> ! {
        let b = format!("{}{}", m, self.backtrace());
        if self.path { self.stop(2, &b) } else { crate::die(&b) }
    }

    /// A load at a symbolic address: a table lookup when every address the expression can
    /// take (as a function of one narrow sub-expression) lies in one constant object.
    fn load_sym(&mut self, p: V, t: Ty) -> Option<V> {
        let w = match self.types.v[t as usize].k { TK::Int(w) => w, TK::Ptr => 64, TK::F64 => 64, TK::F32 => 32, _ => return None };
        let n = ((w + 7) / 8) as u64;
        let i = match self.gobjs.binary_search_by(|o| o.0.cmp(&(p.c as u64))) { Ok(i) => i, Err(0) => return None, Err(i) => i - 1 };
        let (gb, gs, cst) = self.gobjs[i];
        if !cst || p.c as u64 + n > gb + gs { return None; }
        // find the narrow index sub-expression
        let mut x = p.e;
        let mut chain = vec![];
        loop {
            let nd = *self.arena.get(x);
            if nd.w <= 12 && !matches!(nd.op, Op::Add | Op::Mul | Op::Sub | Op::ZExt) { break; }
            match nd.op {
                Op::Add | Op::Mul | Op::Sub if self.arena.is_const(nd.b) => { chain.push(x); x = nd.a; }
                Op::Add if self.arena.is_const(nd.a) => { chain.push(x); x = nd.b; }
                Op::ZExt | Op::SExt => { chain.push(x); x = nd.a; }
                Op::Concat if self.arena.is_const(nd.b) => { chain.push(x); x = nd.a; }
                Op::Concat if self.arena.is_const(nd.a) => { chain.push(x); x = nd.b; }
                _ => break,
            }
        }
        let xw = self.arena.w(x);
        if xw > 12 {
            // general: index = addr - base, bounded by the object size
            if gs > 4096 { return None; }
            let b = self.arena.cst(64, (gb as u128).wrapping_neg() & mask(64));
            let off = self.arena.mk(Op::Add, 64, p.e, b, 0, 0);
            let lim = self.arena.cst(64, (gs - n + 1) as u128);
            let ok = self.arena.mk(Op::Ult, 1, off, lim, 0, 0);
            let okv = self.mkv(ok);
            self.branch(okv, K_BOUND, "table index");
            let iw = 64 - (gs).leading_zeros();
            let idx = self.arena.mk(Op::Extract, iw, off, 0, 0, 0);
            let tab: Vec<u128> = (0..1u64 << iw).map(|o| if o + n <= gs { unsafe { Self::rd(gb + o, n as usize) & mask(w) } } else { 0 }).collect();
            return Some(self.lookup_tab(tab, idx, w));
        }
        chain.reverse();
        let mut tab = Vec::with_capacity(1 << xw);
        let mut bad = vec![];
        for v in 0..1u128 << xw {
            let mut cur = (v, x);
            for &c in &chain {
                let nd = *self.arena.get(c);
                let (aw, bw) = (self.arena.w(nd.a), if nd.b != 0 { self.arena.w(nd.b) } else { 0 });
                let a = if nd.a == cur.1 { cur.0 } else { self.arena.val(nd.a) };
                let b = if nd.b == 0 { 0 } else if nd.b == cur.1 { cur.0 } else { self.arena.val(nd.b) };
                cur = (eval(nd.op, nd.w as u32, aw, bw, nd.k, a, b, 0), c);
            }
            let a = cur.0 as u64;
            if a >= gb && a + n <= gb + gs { tab.push(unsafe { Self::rd(a, n as usize) & mask(w) }); } else { tab.push(0); bad.push(v); }
        }
        if !bad.is_empty() {
            // in-bounds is itself a condition of the path
            let okt: Vec<u128> = (0..tab.len() as u128).map(|v| !bad.contains(&v) as u128).collect();
            let ok = self.lookup_tab(okt, x, 1);
            self.branch(ok, K_BOUND, "table index");
        }
        Some(self.lookup_tab(tab, x, w))
    }
    pub fn lookup_tab(&mut self, tab: Vec<u128>, idx: E, w: u32) -> V {
        if tab.iter().all(|x| *x == tab[0]) { return cv(tab[0]); }
        let k = match self.tabkey.get(&tab) {
            Some(&k) => k,
            None => unsafe {
                let s = &mut *self.shm;
                let k = s.n_tabs;
                if k as usize >= 8192 || s.n_tab as usize + tab.len() > TABCAP { crate::die("table heap full"); }
                s.tab_off[k as usize] = s.n_tab;
                s.tab_len[k as usize] = tab.len() as u32;
                std::ptr::copy_nonoverlapping(tab.as_ptr(), self.tabmem.add(s.n_tab as usize), tab.len());
                s.n_tab += tab.len() as u32;
                s.n_tabs += 1;
                self.tabkey.insert(tab.clone(), k);
                self.arena.tabs.push(tab);
                k
            },
        };
        let e = self.arena.mk(Op::Lookup, w, idx, 0, 0, k as u128);
        self.mkv(e)
    }

    // ---------- calls ----------
    pub fn call(&mut self, f: u32, args: &[V]) -> Vec<V> {
        let base = self.rtop;
        for (i, a) in args.iter().enumerate() { unsafe { *self.regs.add(base + i) = *a; } }
        let n = self.invoke(f, base, args.len());
        self.ret[..n].to_vec()
    }
    /// args are at regs[base..]; result in self.ret, returns the number of slots
    fn invoke(&mut self, f: u32, base: usize, nargs: usize) -> usize {
        let hk = self.funcs[f as usize].hook;
        if hk != 0 {
            let args: Vec<V> = (0..nargs).map(|i| unsafe { *self.regs.add(base + i) }).collect();
            let save = self.rtop;
            self.rtop = base + nargs;
            let r = crate::hooks::call_func(self, hk, f, &args);
            self.rtop = save;
            if let Some(r) = r {
                self.ret.clear();
                self.ret.extend_from_slice(&r);
                return r.len();
            }
        }
        self.exec(f, base)
    }

    fn native_call(&mut self, name_idx: Option<u32>, addr: u64, args: &[V], fp: &[bool], rk: u8, retw: u32) -> V {
        if let Some(i) = name_idx {
            let hk = self.natives[i as usize].hook;
            if hk != 0 {
                if let Some(r) = crate::hooks::call_native(self, hk, i, args) { return r; }
            }
        }
        self.guard_native(name_idx, addr, args);
        let mut raw: Vec<u64> = Vec::with_capacity(args.len());
        for (i, a) in args.iter().enumerate() {
            if a.e != 0 {
                if self.path {
                    let n = match name_idx { Some(i) => self.natives[i as usize].name.clone(), None => format!("{:#x}", addr) };
                    *self.nat_sym.entry(n).or_insert(0) += 1;
                }
                let w = self.arena.w(a.e);
                self.conc(*a, w, "native argument");
            }
            let _ = i;
            raw.push(a.c as u64);
        }
        let (r, _, x) = ffi::ncall(addr, fp, &raw);
        match rk { 2 => cv(x as u128), 3 => cv(x as u32 as u128), 0 => cv(0), _ => cv(r as u128 & mask(retw)) }
    }

    pub fn exec(&mut self, fi: u32, base: usize) -> usize {
        if self.funcs[fi as usize].body.is_none() { self.body(fi); }
        let body: &'static Body = unsafe { &*(&**self.funcs[fi as usize].body.as_ref().unwrap() as *const Body) };
        if base + body.nslots as usize + 256 > REGCAP { self.fault("register stack overflow"); }
        if self.path { unsafe { let r = &mut (*self.shm).ran[fi as usize]; if *r == 0 { *r = 1; } } }
        let regs = unsafe { self.regs.add(base) };
        let top = base + body.nslots as usize;
        let sp0 = self.sp;
        self.frames.push((fi, 0));
        if self.frames.len() > 60000 { self.fault("interpreter call depth"); }
        let rtop0 = self.rtop;
        self.rtop = top;
        macro_rules! g { ($o:expr) => {{ let o = $o; if o & CB != 0 { body.consts[(o & !CB) as usize] } else { unsafe { *regs.add(o as usize) } } }}; }
        macro_rules! gi { ($o:expr, $i:expr) => { g!($o + $i) }; }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; unsafe { *regs.add($d as usize) = v; } }}; }
        let mut bi: usize = 0;
        let mut ii: usize = 0;
        let mut tmp: Vec<V> = Vec::new();
        macro_rules! mark { () => {{ let n = self.frames.len() - 1; self.frames[n].1 = (bi as u32) << 12 | ii as u32; }}; }
        macro_rules! jump { ($e:expr) => {{
            let e = $e;
            let mv = &body.moves[e.moves as usize];
            if mv.len() == 1 && mv[0].2 == 1 { let v = g!(mv[0].1); set!(mv[0].0, v); }
            else if !mv.is_empty() {
                tmp.clear();
                for (_, o, n) in mv { for i in 0..*n { tmp.push(gi!(*o, i)); } }
                let mut k = 0;
                for (d, _, n) in mv { for i in 0..*n { set!(*d + i, tmp[k]); k += 1; } }
            }
            bi = e.to as usize;
            ii = 0;
            continue;
        }}; }
        loop {
            let inst = &body.blocks[bi][ii];
            self.icount += 1;
            if self.icount > self.ilimit { self.stop(3, &format!("LIMIT instructions{}", self.backtrace())); }
            match inst {
                Inst::Bin(op, d, a, b, w, n) => {
                    for i in 0..*n { let (x, y) = (gi!(*a, i), gi!(*b, i)); let r = self.bin(*op, x, y, *w); set!(*d + i, r); }
                }
                Inst::ICmp(p, d, a, b, w, n) => {
                    for i in 0..*n { let (x, y) = (gi!(*a, i), gi!(*b, i)); let r = self.icmp(*p, x, y, *w); set!(*d + i, r); }
                }
                Inst::FCmp(p, d, a, b, w) => { let (x, y) = (g!(*a), g!(*b)); let r = self.fcmp(*p, x, y, *w); set!(*d, r); }
                Inst::FNeg(d, a, w) => { let x = g!(*a); let r = self.op1(Op::FNeg, *w, x, *w, 0); set!(*d, r); }
                Inst::Select(d, c, a, b, n, vec, sk) => {
                    if *vec {
                        for i in 0..*n { let (cc, x, y) = (gi!(*c, i), gi!(*a, i), gi!(*b, i)); let w = sk.w(); let r = self.ite(cc, x, y, w); set!(*d + i, r); }
                    } else {
                        let cc = g!(*c);
                        let w = match sk { SK::P | SK::I(0) => 0, s => s.w() };
                        if cc.e != 0 && w != 0 {
                            for i in 0..*n { let (x, y) = (gi!(*a, i), gi!(*b, i)); let r = self.ite(cc, x, y, w); set!(*d + i, r); }
                        } else {
                            if cc.e != 0 { mark!(); }
                            let t = if cc.e != 0 { let same = (0..*n).all(|i| { let (x, y) = (gi!(*a, i), gi!(*b, i)); x == y }); if same { true } else { self.branch(cc, K_BRANCH, "select") } } else { cc.c & 1 != 0 };
                            let s = if t { *a } else { *b };
                            if *n == 1 { let v = g!(s); set!(*d, v); } else { tmp.clear(); for i in 0..*n { tmp.push(gi!(s, i)); } for i in 0..*n { set!(*d + i, tmp[i as usize]); } }
                        }
                    }
                }
                Inst::Cast(k, d, a, s, t, n) => {
                    for i in 0..*n { let x = gi!(*a, i); let r = self.cast(*k, x, s.w(), t.w()); set!(*d + i, r); }
                }
                Inst::BitVec(d, s, sn, sw, dn, dw) => {
                    if sn * sw > 128 { self.fault("wide vector bitcast"); }
                    let mut acc = g!(*s);
                    for i in 1..*sn { let x = gi!(*s, i); acc = self.concat(x, *sw, acc, sw * i); }
                    let tw = sn * sw;
                    for i in 0..*dn { let r = self.op1(Op::Extract, *dw, acc, tw, (dw * i) as u128); set!(*d + i, r); }
                }
                Inst::Load(d, p, t) => {
                    let pv = g!(*p);
                    let mut done = false;
                    if pv.e != 0 { mark!(); if let Some(v) = self.load_sym(pv, *t) { set!(*d, v); done = true; } else { self.conc(pv, 64, "load address"); } }
                    if !done {
                        let a = pv.c as u64;
                        match self.types.v[*t as usize].k {
                            TK::Int(w) => { let v = self.load(a, w); set!(*d, v); }
                            TK::Ptr => { let v = self.load(a, 64); set!(*d, v); }
                            TK::F64 => { let v = self.load(a, 64); set!(*d, v); }
                            TK::F32 => { let v = self.load(a, 32); set!(*d, v); }
                            TK::Vec(n, e) if self.types.sk(e).w() < 8 => {
                                let ew = self.types.sk(e).w();
                                let v = self.load(a, n * ew);
                                for i in 0..n { let r = self.op1(Op::Extract, ew, v, n * ew, (ew * i) as u128); set!(*d + i, r); }
                            }
                            _ => { let sl = self.types.slots(*t); for (i, (o, k)) in sl.iter().enumerate() { let v = self.load(a + o, k.w()); set!(*d + i as u32, v); } }
                        }
                    }
                }
                Inst::Store(t, v, p) => {
                    let pv = g!(*p);
                    if pv.e != 0 { mark!(); self.conc(pv, 64, "store address"); }
                    let a = pv.c as u64;
                    match self.types.v[*t as usize].k {
                        TK::Int(w) => self.store(a, g!(*v), w),
                        TK::Ptr | TK::F64 => self.store(a, g!(*v), 64),
                        TK::F32 => self.store(a, g!(*v), 32),
                        TK::Vec(n, e) if self.types.sk(e).w() < 8 => {
                            let ew = self.types.sk(e).w();
                            let mut acc = g!(*v);
                            for i in 1..n { let x = gi!(*v, i); acc = self.concat(x, ew, acc, ew * i); }
                            self.store(a, acc, n * ew);
                        }
                        _ => { let sl = self.types.slots(*t); for (i, (o, k)) in sl.iter().enumerate() { let x = gi!(*v, i as u32); self.store(a + o, x, k.w()); } }
                    }
                }
                Inst::Gep(d, p, off, dy) => {
                    let mut r = g!(*p);
                    if r.e == 0 && dy.iter().all(|x| g!(x.0).e == 0) {
                        let mut c = (r.c as u64).wrapping_add(*off as u64);
                        for (o, w, s) in dy { let x = g!(*o); c = c.wrapping_add((sext(x.c, *w) as i64).wrapping_mul(*s) as u64); }
                        set!(*d, cv(c as u128));
                    } else {
                        r = self.op2(Op::Add, 64, r, cv(*off as u64 as u128), 64);
                        for (o, w, s) in dy {
                            let mut x = g!(*o);
                            if *w < 64 { x = self.op1(Op::SExt, 64, x, *w, 0); } else if *w > 64 { x = self.op1(Op::Extract, 64, x, *w, 0); }
                            let m = self.op2(Op::Mul, 64, x, cv(*s as u64 as u128), 64);
                            r = self.op2(Op::Add, 64, r, m, 64);
                        }
                        set!(*d, r);
                    }
                }
                Inst::Alloca(d, sz, al, cnt) => {
                    let mut n = *sz;
                    if let Some(c) = cnt { let x = g!(*c); n *= self.conc(x, 64, "alloca size") as u64; }
                    let a = (self.sp + al - 1) / al * al;
                    self.sp = a + n;
                    if self.sp > self.sbase + STACKCAP as u64 { self.fault("stack overflow"); }
                    set!(*d, cv(a as u128));
                }
                Inst::Copy(d, s, n) => {
                    if *n == 1 { let v = g!(*s); set!(*d, v); } else { tmp.clear(); for i in 0..*n { tmp.push(gi!(*s, i)); } for i in 0..*n { set!(*d + i, tmp[i as usize]); } }
                }
                Inst::InsertVal(d, a, n, v, at, nv) => {
                    tmp.clear();
                    for i in 0..*n { tmp.push(gi!(*a, i)); }
                    for i in 0..*nv { tmp[(at + i) as usize] = gi!(*v, i); }
                    for i in 0..*n { set!(*d + i, tmp[i as usize]); }
                }
                Inst::InsEl(d, a, n, v, ix) => {
                    let x = g!(*ix);
                    let k = self.conc(x, 64, "vector index") as usize;
                    tmp.clear();
                    for i in 0..*n { tmp.push(gi!(*a, i)); }
                    tmp[k] = g!(*v);
                    for i in 0..*n { set!(*d + i, tmp[i as usize]); }
                }
                Inst::ExtEl(d, a, _, ix) => { let x = g!(*ix); let k = self.conc(x, 64, "vector index") as u32; let v = gi!(*a, k); set!(*d, v); }
                Inst::Shuffle(d, a, b, n, m) => {
                    tmp.clear();
                    for &i in m { let i = i.max(0) as u32; tmp.push(if i < *n { gi!(*a, i) } else { gi!(*b, i - *n) }); }
                    for (i, v) in tmp.iter().enumerate() { set!(*d + i as u32, *v); }
                }
                Inst::Rmw(k, d, p, v, t) => {
                    let pv = g!(*p);
                    if pv.e != 0 { mark!(); }
                    let a = self.conc(pv, 64, "atomic address") as u64;
                    let w = self.types.sk(*t).w();
                    let old = self.load(a, w);
                    let x = g!(*v);
                    let r = match k { 0 => self.op2(Op::Add, w, old, x, w), 1 => self.op2(Op::Sub, w, old, x, w), 2 => x, 3 => self.op2(Op::And, w, old, x, w), 4 => self.op2(Op::Or, w, old, x, w), 5 => self.op2(Op::Xor, w, old, x, w), 6 => { let c = self.op2(Op::Ult, 1, old, x, w); self.ite(c, x, old, w) } _ => { let c = self.op2(Op::Ult, 1, old, x, w); self.ite(c, old, x, w) } };
                    self.store(a, r, w);
                    set!(*d, old);
                }
                Inst::CmpXchg(d, p, c, v, t) => {
                    let pv = g!(*p);
                    let a = self.conc(pv, 64, "atomic address") as u64;
                    let w = self.types.sk(*t).w();
                    let old = self.load(a, w);
                    let (cc, vv) = (g!(*c), g!(*v));
                    let eq = self.icmp(Pred::Eq, old, cc, w);
                    if eq.e != 0 { mark!(); }
                    let ok = self.branch(eq, K_BRANCH, "cmpxchg");
                    if ok { self.store(a, vv, w); }
                    set!(*d, old);
                    set!(*d + 1, cv(ok as u128));
                }
                Inst::Br(e) => jump!(e),
                Inst::CondBr(c, x, y) => {
                    let cc = g!(*c);
                    let t = if cc.e != 0 { mark!(); self.branch(cc, K_BRANCH, "branch") } else { cc.c & 1 != 0 };
                    if t { jump!(x) } else { jump!(y) }
                }
                Inst::Switch(c, w, d, cases) => {
                    let x = g!(*c);
                    if x.e == 0 {
                        let mut e = d;
                        for (v, t) in cases { if *v == x.c { e = t; break; } }
                        jump!(e)
                    }
                    mark!();
                    // group the cases by target
                    let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                    for (v, t) in cases { match groups.iter_mut().find(|g| g.0 == t.to) { Some(g) => g.1.push(*v), None => groups.push((t.to, vec![*v])) } }
                    let mut target = d.to;
                    for (to, vs) in &groups {
                        if *to == d.to { continue; }
                        let c = self.in_set(x, *w, vs);
                        if self.branch(c, K_BRANCH, "switch") { target = *to; break; }
                    }
                    let e = if target == d.to { d } else { &cases.iter().find(|c| c.1.to == target).unwrap().1 };
                    jump!(e)
                }
                Inst::Ret(o, n) => {
                    self.ret.clear();
                    for i in 0..*n { let v = gi!(*o, i); self.ret.push(v); }
                    if self.sp != sp0 { let (a, l) = (sp0, self.sp - sp0); self.clear_sh(a, l); self.sp = sp0; }
                    self.frames.pop();
                    self.rtop = rtop0;
                    return *n as usize;
                }
                Inst::Call(ci) => {
                    mark!();
                    match &ci.callee {
                        Callee::Func(f) => {
                            let mut k = 0;
                            for (o, t) in &ci.args { let n = self.types.v[*t as usize].nslots; for i in 0..n { let v = gi!(*o, i); unsafe { *self.regs.add(top + k) = v; } k += 1; } }
                            let n = self.invoke(*f, top, k);
                            for i in 0..n { set!(ci.dst + i as u32, self.ret[i]); }
                        }
                        Callee::Ind(o) => {
                            let p = g!(*o);
                            let a = self.conc(p, 64, "call target") as u64;
                            if let Some(f) = self.stubs.find(a) {
                                let mut k = 0;
                                for (o, t) in &ci.args { let n = self.types.v[*t as usize].nslots; for i in 0..n { let v = gi!(*o, i); unsafe { *self.regs.add(top + k) = v; } k += 1; } }
                                let n = self.invoke(f, top, k);
                                for i in 0..n { set!(ci.dst + i as u32, self.ret[i]); }
                            } else {
                                if a < 0x10000 { self.fault("call of null pointer"); }
                                tmp.clear();
                                for (o, _) in &ci.args { tmp.push(g!(*o)); }
                                let at: Vec<Ty> = ci.args.iter().map(|x| x.1).collect();
                                let cf = ffi::cif(&self.types, &at, ci.ret);
                                let rw = if cf.ret == 1 { self.types.sk(ci.ret).w() } else { 64 };
                                let mut ni = self.nat_addr.get(&a).copied();
                                if ni.is_none() { ni = crate::hooks::addr_hook(self, a); }
                                let args = std::mem::take(&mut tmp);
                                let r = self.native_call(ni, a, &args, &cf.fp, cf.ret, rw);
                                tmp = args;
                                if cf.ret != 0 { set!(ci.dst, r); }
                            }
                        }
                        Callee::Native(ni) => {
                            tmp.clear();
                            for (o, _) in &ci.args { tmp.push(g!(*o)); }
                            let at: Vec<Ty> = ci.args.iter().map(|x| x.1).collect();
                            let cf = ffi::cif(&self.types, &at, ci.ret);
                            let rw = if cf.ret == 1 { self.types.sk(ci.ret).w() } else { 64 };
                            let addr = self.natives[*ni as usize].addr;
                            let args = std::mem::take(&mut tmp);
                            let r = self.native_call(Some(*ni), addr, &args, &cf.fp, cf.ret, rw);
                            tmp = args;
                            if cf.ret != 0 { set!(ci.dst, r); }
                        }
                        Callee::Intr(name, code) => {
                            let mut args: Vec<V> = Vec::with_capacity(4);
                            for (o, t) in &ci.args { let n = self.types.v[*t as usize].nslots; for i in 0..n { args.push(gi!(*o, i)); } }
                            let w = if ci.args.is_empty() { 64 } else { let t = ci.args[0].1; match self.types.v[t as usize].k { TK::Struct(..) | TK::Arr(..) => 0, _ => self.types.sk(t).w() } };
                            let rw = match self.types.v[ci.ret as usize].k { TK::Void | TK::Struct(..) => 0, _ => self.types.sk(ci.ret).w() };
                            let lanes = match self.types.v[ci.ret as usize].k { TK::Vec(n, _) => n, _ => 1 };
                            if lanes > 1 {
                                let per = args.len() / lanes as usize;
                                for i in 0..lanes as usize {
                                    let la: Vec<V> = (0..per).map(|j| args[j * lanes as usize + i]).collect();
                                    let r = self.intrinsic(name, *code, &la, w, rw);
                                    set!(ci.dst + i as u32, r[0]);
                                }
                            } else {
                                let r = self.intrinsic(name, *code, &args, w, rw);
                                for (i, v) in r.iter().enumerate() { set!(ci.dst + i as u32, *v); }
                            }
                        }
                        Callee::Asm(s) => {
                            let mut args: Vec<V> = vec![];
                            for (o, t) in &ci.args { let n = self.types.v[*t as usize].nslots; for i in 0..n { args.push(gi!(*o, i)); } }
                            let ns = self.types.v[ci.ret as usize].nslots;
                            if s.starts_with("div ") {
                                // outputs {rdx, rax} = {rem, quot}; inputs divisor, hi, lo
                                if args.iter().any(|a| a.e != 0) {
                                    let d = self.op1(Op::ZExt, 128, args[0], 64, 0);
                                    let n = self.concat(args[1], 64, args[2], 64);
                                    let q = self.op2(Op::UDiv, 128, n, d, 128);
                                    let r = self.op2(Op::URem, 128, n, d, 128);
                                    let q = self.op1(Op::Extract, 64, q, 128, 0);
                                    let r = self.op1(Op::Extract, 64, r, 128, 0);
                                    set!(ci.dst, r);
                                    set!(ci.dst + 1, q);
                                } else {
                                    let n = (args[1].c << 64) | args[2].c;
                                    set!(ci.dst, cv((n % args[0].c) & mask(64)));
                                    set!(ci.dst + 1, cv((n / args[0].c) & mask(64)));
                                }
                            } else { for i in 0..ns { set!(ci.dst + i, cv(0)); } }
                        }
                        Callee::Missing(n) => { let m = format!("call of unresolved symbol {}", n); self.fault(&m) }
                    }
                }
                Inst::Unreach => self.fault("unreachable executed"),
                Inst::Trap(s) => { let m = format!("trap: {}", s); self.fault(&m) }
            }
            ii += 1;
        }
    }

    pub fn in_set(&mut self, x: V, w: u32, vs: &[u128]) -> V {
        if x.e == 0 { return cv(vs.contains(&x.c) as u128); }
        let mut s: Vec<u128> = vs.to_vec();
        s.sort();
        s.dedup();
        let mut acc = cv(0);
        let mut i = 0;
        while i < s.len() {
            let mut j = i;
            while j + 1 < s.len() && s[j + 1] == s[j] + 1 { j += 1; }
            let c = if i == j { self.op2(Op::Eq, 1, x, cv(s[i]), w) } else {
                let d = self.op2(Op::Sub, w, x, cv(s[i]), w);
                self.op2(Op::Ule, 1, d, cv(s[j] - s[i]), w)
            };
            acc = self.op2(Op::Or, 1, acc, c, 1);
            i = j + 1;
        }
        acc
    }

    #[inline]
    fn bin(&mut self, op: Bin, x: V, y: V, w: u32) -> V {
        if x.e == 0 && y.e == 0 {
            let m = mask(w);
            let (a, b) = (x.c, y.c);
            return cv(match op {
                Bin::Add => a.wrapping_add(b) & m,
                Bin::Sub => a.wrapping_sub(b) & m,
                Bin::Mul => a.wrapping_mul(b) & m,
                Bin::And => a & b,
                Bin::Or => a | b,
                Bin::Xor => a ^ b,
                Bin::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
                Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
                Bin::UDiv => { if b == 0 { self.fault("division by zero"); } a / b }
                Bin::URem => { if b == 0 { self.fault("division by zero"); } a % b }
                Bin::SDiv | Bin::SRem if b == 0 => self.fault("division by zero"),
                Bin::SDiv => eval(Op::SDiv, w, w, w, 0, a, b, 0),
                Bin::SRem => eval(Op::SRem, w, w, w, 0, a, b, 0),
                Bin::AShr => eval(Op::AShr, w, w, w, 0, a, b, 0),
                Bin::FAdd => eval(Op::FAdd, w, w, w, 0, a, b, 0),
                Bin::FSub => eval(Op::FSub, w, w, w, 0, a, b, 0),
                Bin::FMul => eval(Op::FMul, w, w, w, 0, a, b, 0),
                Bin::FDiv => eval(Op::FDiv, w, w, w, 0, a, b, 0),
                Bin::FRem => if w == 32 { (f32::from_bits(a as u32) % f32::from_bits(b as u32)).to_bits() as u128 } else { (f64::from_bits(a as u64) % f64::from_bits(b as u64)).to_bits() as u128 },
            });
        }
        let o = match op {
            Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr,
            Bin::UDiv => Op::UDiv, Bin::URem => Op::URem, Bin::SDiv => Op::SDiv, Bin::SRem => Op::SRem, Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv,
            Bin::FRem => {
                if y.e == 0 && f_of(y.c, w) == 1.0 {
                    let e = self.arena.mk(Op::FRem1, w, x.e, 0, 0, 0);
                    return self.mkv(e);
                }
                // other moduli: exact only for the concrete operands
                self.conc(x, w, "frem");
                self.conc(y, w, "frem");
                return self.bin(op, cv(x.c), cv(y.c), w);
            }
        };
        self.op2(o, w, x, y, w)
    }
    #[inline]
    pub fn icmp(&mut self, p: Pred, x: V, y: V, w: u32) -> V {
        if x.e == 0 && y.e == 0 {
            let (a, b) = (x.c, y.c);
            let (sa, sb) = (sext(a, w), sext(b, w));
            return cv(match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb, Pred::Slt => sa < sb, Pred::Sle => sa <= sb } as u128);
        }
        match p {
            Pred::Eq => self.op2(Op::Eq, 1, x, y, w),
            Pred::Ne => { let r = self.op2(Op::Eq, 1, x, y, w); self.not(r) }
            Pred::Ult => self.op2(Op::Ult, 1, x, y, w),
            Pred::Ule => self.op2(Op::Ule, 1, x, y, w),
            Pred::Ugt => self.op2(Op::Ult, 1, y, x, w),
            Pred::Uge => self.op2(Op::Ule, 1, y, x, w),
            Pred::Slt => self.op2(Op::Slt, 1, x, y, w),
            Pred::Sle => self.op2(Op::Sle, 1, x, y, w),
            Pred::Sgt => self.op2(Op::Slt, 1, y, x, w),
            Pred::Sge => self.op2(Op::Sle, 1, y, x, w),
        }
    }
    pub fn fcmp(&mut self, p: u8, x: V, y: V, w: u32) -> V {
        if x.e == 0 && y.e == 0 {
            let (a, b) = (f_of(x.c, w), f_of(y.c, w));
            let bit = if a == b { 1 } else if a > b { 2 } else if a < b { 4 } else { 8 };
            return cv((p & bit != 0) as u128);
        }
        let mut acc = cv(0);
        if p & 7 == 5 || p & 7 == 4 || p & 7 == 1 || p & 7 == 2 || p & 7 == 3 {
            acc = match p & 7 { 5 => self.fop(Op::FLe, x, y, w), 4 => self.fop(Op::FLt, x, y, w), 1 => self.fop(Op::FEq, x, y, w), 2 => self.fop(Op::FLt, y, x, w), _ => self.fop(Op::FLe, y, x, w) };
            if p & 8 != 0 { let u = self.fop(Op::FUno, x, y, w); acc = self.op2(Op::Or, 1, acc, u, 1); }
        } else if p & 7 == 6 {
            let (a, b) = (self.fop(Op::FLt, x, y, w), self.fop(Op::FLt, y, x, w));
            acc = self.op2(Op::Or, 1, a, b, 1);
            if p & 8 != 0 { let e = self.fop(Op::FEq, x, y, w); acc = self.not(e); }
        } else if p & 7 == 7 {
            if p & 8 != 0 { return cv(1); }
            let u = self.fop(Op::FUno, x, y, w);
            acc = self.not(u);
        } else if p & 8 != 0 { acc = self.fop(Op::FUno, x, y, w); }
        acc
    }
    fn fop(&mut self, op: Op, x: V, y: V, w: u32) -> V { self.op2(op, 1, x, y, w) }

    pub fn cast(&mut self, k: Cast, x: V, s: u32, t: u32) -> V {
        match k {
            Cast::Trunc => self.op1(Op::Extract, t, x, s, 0),
            Cast::ZExt => if t >= s { self.op1(Op::ZExt, t, x, s, 0) } else { self.op1(Op::Extract, t, x, s, 0) },
            Cast::SExt => self.op1(Op::SExt, t, x, s, 0),
            Cast::Bit => x,
            Cast::FpTrunc | Cast::FpExt => self.op1(Op::FCvt, t, x, s, 0),
            Cast::UiToFp => self.op1(Op::UToF, t, x, s, 0),
            Cast::SiToFp => self.op1(Op::SToF, t, x, s, 0),
            Cast::FpToUi => self.op1(Op::FToU, t, x, s, 0),
            Cast::FpToSi => self.op1(Op::FToS, t, x, s, 0),
        }
    }

    fn intrinsic(&mut self, name: &str, code: u32, a: &[V], w: u32, rw: u32) -> Vec<V> {
        let sym = a.iter().any(|x| x.e != 0);
        let f = |x: V| f_of(x.c, w);
        match INTR[code as usize] {
            "memcpy" | "memmove" => {
                let n = self.conc(a[2], 64, "memcpy size") as u64;
                let (d, s) = (self.conc(a[0], 64, "memcpy dst") as u64, self.conc(a[1], 64, "memcpy src") as u64);
                self.copy_mem(d, s, n);
                vec![]
            }
            "memset" => {
                let n = self.conc(a[2], 64, "memset size") as u64;
                let d = self.conc(a[0], 64, "memset dst") as u64;
                unsafe { std::ptr::write_bytes(d as *mut u8, a[1].c as u8, n as usize); }
                self.clear_sh(d, n);
                if a[1].e != 0 { for i in 0..n { self.set_sh(d + i, Some((a[1].e, 0))); } }
                vec![]
            }
            "abs" => { let n = self.op2(Op::Slt, 1, a[0], cv(0), w); let m = self.op2(Op::Sub, w, cv(0), a[0], w); vec![self.ite(n, m, a[0], w)] }
            "bitreverse" => {
                let mut acc = self.op1(Op::Extract, 1, a[0], w, (w - 1) as u128);
                for i in 1..w { let b = self.op1(Op::Extract, 1, a[0], w, (w - 1 - i) as u128); acc = self.concat(b, 1, acc, i); }
                vec![acc]
            }
            "bswap" => {
                let n = w / 8;
                let mut acc = self.op1(Op::Extract, 8, a[0], w, (w - 8) as u128);
                for i in 1..n { let b = self.op1(Op::Extract, 8, a[0], w, (w - 8 - 8 * i) as u128); acc = self.concat(b, 8, acc, 8 * i); }
                vec![acc]
            }
            "ceil" => vec![self.op1(Op::FRound, w, a[0], w, 2)],
            "floor" => vec![self.op1(Op::FRound, w, a[0], w, 1)],
            "round" => vec![self.op1(Op::FRound, w, a[0], w, 3)],
            "trunc" => vec![self.op1(Op::FRound, w, a[0], w, 0)],
            "rint" | "roundeven" => vec![self.op1(Op::FRound, w, a[0], w, 4)],
            "fabs" => vec![self.op1(Op::FAbs, w, a[0], w, 0)],
            "sqrt" => vec![self.op1(Op::FSqrt, w, a[0], w, 0)],
            "copysign" => { let m = self.op1(Op::FAbs, w, a[0], w, 0); let s = self.op2(Op::And, w, a[1], cv(1u128 << (w - 1)), w); vec![self.op2(Op::Or, w, m, s, w)] }
            "log2" | "log10" | "log" | "exp" | "exp2" | "powi" | "pow" | "fma" => {
                for x in a { if x.e != 0 { let ww = self.arena.w(x.e); self.conc(*x, ww, "libm"); } }
                let r = match INTR[code as usize] { "log2" => f(a[0]).log2(), "log10" => f(a[0]).log10(), "log" => f(a[0]).ln(), "exp" => f(a[0]).exp(), "exp2" => f(a[0]).exp2(), "powi" => f(a[0]).powi(a[1].c as u32 as i32), "pow" => f(a[0]).powf(f(a[1])), _ => f(a[0]).mul_add(f(a[1]), f(a[2])) };
                vec![cv(f_to(r, w))]
            }
            "ctlz" => {
                if !sym { return vec![cv(if a[0].c == 0 { w } else { w - (128 - a[0].c.leading_zeros()) } as u128)]; }
                let mut acc = cv(w as u128);
                for i in 0..w { let b = self.op1(Op::Extract, 1, a[0], w, i as u128); acc = self.ite(b, cv((w - 1 - i) as u128), acc, w); }
                vec![acc]
            }
            "cttz" => {
                if !sym { return vec![cv(if a[0].c == 0 { w } else { a[0].c.trailing_zeros() } as u128)]; }
                let mut acc = cv(w as u128);
                for i in (0..w).rev() { let b = self.op1(Op::Extract, 1, a[0], w, i as u128); acc = self.ite(b, cv(i as u128), acc, w); }
                vec![acc]
            }
            "ctpop" => {
                if !sym { return vec![cv(a[0].c.count_ones() as u128)]; }
                let mut acc = cv(0);
                for i in 0..w { let b = self.op1(Op::Extract, 1, a[0], w, i as u128); let z = self.op1(Op::ZExt, w, b, 1, 0); acc = self.op2(Op::Add, w, acc, z, w); }
                vec![acc]
            }
            "fptosi.sat" => vec![self.op1(Op::FToS, rw, a[0], w, 0)],
            "fptoui.sat" => vec![self.op1(Op::FToU, rw, a[0], w, 0)],
            "fshl" | "fshr" => {
                let s0 = self.op2(Op::URem, w, a[2], cv(w as u128), w);
                let left = INTR[code as usize] == "fshl";
                let k = self.conc(s0, w, "funnel shift") as u32;
                let (h, l) = if left { (k, w - k) } else { ((w - k) % w, k) };
                if k == 0 { return vec![if left { a[0] } else { a[1] }]; }
                let (hs, ls) = if left { (h, l) } else { (w - k, k) };
                let x = self.op2(Op::Shl, w, a[0], cv(hs as u128), w);
                let y = self.op2(Op::LShr, w, a[1], cv(ls as u128), w);
                vec![self.op2(Op::Or, w, x, y, w)]
            }
            "is.constant" => vec![cv(0)],
            "expect" | "launder" | "strip.invariant" | "threadlocal.address" => vec![a[0]],
            "load.relative" => {
                let p = self.op2(Op::Add, 64, a[0], a[1], 64);
                let p = self.conc(p, 64, "load.relative") as u64;
                let v = self.load(p, 32);
                let v = self.op1(Op::SExt, 64, v, 32, 0);
                vec![self.op2(Op::Add, 64, a[0], v, 64)]
            }
            "uadd.with.overflow" => { let r = self.op2(Op::Add, w, a[0], a[1], w); let o = self.op2(Op::Ult, 1, r, a[0], w); vec![r, o] }
            "usub.with.overflow" => { let r = self.op2(Op::Sub, w, a[0], a[1], w); let o = self.op2(Op::Ult, 1, a[0], a[1], w); vec![r, o] }
            "sadd.with.overflow" => {
                let r = self.op2(Op::Add, w, a[0], a[1], w);
                let (x, y) = (self.op2(Op::Xor, w, a[0], r, w), self.op2(Op::Xor, w, a[1], r, w));
                let z = self.op2(Op::And, w, x, y, w);
                vec![r, self.op1(Op::Extract, 1, z, w, (w - 1) as u128)]
            }
            "ssub.with.overflow" => {
                let r = self.op2(Op::Sub, w, a[0], a[1], w);
                let (x, y) = (self.op2(Op::Xor, w, a[0], a[1], w), self.op2(Op::Xor, w, a[0], r, w));
                let z = self.op2(Op::And, w, x, y, w);
                vec![r, self.op1(Op::Extract, 1, z, w, (w - 1) as u128)]
            }
            "umul.with.overflow" | "smul.with.overflow" => {
                let s = INTR[code as usize] == "smul.with.overflow";
                if w > 64 {
                    let (x, y) = (self.conc(a[0], w, "wide multiply"), self.conc(a[1], w, "wide multiply"));
                    if s { let (r, o) = (x as i128).overflowing_mul(y as i128); return vec![cv(r as u128), cv(o as u128)]; }
                    let (r, o) = x.overflowing_mul(y);
                    return vec![cv(r), cv(o as u128)];
                }
                let ext = if s { Op::SExt } else { Op::ZExt };
                let (x, y) = (self.op1(ext, 2 * w, a[0], w, 0), self.op1(ext, 2 * w, a[1], w, 0));
                let p = self.op2(Op::Mul, 2 * w, x, y, 2 * w);
                let r = self.op1(Op::Extract, w, p, 2 * w, 0);
                let back = self.op1(ext, 2 * w, r, w, 0);
                let eq = self.op2(Op::Eq, 1, back, p, 2 * w);
                vec![r, self.not(eq)]
            }
            "scmp" | "ucmp" => {
                let op = if INTR[code as usize] == "scmp" { Op::Slt } else { Op::Ult };
                let (l, g) = (self.op2(op, 1, a[0], a[1], w), self.op2(op, 1, a[1], a[0], w));
                let t = self.ite(g, cv(1), cv(0), rw);
                vec![self.ite(l, cv(mask(rw)), t, rw)]
            }
            "smax" => { let c = self.op2(Op::Slt, 1, a[0], a[1], w); vec![self.ite(c, a[1], a[0], w)] }
            "smin" => { let c = self.op2(Op::Slt, 1, a[0], a[1], w); vec![self.ite(c, a[0], a[1], w)] }
            "umax" => { let c = self.op2(Op::Ult, 1, a[0], a[1], w); vec![self.ite(c, a[1], a[0], w)] }
            "umin" => { let c = self.op2(Op::Ult, 1, a[0], a[1], w); vec![self.ite(c, a[0], a[1], w)] }
            "uadd.sat" => { let r = self.op2(Op::Add, w, a[0], a[1], w); let o = self.op2(Op::Ult, 1, r, a[0], w); vec![self.ite(o, cv(mask(w)), r, w)] }
            "usub.sat" => { let r = self.op2(Op::Sub, w, a[0], a[1], w); let o = self.op2(Op::Ult, 1, a[0], a[1], w); vec![self.ite(o, cv(0), r, w)] }
            "x86.addcarry.64" | "x86.subborrow.64" => {
                let add = INTR[code as usize] == "x86.addcarry.64";
                let cin = self.op2(Op::Eq, 1, a[0], cv(0), 8);
                let cin = self.not(cin);
                let c = self.op1(Op::ZExt, 128, cin, 1, 0);
                let (x, y) = (self.op1(Op::ZExt, 128, a[1], 64, 0), self.op1(Op::ZExt, 128, a[2], 64, 0));
                let op = if add { Op::Add } else { Op::Sub };
                let t = self.op2(op, 128, x, y, 128);
                let t = self.op2(op, 128, t, c, 128);
                let r = self.op1(Op::Extract, 64, t, 128, 0);
                let o = self.op1(Op::Extract, 1, t, 128, 64);
                vec![self.op1(Op::ZExt, 8, o, 1, 0), r]
            }
            "x86.xgetbv" => vec![cv(0)],
            _ => { let m = format!("unsupported intrinsic {}", name); self.fault(&m) }
        }
    }
}
