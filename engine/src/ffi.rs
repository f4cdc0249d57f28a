//! Native side: symbol lookup, calling native functions with a dynamic signature and
//! giving interpreted functions native addresses (small machine-code stubs).
use crate::ir::{Str, Ty, TK};
use std::arch::global_asm;

extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    pub fn memmem(h: *const u8, hl: usize, n: *const u8, nl: usize) -> *const u8;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn malloc(n: usize) -> *mut u8;
    pub fn free(p: *mut u8);
    pub fn posix_memalign(p: *mut *mut u8, al: usize, n: usize) -> i32;
    pub fn _exit(c: i32) -> !;
}
#[link(name = "dl")]
extern "C" {
    fn dlopen(p: *const u8, f: i32) -> *mut u8;
}

pub fn open_lib(p: &str) -> *mut u8 { let c = format!("{}\0", p); unsafe { dlopen(c.as_ptr(), 2) } }
pub fn sym(h: *mut u8, n: &str) -> u64 { let c = format!("{}\0", n); unsafe { dlsym(h, c.as_ptr()) as u64 } }
pub fn dlsym_bytes(n: Str) -> u64 {
    let mut v = n.to_vec();
    v.push(0);
    unsafe { dlsym(std::ptr::null_mut(), v.as_ptr()) as u64 }
}
pub fn memchr(t: &[u8], p: usize, c: u8) -> usize {
    extern "C" { fn memchr(p: *const u8, c: i32, n: usize) -> *const u8; }
    if p >= t.len() { return t.len(); }
    let r = unsafe { memchr(t.as_ptr().add(p), c as i32, t.len() - p) };
    if r.is_null() { t.len() } else { r as usize - t.as_ptr() as usize }
}
/// anonymous memory; prot 3 = rw, 7 = rwx
pub fn map(n: usize, prot: i32, shared: bool) -> *mut u8 {
    let flags = 0x20 | 0x4000 | if shared { 1 } else { 2 }; // ANON|NORESERVE
    let r = unsafe { mmap(std::ptr::null_mut(), n, prot, flags, -1, 0) };
    if r as isize == -1 { crate::die("mmap failed"); }
    r
}

/// replace a shared mapping by a fresh one at the same address
pub fn remap(a: u64, n: usize) {
    let r = unsafe { mmap(a as *mut u8, n, 3, 0x20 | 0x4000 | 1 | 0x10, -1, 0) };
    if r as u64 != a { crate::die("remap failed"); }
}

global_asm!(
    ".globl symex_ncall",
    "symex_ncall:",
    "push rbp", "mov rbp, rsp", "push rbx", "push r9",
    "mov rax, rcx", "inc rax", "and rax, -2", "shl rax, 3", "sub rsp, rax",
    "xor r10, r10",
    "2:", "cmp r10, rcx", "jae 3f",
    "mov rax, [r8 + r10*8]", "mov [rsp + r10*8], rax", "inc r10", "jmp 2b",
    "3:", "mov r11, rdi", "mov r10, rsi",
    "movsd xmm0, [rdx]", "movsd xmm1, [rdx+8]", "movsd xmm2, [rdx+16]", "movsd xmm3, [rdx+24]",
    "movsd xmm4, [rdx+32]", "movsd xmm5, [rdx+40]", "movsd xmm6, [rdx+48]", "movsd xmm7, [rdx+56]",
    "mov rdi, [r10]", "mov rsi, [r10+8]", "mov rdx, [r10+16]", "mov rcx, [r10+24]", "mov r8, [r10+32]", "mov r9, [r10+40]",
    "mov eax, 8",
    "call r11",
    "mov r9, [rbp-16]", "mov [r9], rax", "movsd [r9+8], xmm0", "mov [r9+16], rdx",
    "lea rsp, [rbp-16]", "pop r9", "pop rbx", "pop rbp", "ret",
    ".globl symex_entry",
    "symex_entry:",
    "push rbp", "mov rbp, rsp", "sub rsp, 192",
    "mov [rsp], rdi", "mov [rsp+8], rsi", "mov [rsp+16], rdx", "mov [rsp+24], rcx", "mov [rsp+32], r8", "mov [rsp+40], r9",
    "movsd [rsp+48], xmm0", "movsd [rsp+56], xmm1", "movsd [rsp+64], xmm2", "movsd [rsp+72], xmm3",
    "movsd [rsp+80], xmm4", "movsd [rsp+88], xmm5", "movsd [rsp+96], xmm6", "movsd [rsp+104], xmm7",
    "mov rdi, r11", "mov rsi, rsp", "lea rdx, [rbp+16]",
    "call symex_entry_rs",
    "mov rax, [rsp+112]", "mov rdx, [rsp+120]", "movsd xmm0, [rsp+128]",
    "leave", "ret",
);
extern "C" {
    fn symex_ncall(f: u64, gp: *const u64, xmm: *const u64, n: u64, st: *const u64, out: *mut u64);
    fn symex_entry();
}

/// signature of a native call: per slot, is it floating point; return kind
pub struct Cif { pub fp: Vec<bool>, pub ret: u8 } // ret 0 void 1 int 2 f64 3 f32

pub fn cif(types: &crate::ir::Types, args: &[Ty], ret: Ty) -> Cif {
    let mut fp = vec![];
    for &t in args { fp.push(matches!(types.v[t as usize].k, TK::F64 | TK::F32)); }
    let r = match types.v[ret as usize].k { TK::Void => 0, TK::F64 => 2, TK::F32 => 3, _ => 1 };
    Cif { fp, ret: r }
}

/// returns (rax, rdx, xmm0)
pub fn ncall(f: u64, fp: &[bool], a: &[u64]) -> (u64, u64, u64) {
    let (mut gp, mut xm) = ([0u64; 6], [0u64; 8]);
    let (mut ng, mut nx) = (0, 0);
    let mut st: Vec<u64> = Vec::new();
    for (i, &v) in a.iter().enumerate() {
        if fp[i] { if nx < 8 { xm[nx] = v; nx += 1; } else { st.push(v); } } else if ng < 6 { gp[ng] = v; ng += 1; } else { st.push(v); }
    }
    let mut out = [0u64; 3];
    unsafe { symex_ncall(f, gp.as_ptr(), xm.as_ptr(), st.len() as u64, st.as_ptr(), out.as_mut_ptr()); }
    (out[0], out[2], out[1])
}
/// convenience for integer-only native calls
pub fn nc(f: u64, a: &[u64]) -> u64 { ncall(f, &vec![false; a.len()], a).0 }

pub struct Stubs { base: *mut u8, n: usize }
const STUB: usize = 32;
const MAXSTUB: usize = 1 << 17;
impl Stubs {
    pub fn new() -> Self { Stubs { base: map(STUB * MAXSTUB, 7, false), n: 0 } }
    pub fn add(&mut self, idx: u32) -> u64 {
        if self.n >= MAXSTUB { crate::die("too many stubs"); }
        unsafe {
            let p = self.base.add(self.n * STUB);
            self.n += 1;
            let mut c: Vec<u8> = vec![0x49, 0xBB];
            c.extend_from_slice(&(idx as u64).to_le_bytes());
            c.extend_from_slice(&[0x49, 0xBA]);
            c.extend_from_slice(&(symex_entry as *const () as u64).to_le_bytes());
            c.extend_from_slice(&[0x41, 0xFF, 0xE2]);
            std::ptr::copy_nonoverlapping(c.as_ptr(), p, c.len());
            p as u64
        }
    }
    pub fn find(&self, a: u64) -> Option<u32> {
        let b = self.base as u64;
        if a < b || a >= b + (self.n * STUB) as u64 { return None; }
        if (a - b) % STUB as u64 != 0 { return None; }
        Some(unsafe { *((a + 2) as *const u32) })
    }
}

#[no_mangle]
unsafe extern "C" fn symex_entry_rs(idx: u64, save: *mut u64, stack: *const u64) {
    let e = crate::interp::eng();
    let f = idx as u32;
    let h = e.header(f);
    let (mut ng, mut nx, mut ns) = (0usize, 0usize, 0usize);
    let mut args: Vec<crate::interp::V> = Vec::with_capacity(h.params.len());
    for (_, t) in &h.params {
        let k = &e.types.v[*t as usize].k;
        let fp = matches!(k, TK::F64 | TK::F32);
        let raw = if fp { if nx < 8 { nx += 1; *save.add(6 + nx - 1) } else { ns += 1; *stack.add(ns - 1) } } else if ng < 6 { ng += 1; *save.add(ng - 1) } else { ns += 1; *stack.add(ns - 1) };
        let w = match k { TK::Int(w) => *w, TK::F32 => 32, TK::Ptr | TK::F64 => 64, _ => crate::die("aggregate parameter at native entry") };
        args.push(crate::interp::V { c: raw as u128 & crate::expr::mask(w), e: 0 });
    }
    let r = e.call(f, &args);
    let rk = e.types.v[h.ret as usize].k.clone();
    let get = |e: &mut crate::interp::Engine, v: crate::interp::V, w: u32| -> u64 { if v.e != 0 { e.conc(v, w, "return to native") as u64 } else { v.c as u64 } };
    match rk {
        TK::Void => {}
        TK::F64 => *save.add(16) = get(e, r[0], 64),
        TK::F32 => *save.add(16) = get(e, r[0], 32),
        TK::Ptr => *save.add(14) = get(e, r[0], 64),
        TK::Int(w) => *save.add(14) = get(e, r[0], w),
        TK::Struct(..) if r.len() == 2 => { *save.add(14) = get(e, r[0], 64); *save.add(15) = get(e, r[1], 64); }
        _ => crate::die("aggregate return at native entry"),
    }
}
