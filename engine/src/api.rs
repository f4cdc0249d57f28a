//! C interface used from Python through ctypes.
use crate::expr::*;
use crate::interp::*;
use crate::solver::*;
use std::ffi::{c_char, CStr, CString};

pub static mut READY: bool = false;
static mut SOLVER: *mut Solver = std::ptr::null_mut();
static mut LAST: Option<CString> = None;

fn st(p: *const c_char) -> &'static str { unsafe { CStr::from_ptr(p) }.to_str().unwrap_or("") }
fn ret_str(s: String) -> *const c_char { unsafe { LAST = Some(CString::new(s.replace('\0', " ")).unwrap()); LAST.as_ref().unwrap().as_ptr() } }

#[no_mangle]
pub extern "C" fn sx_load(path: *const c_char) {
    let g = eng();
    unsafe { if !READY { std::panic::set_hook(Box::new(|i| crate::die(&format!("engine panic {}", i)))); } READY = true; }
    let p = st(path);
    let f = std::fs::File::open(p).unwrap_or_else(|e| crate::die(&format!("open {}: {}", p, e)));
    use std::os::fd::AsRawFd;
    let n = f.metadata().unwrap().len() as usize;
    extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
    let m = unsafe { mmap(std::ptr::null_mut(), n + 4096, 1, 1, f.as_raw_fd(), 0) };
    if m as isize == -1 { crate::die("mmap ll"); }
    std::mem::forget(f);
    let t: &'static [u8] = unsafe { std::slice::from_raw_parts(m, n) };
    g.load_module(t);
}
#[no_mangle]
pub extern "C" fn sx_finish_load() { eng().finish_load(); }
#[no_mangle]
pub extern "C" fn sx_call0(name: *const c_char) -> u64 {
    let g = eng();
    let n: &'static [u8] = unsafe { CStr::from_ptr(name) }.to_bytes();
    match g.gsyms.get(n).copied() {
        Some(crate::ir::Sym::Func(f)) => { let r = g.call(f, &[]); if r.is_empty() { 0 } else { r[0].c as u64 } }
        _ => crate::die("no such function"),
    }
}
#[no_mangle]
pub extern "C" fn sx_capi() { crate::hooks::load_capi(eng()); }
#[no_mangle]
pub extern "C" fn sx_nfuncs() -> u64 { let g = eng(); g.funcs.iter().filter(|f| f.body.is_some()).count() as u64 }
#[no_mangle]
pub extern "C" fn sx_icount() -> u64 { eng().icount }

/// parse the bodies of every function reachable by direct calls from those already run
#[no_mangle]
pub extern "C" fn sx_reset() {
    let g = eng();
    unsafe {
        let s = &mut *g.shm;
        s.n_nodes = 1; s.n_events = 0; s.n_vars = 0; s.n_tab = 0; s.n_tabs = 0; s.out_len = 0; s.status = 0; s.icount = 0; s.nconc = 0; s.imprecise = 0;
    }
    g.inputs.clear();
}
#[no_mangle]
pub extern "C" fn sx_input(name: *const c_char, lo: u64, hi: u64) { eng().inputs.insert(st(name).to_string(), (hi as u128) << 64 | lo as u128); }
#[no_mangle]
pub extern "C" fn sx_begin(ilimit: u64) { let g = eng(); g.path = true; g.icount = 0; g.ilimit = ilimit; crate::hooks::load_capi(g); }
#[no_mangle]
pub extern "C" fn sx_var(name: *const c_char, w: u32, lo: u64, hi: u64) -> E {
    let g = eng();
    let n = st(name);
    let v = *g.inputs.get(n).unwrap_or(&((hi as u128) << 64 | lo as u128)) & mask(w);
    unsafe {
        let s = &mut *g.shm;
        let i = s.n_vars as usize;
        if i >= MAXVAR || n.len() > 47 { crate::die("too many variables / name too long"); }
        let vi = &mut s.vars[i];
        vi.name = [0; 48];
        vi.name[..n.len()].copy_from_slice(n.as_bytes());
        vi.w = w;
        vi.v = v;
        s.n_vars += 1;
        g.arena.var(i as u32, w, v)
    }
}
#[no_mangle]
pub extern "C" fn sx_cst(w: u32, lo: u64, hi: u64) -> E { eng().arena.cst(w, (hi as u128) << 64 | lo as u128) }
#[no_mangle]
pub extern "C" fn sx_mk(op: u32, w: u32, a: E, b: E, c: E, k: u64) -> E { eng().arena.mk(OPS[op as usize], w, a, b, c, k as u128) }
#[no_mangle]
pub extern "C" fn sx_val(e: E, out: *mut u64) { let v = eng().arena.val(e); unsafe { *out = v as u64; *out.add(1) = (v >> 64) as u64; } }
#[no_mangle]
pub extern "C" fn sx_w(e: E) -> u32 { eng().arena.w(e) }
#[no_mangle]
pub extern "C" fn sx_isconst(e: E) -> i32 { eng().arena.is_const(e) as i32 }
#[no_mangle]
pub extern "C" fn sx_branch(e: E, kind: u32) -> i32 {
    let g = eng();
    let v = g.mkv(e);
    g.branch(v, kind as u8, "harness") as i32
}
#[no_mangle]
pub extern "C" fn sx_conc(e: E) { let g = eng(); let v = g.mkv(e); let w = g.arena.w(e); g.conc(v, w, "harness"); }
#[no_mangle]
pub extern "C" fn sx_int_obj(e: E) -> u64 { eng().reg_int(e) }
#[no_mangle]
pub extern "C" fn sx_int_expr(o: u64) -> E { eng().int_expr(o).unwrap_or(0) }
#[no_mangle]
pub extern "C" fn sx_float_obj(e: E) -> u64 {
    let g = eng();
    let f = g.fnaddr("PyFloat_FromDouble");
    let v = g.mkv(e);
    let (o, _, _) = crate::ffi::ncall(f, &[true], &[v.c as u64]);
    g.leak(o);
    g.store(o + 16, v, 64);
    o
}
/// kind 0 str, 1 bytes, 2 raw buffer address
#[no_mangle]
pub extern "C" fn sx_buf_obj(kind: u32, n: u64, es: *const E, bytes: *const u8) -> u64 {
    let g = eng();
    let p = g.bump(n + 8, 16);
    for i in 0..n { unsafe { let e = *es.add(i as usize); let v = if e != 0 { let x = g.mkv(e); x } else { cv(*bytes.add(i as usize) as u128) }; g.store(p + i, v, 8); } }
    match kind {
        0 => g.new_str(p, n),
        1 => {
            if n == 0 { return g.py("PyBytes_FromStringAndSize", &[p, 0]); }
            let o = g.py("PyBytes_FromStringAndSize", &[0, n]);
            g.leak(o);
            g.copy_mem(o + 32, p, n);
            o
        }
        _ => p,
    }
}
#[no_mangle]
pub extern "C" fn sx_mem(a: u64, n: u32) -> E { let g = eng(); let v = g.load(a, 8 * n); v.e }
#[no_mangle]
pub extern "C" fn sx_store(a: u64, n: u32, e: E) { let g = eng(); let v = g.mkv(e); g.store(a, v, 8 * n); g.hk.nsym += 1; }
#[no_mangle]
pub extern "C" fn sx_content(o: u64, out: *mut u64) -> i32 { match eng().content(o) { Some((a, n)) => unsafe { *out = a; *out.add(1) = n; 1 }, None => 0 } }
#[no_mangle]
pub extern "C" fn sx_conc_obj(o: u64) { eng().conc_obj(o, "harness object"); }
#[no_mangle]
pub extern "C" fn sx_end(status: u32, text: *const c_char) { let t = st(text); eng().stop(status, t); }
#[no_mangle]
pub extern "C" fn sx_shm_status(out: *mut u64) {
    let s = unsafe { &*eng().shm };
    unsafe { *out = s.status as u64; *out.add(1) = s.n_events as u64; *out.add(2) = s.n_nodes as u64; *out.add(3) = s.icount; *out.add(4) = s.nconc; *out.add(5) = s.n_vars as u64; *out.add(6) = s.out_len as u64; }
}
#[no_mangle]
pub extern "C" fn sx_shm_out() -> *const c_char { let s = unsafe { &*eng().shm }; let t = String::from_utf8_lossy(&s.out[..s.out_len as usize]).to_string(); ret_str(t) }
#[no_mangle]
pub extern "C" fn sx_shm_vars() -> *const c_char {
    let s = unsafe { &*eng().shm };
    let mut o = String::from("{");
    for i in 0..s.n_vars { if i > 0 { o.push(','); } o += &format!("\"{}\":{}", String::from_utf8_lossy(&Solver::var_name(i)), s.vars[i as usize].v); }
    o.push('}');
    ret_str(o)
}
#[no_mangle]
pub extern "C" fn sx_ran(level: u8) -> *const c_char {
    let g = eng();
    let s = unsafe { &*g.shm };
    let mut o = String::new();
    for i in 0..g.funcs.len().min(MAXFN) { if s.ran[i] == level { o += &String::from_utf8_lossy(g.funcs[i].name); o.push('\n'); } }
    ret_str(o)
}
#[no_mangle]
pub extern "C" fn sx_events(max: u32) -> *const c_char {
    let g = eng();
    let s = unsafe { &*g.shm };
    let mut o = String::new();
    for i in 0..s.n_events.min(max) {
        let e = unsafe { &*g.events.add(i as usize) };
        o += &format!("{} kind={} taken={} {} loc={:x} {}\n", i, e.kind, e.taken, e.why, e.loc, show(e.cond, std::env::var("SYMEX_DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(6)));
    }
    ret_str(o)
}
pub fn show(e: E, d: u32) -> String {
    if e == 0 { return "-".into(); }
    let n = *eng().arena.get(e);
    match n.op {
        Op::Const => format!("{:#x}", n.v),
        Op::Var => format!("{}", String::from_utf8_lossy(&Solver::var_name(n.a))),
        _ if d == 0 => "..".into(),
        _ => {
            let mut s = format!("({:?}{}", n.op, n.w);
            if n.k != 0 || n.op == Op::Extract { s += &format!("[{}]", n.k); }
            for c in [n.a, n.b, n.c] { if c != 0 { s.push(' '); s += &show(c, d - 1); } }
            s + ")"
        }
    }
}
#[no_mangle]
pub extern "C" fn sx_solver(path: *const c_char, timeout: u32) { unsafe { SOLVER = Box::leak(Box::new(Solver::new(st(path), timeout))); } }
/// expand the finished path; JSON result
#[no_mangle]
pub extern "C" fn sx_expand(bound: u32, nexcl: u32, excl: *const u64) -> *const c_char {
    let s = unsafe { &mut *SOLVER };
    let ex: Vec<u128> = (0..nexcl as usize).map(|i| unsafe { (*excl.add(2 * i + 1) as u128) << 64 | *excl.add(2 * i) as u128 }).collect();
    let (items, unk) = s.expand(bound, &ex);
    let mut o = format!("{{\"unknown\":{},\"items\":[", unk);
    for (i, it) in items.iter().enumerate() {
        if i > 0 { o.push(','); }
        o += "{\"in\":{";
        for (j, (n, v)) in it.inputs.iter().enumerate() { if j > 0 { o.push(','); } o += &format!("\"{}\":{}", n, v); }
        o += &format!("}},\"bound\":{},\"kind\":{},\"hash\":{},\"excl\":[", it.bound, it.kind, it.hash);
        for (j, v) in it.excl.iter().enumerate() { if j > 0 { o.push(','); } o += &format!("{}", v); }
        o += "]}";
    }
    o += "]}";
    ret_str(o)
}
#[no_mangle]
pub extern "C" fn sx_prefix_hash(bound: u32) -> u64 { Solver::prefix_hash(bound) }
#[no_mangle]
pub extern "C" fn sx_solver_stats(out: *mut f64) { let s = unsafe { &*SOLVER }; unsafe { *out = s.queries as f64; *out.add(1) = s.sat as f64; *out.add(2) = s.unsat as f64; *out.add(3) = s.unknown as f64; *out.add(4) = s.cached as f64; *out.add(5) = s.time; *out.add(6) = s.slowest; } }

#[no_mangle]
pub extern "C" fn sx_quiet(q: i32) { eng().hk.quiet = q != 0; }
/// names of native functions that met symbolic data (reported by the path's process)
#[no_mangle]
pub extern "C" fn sx_silent() -> *const c_char {
    let g = eng();
    let mut o = String::from("{");
    let mut v: Vec<(&String, &u64)> = g.hk.silent.iter().chain(g.nat_sym.iter()).collect();
    v.sort();
    for (i, (n, c)) in v.iter().enumerate() { if i > 0 { o.push(','); } o += &format!("\"{}\":{}", n, c); }
    o.push('}');
    ret_str(o)
}
/// give this process its own shared regions (called by a worker right after it was forked)
#[no_mangle]
pub extern "C" fn sx_private() {
    let g = eng();
    crate::ffi::remap(g.shm as u64, std::mem::size_of::<Shm>());
    crate::ffi::remap(g.arena.nodes as u64, MAXNODES as usize * std::mem::size_of::<Node>());
    crate::ffi::remap(g.events as u64, MAXEV * std::mem::size_of::<Event>());
    crate::ffi::remap(g.tabmem as u64, TABCAP * 16);
    unsafe { (*g.shm).n_nodes = 1; }
}
/// translate, in this process, the functions the last path had to translate itself
#[no_mangle]
pub extern "C" fn sx_warm() -> u32 {
    let g = eng();
    let s = unsafe { &*g.shm };
    let mut n = 0;
    for i in 0..g.funcs.len().min(MAXFN) { if s.ran[i] != 0 && g.funcs[i].body.is_none() { g.body(i as u32); n += 1; } }
    n
}
