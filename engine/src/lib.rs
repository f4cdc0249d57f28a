#![allow(static_mut_refs)]
pub mod expr;
pub mod ffi;
pub mod hooks;
pub mod interp;
pub mod ir;
pub mod solver;
pub mod api;

pub fn die(m: &str) -> ! {
    eprintln!("symex: {}", m);
    let e = unsafe { api::READY };
    if e {
        let g = interp::eng();
        eprintln!("{}", g.backtrace());
        if g.path { g.stop(3, &format!("ENGINE {}", m)); }
    }
    unsafe { ffi::_exit(70) }
}
