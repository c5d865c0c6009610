#![cfg_attr(feature = "sym", no_main)]
#![allow(clippy::all)]
mod rt;
mod common;
mod dev;
mod h_alloc;
mod h_rw;
mod h_hdr;
mod h_part;
mod h_open;
mod h_more;
mod h_mbr;
mod h_misc;
mod h_file;

macro_rules! harnesses {
    ($($name:ident => $path:path,)*) => {
        #[cfg(feature = "sym")]
        mod entries { $( #[no_mangle] pub extern "C" fn $name(case: u64) { $path(case) } )* }
        #[cfg(feature = "sym")]
        #[no_mangle]
        pub extern "C" fn main() -> i32 { $( entries::$name(0); )* 0 }
        #[cfg(not(feature = "sym"))]
        fn table(n: &str) -> Option<fn(u64)> { match n { $( stringify!($name) => Some($path), )* _ => None } }
    };
}
include!("table.rs");

/// Native replay: `vhn <harness> <case> <file>`; each line of the file is one run ("v0,v1,...").
/// Prints one line per run: OK obs.. | PRUNED | VIOLATED msgs | PANIC loc
#[cfg(not(feature = "sym"))]
fn main() {
    use rt::imp::{Pruned, Stopped, RT};
    use std::panic;
    let a: Vec<String> = std::env::args().collect();
    let f = table(&a[1]).expect("unknown harness");
    let case: u64 = a[2].parse().unwrap();
    let text = std::fs::read_to_string(&a[3]).unwrap();
    static LOC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        *LOC.lock().unwrap() = format!("{} ({})", l, m);
    }));
    for line in text.lines() {
        let nd: Vec<u64> = line.split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
        RT.with(|r| { let mut r = r.borrow_mut(); r.nd = nd; r.pos = 0; r.obs.clear(); r.viol.clear(); r.expect_panic = false; r.short = false; });
        let res = panic::catch_unwind(|| f(case));
        RT.with(|r| {
            let r = r.borrow();
            let obs = r.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let short = if r.short { " SHORT" } else { "" };
            let fin = match &res {
                Ok(()) => "OK".to_string(),
                Err(e) if e.is::<Stopped>() => "OK".to_string(),
                Err(e) if e.is::<Pruned>() => "PRUNED".to_string(),
                Err(_) if r.expect_panic => "EXPPANIC".to_string(),
                Err(_) => format!("PANIC {}", LOC.lock().unwrap().replace('\n', " ")),
            };
            if !r.viol.is_empty() { println!("VIOLATED {} | {} | obs {}{}", r.viol.join(" ;; "), fin, obs, short); }
            else { println!("{} | obs {}{}", fin, obs, short); }
        });
    }
}
