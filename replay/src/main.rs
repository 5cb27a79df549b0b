//! Native replay: runs harnesses on recorded input tapes against the real build.
//! replay batch FILE   : one record per line "h\ttape,tape,...\tobshex obshex ..."; every one must
//!                       finish without a failed check and observe exactly the recorded values
//! replay one H TAPE   : runs one case and prints what happened
use std::cell::RefCell;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[path = "../../harness/src/lib.rs"]
mod lib;

#[derive(Default)]
struct St {
    tape: Vec<u64>,
    pos: usize,
    obs: Vec<Vec<u8>>,
    notes: Vec<Vec<u8>>,
    msg: String,
    failed: Option<String>,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }
enum Stop {
    Check(String),
    Known(String, String),
    Assume,
}
fn next() -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let v = s.tape.get(s.pos).copied().unwrap_or(0);
        s.pos += 1;
        v
    })
}
unsafe fn txt(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
extern "C-unwind" fn sym_u8(_max: u8) -> u8 {
    next() as u8
}
#[no_mangle]
extern "C-unwind" fn sym_choice(_n: u32) -> u32 {
    next() as u32
}
#[no_mangle]
extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        panic_any(Stop::Assume)
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_check(b: bool, p: *const u8, n: usize) {
    if !b {
        panic_any(Stop::Check(txt(p, n)))
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_check_known(b: bool, known: bool, p: *const u8, n: usize, q: *const u8, m: usize) {
    if !b {
        if known {
            panic_any(Stop::Known(txt(p, n), txt(q, m)))
        }
        panic_any(Stop::Check(txt(p, n)))
    }
}
#[no_mangle]
extern "C-unwind" fn sym_cover(_p: *const u8, _n: usize) {}
#[no_mangle]
unsafe extern "C-unwind" fn sym_observe(p: *const u8, n: usize) {
    let v = std::slice::from_raw_parts(p, n).to_vec();
    S.with(|s| s.borrow_mut().obs.push(v))
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_note(p: *const u8, n: usize) {
    let v = std::slice::from_raw_parts(p, n).to_vec();
    S.with(|s| s.borrow_mut().notes.push(v))
}
fn run(f: fn(), tape: Vec<u64>) -> (String, Vec<Vec<u8>>, Vec<Vec<u8>>) {
    S.with(|s| *s.borrow_mut() = St { tape, ..St::default() });
    let r = catch_unwind(AssertUnwindSafe(f));
    let st = S.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let o = match r {
        Ok(()) => "done".to_string(),
        Err(e) => match e.downcast::<Stop>() {
            Ok(s) => match *s {
                Stop::Check(l) => format!("check {l}"),
                Stop::Known(l, f) => format!("known {l} {f}"),
                Stop::Assume => "assume".to_string(),
            },
            Err(_) => format!("panic {}", st.msg),
        },
    };
    (o, st.obs, st.notes)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn table() -> Vec<(&'static str, fn())> {
    lib::all()
}
fn tape(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        S.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                s.msg = m
            }
        })
    }));
    let a: Vec<String> = std::env::args().collect();
    let t = table();
    let get = |n: &str| t.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or_else(|| {
        eprintln!("no harness {n}");
        std::process::exit(3)
    });
    if a[1] == "one" {
        let (o, obs, notes) = run(get(&a[2]), tape(a.get(3).map(|s| s.as_str()).unwrap_or("")));
        println!("outcome {o}");
        for n in notes {
            println!("input {:?}", String::from_utf8_lossy(&n));
        }
        for n in obs {
            println!("observed {:?}", String::from_utf8_lossy(&n));
        }
        return;
    }
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    let at = AtomicUsize::new(0);
    let ok = AtomicUsize::new(0);
    let bad = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = at.fetch_add(64, Ordering::SeqCst);
                    if i >= lines.len() {
                        break;
                    }
                    for l in &lines[i..(i + 64).min(lines.len())] {
                        let c: Vec<&str> = l.split('\t').collect();
                        let (o, obs, _) = run(get(c[0]), tape(c[1]));
                        let ob: Vec<String> = obs.iter().map(|x| hex(x)).collect();
                        if o == "done" && ob.join(" ") == c[2] {
                            ok.fetch_add(1, Ordering::SeqCst);
                        } else {
                            let mut b = bad.lock().unwrap();
                            if b.len() < 20 {
                                b.push(format!("{}\t{}\t{}\twant {}\tgot {}", c[0], c[1], o, c[2], ob.join(" ")));
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    println!("ok {}", ok.load(Ordering::SeqCst));
    println!("total {}", lines.len());
    for b in bad.lock().unwrap().iter() {
        println!("mismatch\t{b}");
    }
}
