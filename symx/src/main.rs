//! symx: bounded symbolic execution of Rust code through its LLVM IR.
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

struct Job {
    st: State,
}

fn finish(ex: &mut Exec, st: &State, e: End, cnt: &mut BTreeMap<String, u64>, ph: &mut HashMap<u32, [u64; 6]>) {
    let c = ph.entry(st.harness).or_insert([0; 6]);
    c[4] += st.steps;
    match e {
        End::Done => {
            *cnt.entry("done".into()).or_insert(0) += 1;
            c[0] += 1;
            let m = st.path.model.clone();
            ex.record(st, "path", String::new(), &m);
        }
        End::Dropped => {
            *cnt.entry("dropped".into()).or_insert(0) += 1;
            c[1] += 1;
        }
        End::Panic(l) => {
            *cnt.entry("panic".into()).or_insert(0) += 1;
            c[2] += 1;
            let m = st.path.model.clone();
            ex.record(st, "panic", l, &m);
        }
        End::Budget => {
            *cnt.entry("budget".into()).or_insert(0) += 1;
            c[3] += 1;
            let m = st.path.model.clone();
            ex.record(st, "budget", "instruction budget exhausted".into(), &m);
        }
        End::Fail(l) => {
            *cnt.entry("fail".into()).or_insert(0) += 1;
            c[3] += 1;
            let m = st.path.model.clone();
            let mut tr = String::new();
            for f in st.frames.iter().rev().take(6) {
                tr.push_str(" < ");
                tr.push_str(&ex.p.funcs[f.f as usize].pretty);
            }
            ex.record(st, "fail", format!("{}{}", l, tr), &m);
        }
        End::Forked => {}
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut out = String::from("/dev/stdout");
    let mut jobs = 8usize;
    let mut tlimit = 600.0f64;
    let mut max_steps = 20_000_000u64;
    let mut split = 400usize;
    let mut hs: Vec<String> = vec![];
    let mut dump: Option<String> = None;
    let mut prof = false;
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--out" => {
                i += 1;
                out = a[i].clone()
            }
            "--jobs" => {
                i += 1;
                jobs = a[i].parse().unwrap()
            }
            "--time" => {
                i += 1;
                tlimit = a[i].parse().unwrap()
            }
            "--max-steps" => {
                i += 1;
                max_steps = a[i].parse().unwrap()
            }
            "--split" => {
                i += 1;
                split = a[i].parse().unwrap()
            }
            "--dump" => {
                i += 1;
                dump = Some(a[i].clone())
            }
            "--prof" => prof = true,
            x if ll.is_empty() => ll = x.to_string(),
            x => hs.push(x.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = ir::Parser::parse(&text);
    drop(text);
    let p = Prog::new(&m);
    drop(m);
    let parse_s = t0.elapsed().as_secs_f64();
    if hs.is_empty() {
        for f in &p.funcs {
            if f.name.starts_with("h_") {
                println!("{}", f.name);
            }
        }
        return;
    }
    // expand prefixes ending in '*'
    let mut hn: Vec<String> = vec![];
    for h in &hs {
        if let Some(pre) = h.strip_suffix('*') {
            let mut v: Vec<String> =
                p.funcs.iter().filter(|f| f.name.starts_with(pre)).map(|f| f.name.clone()).collect();
            v.sort();
            hn.extend(v);
        } else {
            hn.push(h.clone());
        }
    }
    let mut ex = Exec::new(&p, max_steps);
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut ph: HashMap<u32, [u64; 6]> = HashMap::new();
    let mut q: VecDeque<State> = VecDeque::new();
    for (i, h) in hn.iter().enumerate() {
        let f = *p.fidx.get(h).unwrap_or_else(|| panic!("no harness {}", h));
        q.push_back(ex.start(i as u32, f));
    }
    // phase 1: breadth first until enough states
    ex.stop_on_fork = true;
    let mut all: Vec<Job> = vec![];
    while let Some(mut st) = q.pop_front() {
        if q.len() + 1 >= split && jobs > 1 {
            q.push_front(st);
            break;
        }
        if t0.elapsed().as_secs_f64() > tlimit {
            q.push_front(st);
            break;
        }
        let e = ex.run(&mut st);
        if let End::Forked = e {
            for o in std::mem::take(&mut ex.work) {
                q.push_back(o);
            }
            q.push_back(st);
        } else {
            let w = std::mem::take(&mut ex.work);
            for o in w {
                q.push_back(o);
            }
            finish(&mut ex, &st, e, &mut cnt, &mut ph);
        }
    }
    ex.stop_on_fork = false;
    while let Some(st) = q.pop_front() {
        all.push(Job { st });
    }
    // interleave so that neighbouring states spread over the workers
    let shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const [AtomicU64; 8]) };
    let n = all.len();
    let nw = if n == 0 { 0 } else { jobs.min(n) };
    let mut pids = vec![];
    let mut parts = vec![];
    for w in 0..nw {
        let part = format!("{}.part{}", out, w);
        parts.push(part.clone());
        let pid = unsafe { fork() };
        if pid == 0 {
            ex.s = solver::Solver::new();
            if let Some(d) = &dump {
                ex.s.dump = std::fs::File::create(format!("{}.{}", d, w)).ok();
            }
            ex.records.clear();
            ex.seen.clear();
            ex.covers.clear();
            ex.checks.clear();
            ex.steps = 0;
            ex.forks = 0;
            ex.forkstat.clear();
            cnt.clear();
            ph.clear();
            let mut pending = 0u64;
            let mut pend_h: BTreeMap<u32, u64> = BTreeMap::new();
            loop {
                let j = shared[0].fetch_add(1, Ordering::SeqCst) as usize;
                if j >= n {
                    break;
                }
                ex.work.push(all[j].st.clone());
                while let Some(mut st) = ex.work.pop() {
                    if t0.elapsed().as_secs_f64() > tlimit {
                        pending += 1;
                        *pend_h.entry(st.harness).or_insert(0) += 1;
                        continue;
                    }
                    let e = ex.run(&mut st);
                    finish(&mut ex, &st, e, &mut cnt, &mut ph);
                }
            }
            cnt.insert("pending".into(), pending);
            emit(&ex, &hn, &part, &cnt, &ph, &pend_h, prof);
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    let part = format!("{}.partp", out);
    emit(&ex, &hn, &part, &cnt, &ph, &BTreeMap::new(), prof);
    parts.push(part);
    let mut bad = 0;
    for pid in pids {
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    for p in &parts {
        if let Ok(b) = std::fs::read(p) {
            f.write_all(&b).unwrap();
        }
        let _ = std::fs::remove_file(p);
    }
    writeln!(
        f,
        "{{\"t\":\"end\",\"workers_failed\":{},\"states_split\":{},\"parse_s\":{:.2},\"wall_s\":{:.2}}}",
        bad,
        n,
        parse_s,
        t0.elapsed().as_secs_f64()
    )
    .unwrap();
}

fn emit(
    ex: &Exec,
    hn: &[String],
    part: &str,
    cnt: &BTreeMap<String, u64>,
    ph: &HashMap<u32, [u64; 6]>,
    pend: &BTreeMap<u32, u64>,
    prof: bool,
) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(part).unwrap());
    for r in &ex.records {
        let tape: Vec<String> = r.tape.iter().map(|x| x.to_string()).collect();
        let obs: Vec<String> = r.obs.iter().map(|x| format!("\"{}\"", hex(x))).collect();
        let notes: Vec<String> = r.notes.iter().map(|x| format!("\"{}\"", hex(x))).collect();
        writeln!(
            f,
            "{{\"t\":\"rec\",\"kind\":\"{}\",\"h\":{},\"label\":{},\"tape\":[{}],\"obs\":[{}],\"notes\":[{}]}}",
            r.kind,
            js(&hn[r.harness as usize]),
            js(&r.label),
            tape.join(","),
            obs.join(","),
            notes.join(",")
        )
        .unwrap();
    }
    for ((h, l), n) in &ex.covers {
        writeln!(f, "{{\"t\":\"cover\",\"h\":{},\"label\":{},\"n\":{}}}", js(&hn[*h as usize]), js(l), n).unwrap();
    }
    for ((h, l), c) in &ex.checks {
        writeln!(
            f,
            "{{\"t\":\"check\",\"h\":{},\"label\":{},\"folded\":{},\"proved\":{},\"violated\":{},\"known\":{}}}",
            js(&hn[*h as usize]),
            js(l),
            c[0],
            c[1],
            c[2],
            c[3]
        )
        .unwrap();
    }
    for (h, c) in ph {
        writeln!(
            f,
            "{{\"t\":\"harness\",\"h\":{},\"done\":{},\"dropped\":{},\"panic\":{},\"fail\":{},\"steps\":{},\"pending\":{}}}",
            js(&hn[*h as usize]),
            c[0],
            c[1],
            c[2],
            c[3],
            c[4],
            pend.get(h).copied().unwrap_or(0)
        )
        .unwrap();
    }
    for (h, n) in pend {
        if !ph.contains_key(h) {
            writeln!(f, "{{\"t\":\"harness\",\"h\":{},\"done\":0,\"dropped\":0,\"panic\":0,\"fail\":0,\"steps\":0,\"pending\":{}}}", js(&hn[*h as usize]), n).unwrap();
        }
    }
    let s = &ex.s.st;
    let c: Vec<String> = cnt.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    writeln!(
        f,
        "{{\"t\":\"stats\",\"counts\":{{{}}},\"steps\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"model_hits\":{},\"dom_sat\":{},\"folded\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"assert_queries\":{},\"assert_unsat\":{},\"nodes\":{}}}",
        c.join(","),
        ex.steps,
        ex.forks,
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.cached,
        s.model_hits,
        s.dom_sat,
        s.folded,
        s.solver_ns as f64 / 1e9,
        s.max_ns as f64 / 1e9,
        s.assert_queries,
        s.assert_unsat,
        expr::ar().nodes.len()
    )
    .unwrap();
    let names: Vec<String> = ex
        .called
        .iter()
        .enumerate()
        .filter(|(_, b)| **b)
        .map(|(i, _)| js(&ex.p.funcs[i].pretty))
        .collect();
    writeln!(f, "{{\"t\":\"funcs\",\"names\":[{}]}}", names.join(",")).unwrap();
    if prof {
        let mut v: Vec<_> = ex.forkstat.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((fi, b), n) in v.iter().take(25) {
            writeln!(f, "{{\"t\":\"fork\",\"n\":{},\"f\":{},\"b\":{}}}", n, js(&ex.p.funcs[*fi as usize].pretty), b).unwrap();
        }
    }
}
