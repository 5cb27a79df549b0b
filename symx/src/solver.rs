//! SMT back end (libz3 through its C API) plus the per-path constraint store.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: P);
    fn Z3_get_error_code(c: P) -> c_int;
}

fn bits(m: u128) -> u8 {
    (128 - m.leading_zeros()).max(1) as u8
}
pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn dom_max(m: u8) -> Dom {
    let mut d = [0; 4];
    for i in 0..=m as usize {
        d[i >> 6] |= 1 << (i & 63);
    }
    d
}
pub fn dand(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn dandn(a: &Dom, b: &Dom) -> Dom {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn dempty(a: &Dom) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn dcount(a: &Dom) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn dhas(a: &Dom, v: u8) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 != 0
}
pub fn dfirst(a: &Dom) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}
/// a "typical" member: prefer letters, then digits, then the first
pub fn dpick(a: &Dom) -> u8 {
    for c in [b'a', b'1', b'b', b'0', b'Z', b' '] {
        if dhas(a, c) {
            return c;
        }
    }
    dfirst(a)
}
pub fn hull(a: &Dom) -> (u8, u8) {
    let lo = dfirst(a);
    for i in (0..4).rev() {
        if a[i] != 0 {
            return (lo, (i * 64) as u8 + 63 - a[i].leading_zeros() as u8);
        }
    }
    (0, 255)
}
pub fn dvals(a: &Dom) -> Vec<u8> {
    (0..=255u8).filter(|v| dhas(a, *v)).collect()
}

#[derive(Clone)]
pub struct Path {
    pub dom: Rc<Vec<Dom>>,
    /// constraints over more than one byte
    pub cons: Rc<Vec<E>>,
    pub cmask: u128,
    pub model: Rc<Vec<u8>>,
}
impl Path {
    pub fn new() -> Path {
        Path { dom: Rc::new(vec![]), cons: Rc::new(vec![]), cmask: 0, model: Rc::new(vec![0; 128]) }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub model_hits: u64,
    pub dom_sat: u64,
    pub solver_ns: u64,
    pub assert_queries: u64,
    pub assert_unsat: u64,
    pub max_ns: u64,
    /// decided by rewriting under the path's byte ranges
    pub folded: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.cached += o.cached;
        self.model_hits += o.model_hits;
        self.dom_sat += o.dom_sat;
        self.solver_ns += o.solver_ns;
        self.assert_queries += o.assert_queries;
        self.assert_unsat += o.assert_unsat;
        self.folded += o.folded;
        self.max_ns = self.max_ns.max(o.max_ns);
    }
}

pub enum Res {
    Sat(Rc<Vec<u8>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    ast: FxMap<E, P>,
    nar: FxMap<(E, u8), P>,
    bvs: FxMap<u8, P>,
    cache: HashMap<(Vec<E>, Vec<(u8, Dom)>), Option<Vec<(u8, u8)>>>,
    pub st: Stats,
    pub dump: Option<std::fs::File>,
    pub dumped: u64,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, std::ptr::null_mut());
            let l = CString::new("QF_BV").unwrap();
            let ls = Z3_mk_string_symbol(c, l.as_ptr());
            let s = Z3_mk_solver_for_logic(c, ls);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let r = CString::new("rlimit").unwrap();
            // deterministic resource limit (no threads, so it survives fork)
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, r.as_ptr()), 60_000_000);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                ast: Default::default(),
                nar: Default::default(),
                bvs: Default::default(),
                cache: Default::default(),
                st: Default::default(),
                dump: None,
                dumped: 0,
            }
        }
    }
    fn bv(&mut self, w: u8) -> P {
        let c = self.c;
        *self.bvs.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }
    fn num(&mut self, v: u128, w: u8) -> P {
        let s = self.bv(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn z3var(&mut self, i: u32) -> P {
        let s = self.bv(8);
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), s) }
    }
    fn b2v(&mut self, b: P) -> P {
        let one = self.num(1, 1);
        let zero = self.num(0, 1);
        unsafe { Z3_mk_ite(self.c, b, one, zero) }
    }
    /// width-1 nodes are kept as Bool in z3
    fn tr(&mut self, e: E) -> P {
        if let Some(p) = self.ast.get(&e) {
            return *p;
        }
        let n = node(e);
        let c = self.c;
        let w = n.w;
        unsafe {
            // as a bit-vector (for operands inside vector contexts)
            let r = match n.n {
                N::K(v) => {
                    if w == 1 {
                        if v != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(v, w)
                    }
                }
                N::Var(i) => self.z3var(var_index(i)),
                N::Off(i, lo) => {
                    let v = self.z3var(var_index(i));
                    let l = self.num(256 - lo as u128, 8);
                    if lo == 0 {
                        v
                    } else {
                        Z3_mk_bvadd(c, v, l)
                    }
                }
                N::Cmp(op, a, b) => {
                    let isb = width(a) == 1;
                    let nw = bits(maxv(a)).max(bits(maxv(b)));
                    let (x, y) = if !isb && matches!(op, C::Eq | C::Ult | C::Ule) && nw < width(a) {
                        (self.trn(a, nw), self.trn(b, nw))
                    } else if isb { (self.trv(a), self.trv(b)) } else { (self.tr(a), self.tr(b)) };
                    match op {
                        C::Eq => Z3_mk_eq(c, x, y),
                        C::Ult => Z3_mk_bvult(c, x, y),
                        C::Ule => Z3_mk_bvule(c, x, y),
                        C::Slt => Z3_mk_bvslt(c, x, y),
                        C::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                N::Ite(q, a, b) => {
                    let (q, x, y) = (self.tr(q), self.tr(a), self.tr(b));
                    Z3_mk_ite(c, q, x, y)
                }
                N::Not(a) => {
                    let x = self.tr(a);
                    if w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        Z3_mk_bvnot(c, x)
                    }
                }
                N::Bin(op, a, b) if w == 1 => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    let v = [x, y];
                    match op {
                        B::And | B::Mul => Z3_mk_and(c, 2, v.as_ptr()),
                        B::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        B::Xor | B::Add => Z3_mk_xor(c, x, y),
                        _ => {
                            let (x, y) = (self.trv(a), self.trv(b));
                            let r = self.binop(op, x, y);
                            let one = self.num(1, 1);
                            Z3_mk_eq(c, r, one)
                        }
                    }
                }
                N::Bin(op, a, b) => {
                    let (x, y) = (self.tr(a), self.tr(b));
                    self.binop(op, x, y)
                }
                N::ZExt(a) => {
                    let x = self.trv(a);
                    Z3_mk_zero_ext(c, (w - width(a)) as c_uint, x)
                }
                N::SExt(a) => {
                    let x = self.trv(a);
                    Z3_mk_sign_ext(c, (w - width(a)) as c_uint, x)
                }
                N::Extract(a, lo) => {
                    let x = self.trv(a);
                    let r = Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x);
                    if w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
                N::Concat(a, b) => {
                    let (x, y) = (self.trv(a), self.trv(b));
                    Z3_mk_concat(c, x, y)
                }
                N::Tbl(t, i) => {
                    let x = self.trv(i);
                    let iw = width(i);
                    let tab = ar().tables[t as usize].clone();
                    // group equal values
                    let mut groups: std::collections::BTreeMap<u64, Vec<(usize, usize)>> = Default::default();
                    let mut j = 0;
                    while j < tab.len() {
                        let mut e2 = j;
                        while e2 + 1 < tab.len() && tab[e2 + 1] == tab[j] {
                            e2 += 1;
                        }
                        groups.entry(tab[j]).or_default().push((j, e2));
                        j = e2 + 1;
                    }
                    let mut r = self.num(0, w.max(1));
                    for (v, runs) in groups {
                        if v == 0 {
                            continue;
                        }
                        let mut ors = vec![];
                        for (lo, hi) in runs {
                            let l = self.num(lo as u128, iw);
                            if lo == hi {
                                ors.push(Z3_mk_eq(c, x, l));
                            } else {
                                let h = self.num(hi as u128, iw);
                                let v = [Z3_mk_bvule(c, l, x), Z3_mk_bvule(c, x, h)];
                                ors.push(Z3_mk_and(c, 2, v.as_ptr()));
                            }
                        }
                        let cnd = Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr());
                        let vv = self.num(v as u128, w);
                        r = Z3_mk_ite(c, cnd, vv, r);
                    }
                    if w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
            };
            Z3_inc_ref(c, r);
            self.ast.insert(e, r);
            r
        }
    }
    /// `e` as a vector of `w` bits, where w bits are enough for its largest value
    fn trn(&mut self, e: E, w: u8) -> P {
        if w >= width(e) {
            let x = self.trv(e);
            return if w == width(e) { x } else { unsafe { Z3_mk_zero_ext(self.c, (w - width(e)) as c_uint, x) } };
        }
        if let Some(p) = self.nar.get(&(e, w)) {
            return *p;
        }
        let n = node(e);
        let c = self.c;
        let r = unsafe {
            match n.n {
                N::K(v) => self.num(v, w),
                N::ZExt(p) => self.trn(p, w),
                N::Bin(B::Add, a, b) if maxv(a).checked_add(maxv(b)).map_or(false, |m| m <= wm(n.w)) && bits(maxv(a) + maxv(b)) <= w => {
                    let (x, y) = (self.trn(a, w), self.trn(b, w));
                    Z3_mk_bvadd(c, x, y)
                }
                N::Bin(B::Mul, a, b) if maxv(a).checked_mul(maxv(b)).map_or(false, |m| m <= wm(n.w) && bits(m) <= w) => {
                    let (x, y) = (self.trn(a, w), self.trn(b, w));
                    Z3_mk_bvmul(c, x, y)
                }
                N::Bin(op, a, b) if matches!(op, B::UDiv | B::URem) && isk(b).map_or(false, |y| y != 0) => {
                    let w2 = bits(maxv(a)).max(bits(maxv(b))).max(w);
                    let (x, y) = (self.trn(a, w2), self.trn(b, w2));
                    let r = self.binop(op, x, y);
                    if w2 > w {
                        Z3_mk_extract(c, (w - 1) as c_uint, 0, r)
                    } else {
                        r
                    }
                }
                N::Ite(q, a, b) => {
                    let q = self.tr(q);
                    let (x, y) = (self.trn(a, w), self.trn(b, w));
                    Z3_mk_ite(c, q, x, y)
                }
                _ => {
                    let x = self.trv(e);
                    Z3_mk_extract(c, (w - 1) as c_uint, 0, x)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.nar.insert((e, w), r);
        r
    }
    fn trv(&mut self, e: E) -> P {
        let r = self.tr(e);
        if width(e) == 1 {
            self.b2v(r)
        } else {
            r
        }
    }
    fn binop(&mut self, op: B, x: P, y: P) -> P {
        let c = self.c;
        unsafe {
            match op {
                B::Add => Z3_mk_bvadd(c, x, y),
                B::Mul => Z3_mk_bvmul(c, x, y),
                B::UDiv => Z3_mk_bvudiv(c, x, y),
                B::URem => Z3_mk_bvurem(c, x, y),
                B::SDiv => Z3_mk_bvsdiv(c, x, y),
                B::SRem => Z3_mk_bvsrem(c, x, y),
                B::Shl => Z3_mk_bvshl(c, x, y),
                B::LShr => Z3_mk_bvlshr(c, x, y),
                B::AShr => Z3_mk_bvashr(c, x, y),
                B::And => Z3_mk_bvand(c, x, y),
                B::Or => Z3_mk_bvor(c, x, y),
                B::Xor => Z3_mk_bvxor(c, x, y),
            }
        }
    }
    fn domcon(&mut self, v: u32, d: &Dom) -> P {
        let x = self.z3var(v);
        let c = self.c;
        let mut ors = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if dhas(d, i as u8) {
                    let mut j = i;
                    while j + 1 < 256 && dhas(d, (j + 1) as u8) {
                        j += 1;
                    }
                    let l = self.num(i as u128, 8);
                    let h = self.num(j as u128, 8);
                    if i == j {
                        ors.push(Z3_mk_eq(c, x, l));
                    } else {
                        let p = [Z3_mk_bvule(c, l, x), Z3_mk_bvule(c, x, h)];
                        ors.push(Z3_mk_and(c, 2, p.as_ptr()));
                    }
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr())
        }
    }

    /// z3 query: constraints `es` (all must hold) with the given byte domains
    fn z3check(&mut self, es: &[E], doms: &[(u8, Dom)]) -> Option<Option<Vec<(u8, u8)>>> {
        let key = (es.to_vec(), doms.to_vec());
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return Some(r.clone());
        }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in es {
                let a = self.tr(*e);
                Z3_solver_assert(self.c, self.s, a);
            }
            for (v, d) in doms {
                if *d != FULL {
                    let a = self.domcon(*v as u32, d);
                    Z3_solver_assert(self.c, self.s, a);
                }
            }
            let r = Z3_solver_check(self.c, self.s);
            if Z3_get_error_code(self.c) != 0 {
                eprintln!("symx: z3 error code {}", Z3_get_error_code(self.c));
            }
            if let Some(f) = self.dump.as_mut() {
                if self.dumped < 400 && r != 0 {
                    use std::io::Write;
                    let txt = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy();
                    let _ = write!(f, "(push 1)\n{}\n(check-sat) ; {}\n(pop 1)\n;;;;\n", txt, if r < 0 { "unsat" } else { "sat" });
                    self.dumped += 1;
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for (i, _) in doms {
                        let x = self.z3var(*i as u32);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, x, true, &mut o);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.c, o, &mut u);
                        v.push((*i, u as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Some(Some(v))
                }
                -1 => Some(None),
                _ => None,
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.st.solver_ns += dt;
        self.st.max_ns = self.st.max_ns.max(dt);
        if dt > 200_000_000 && std::env::var("SYMX_SLOW").is_ok() {
            eprintln!("slow {} ms:", dt / 1_000_000);
            for e in es {
                eprintln!("   {}", show(*e));
            }
        }
        self.st.queries += 1;
        match &r {
            Some(Some(_)) => self.st.sat += 1,
            Some(None) => self.st.unsat += 1,
            None => self.st.unknown += 1,
        }
        if let Some(x) = &r {
            self.cache.insert(key, x.clone());
        }
        r
    }

    /// Is `c` satisfiable together with the path?
    pub fn sat(&mut self, p: &Path, c: E) -> Res {
        if let Some(v) = isk(c) {
            return if v != 0 { Res::Sat(p.model.clone()) } else { Res::Unsat };
        }
        if eval(c, &p.model) != 0 {
            self.st.model_hits += 1;
            return Res::Sat(p.model.clone());
        }
        let m = mask(c);
        if m.count_ones() == 1 {
            let v = m.trailing_zeros() as usize;
            let t = truth(c);
            let d = dand(&t, &p.dom[v]);
            if dempty(&d) {
                // confirmed by the SMT solver (cached per expression and domain)
                return match self.z3check(&[c], &[(v as u8, p.dom[v])]) {
                    Some(None) => Res::Unsat,
                    Some(Some(_)) => panic!("symx: domain reasoning and z3 disagree on {}", show(c)),
                    None => Res::Unknown,
                };
            }
            if p.cmask & m == 0 {
                let mut nm = (*p.model).clone();
                nm[v] = dpick(&d);
                self.st.dom_sat += 1;
                return Res::Sat(Rc::new(nm));
            }
            // try a few patches
            if let Some(r) = self.patch(p, c, v, &d) {
                return r;
            }
        } else {
            // small patches of one or two bytes
            if let Some(r) = self.patch_multi(p, c) {
                return r;
            }
        }
        // slice
        let mut sm = m;
        let mut es = vec![c];
        loop {
            let mut changed = false;
            for e in p.cons.iter() {
                if mask(*e) & sm != 0 && !es.contains(e) {
                    es.push(*e);
                    sm |= mask(*e);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let orig = es.clone();
        {
            let mut memo = FxMap::default();
            let range = |i: u32| hull(&p.dom[i as usize]);
            let mut r = vec![];
            for e in es.iter() {
                let x = refine(*e, &range, &mut memo);
                match isk(x) {
                    Some(0) => {
                        self.st.folded += 1;
                        return Res::Unsat;
                    }
                    Some(_) => {}
                    None => r.push(x),
                }
            }
            es = r;
        }
        es.sort();
        es.dedup();
        let doms: Vec<(u8, Dom)> =
            (0..128u8).filter(|i| sm >> i & 1 != 0).map(|i| (i, p.dom[i as usize])).collect();
        match self.z3check(&es, &doms) {
            Some(Some(v)) => {
                let mut nm = (*p.model).clone();
                for (i, x) in v {
                    nm[i as usize] = x;
                }
                // the model is re-evaluated in our own semantics
                for e in orig.iter() {
                    if eval(*e, &nm) == 0 {
                        panic!("symx: z3 model does not satisfy {} under the evaluator", show(*e));
                    }
                }
                Res::Sat(Rc::new(nm))
            }
            Some(None) => Res::Unsat,
            None => Res::Unknown,
        }
    }
    fn holds(&self, p: &Path, nm: &[u8], touched: u128) -> bool {
        p.cons.iter().all(|e| mask(*e) & touched == 0 || eval(*e, nm) != 0)
    }
    fn patch(&mut self, p: &Path, c: E, v: usize, d: &Dom) -> Option<Res> {
        let _ = c;
        let vals = dvals(d);
        let mut nm = (*p.model).clone();
        for x in std::iter::once(dpick(d)).chain(vals.into_iter().take(12)) {
            nm[v] = x;
            if self.holds(p, &nm, 1u128 << v) {
                self.st.model_hits += 1;
                return Some(Res::Sat(Rc::new(nm)));
            }
        }
        None
    }
    fn patch_multi(&mut self, p: &Path, c: E) -> Option<Res> {
        let m = mask(c);
        let mut nm = (*p.model).clone();
        for v in 0..128usize {
            if m >> v & 1 == 0 {
                continue;
            }
            let old = nm[v];
            let d = &p.dom[v];
            let vals = dvals(d);
            let step = (vals.len() / 10).max(1);
            for x in vals.iter().step_by(step) {
                nm[v] = *x;
                if eval(c, &nm) != 0 && self.holds(p, &nm, 1u128 << v) {
                    self.st.model_hits += 1;
                    return Some(Res::Sat(Rc::new(nm)));
                }
            }
            nm[v] = old;
        }
        None
    }
    /// add `c` (known satisfiable, with witness) to the path
    pub fn assume(&mut self, p: &mut Path, c: E, model: Rc<Vec<u8>>) {
        p.model = model;
        self.add(p, c);
    }
    fn add(&mut self, p: &mut Path, c: E) {
        if isk(c).is_some() {
            return;
        }
        // split conjunctions
        if let N::Bin(B::And, a, b) = node(c).n {
            self.add(p, a);
            self.add(p, b);
            return;
        }
        let m = mask(c);
        if m.count_ones() == 1 {
            let v = m.trailing_zeros() as usize;
            let t = truth(c);
            let d = dand(&t, &p.dom[v]);
            if d != p.dom[v] {
                Rc::make_mut(&mut p.dom)[v] = d;
            }
            return;
        }
        if !p.cons.contains(&c) {
            Rc::make_mut(&mut p.cons).push(c);
            p.cmask |= m;
        }
    }
}

/// SMT-LIB rendering of one expression is delegated to z3's own printer through `dump`.
pub fn _unused() {}
