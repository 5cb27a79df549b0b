//! Symbolic interpreter for the lowered LLVM IR.
use crate::expr::*;
use crate::ir::{self, BinOp, CastOp, Module, Op, Pred, Ty, I, K};
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
}
use Val::*;

pub fn mk(e: E) -> Val {
    let n = node(e);
    match n.n {
        N::K(v) if n.w <= 64 => C(v as u64),
        _ => S(e),
    }
}
#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn toe(v: &Val, w: u32) -> E {
    match v {
        C(x) => k(*x as u128, w as u8),
        S(e) => *e,
        A(_) => panic!("toe on aggregate"),
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(u64),
    V(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    Panic,
    Abort,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Memcpy,
    Memmove,
    Memset,
    Memchr,
    Memrchr,
    SymU8,
    SymChoice,
    SymAssume,
    SymCheck,
    SymKnown,
    SymCover,
    SymObserve,
    SymNote,
    SymIsSym,
    Nop,
    Ret0,
    GetEnv,
    Syscall,
    KeyCreate,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UCmp,
    SCmp,
    IsConst,
    TlsAddr,
    Fabs,
    Float,
    Abs,
    PtrMask,
    Expect,
    HashFinish,
    FloatParse,
    StrDebug,
    RandKeys,
    Concrete,
    Unsup,
}

#[derive(Clone, Debug)]
pub enum Tgt {
    F(u32),
    H(H, u32),
    Ind(O),
}

#[derive(Debug)]
pub enum L {
    Bin(BinOp, u32, u32, O, O),
    VBin(BinOp, u32, u32, O, O),
    FBin(BinOp, bool, u32, O, O),
    ICmp(Pred, u32, u32, O, O),
    VICmp(Pred, u32, u32, O, O),
    FCmp(String, bool, u32, O, O),
    FNeg(bool, u32, O),
    Cast(CastOp, Ty, Ty, u32, O),
    Load(Ty, u32, O),
    Store(Ty, O, O),
    Gep(u32, O, i64, Vec<(O, u32, i64)>),
    Alloca(u32, u64),
    Call(Option<u32>, Ty, Tgt, Vec<(O, Ty)>, Option<u32>),
    Select(Ty, u32, O, O, O),
    VSelect(Ty, u32, O, O, O),
    Extract(u32, O, Vec<u32>),
    Insert(u32, Ty, O, O, Vec<u32>),
    ExtractElt(u32, O, O),
    InsertElt(Ty, u32, O, O, O),
    Shuffle(Ty, u32, O, O, Rc<Vec<i64>>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Rc<Vec<(u32, Vec<u64>)>>),
    Ret(Option<O>),
    Unreachable,
    Rmw(String, Ty, u32, O, O),
    CmpXchg(Ty, u32, O, O, O),
    Nop,
}

pub struct LBlock {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<L>,
}
pub struct LFunc {
    pub name: String,
    pub pretty: String,
    pub params: u32,
    pub nregs: u32,
    pub blocks: Vec<LBlock>,
    pub hook: Option<H>,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>,
    pub kind: u8, // 0 heap 1 stack 2 global 3 const global
}

const OBASE: u64 = 0x1000_0000_0000;
const OSH: u32 = 24;
const FBASE: u64 = 0x7000_0000_0000;
const DBASE: u64 = 0x7100_0000_0000;

pub struct Prog {
    pub funcs: Vec<LFunc>,
    pub fidx: HashMap<String, u32>,
    pub globs: Vec<Rc<Obj>>,
    pub gname: Vec<String>,
    pub hooknames: Vec<String>,
    /// <str as Display>::fmt
    pub str_display: Option<u32>,
}

struct Lower<'a> {
    m: &'a Module,
    fidx: HashMap<String, u32>,
    gaddr: HashMap<String, u64>,
    hooknames: Vec<String>,
}

fn hook_for_extern(n: &str) -> H {
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy") {
            H::Memcpy
        } else if p("memmove") {
            H::Memmove
        } else if p("memset") {
            H::Memset
        } else if p("assume") || p("lifetime") || p("experimental.noalias") || p("dbg") || p("x86.sse2.pause") || p("prefetch") || p("donothing") {
            H::Nop
        } else if p("umax") {
            H::UMax
        } else if p("umin") {
            H::UMin
        } else if p("smax") {
            H::SMax
        } else if p("smin") {
            H::SMin
        } else if p("usub.sat") {
            H::USubSat
        } else if p("uadd.sat") {
            H::UAddSat
        } else if p("uadd.with") {
            H::UAddO
        } else if p("usub.with") {
            H::USubO
        } else if p("umul.with") {
            H::UMulO
        } else if p("sadd.with") {
            H::SAddO
        } else if p("ssub.with") {
            H::SSubO
        } else if p("smul.with") {
            H::SMulO
        } else if p("ctlz") {
            H::Ctlz
        } else if p("cttz") {
            H::Cttz
        } else if p("ctpop") {
            H::Ctpop
        } else if p("bswap") {
            H::Bswap
        } else if p("bitreverse") {
            H::Bitrev
        } else if p("fshl") {
            H::Fshl
        } else if p("fshr") {
            H::Fshr
        } else if p("ucmp") {
            H::UCmp
        } else if p("scmp") {
            H::SCmp
        } else if p("is.constant") {
            H::IsConst
        } else if p("threadlocal") {
            H::TlsAddr
        } else if ["minnum", "maxnum", "minimum", "maximum", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "sqrt", "copysign", "fma.", "fmuladd", "fptosi.sat", "fptoui.sat", "is.fpclass", "canonicalize", "powi"]
            .iter()
            .any(|s| p(s))
        {
            H::Float
        } else if p("fabs") {
            H::Fabs
        } else if p("abs") {
            H::Abs
        } else if p("ptrmask") {
            H::PtrMask
        } else if p("expect") {
            H::Expect
        } else if p("trap") {
            H::Abort
        } else {
            H::Unsup
        };
    }
    match n {
        "malloc" => H::Malloc,
        "calloc" => H::Calloc,
        "realloc" => H::Realloc,
        "free" => H::Free,
        "posix_memalign" => H::Memalign,
        "bcmp" => H::Bcmp,
        "memcmp" => H::Memcmp,
        "strlen" => H::Strlen,
        "memcpy" => H::Memcpy,
        "memmove" => H::Memmove,
        "memset" => H::Memset,
        "sym_u8" => H::SymU8,
        "sym_choice" => H::SymChoice,
        "sym_assume" => H::SymAssume,
        "sym_check" => H::SymCheck,
        "sym_check_known" => H::SymKnown,
        "sym_cover" => H::SymCover,
        "sym_observe" => H::SymObserve,
        "sym_note" => H::SymNote,
        "sym_is_symbolic" => H::SymIsSym,
        "sym_concrete" => H::Concrete,
        "abort" => H::Abort,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" => H::Ret0,
        "pthread_key_create" => H::KeyCreate,
        "getenv" => H::GetEnv,
        "syscall" | "getrandom" => H::Syscall,
        "$asm" => H::Expect,
        _ => H::Unsup,
    }
}
/// functions of the module replaced by models
fn hook_for_func(pretty: &str) -> Option<H> {
    match pretty {
        "core::panicking::panic_fmt" | "core::panicking::panic_nounwind_fmt" => Some(H::Panic),
        "<str as core::fmt::Debug>::fmt" => Some(H::StrDebug),
        "core::slice::memchr::memchr_aligned" => Some(H::Memchr),
        "core::slice::memchr::memrchr_aligned" => Some(H::Memrchr),
        "std::alloc::handle_alloc_error" | "alloc::alloc::handle_alloc_error" => Some(H::Abort),
        _ => {
            if pretty.contains("core::num::imp::dec2flt") || pretty.contains("core::num::dec2flt") {
                if pretty.contains("FromStr>::from_str") || pretty.ends_with("::dec2flt") || pretty.contains("::dec2flt::<f") {
                    return Some(H::FloatParse);
                }
            }
            if pretty.starts_with("<f32 as core::str::traits::FromStr>::from_str")
                || pretty.starts_with("<f64 as core::str::traits::FromStr>::from_str")
            {
                return Some(H::FloatParse);
            }
            if pretty.contains("hashmap_random_keys") {
                return Some(H::RandKeys);
            }
            if pretty.contains("SipHasher13 as core::hash::Hasher>::finish")
                || (pretty.contains("core::hash::BuildHasher>::hash_one"))
            {
                return Some(H::HashFinish);
            }
            None
        }
    }
}

impl<'a> Lower<'a> {
    fn kaddr(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if let Some(i) = self.fidx.get(n) {
            return FBASE + (*i as u64) * 16;
        }
        for (an, k) in &self.m.aliases {
            if an == n {
                return self.kint(k);
            }
        }
        if let Some(i) = self.m.decls.iter().position(|d| d == n) {
            return DBASE + i as u64 * 16;
        }
        panic!("unknown global {}", n)
    }
    fn kint(&self, k: &K) -> u64 {
        match k {
            K::Int(v) => *v as u64,
            K::Glob(n) => self.kaddr(n),
            K::Gep(b, o) => self.kint(b).wrapping_add(*o as u64),
            K::Bin(op, a, b) => {
                let (x, y) = (self.kint(a), self.kint(b));
                match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "xor" => x ^ y,
                    _ => panic!("constexpr {}", op),
                }
            }
            K::Zero => 0,
            _ => panic!("kint {:?}", k),
        }
    }
    fn kval(&self, t: &Ty, kk: &K) -> Val {
        match t {
            Ty::Int(w) if *w > 64 => match kk {
                K::Int(v) => S(k(*v, *w as u8)),
                K::Zero => S(k(0, *w as u8)),
                _ => panic!(),
            },
            Ty::Int(w) => C(self.kint(kk) & m64(*w)),
            Ty::Ptr | Ty::F32 | Ty::F64 => C(self.kint(kk)),
            Ty::Arr(n, e) | Ty::Vec(n, e) => A(Rc::new(match kk {
                K::Agg(v) => v.iter().map(|(t, k)| self.kval(t, k)).collect(),
                K::Bytes(b) => b.iter().map(|x| C(*x as u64)).collect(),
                K::Zero | K::Int(_) => (0..*n).map(|_| self.kval(e, &K::Zero)).collect(),
                _ => panic!(),
            })),
            Ty::Struct(f, _) => A(Rc::new(match kk {
                K::Agg(v) => v.iter().map(|(t, k)| self.kval(t, k)).collect(),
                _ => f.iter().map(|t| self.kval(t, &K::Zero)).collect(),
            })),
            _ => C(0),
        }
    }
    fn op(&self, t: &Ty, o: &Op) -> O {
        match o {
            Op::Reg(r) => O::R(*r),
            Op::K(k) => match self.kval(t, k) {
                C(v) => O::C(v),
                v => O::V(v),
            },
        }
    }
    fn write_k(&self, t: &Ty, kk: &K, out: &mut [u8]) {
        match kk {
            K::Zero => {}
            K::Bytes(b) => out[..b.len()].copy_from_slice(b),
            K::Agg(v) => match t {
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    let s = e.size() as usize;
                    for (i, (_, x)) in v.iter().enumerate() {
                        self.write_k(e, x, &mut out[i * s..(i + 1) * s]);
                    }
                }
                Ty::Struct(..) => {
                    for (i, (_, x)) in v.iter().enumerate() {
                        let (o, ft) = t.field_off(i);
                        self.write_k(&ft, x, &mut out[o as usize..(o + ft.size()) as usize]);
                    }
                }
                _ => panic!(),
            },
            K::Int(v) => {
                let n = t.size() as usize;
                let b = v.to_le_bytes();
                out[..n.min(16)].copy_from_slice(&b[..n.min(16)]);
            }
            _ => {
                let v = self.kint(kk);
                out[..8].copy_from_slice(&v.to_le_bytes());
            }
        }
    }
    fn callee(&mut self, c: &ir::Callee) -> Tgt {
        match c {
            ir::Callee::Ind(o) => Tgt::Ind(self.op(&Ty::Ptr, o)),
            ir::Callee::Direct(n) => {
                let mut n = n.clone();
                if let Some((_, K::Glob(t))) = self.m.aliases.iter().find(|(a, _)| *a == n) {
                    n = t.clone();
                }
                if let Some(i) = self.fidx.get(&n) {
                    return Tgt::F(*i);
                }
                let h = hook_for_extern(&n);
                self.hooknames.push(n);
                Tgt::H(h, self.hooknames.len() as u32 - 1)
            }
        }
    }
    fn ins(&mut self, i: &I) -> L {
        match i {
            I::Bin(b, t, d, x, y) => {
                let (xo, yo) = (self.op(t, x), self.op(t, y));
                match t {
                    Ty::Vec(_, e) => L::VBin(*b, e.bits(), *d, xo, yo),
                    Ty::F32 | Ty::F64 => L::FBin(*b, *t == Ty::F64, *d, xo, yo),
                    _ => L::Bin(*b, t.bits(), *d, xo, yo),
                }
            }
            I::ICmp(p, t, d, x, y) => {
                let (xo, yo) = (self.op(t, x), self.op(t, y));
                match t {
                    Ty::Vec(_, e) => L::VICmp(*p, e.bits(), *d, xo, yo),
                    _ => L::ICmp(*p, t.bits(), *d, xo, yo),
                }
            }
            I::FCmp(p, t, d, x, y) => L::FCmp(p.clone(), *t == Ty::F64, *d, self.op(t, x), self.op(t, y)),
            I::FNeg(t, d, x) => L::FNeg(*t == Ty::F64, *d, self.op(t, x)),
            I::Cast(c, a, b, d, x) => L::Cast(*c, a.clone(), b.clone(), *d, self.op(a, x)),
            I::Load(t, d, p) => L::Load(t.clone(), *d, self.op(&Ty::Ptr, p)),
            I::Store(t, v, p) => L::Store(t.clone(), self.op(t, v), self.op(&Ty::Ptr, p)),
            I::Gep(d, b, o, ix) => L::Gep(
                *d,
                self.op(&Ty::Ptr, b),
                *o,
                ix.iter().map(|(o, w, s)| (self.op(&Ty::Int(*w), o), *w, *s)).collect(),
            ),
            I::Alloca(d, n) => L::Alloca(*d, *n),
            I::Call { dst, ret, callee, args, normal } => {
                let a = args.iter().map(|t| (self.op(&t.ty, &t.op), t.ty.clone())).collect();
                let c = self.callee(callee);
                L::Call(*dst, ret.clone(), c, a, *normal)
            }
            I::Select(t, d, c, x, y) => {
                let co = self.op(&c.ty, &c.op);
                if let Ty::Vec(..) = c.ty {
                    L::VSelect(t.clone(), *d, co, self.op(t, x), self.op(t, y))
                } else {
                    L::Select(t.clone(), *d, co, self.op(t, x), self.op(t, y))
                }
            }
            I::Extract(d, a, ix) => L::Extract(
                *d,
                match a {
                    Op::Reg(r) => O::R(*r),
                    _ => panic!("extractvalue of const"),
                },
                ix.clone(),
            ),
            I::Insert(d, a, e, ix) => {
                L::Insert(*d, a.ty.clone(), self.op(&a.ty, &a.op), self.op(&e.ty, &e.op), ix.clone())
            }
            I::ExtractElt(d, a, i) => L::ExtractElt(
                *d,
                match a {
                    Op::Reg(r) => O::R(*r),
                    _ => panic!("extractelement of const"),
                },
                self.op(&Ty::Int(64), i),
            ),
            I::InsertElt(t, d, a, e, i) => {
                let et = match t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => panic!(),
                };
                L::InsertElt(t.clone(), *d, self.op(t, a), self.op(&et, e), self.op(&Ty::Int(64), i))
            }
            I::Shuffle(t, d, a, b, m) => L::Shuffle(t.clone(), *d, self.op(t, a), self.op(t, b), m.clone()),
            I::Br(b) => L::Br(*b),
            I::CondBr(c, t, f) => L::CondBr(self.op(&Ty::Int(1), c), *t, *f),
            I::Switch(t, c, d, v) => {
                let mut g: Vec<(u32, Vec<u64>)> = vec![];
                for (val, b) in v.iter() {
                    let val = *val as u64 & m64(t.bits());
                    match g.iter_mut().find(|x| x.0 == *b) {
                        Some(x) => x.1.push(val),
                        None => g.push((*b, vec![val])),
                    }
                }
                L::Switch(t.bits(), self.op(t, c), *d, Rc::new(g))
            }
            I::Ret(None) => L::Ret(None),
            I::Ret(Some(t)) => L::Ret(Some(self.op(&t.ty, &t.op))),
            I::Unreachable => L::Unreachable,
            I::Rmw(o, t, d, p, v) => L::Rmw(o.clone(), t.clone(), *d, self.op(&Ty::Ptr, p), self.op(t, v)),
            I::CmpXchg(t, d, p, c, n) => {
                L::CmpXchg(t.clone(), *d, self.op(&Ty::Ptr, p), self.op(t, c), self.op(t, n))
            }
            I::Nop => L::Nop,
        }
    }
}

impl Prog {
    pub fn new(m: &Module) -> Prog {
        let mut fidx = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            fidx.insert(f.name.clone(), i as u32);
        }
        let mut gaddr = HashMap::new();
        for (i, g) in m.globs.iter().enumerate() {
            gaddr.insert(g.name.clone(), OBASE + ((i as u64 + 1) << OSH));
        }
        let mut lo = Lower { m, fidx, gaddr, hooknames: vec![] };
        let mut globs = vec![];
        for g in &m.globs {
            let n = g.ty.size().max(if g.init.is_none() { 64 } else { 0 }) as usize;
            let mut data = vec![0u8; n];
            if let Some(k) = &g.init {
                lo.write_k(&g.ty, k, &mut data);
            }
            globs.push(Rc::new(Obj { data, sym: vec![], kind: if g.constant { 3 } else { 2 } }));
        }
        let mut funcs = vec![];
        for f in &m.funcs {
            let mut blocks = vec![];
            for b in &f.blocks {
                let mut phis: Vec<(u32, Vec<(u32, O)>)> = vec![];
                for (d, t, inc) in &b.phis {
                    for (p, o) in inc {
                        let o = lo.op(t, o);
                        match phis.iter_mut().find(|x| x.0 == *p) {
                            Some(x) => {
                                if !x.1.iter().any(|y| y.0 == *d) {
                                    x.1.push((*d, o))
                                }
                            }
                            None => phis.push((*p, vec![(*d, o)])),
                        }
                    }
                }
                let ins = b.ins.iter().map(|i| lo.ins(i)).collect();
                blocks.push(LBlock { phis, ins });
            }
            funcs.push(LFunc {
                name: f.name.clone(),
                pretty: f.pretty.clone(),
                params: f.params,
                nregs: f.nregs,
                blocks,
                hook: hook_for_func(&f.pretty),
            });
        }
        let str_display = funcs.iter().position(|f| f.pretty == "<str as core::fmt::Display>::fmt").map(|x| x as u32);
        Prog {
            str_display,
            funcs,
            fidx: lo.fidx,
            globs,
            gname: m.globs.iter().map(|g| g.name.clone()).collect(),
            hooknames: lo.hooknames,
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub b: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub gover: FxMap<u32, Rc<Obj>>,
    pub path: Path,
    pub nvars: u32,
    pub single: u128,
    pub conc: Rc<FxMap<E, u64>>,
    pub tape: Rc<Vec<T>>,
    pub obs: Rc<Vec<Vec<E>>>,
    pub notes: Rc<Vec<Vec<E>>>,
    pub steps: u64,
    pub harness: u32,
    pub forks: u32,
    /// scratch for re-executed instructions (position inside a hook)
    pub scratch: u64,
    pub checks: u32,
}
#[derive(Clone, Copy, Debug)]
pub enum T {
    Var(u32, u8),
    Choice(u32),
}

pub enum End {
    Done,
    Dropped,
    Panic(String),
    Budget,
    Fail(String),
    Forked,
}

#[derive(Clone)]
pub struct Record {
    pub kind: &'static str,
    pub harness: u32,
    pub label: String,
    pub tape: Vec<u32>,
    pub obs: Vec<Vec<u8>>,
    pub notes: Vec<Vec<u8>>,
}

pub struct Exec<'a> {
    pub p: &'a Prog,
    pub s: Solver,
    pub work: Vec<State>,
    pub records: Vec<Record>,
    pub seen: HashMap<String, u32>,
    pub covers: HashMap<(u32, String), u64>,
    pub checks: HashMap<(u32, String), [u64; 4]>, // folded, proved, violated, known
    pub steps: u64,
    pub forkstat: FxMap<(u32, u32), u64>,
    pub called: Vec<bool>,
    pub stop_on_fork: bool,
    pub max_steps: u64,
    pub forks: u64,
    pub fname: HashMap<String, u64>,
    pub maxviol: u32,
}

type R<X> = Result<X, End>;

macro_rules! fail {
    ($($a:tt)*) => { return Err(End::Fail(format!($($a)*))) };
}

impl<'a> Exec<'a> {
    pub fn new(p: &'a Prog, max_steps: u64) -> Exec<'a> {
        Exec {
            p,
            s: Solver::new(),
            work: vec![],
            records: vec![],
            seen: Default::default(),
            covers: Default::default(),
            checks: Default::default(),
            steps: 0,
            forkstat: Default::default(),
            called: vec![false; p.funcs.len()],
            stop_on_fork: false,
            max_steps,
            forks: 0,
            fname: Default::default(),
            maxviol: 6,
        }
    }
    pub fn start(&self, harness: u32, f: u32) -> State {
        let mut st = State {
            frames: vec![],
            mem: vec![],
            free: vec![],
            gover: Default::default(),
            path: Path::new(),
            nvars: 0,
            single: 0,
            conc: Default::default(),
            tape: Default::default(),
            obs: Default::default(),
            notes: Default::default(),
            steps: 0,
            harness,
            forks: 0,
            scratch: 0,
            checks: 0,
        };
        st.frames.push(Frame {
            f,
            b: 0,
            ip: 0,
            regs: vec![C(0); self.p.funcs[f as usize].nregs as usize],
            allocas: vec![],
            dst: None,
            normal: None,
        });
        st
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&self, st: &mut State, n: u64, kind: u8) -> u64 {
        let o = Rc::new(Obj { data: vec![0; n as usize], sym: vec![], kind });
        let id = match st.free.pop() {
            Some(i) => {
                st.mem[i as usize] = Some(o);
                i
            }
            None => {
                st.mem.push(Some(o));
                st.mem.len() as u32 - 1
            }
        };
        OBASE + ((id as u64 + 1 + self.p.globs.len() as u64) << OSH)
    }
    fn dealloc(&self, st: &mut State, id: u32) {
        st.mem[id as usize] = None;
        st.free.push(id);
    }
    /// (object number, offset)
    #[inline]
    fn split(&self, a: u64) -> R<(u32, u64)> {
        if a < OBASE || a >= FBASE {
            fail!("access through invalid address {:#x}", a);
        }
        let x = a - OBASE;
        Ok(((x >> OSH) as u32, x & ((1 << OSH) - 1)))
    }
    #[inline]
    fn obj<'b>(&'b self, st: &'b State, id: u32) -> R<&'b Rc<Obj>> {
        let g = self.p.globs.len() as u32;
        if id == 0 {
            fail!("null object");
        }
        if id <= g {
            if !st.gover.is_empty() {
                if let Some(o) = st.gover.get(&id) {
                    return Ok(o);
                }
            }
            return Ok(&self.p.globs[id as usize - 1]);
        }
        match st.mem.get((id - g - 1) as usize) {
            Some(Some(o)) => Ok(o),
            _ => Err(End::Fail("access to a freed object".into())),
        }
    }
    fn obj_mut<'b>(&self, st: &'b mut State, id: u32) -> R<&'b mut Obj> {
        let g = self.p.globs.len() as u32;
        if id == 0 {
            fail!("null object");
        }
        if id <= g {
            if self.p.globs[id as usize - 1].kind == 3 {
                fail!("write to a constant");
            }
            let p = self.p;
            let r = st.gover.entry(id).or_insert_with(|| p.globs[id as usize - 1].clone());
            return Ok(Rc::make_mut(r));
        }
        match st.mem.get_mut((id - g - 1) as usize) {
            Some(Some(o)) => Ok(Rc::make_mut(o)),
            _ => Err(End::Fail("access to a freed object".into())),
        }
    }
    fn load_n(&self, st: &State, a: u64, n: u64) -> R<Val> {
        let (id, off) = self.split(a)?;
        let o = self.obj(st, id)?;
        if off + n > o.data.len() as u64 {
            fail!("load out of bounds: off {} size {} of object of {} bytes", off, n, o.data.len());
        }
        let (off, n) = (off as usize, n as usize);
        if n <= 8 && (o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == 0)) {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(C(u64::from_le_bytes(b)));
        }
        let byte = |i: usize| -> E {
            if !o.sym.is_empty() && o.sym[off + i] != 0 {
                let e = o.sym[off + i];
                if mask(e) & !st.single == 0 {
                    k(eval(e, &st.path.model), 8)
                } else if let N::Var(raw) = node(e).n {
                    let i = var_index(raw);
                    let (lo, hi) = hull(&st.path.dom[i as usize]);
                    if hi - lo < 16 && ((hi - lo) as u128) < maxv(e) {
                        crate::expr::add(crate::expr::off(i, lo, hi), k(lo as u128, 8))
                    } else {
                        e
                    }
                } else {
                    e
                }
            } else {
                k(o.data[off + i] as u128, 8)
            }
        };
        let mut e = byte(n - 1);
        for i in (0..n - 1).rev() {
            e = concat(e, byte(i));
        }
        Ok(mk(e))
    }
    fn store_n(&self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        let (id, off) = self.split(a)?;
        let o = self.obj_mut(st, id)?;
        if off + n > o.data.len() as u64 {
            fail!("store out of bounds: off {} size {} of object of {} bytes", off, n, o.data.len());
        }
        let (off, n) = (off as usize, n as usize);
        match v {
            C(x) => {
                let b = x.to_le_bytes();
                for i in 0..n {
                    o.data[off + i] = if i < 8 { b[i] } else { 0 };
                }
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym[off + i] = 0;
                    }
                }
            }
            S(e) => {
                let e = if (width(*e) as usize) < n * 8 { zext(*e, (n * 8) as u8) } else { *e };
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    let b = extract(e, (i * 8) as u8, 8);
                    match isk(b) {
                        Some(x) => {
                            o.data[off + i] = x as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b,
                    }
                }
            }
            A(_) => fail!("store_n of aggregate"),
        }
        Ok(())
    }
    fn load_ty(&self, st: &State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as u64;
                let v = self.load_n(st, a, n)?;
                if *w % 8 != 0 {
                    return Ok(match v {
                        C(x) => C(x & m64(*w)),
                        S(e) => mk(trunc(e, *w as u8)),
                        v => v,
                    });
                }
                Ok(v)
            }
            Ty::Ptr | Ty::F64 => self.load_n(st, a, 8),
            Ty::F32 => self.load_n(st, a, 4),
            Ty::Arr(n, e) => {
                let s = e.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * s, e)?);
                }
                Ok(A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                if **e == Ty::Int(1) {
                    fail!("load of i1 vector");
                }
                let s = e.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * s, e)?);
                }
                Ok(A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = t.field_off(i);
                    v.push(self.load_ty(st, a + o, &ft)?);
                }
                Ok(A(Rc::new(v)))
            }
            _ => fail!("load type {:?}", t),
        }
    }
    fn store_ty(&self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => self.store_n(st, a, ((*w + 7) / 8) as u64, v),
            Ty::Ptr | Ty::F64 => self.store_n(st, a, 8, v),
            Ty::F32 => self.store_n(st, a, 4, v),
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let s = e.size();
                if let A(x) = v {
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, a + i as u64 * s, e, y)?;
                    }
                    return Ok(());
                }
                fail!("store agg")
            }
            Ty::Struct(..) => {
                if let A(x) = v {
                    for (i, y) in x.iter().enumerate() {
                        let (o, ft) = t.field_off(i);
                        self.store_ty(st, a + o, &ft, y)?;
                    }
                    return Ok(());
                }
                fail!("store agg")
            }
            _ => fail!("store type {:?}", t),
        }
    }
    fn copy(&self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.split(s)?;
        let (data, sym) = {
            let o = self.obj(st, si)?;
            if so + n > o.data.len() as u64 {
                fail!("memcpy source out of bounds: {}+{} of {}", so, n, o.data.len());
            }
            let (a, b) = (so as usize, (so + n) as usize);
            (o.data[a..b].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[a..b].to_vec() })
        };
        let (di, dof) = self.split(d)?;
        let o = self.obj_mut(st, di)?;
        if dof + n > o.data.len() as u64 {
            fail!("memcpy destination out of bounds: {}+{} of {}", dof, n, o.data.len());
        }
        let (a, b) = (dof as usize, (dof + n) as usize);
        o.data[a..b].copy_from_slice(&data);
        let anysym = sym.iter().any(|x| *x != 0);
        if anysym {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[a..b].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[a..b] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn bytes(&self, st: &State, a: u64, n: u64) -> R<Vec<E>> {
        let mut v = vec![];
        for i in 0..n {
            v.push(match self.load_n(st, a + i, 1)? {
                C(x) => k(x as u128, 8),
                S(e) => e,
                _ => unreachable!(),
            });
        }
        Ok(v)
    }
    fn cstring(&self, st: &State, a: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n.min(400) {
            match self.load_n(st, a + i, 1) {
                Ok(C(x)) => s.push(x as u8),
                Ok(S(e)) => s.push(eval(e, &st.path.model) as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    }

    // ---------------------------------------------------------------- path
    #[inline]
    fn simp(&self, st: &State, e: E) -> Val {
        if mask(e) & !st.single == 0 && width(e) <= 64 {
            return C(eval(e, &st.path.model) as u64);
        }
        if !st.conc.is_empty() {
            if let Some(v) = st.conc.get(&e) {
                return C(*v);
            }
        }
        S(e)
    }
    fn assume_m(&mut self, st: &mut State, c: E, m: Rc<Vec<u8>>) {
        let before = st.path.dom.clone();
        self.s.assume(&mut st.path, c, m);
        if mask(c).count_ones() > 1 {
            let nc = not(c);
            let cm = Rc::make_mut(&mut st.conc);
            cm.insert(c, 1);
            cm.insert(nc, 0);
        }
        if !Rc::ptr_eq(&before, &st.path.dom) {
            for i in 0..st.nvars as usize {
                if st.single >> i & 1 == 0 && dcount(&st.path.dom[i]) == 1 {
                    st.single |= 1u128 << i;
                }
            }
        }
    }
    fn notefork(&mut self, st: &mut State) {
        st.forks += 1;
        self.forks += 1;
        let f = st.frames.last().unwrap();
        *self.forkstat.entry((f.f, f.b)).or_insert(0) += 1;
    }
    /// decide a boolean: Some(b) if forced; None if both are possible, in which case the
    /// second component carries the two witnesses (true, false)
    fn decide(&mut self, st: &State, e: E) -> R<(bool, bool, Option<(Rc<Vec<u8>>, Rc<Vec<u8>>)>)> {
        let cur = eval(e, &st.path.model) != 0;
        let other = if cur { not(e) } else { e };
        match self.s.sat(&st.path, other) {
            Res::Unsat => Ok((cur, !cur, None)),
            Res::Sat(m) => Ok((
                true,
                true,
                Some(if cur { (st.path.model.clone(), m) } else { (m, st.path.model.clone()) }),
            )),
            Res::Unknown => Err(End::Fail("solver gave up on a branch condition".into())),
        }
    }
    /// value of a symbolic word, forking over its feasible values (the current instruction is
    /// re-executed in the sibling state)
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        match self.simp(st, e) {
            C(v) => return Ok(v),
            _ => {}
        }
        let v = eval(e, &st.path.model) as u64;
        let c = eq(e, k(v as u128, width(e)));
        let nc = not(c);
        match self.s.sat(&st.path, nc) {
            Res::Unsat => {}
            Res::Sat(m) => {
                let mut o = st.clone();
                self.assume_m(&mut o, nc, m);
                self.notefork(st);
                o.forks += 1;
                self.work.push(o);
                let m = st.path.model.clone();
                self.assume_m(st, c, m);
            }
            Res::Unknown => fail!("solver gave up while concretising"),
        }
        Rc::make_mut(&mut st.conc).insert(e, v);
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            C(x) => Ok(*x),
            S(e) => self.concretize(st, *e),
            A(_) => Err(End::Fail("concretise aggregate".into())),
        }
    }
    /// fork on a boolean; returns the side taken by `st`
    fn fork_bool(&mut self, st: &mut State, e: E) -> R<bool> {
        match self.simp(st, e) {
            C(v) => return Ok(v & 1 != 0),
            _ => {}
        }
        let (t, f, w) = self.decide(st, e)?;
        match w {
            None => {
                debug_assert!(t != f);
                Ok(t)
            }
            Some((mt, mf)) => {
                let mut o = st.clone();
                let ne = not(e);
                self.assume_m(&mut o, ne, mf);
                Rc::make_mut(&mut o.conc).insert(e, 0);
                self.notefork(st);
                o.forks += 1;
                self.work.push(o);
                self.assume_m(st, e, mt);
                Rc::make_mut(&mut st.conc).insert(e, 1);
                Ok(true)
            }
        }
    }

    // ---------------------------------------------------------------- ops
    pub fn bin(&self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::UDiv if y != 0 => x / y,
                BinOp::URem if y != 0 => x % y,
                BinOp::SDiv if y != 0 => s(x).wrapping_div(s(y)) as u64,
                BinOp::SRem if y != 0 => s(x).wrapping_rem(s(y)) as u64,
                BinOp::Shl => {
                    if y < w as u64 {
                        x << y
                    } else {
                        0
                    }
                }
                BinOp::LShr => {
                    if y < w as u64 {
                        x >> y
                    } else {
                        0
                    }
                }
                BinOp::AShr => (s(x) >> y.min(63)) as u64,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                _ => fail!("division by zero in IR"),
            };
            return Ok(C(r & m64(w)));
        }
        let (x, y) = (toe(a, w), toe(b, w));
        Ok(mk(match op {
            BinOp::Add => add(x, y),
            BinOp::Sub => sub(x, y),
            BinOp::Mul => mul(x, y),
            BinOp::UDiv => udiv(x, y),
            BinOp::URem => urem(x, y),
            BinOp::SDiv => sdiv(x, y),
            BinOp::SRem => srem(x, y),
            BinOp::Shl => shl(x, y),
            BinOp::LShr => lshr(x, y),
            BinOp::AShr => ashr(x, y),
            BinOp::And => and(x, y),
            BinOp::Or => or(x, y),
            BinOp::Xor => xor(x, y),
            _ => fail!("float op on ints"),
        }))
    }
    fn icmp(&self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (C(x), C(y)) = (a, b) {
            let s = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
            let (x, y) = (*x, *y);
            return C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            } as u64);
        }
        let (x, y) = (toe(a, w), toe(b, w));
        use crate::expr::C as CC;
        mk(match p {
            Pred::Eq => eq(x, y),
            Pred::Ne => not(eq(x, y)),
            Pred::Ugt => cmp(CC::Ult, y, x),
            Pred::Uge => cmp(CC::Ule, y, x),
            Pred::Ult => cmp(CC::Ult, x, y),
            Pred::Ule => cmp(CC::Ule, x, y),
            Pred::Sgt => cmp(CC::Slt, y, x),
            Pred::Sge => cmp(CC::Sle, y, x),
            Pred::Slt => cmp(CC::Slt, x, y),
            Pred::Sle => cmp(CC::Sle, x, y),
        })
    }
    fn fl(v: &Val, d: bool) -> R<f64> {
        match v {
            C(x) => Ok(if d { f64::from_bits(*x) } else { f32::from_bits(*x as u32) as f64 }),
            _ => Err(End::Fail("symbolic floating point".into())),
        }
    }
    /// the value of a float; a symbolic one is split into its values
    fn flc(&mut self, st: &mut State, v: &Val, d: bool) -> R<f64> {
        let c = C(self.conc(st, v)?);
        Self::fl(&c, d)
    }
    fn unfl(v: f64, d: bool) -> Val {
        C(if d { v.to_bits() } else { (v as f32).to_bits() as u64 })
    }
    /// flatten to one bit-vector (little endian element order)
    fn flat(&self, v: &Val, t: &Ty) -> E {
        match (v, t) {
            (A(x), Ty::Vec(_, e)) => {
                let w = e.bits();
                let mut r = toe(&x[x.len() - 1], w);
                for i in (0..x.len() - 1).rev() {
                    r = concat(r, toe(&x[i], w));
                }
                r
            }
            _ => toe(v, t.bits()),
        }
    }
    fn cast(&self, op: CastOp, a: &Ty, b: &Ty, v: &Val) -> R<Val> {
        if let Ty::Vec(_, eb) = b {
            if op == CastOp::Bitcast {
                if a == b {
                    return Ok(v.clone());
                }
                let e = self.flat(v, a);
                let w = eb.bits() as u8;
                let n = width(e) / w;
                return Ok(A(Rc::new((0..n).map(|i| mk(extract(e, i * w, w))).collect())));
            }
            if let (A(x), Ty::Vec(_, ea)) = (v, a) {
                let mut o = vec![];
                for y in x.iter() {
                    o.push(self.cast(op, ea, eb, y)?);
                }
                return Ok(A(Rc::new(o)));
            }
            fail!("vector cast");
        }
        Ok(match op {
            CastOp::Bitcast => match v {
                A(_) => {
                    if matches!(b, Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..)) {
                        v.clone()
                    } else {
                        mk(self.flat(v, a))
                    }
                }
                _ => v.clone(),
            },
            CastOp::Trunc => match v {
                C(x) => C(x & m64(b.bits())),
                S(e) => mk(trunc(*e, b.bits() as u8)),
                _ => fail!("trunc"),
            },
            CastOp::ZExt => match v {
                C(x) if b.bits() <= 64 => C(*x),
                _ => mk(zext(toe(v, a.bits()), b.bits() as u8)),
            },
            CastOp::SExt => match v {
                C(x) if b.bits() <= 64 => {
                    let w = a.bits();
                    C(((((*x) << (64 - w)) as i64) >> (64 - w)) as u64 & m64(b.bits()))
                }
                _ => mk(sext(toe(v, a.bits()), b.bits() as u8)),
            },
            CastOp::PtrInt => match v {
                C(x) if b.bits() <= 64 => C(*x & m64(b.bits())),
                _ => mk(zext(toe(v, a.bits()), b.bits() as u8)),
            },
            CastOp::UiToFp => match v {
                C(x) => {
                    if *b == Ty::F64 {
                        C((*x as f64).to_bits())
                    } else {
                        C((*x as f32).to_bits() as u64)
                    }
                }
                _ => fail!("uitofp of a symbolic value"),
            },
            CastOp::SiToFp => match v {
                C(x) => {
                    let w = a.bits();
                    let s = (((*x) << (64 - w)) as i64) >> (64 - w);
                    if *b == Ty::F64 {
                        C((s as f64).to_bits())
                    } else {
                        C((s as f32).to_bits() as u64)
                    }
                }
                _ => fail!("sitofp of a symbolic value"),
            },
            CastOp::FpToUi => C(Self::fl(v, *a == Ty::F64)? as u64 & m64(b.bits())),
            CastOp::FpToSi => C(Self::fl(v, *a == Ty::F64)? as i64 as u64 & m64(b.bits())),
            CastOp::FpExt | CastOp::FpTrunc => Self::unfl(Self::fl(v, *a == Ty::F64)?, *b == Ty::F64),
        })
    }
    fn extract(v: &Val, ix: &[u32]) -> Val {
        let mut c = v.clone();
        for i in ix {
            c = match &c {
                A(x) => x[*i as usize].clone(),
                _ => panic!("extractvalue on scalar"),
            };
        }
        c
    }
    fn insert(v: &Val, e: Val, ix: &[u32]) -> Val {
        if ix.is_empty() {
            return e;
        }
        match v {
            A(x) => {
                let mut y = (**x).clone();
                y[ix[0] as usize] = Self::insert(&x[ix[0] as usize], e, &ix[1..]);
                A(Rc::new(y))
            }
            _ => panic!("insertvalue on scalar"),
        }
    }

    /// load through a possibly symbolic address
    fn load_addr(&mut self, st: &mut State, p: &Val, t: &Ty) -> R<Val> {
        match p {
            C(a) => self.load_ty(st, *a, t),
            S(e) => {
                match self.simp(st, *e) {
                    C(a) => return self.load_ty(st, a, t),
                    _ => {}
                }
                let m = mask(*e);
                // table read: all feasible addresses inside one concrete object
                if t.is_scalar() && t.bits() % 8 == 0 {
                    let cur = eval(*e, &st.path.model) as u64;
                    let (id, _) = self.split(cur)?;
                    let base = OBASE + ((id as u64) << OSH);
                    let o = self.obj(st, id)?.clone();
                    let n = t.size();
                    let len = o.data.len() as u64;
                    if len >= n && o.sym.is_empty() && len <= 4096 {
                        // every feasible address in [base, base+len-n]?
                        let idx = sub(*e, k(base as u128, 64));
                        let inb = cmp(crate::expr::C::Ule, idx, k((len - n) as u128, 64));
                        let ok = match isk(inb) {
                            Some(v) => v != 0,
                            None => matches!(self.s.sat(&st.path, not(inb)), Res::Unsat),
                        };
                        if ok {
                            let tb: Vec<u64> = (0..=(len - n) as usize)
                                .map(|i| {
                                    let mut b = [0u8; 8];
                                    b[..n as usize].copy_from_slice(&o.data[i..i + n as usize]);
                                    u64::from_le_bytes(b)
                                })
                                .collect();
                            return Ok(mk(tbl(tb, (n * 8) as u8, idx)));
                        }
                    }
                }
                let _ = m;
                let a = self.concretize(st, *e)?;
                self.load_ty(st, a, t)
            }
            _ => fail!("load address"),
        }
    }

    fn set(st: &mut State, d: u32, v: Val) {
        let f = st.frames.last_mut().unwrap();
        f.regs[d as usize] = v;
    }
    #[inline]
    fn get(st: &State, o: &O) -> Val {
        match o {
            O::R(r) => {
                let f = unsafe { st.frames.last().unwrap_unchecked() };
                match &f.regs[*r as usize] {
                    C(x) => C(*x),
                    v => v.clone(),
                }
            }
            O::C(c) => C(*c),
            O::V(v) => v.clone(),
        }
    }
    fn jump(&self, st: &mut State, t: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.b;
        let blk = &self.p.funcs[f.f as usize].blocks[t as usize];
        if !blk.phis.is_empty() {
            if let Some((_, v)) = blk.phis.iter().find(|x| x.0 == from) {
                if v.len() == 1 {
                    let val = match &v[0].1 {
                        O::R(r) => f.regs[*r as usize].clone(),
                        O::C(c) => C(*c),
                        O::V(v) => v.clone(),
                    };
                    f.regs[v[0].0 as usize] = val;
                } else {
                    let vals: Vec<Val> = v
                        .iter()
                        .map(|(_, o)| match o {
                            O::R(r) => f.regs[*r as usize].clone(),
                            O::C(c) => C(*c),
                            O::V(v) => v.clone(),
                        })
                        .collect();
                    for ((d, _), val) in v.iter().zip(vals) {
                        f.regs[*d as usize] = val;
                    }
                }
            } else {
                panic!("phi without entry for predecessor");
            }
        }
        f.b = t;
        f.ip = 0;
    }

    fn tape_vals(&self, st: &State, m: &[u8]) -> Vec<u32> {
        st.tape
            .iter()
            .map(|t| match t {
                T::Var(i, _) => m[*i as usize] as u32,
                T::Choice(c) => *c,
            })
            .collect()
    }
    pub fn record(&mut self, st: &State, kind: &'static str, label: String, m: &[u8]) {
        if kind != "path" && kind != "panic" {
            let key = format!("{}|{}|{}", kind, st.harness, label);
            let n = self.seen.entry(key).or_insert(0);
            *n += 1;
            if *n > self.maxviol.max(if kind == "fail" { 40 } else { 0 }) {
                return;
            }
        }
        let ev = |v: &Vec<Vec<E>>| -> Vec<Vec<u8>> {
            v.iter().map(|b| b.iter().map(|e| eval(*e, m) as u8).collect()).collect()
        };
        let r = Record {
            kind,
            harness: st.harness,
            label,
            tape: self.tape_vals(st, m),
            obs: ev(&st.obs),
            notes: ev(&st.notes),
        };
        self.records.push(r);
    }
    fn check(&mut self, st: &mut State, c: &Val, label: String, known: Option<(&Val, String)>) -> R<()> {
        let key = (st.harness, label.clone());
        st.checks += 1;
        let e = match c {
            C(x) if *x & 1 != 0 => {
                self.checks.entry(key).or_insert([0; 4])[0] += 1;
                return Ok(());
            }
            C(_) => k(0, 1),
            S(e) => *e,
            _ => fail!("check on aggregate"),
        };
        let ne = not(e);
        self.s.st.assert_queries += 1;
        match known {
            None => match self.s.sat(&st.path, ne) {
                Res::Unsat => {
                    self.s.st.assert_unsat += 1;
                    self.checks.entry(key).or_insert([0; 4])[1] += 1;
                    return Ok(());
                }
                Res::Sat(m) => {
                    self.checks.entry(key).or_insert([0; 4])[2] += 1;
                    self.record(st, "violation", label, &m);
                }
                Res::Unknown => fail!("solver gave up on check {}", label),
            },
            Some((kn, fid)) => {
                let ke = toe(kn, 1);
                let mut any = false;
                match self.s.sat(&st.path, and(ne, not(ke))) {
                    Res::Unsat => {}
                    Res::Sat(m) => {
                        any = true;
                        self.checks.entry(key.clone()).or_insert([0; 4])[2] += 1;
                        self.record(st, "violation", label.clone(), &m);
                    }
                    Res::Unknown => fail!("solver gave up on check {}", label),
                }
                match self.s.sat(&st.path, and(ne, ke)) {
                    Res::Unsat => {}
                    Res::Sat(m) => {
                        any = true;
                        self.checks.entry(key.clone()).or_insert([0; 4])[3] += 1;
                        self.record(st, "known", format!("{}|{}", label, fid), &m);
                    }
                    Res::Unknown => fail!("solver gave up on check {}", label),
                }
                if !any {
                    self.s.st.assert_unsat += 1;
                    self.checks.entry(key).or_insert([0; 4])[1] += 1;
                    return Ok(());
                }
            }
        }
        // continue on the side where the check holds
        match self.s.sat(&st.path, e) {
            Res::Sat(m) => {
                self.assume_m(st, e, m);
                Ok(())
            }
            _ => Err(End::Dropped),
        }
    }

    fn hook(&mut self, st: &mut State, h: H, name: &str, args: &[Val], tys: &[(O, Ty)], ret: &Ty) -> R<Val> {
        macro_rules! cc {
            ($i:expr) => {
                self.conc(st, &args[$i])?
            };
        }
        let w = |i: usize| tys[i].1.bits();
        Ok(match h {
            H::Panic => {
                // the Location argument is the last pointer argument
                let mut loc = String::from("?");
                for a in args.iter().rev() {
                    if let C(p) = a {
                        if let Ok(C(fp)) = self.load_n(st, *p, 8) {
                            if let (Ok(C(n)), Ok(C(line))) = (self.load_n(st, *p + 8, 8), self.load_n(st, *p + 16, 4)) {
                                if n < 300 && line < 100000 && self.split(fp).is_ok() {
                                    let s = self.cstring(st, fp, n);
                                    if s.ends_with(".rs\0") || s.ends_with(".rs") {
                                        loc = format!("{}:{}", s.trim_end_matches('\0'), line);
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                let mut callers = vec![];
                for f in st.frames.iter().rev() {
                    let n = &self.p.funcs[f.f as usize].pretty;
                    if n.contains("webrtc_sdp") {
                        callers.push(n.clone());
                        break;
                    }
                }
                return Err(End::Panic(format!("{} in {}", loc, callers.join(" "))));
            }
            H::Abort => return Err(End::Panic("abort".into())),
            H::Malloc => {
                let n = cc!(0);
                if n > 1 << 22 {
                    fail!("allocation of {} bytes", n);
                }
                C(self.alloc(st, n, 0))
            }
            H::Calloc => {
                let n = cc!(0) * cc!(1);
                if n > 1 << 22 {
                    fail!("allocation of {} bytes", n);
                }
                C(self.alloc(st, n, 0))
            }
            H::Memalign => {
                let n = cc!(2);
                if n > 1 << 22 {
                    fail!("allocation of {} bytes", n);
                }
                let a = self.alloc(st, n, 0);
                let p = cc!(0);
                self.store_n(st, p, 8, &C(a))?;
                C(0)
            }
            H::Realloc => {
                let p = cc!(0);
                let n = cc!(1);
                if n > 1 << 22 {
                    fail!("allocation of {} bytes", n);
                }
                if p == 0 {
                    return Ok(C(self.alloc(st, n, 0)));
                }
                let (id, off) = self.split(p)?;
                if off != 0 {
                    fail!("realloc of interior pointer");
                }
                let o = self.obj_mut(st, id)?;
                o.data.resize(n as usize, 0);
                if !o.sym.is_empty() {
                    o.sym.resize(n as usize, 0);
                }
                C(p)
            }
            H::Free => {
                let p = cc!(0);
                if p != 0 {
                    let (id, off) = self.split(p)?;
                    let g = self.p.globs.len() as u32;
                    if off != 0 || id <= g || self.obj(st, id)?.kind != 0 {
                        fail!("invalid free");
                    }
                    self.dealloc(st, id - g - 1);
                }
                C(0)
            }
            H::Bcmp | H::Memcmp => {
                let n = cc!(2);
                if n == 0 {
                    return Ok(C(0));
                }
                let (a, b) = (cc!(0), cc!(1));
                let x = self.bytes(st, a, n)?;
                let y = self.bytes(st, b, n)?;
                if h == H::Bcmp {
                    let mut all = k(1, 1);
                    for (p, q) in x.iter().zip(y.iter()) {
                        let t = eq(*p, *q);
                        if isk(t) == Some(0) {
                            return Ok(C(1));
                        }
                        all = and(all, t);
                    }
                    mk(ite(all, k(0, 32), k(1, 32)))
                } else {
                    let mut r = k(0, 32);
                    for (p, q) in x.iter().zip(y.iter()).rev() {
                        let lt = cmp(crate::expr::C::Ult, *p, *q);
                        let e = eq(*p, *q);
                        r = ite(e, r, ite(lt, k(0xffff_ffff, 32), k(1, 32)));
                    }
                    mk(r)
                }
            }
            H::Strlen => {
                let a = cc!(0);
                let mut n = 0;
                loop {
                    match self.load_n(st, a + n, 1)? {
                        C(0) => break,
                        C(_) => n += 1,
                        S(e) => {
                            let v = self.concretize(st, e)?;
                            if v == 0 {
                                break;
                            }
                            n += 1;
                        }
                        _ => unreachable!(),
                    }
                }
                C(n)
            }
            H::Memcpy | H::Memmove => {
                let n = cc!(2);
                if n > 0 {
                    let (d, s) = (cc!(0), cc!(1));
                    self.copy(st, d, s, n)?;
                    C(d)
                } else {
                    args[0].clone()
                }
            }
            H::Memset => {
                let n = cc!(2);
                if n > 0 {
                    let d = cc!(0);
                    let v = match &args[1] {
                        C(x) => C(*x & 0xff),
                        S(e) => S(trunc(*e, 8)),
                        v => v.clone(),
                    };
                    for i in 0..n {
                        self.store_n(st, d + i, 1, &v)?;
                    }
                }
                args[0].clone()
            }
            H::Memchr | H::Memrchr => {
                // fn(x: u8, text: ptr, len) -> Option<usize>
                let (p, n) = (cc!(1), cc!(2));
                let x = toe(&args[0], 8);
                let b = self.bytes(st, p, n)?;
                let order: Vec<usize> =
                    if h == H::Memchr { (0..b.len()).collect() } else { (0..b.len()).rev().collect() };
                let start = st.scratch as usize;
                for (j, i) in order.iter().enumerate() {
                    if j < start {
                        continue;
                    }
                    let e = eq(b[*i], x);
                    let hit = match self.simp(st, e) {
                        C(v) => v & 1 != 0,
                        _ => {
                            st.scratch = j as u64;
                            // the sibling re-executes from this position with e == false
                            self.fork_bool(st, e)?
                        }
                    };
                    if hit {
                        st.scratch = 0;
                        return Ok(A(Rc::new(vec![C(1), C(*i as u64)])));
                    }
                }
                st.scratch = 0;
                A(Rc::new(vec![C(0), C(0)]))
            }
            H::SymU8 => {
                let m = cc!(0) as u8;
                let i = st.nvars;
                if i >= 128 {
                    fail!("more than 128 symbolic bytes");
                }
                let a = ar();
                while a.vars.len() <= i as usize {
                    a.vars.push(255);
                }
                a.vars[i as usize] = m;
                let e = var(i);
                st.nvars += 1;
                Rc::make_mut(&mut st.path.dom).push(dom_max(m));
                if m == 0 {
                    st.single |= 1u128 << i;
                }
                Rc::make_mut(&mut st.path.model)[i as usize] =
                    if m == 255 || m == 127 { b'a' } else { 0 };
                Rc::make_mut(&mut st.tape).push(T::Var(i, m));
                S(e)
            }
            H::SymChoice => {
                let n = cc!(0);
                if n == 0 {
                    return Err(End::Dropped);
                }
                let start = st.scratch;
                if start + 1 < n {
                    let mut o = st.clone();
                    o.scratch = start + 1;
                    o.forks += 1;
                    self.notefork(st);
                    self.work.push(o);
                }
                st.scratch = 0;
                Rc::make_mut(&mut st.tape).push(T::Choice(start as u32));
                C(start)
            }
            H::SymAssume => match &args[0] {
                C(x) => {
                    if *x & 1 == 0 {
                        return Err(End::Dropped);
                    }
                    C(0)
                }
                S(e) => match self.s.sat(&st.path, *e) {
                    Res::Sat(m) => {
                        self.assume_m(st, *e, m);
                        C(0)
                    }
                    Res::Unsat => return Err(End::Dropped),
                    Res::Unknown => fail!("solver gave up on an assumption"),
                },
                _ => fail!("assume"),
            },
            H::SymCheck => {
                let (p, n) = (cc!(1), cc!(2));
                let l = self.cstring(st, p, n);
                self.check(st, &args[0], l, None)?;
                C(0)
            }
            H::SymKnown => {
                let (p, n) = (cc!(2), cc!(3));
                let (q, m) = (cc!(4), cc!(5));
                let l = self.cstring(st, p, n);
                let f = self.cstring(st, q, m);
                self.check(st, &args[0], l, Some((&args[1], f)))?;
                C(0)
            }
            H::SymCover => {
                let (p, n) = (cc!(0), cc!(1));
                let l = self.cstring(st, p, n);
                *self.covers.entry((st.harness, l)).or_insert(0) += 1;
                C(0)
            }
            H::SymObserve | H::SymNote => {
                let (p, n) = (cc!(0), cc!(1));
                let b = self.bytes(st, p, n)?;
                if h == H::SymObserve {
                    Rc::make_mut(&mut st.obs).push(b);
                } else {
                    Rc::make_mut(&mut st.notes).push(b);
                }
                C(0)
            }
            H::SymIsSym => C(match &args[0] {
                S(_) => 1,
                _ => 0,
            }),
            H::Concrete => {
                // concretise a byte by forking over its values
                C(cc!(0))
            }
            H::Nop => C(0),
            H::Ret0 => C(0),
            H::GetEnv => C(0),
            H::KeyCreate => {
                let p = cc!(0);
                self.store_n(st, p, 4, &C(1))?;
                C(0)
            }
            H::Syscall => {
                let (b, n) = if name == "getrandom" { (cc!(0), cc!(1)) } else { (cc!(1), cc!(2)) };
                if name != "getrandom" && cc!(0) != 318 {
                    fail!("syscall {}", cc!(0));
                }
                for i in 0..n {
                    self.store_n(st, b + i, 1, &C(0x5a))?;
                }
                C(n)
            }
            H::UMax | H::UMin | H::SMax | H::SMin => {
                if let Ty::Vec(..) = tys[0].1 {
                    fail!("vector {}", name);
                }
                let p = match h {
                    H::UMax => Pred::Ugt,
                    H::UMin => Pred::Ult,
                    H::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w(0), &args[0], &args[1]);
                match c {
                    C(1) => args[0].clone(),
                    C(_) => args[1].clone(),
                    S(e) => mk(ite(e, toe(&args[0], w(0)), toe(&args[1], w(0)))),
                    _ => unreachable!(),
                }
            }
            H::USubSat => {
                let c = self.icmp(Pred::Ult, w(0), &args[0], &args[1]);
                let d = self.bin(BinOp::Sub, w(0), &args[0], &args[1])?;
                match c {
                    C(1) => C(0),
                    C(_) => d,
                    S(e) => mk(ite(e, k(0, w(0) as u8), toe(&d, w(0)))),
                    _ => unreachable!(),
                }
            }
            H::UAddSat => {
                let d = self.bin(BinOp::Add, w(0), &args[0], &args[1])?;
                let c = self.icmp(Pred::Ult, w(0), &d, &args[0]);
                match c {
                    C(1) => C(m64(w(0))),
                    C(_) => d,
                    S(e) => mk(ite(e, k(u128::MAX, w(0) as u8), toe(&d, w(0)))),
                    _ => unreachable!(),
                }
            }
            H::UAddO | H::USubO | H::UMulO | H::SAddO | H::SSubO | H::SMulO => {
                let n = w(0);
                let (op, signed) = match h {
                    H::UAddO => (BinOp::Add, false),
                    H::USubO => (BinOp::Sub, false),
                    H::UMulO => (BinOp::Mul, false),
                    H::SAddO => (BinOp::Add, true),
                    H::SSubO => (BinOp::Sub, true),
                    _ => (BinOp::Mul, true),
                };
                let r = self.bin(op, n, &args[0], &args[1])?;
                let o = if let (C(x), C(y)) = (&args[0], &args[1]) {
                    let (xi, yi) = if signed {
                        (sx(*x as u128, n as u8), sx(*y as u128, n as u8))
                    } else {
                        (*x as i128, *y as i128)
                    };
                    let t = match op {
                        BinOp::Add => xi.checked_add(yi),
                        BinOp::Sub => xi.checked_sub(yi),
                        _ => xi.checked_mul(yi),
                    };
                    let ok = match t {
                        None => false,
                        Some(v) if signed => v == sx(v as u128, n as u8),
                        Some(v) => v >= 0 && v as u128 <= wm(n as u8),
                    };
                    C(!ok as u64)
                } else {
                    let (x, y) = (toe(&args[0], n), toe(&args[1], n));
                    let nw = n as u8;
                    match h {
                        H::UAddO => {
                            if maxv(x).checked_add(maxv(y)).map_or(false, |m| m <= wm(nw)) {
                                C(0)
                            } else {
                                mk(cmp(crate::expr::C::Ult, toe(&r, n), x))
                            }
                        }
                        H::USubO => mk(cmp(crate::expr::C::Ult, x, y)),
                        H::UMulO => {
                            if maxv(x).checked_mul(maxv(y)).map_or(false, |m| m <= wm(nw)) {
                                C(0)
                            } else if let Some(c) = isk(y) {
                                // x*c overflows iff x > max/c
                                if c == 0 {
                                    C(0)
                                } else {
                                    mk(cmp(crate::expr::C::Ult, k(wm(nw) / c, nw), x))
                                }
                            } else if nw <= 64 {
                                let p = mul(zext(x, nw * 2), zext(y, nw * 2));
                                mk(not(eq(extract(p, nw, nw), k(0, nw))))
                            } else {
                                fail!("wide mul overflow")
                            }
                        }
                        _ => {
                            if nw <= 64 {
                                let (a, b) = (sext(x, nw * 2), sext(y, nw * 2));
                                let p = match op {
                                    BinOp::Add => add(a, b),
                                    BinOp::Sub => sub(a, b),
                                    _ => mul(a, b),
                                };
                                mk(not(eq(sext(extract(p, 0, nw), nw * 2), p)))
                            } else {
                                fail!("wide signed overflow")
                            }
                        }
                    }
                };
                A(Rc::new(vec![r, o]))
            }
            H::Ctlz | H::Cttz | H::Ctpop => {
                let n = w(0);
                match &args[0] {
                    C(x) => C(match h {
                        H::Ctlz => (x.leading_zeros() - (64 - n)) as u64,
                        H::Cttz => {
                            if *x == 0 {
                                n as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        _ => x.count_ones() as u64,
                    }),
                    S(e) => {
                        let e = *e;
                        let nw = n as u8;
                        let mut r = k(if h == H::Ctpop { 0 } else { n as u128 }, nw);
                        for i in 0..nw {
                            match h {
                                H::Ctlz => r = ite(extract(e, i, 1), k((nw - 1 - i) as u128, nw), r),
                                H::Cttz => {
                                    let j = nw - 1 - i;
                                    r = ite(extract(e, j, 1), k(j as u128, nw), r)
                                }
                                _ => r = add(r, zext(extract(e, i, 1), nw)),
                            }
                        }
                        mk(r)
                    }
                    _ => fail!("ctlz"),
                }
            }
            H::Bswap | H::Bitrev => {
                let n = w(0);
                match &args[0] {
                    C(x) => C(if h == H::Bswap { x.swap_bytes() >> (64 - n) } else { x.reverse_bits() >> (64 - n) }),
                    S(e) => {
                        let step = if h == H::Bswap { 8u8 } else { 1 };
                        let mut r = extract(*e, 0, step);
                        let mut i = step;
                        while (i as u32) < n {
                            r = concat(r, extract(*e, i, step));
                            i += step;
                        }
                        mk(r)
                    }
                    _ => fail!("bswap"),
                }
            }
            H::Fshl | H::Fshr => {
                let n = w(0);
                let s = cc!(2) % n as u64;
                if s == 0 {
                    return Ok(if h == H::Fshl { args[0].clone() } else { args[1].clone() });
                }
                let l = if h == H::Fshl { s } else { n as u64 - s };
                let a = self.bin(BinOp::Shl, n, &args[0], &C(l))?;
                let b = self.bin(BinOp::LShr, n, &args[1], &C(n as u64 - l))?;
                self.bin(BinOp::Or, n, &a, &b)?
            }
            H::UCmp | H::SCmp => {
                let p = if h == H::UCmp { Pred::Ult } else { Pred::Slt };
                let n = w(0);
                let l = self.icmp(p, n, &args[0], &args[1]);
                let e = self.icmp(Pred::Eq, n, &args[0], &args[1]);
                let rw = ret.bits() as u8;
                let r = ite(toe(&e, 1), k(0, rw), ite(toe(&l, 1), k(u128::MAX, rw), k(1, rw)));
                mk(r)
            }
            H::IsConst => C(0),
            H::TlsAddr | H::Expect => {
                if args.is_empty() {
                    C(0)
                } else {
                    args[0].clone()
                }
            }
            H::Float => {
                let d = tys[0].1 == Ty::F64;
                let r = name.strip_prefix("llvm.").unwrap_or(name);
                let p = |s: &str| r.starts_with(s);
                let x = self.flc(st, &args[0], d)?;
                let y = if args.len() > 1 && (tys[1].1 == Ty::F64 || tys[1].1 == Ty::F32) { self.flc(st, &args[1], d)? } else { 0.0 };
                if p("fptosi.sat") {
                    let n = ret.bits();
                    let (lo, hi) = (-(2f64.powi(n as i32 - 1)), 2f64.powi(n as i32 - 1));
                    let v = if x.is_nan() { 0 } else if x >= hi { (1i128 << (n - 1)) - 1 } else if x <= lo { -(1i128 << (n - 1)) } else { x as i128 };
                    return Ok(C(v as u64 & m64(n)));
                }
                if p("fptoui.sat") {
                    let n = ret.bits();
                    let v = if x.is_nan() || x <= 0.0 { 0 } else if x >= 2f64.powi(n as i32) { (1u128 << n) - 1 } else { x as u128 };
                    return Ok(C(v as u64 & m64(n)));
                }
                if p("is.fpclass") {
                    let m = match &args[1] { C(m) => *m, _ => fail!("is.fpclass") };
                    let (sub, neg) = if d { (x.is_subnormal(), x.is_sign_negative()) } else { ((x as f32).is_subnormal(), x.is_sign_negative()) };
                    let bit = if x.is_nan() { 2 | 1 } else if x.is_infinite() { if neg { 4 } else { 512 } } else if x == 0.0 { if neg { 32 } else { 64 } } else if sub { if neg { 16 } else { 128 } } else if neg { 8 } else { 256 };
                    return Ok(C((m & bit != 0) as u64));
                }
                let v = if p("minnum") || p("minimumnum") {
                    if x.is_nan() { y } else if y.is_nan() { x } else { x.min(y) }
                } else if p("maxnum") || p("maximumnum") {
                    if x.is_nan() { y } else if y.is_nan() { x } else { x.max(y) }
                } else if p("minimum") {
                    if x.is_nan() || y.is_nan() { f64::NAN } else { x.min(y) }
                } else if p("maximum") {
                    if x.is_nan() || y.is_nan() { f64::NAN } else { x.max(y) }
                } else if p("floor") {
                    x.floor()
                } else if p("ceil") {
                    x.ceil()
                } else if p("trunc") {
                    x.trunc()
                } else if p("roundeven") || p("rint") || p("nearbyint") {
                    x.round_ties_even()
                } else if p("round") {
                    x.round()
                } else if p("sqrt") {
                    x.sqrt()
                } else if p("copysign") {
                    x.copysign(y)
                } else if p("canonicalize") {
                    x
                } else if p("powi") {
                    match &args[1] {
                        C(n) if d => x.powi(*n as i32),
                        C(n) => (x as f32).powi(*n as i32) as f64,
                        _ => fail!("powi"),
                    }
                } else {
                    // fma, fmuladd
                    let z = self.flc(st, &args[2], d)?;
                    if d { if p("fma.") { x.mul_add(y, z) } else { x * y + z } } else if p("fma.") { (x as f32).mul_add(y as f32, z as f32) as f64 } else { (x as f32 * y as f32 + z as f32) as f64 }
                };
                Self::unfl(v, d)
            }
            H::Fabs => {
                let d = tys[0].1 == Ty::F64;
                Self::unfl(self.flc(st, &args[0], d)?.abs(), d)
            }
            H::Abs => {
                let n = w(0);
                let neg = self.icmp(Pred::Slt, n, &args[0], &C(0));
                let m = self.bin(BinOp::Sub, n, &C(0), &args[0])?;
                match neg {
                    C(1) => m,
                    C(_) => args[0].clone(),
                    S(e) => mk(ite(e, toe(&m, n), toe(&args[0], n))),
                    _ => unreachable!(),
                }
            }
            H::PtrMask => self.bin(BinOp::And, 64, &args[0], &args[1])?,
            H::RandKeys => A(Rc::new(vec![C(0x1234_5678), C(0x9abc_def0)])),
            H::HashFinish => C(0),
            H::FloatParse | H::StrDebug => fail!("function hook"),
            H::Unsup => fail!("unsupported function {}", name),
        })
    }

    fn retv(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let f = st.frames.pop().unwrap();
        for a in f.allocas {
            self.dealloc(st, a);
        }
        if st.frames.is_empty() {
            return Err(End::Done);
        }
        if let (Some(d), Some(v)) = (f.dst, v) {
            Self::set(st, d, v);
        }
        if let Some(n) = f.normal {
            self.jump(st, n);
        }
        Ok(())
    }

    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            let nwork = self.work.len();
            match self.step(st) {
                Ok(()) => {}
                Err(e) => return e,
            }
            if self.stop_on_fork && self.work.len() > nwork {
                return End::Forked;
            }
        }
    }

    #[inline]
    fn step(&mut self, st: &mut State) -> R<()> {
        let p: &'a Prog = self.p;
        let (fi, bi, ip) = {
            let f = st.frames.last().unwrap();
            (f.f, f.b, f.ip)
        };
        let func = &p.funcs[fi as usize];
        let ins = &func.blocks[bi as usize].ins[ip as usize];
        st.steps += 1;
        self.steps += 1;
        if st.steps > self.max_steps {
            return Err(End::Budget);
        }
        macro_rules! next {
            () => {{
                st.frames.last_mut().unwrap().ip += 1;
            }};
        }
        macro_rules! setn {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let f = st.frames.last_mut().unwrap();
                f.regs[$d as usize] = v;
                f.ip += 1;
            }};
        }
        match ins {
            L::Bin(op, w, d, a, b) => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = self.bin(*op, *w, &x, &y)?;
                setn!(*d, r);
            }
            L::VBin(op, w, d, a, b) => {
                if let (A(x), A(y)) = (Self::get(st, a), Self::get(st, b)) {
                    let mut o = Vec::with_capacity(x.len());
                    for (p, q) in x.iter().zip(y.iter()) {
                        o.push(self.bin(*op, *w, p, q)?);
                    }
                    setn!(*d, A(Rc::new(o)));
                } else {
                    fail!("vbin");
                }
            }
            L::FBin(op, dbl, d, a, b) => {
                let x = { let v = Self::get(st, a); self.flc(st, &v, *dbl)? };
                let y = { let v = Self::get(st, b); self.flc(st, &v, *dbl)? };
                let r = if *dbl {
                    match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    }
                } else {
                    let (x, y) = (x as f32, y as f32);
                    (match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    }) as f64
                };
                setn!(*d, Self::unfl(r, *dbl));
            }
            L::FNeg(dbl, d, a) => {
                let x = { let v = Self::get(st, a); self.flc(st, &v, *dbl)? };
                setn!(*d, Self::unfl(-x, *dbl));
            }
            L::FCmp(pr, dbl, d, a, b) => {
                let x = { let v = Self::get(st, a); self.flc(st, &v, *dbl)? };
                let y = { let v = Self::get(st, b); self.flc(st, &v, *dbl)? };
                let un = x.is_nan() || y.is_nan();
                let r = match pr.as_str() {
                    "oeq" => !un && x == y,
                    "one" => !un && x != y,
                    "olt" => !un && x < y,
                    "ole" => !un && x <= y,
                    "ogt" => !un && x > y,
                    "oge" => !un && x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    _ => fail!("fcmp {}", pr),
                };
                setn!(*d, C(r as u64));
            }
            L::ICmp(pr, w, d, a, b) => {
                let r = self.icmp(*pr, *w, &Self::get(st, a), &Self::get(st, b));
                setn!(*d, r);
            }
            L::VICmp(pr, w, d, a, b) => {
                if let (A(x), A(y)) = (Self::get(st, a), Self::get(st, b)) {
                    let o = x.iter().zip(y.iter()).map(|(p, q)| self.icmp(*pr, *w, p, q)).collect();
                    setn!(*d, A(Rc::new(o)));
                } else {
                    fail!("vicmp");
                }
            }
            L::Cast(op, a, b, d, x) => {
                let mut v = Self::get(st, x);
                if matches!(op, CastOp::UiToFp | CastOp::SiToFp | CastOp::FpToUi | CastOp::FpToSi | CastOp::FpExt | CastOp::FpTrunc) && matches!(v, S(_)) {
                    v = C(self.conc(st, &v)?);
                }
                let r = self.cast(*op, a, b, &v)?;
                setn!(*d, r);
            }
            L::Load(t, d, a) => {
                let pv = Self::get(st, a);
                let r = self.load_addr(st, &pv, t)?;
                setn!(*d, r);
            }
            L::Store(t, v, a) => {
                let pv = Self::get(st, a);
                let addr = self.conc(st, &pv)?;
                let v = Self::get(st, v);
                self.store_ty(st, addr, t, &v)?;
                next!();
            }
            L::Gep(d, b, off, ix) => {
                let mut cst = *off as u64;
                let base = Self::get(st, b);
                let mut sy: Option<E> = None;
                match base {
                    C(x) => cst = cst.wrapping_add(x),
                    S(e) => sy = Some(e),
                    _ => fail!("gep base"),
                }
                for (o, w, sc) in ix {
                    match Self::get(st, o) {
                        C(x) => {
                            let v = ((x << (64 - w)) as i64) >> (64 - w);
                            cst = cst.wrapping_add((v.wrapping_mul(*sc)) as u64);
                        }
                        S(e) => {
                            let t = mul(sext(e, 64), k(*sc as u64 as u128, 64));
                            sy = Some(match sy {
                                None => t,
                                Some(z) => add(z, t),
                            });
                        }
                        _ => fail!("gep idx"),
                    }
                }
                let r = match sy {
                    None => C(cst),
                    Some(e) => mk(add(e, k(cst as u128, 64))),
                };
                setn!(*d, r);
            }
            L::Alloca(d, n) => {
                let a = self.alloc(st, *n, 1);
                let id = ((a - OBASE) >> OSH) as u32 - 1 - self.p.globs.len() as u32;
                let f = st.frames.last_mut().unwrap();
                f.allocas.push(id);
                setn!(*d, C(a));
            }
            L::Select(t, d, c, a, b) => {
                let r = match Self::get(st, c) {
                    C(x) => {
                        if x & 1 != 0 {
                            Self::get(st, a)
                        } else {
                            Self::get(st, b)
                        }
                    }
                    S(e) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        match self.simp(st, e) {
                            C(v) => {
                                if v & 1 != 0 {
                                    x
                                } else {
                                    y
                                }
                            }
                            _ => {
                                if t.is_scalar() && *t != Ty::Ptr {
                                    let w = t.bits();
                                    mk(ite(e, toe(&x, w), toe(&y, w)))
                                } else {
                                    // fork: the sibling re-executes this instruction
                                    if self.fork_bool(st, e)? {
                                        x
                                    } else {
                                        y
                                    }
                                }
                            }
                        }
                    }
                    _ => fail!("select"),
                };
                setn!(*d, r);
            }
            L::VSelect(t, d, c, a, b) => {
                let et = match t {
                    Ty::Vec(_, e) => e.bits(),
                    _ => fail!("vselect"),
                };
                if let (A(c), A(x), A(y)) = (Self::get(st, c), Self::get(st, a), Self::get(st, b)) {
                    let mut o = vec![];
                    for i in 0..c.len() {
                        o.push(match &c[i] {
                            C(v) => {
                                if *v & 1 != 0 {
                                    x[i].clone()
                                } else {
                                    y[i].clone()
                                }
                            }
                            S(e) => mk(ite(*e, toe(&x[i], et), toe(&y[i], et))),
                            _ => fail!("vselect"),
                        });
                    }
                    setn!(*d, A(Rc::new(o)));
                } else {
                    fail!("vselect");
                }
            }
            L::Extract(d, a, ix) => {
                let r = Self::extract(&Self::get(st, a), ix);
                setn!(*d, r);
            }
            L::Insert(d, _t, a, e, ix) => {
                let r = Self::insert(&Self::get(st, a), Self::get(st, e), ix);
                setn!(*d, r);
            }
            L::ExtractElt(d, a, i) => {
                let i = {
                    let v = Self::get(st, i);
                    self.conc(st, &v)?
                };
                let r = Self::extract(&Self::get(st, a), &[i as u32]);
                setn!(*d, r);
            }
            L::InsertElt(_t, d, a, e, i) => {
                let i = {
                    let v = Self::get(st, i);
                    self.conc(st, &v)?
                };
                let r = Self::insert(&Self::get(st, a), Self::get(st, e), &[i as u32]);
                setn!(*d, r);
            }
            L::Shuffle(_t, d, a, b, m) => {
                if let (A(x), A(y)) = (Self::get(st, a), Self::get(st, b)) {
                    let n = x.len() as i64;
                    let o = m
                        .iter()
                        .map(|i| {
                            if *i < n {
                                x[*i as usize].clone()
                            } else {
                                y[(*i - n) as usize].clone()
                            }
                        })
                        .collect();
                    setn!(*d, A(Rc::new(o)));
                } else {
                    fail!("shuffle");
                }
            }
            L::Br(t) => self.jump(st, *t),
            L::CondBr(c, t, f) => match Self::get(st, c) {
                C(x) => self.jump(st, if x & 1 != 0 { *t } else { *f }),
                S(e) => {
                    match self.simp(st, e) {
                        C(x) => {
                            self.jump(st, if x & 1 != 0 { *t } else { *f });
                            return Ok(());
                        }
                        _ => {}
                    }
                    let (ct, _cf, w) = self.decide(st, e)?;
                    match w {
                        None => self.jump(st, if ct { *t } else { *f }),
                        Some((mt, mf)) => {
                            let mut o = st.clone();
                            self.notefork(st);
                            o.forks += 1;
                            let ne = not(e);
                            self.assume_m(&mut o, ne, mf);
                            self.jump(&mut o, *f);
                            self.work.push(o);
                            self.assume_m(st, e, mt);
                            self.jump(st, *t);
                        }
                    }
                }
                _ => fail!("condbr"),
            },
            L::Switch(w, c, def, g) => {
                let v = Self::get(st, c);
                let v = match v {
                    S(e) => self.simp(st, e),
                    v => v,
                };
                match v {
                    C(x) => {
                        let t = g.iter().find(|(_, vs)| vs.contains(&x)).map(|x| x.0).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    S(e) => {
                        let mut taken = false;
                        for (t, vs) in g.iter() {
                            if *t == *def {
                                continue;
                            }
                            let mut cnd = k(0, 1);
                            for x in vs {
                                cnd = or(cnd, eq(e, k(*x as u128, *w as u8)));
                            }
                            match isk(cnd) {
                                Some(0) => continue,
                                Some(_) => {
                                    self.jump(st, *t);
                                    taken = true;
                                    break;
                                }
                                None => {}
                            }
                            let (ct, _, wit) = self.decide(st, cnd)?;
                            match wit {
                                None => {
                                    if ct {
                                        self.jump(st, *t);
                                        taken = true;
                                        break;
                                    }
                                }
                                Some((mt, mf)) => {
                                    let mut o = st.clone();
                                    self.notefork(st);
                                    o.forks += 1;
                                    self.assume_m(&mut o, cnd, mt);
                                    self.jump(&mut o, *t);
                                    self.work.push(o);
                                    let nc = not(cnd);
                                    self.assume_m(st, nc, mf);
                                }
                            }
                        }
                        if !taken {
                            self.jump(st, *def);
                        }
                    }
                    _ => fail!("switch"),
                }
            }
            L::Ret(o) => {
                let v = o.as_ref().map(|o| Self::get(st, o));
                self.retv(st, v)?;
            }
            L::Unreachable => {
                return Err(End::Fail(format!("unreachable code executed in {}", func.pretty)));
            }
            L::Rmw(op, t, d, a, v) => {
                let pv = Self::get(st, a);
                let addr = self.conc(st, &pv)?;
                let old = self.load_ty(st, addr, t)?;
                let v = Self::get(st, v);
                let w = t.bits();
                let nv = match op.as_str() {
                    "add" => self.bin(BinOp::Add, w, &old, &v)?,
                    "sub" => self.bin(BinOp::Sub, w, &old, &v)?,
                    "and" => self.bin(BinOp::And, w, &old, &v)?,
                    "or" => self.bin(BinOp::Or, w, &old, &v)?,
                    "xor" => self.bin(BinOp::Xor, w, &old, &v)?,
                    "xchg" => v,
                    _ => fail!("atomicrmw {}", op),
                };
                self.store_ty(st, addr, t, &nv)?;
                setn!(*d, old);
            }
            L::CmpXchg(t, d, a, c, n) => {
                let pv = Self::get(st, a);
                let addr = self.conc(st, &pv)?;
                let old = self.load_ty(st, addr, t)?;
                let c = Self::get(st, c);
                let ok = match self.icmp(Pred::Eq, t.bits(), &old, &c) {
                    C(x) => x,
                    _ => fail!("symbolic cmpxchg"),
                };
                if ok != 0 {
                    let nv = Self::get(st, n);
                    self.store_ty(st, addr, t, &nv)?;
                }
                setn!(*d, A(Rc::new(vec![old, C(ok)])));
            }
            L::Nop => next!(),
            L::Call(dst, ret, tgt, args, normal) => {
                let mut av = Vec::with_capacity(args.len());
                for (o, _) in args {
                    av.push(Self::get(st, o));
                }
                let t = match tgt {
                    Tgt::Ind(o) => {
                        let v = Self::get(st, o);
                        let a = self.conc(st, &v)?;
                        if a >= FBASE && a < DBASE {
                            Tgt::F(((a - FBASE) / 16) as u32)
                        } else {
                            fail!("indirect call to {:#x} in {}", a, func.pretty);
                        }
                    }
                    Tgt::F(i) => Tgt::F(*i),
                    Tgt::H(h, n) => Tgt::H(*h, *n),
                };
                match t {
                    Tgt::F(i) => {
                        let callee = &p.funcs[i as usize];
                        let mut target = i;
                        self.called[i as usize] = true;
                        if let Some(h) = callee.hook {
                            if h == H::FloatParse {
                                // concretise the text, then run the real code
                                let (pp, n) = {
                                    let np = av.len();
                                    let a = self.conc(st, &av[np - 2].clone())?;
                                    let b = self.conc(st, &av[np - 1].clone())?;
                                    (a, b)
                                };
                                for j in 0..n {
                                    if let S(e) = self.load_n(st, pp + j, 1)? {
                                        let v = self.concretize(st, e)?;
                                        self.store_n(st, pp + j, 1, &C(v)).ok();
                                    }
                                }
                            } else if h == H::StrDebug {
                                // the escaped form of a symbolic text is modelled by the text
                                // itself (only error messages contain it)
                                let a = self.conc(st, &av[0].clone())?;
                                let b = self.conc(st, &av[1].clone())?;
                                let mut sym = false;
                                for j in 0..b {
                                    sym |= matches!(self.load_n(st, a + j, 1)?, S(_));
                                }
                                if let (true, Some(t)) = (sym, self.p.str_display) {
                                    target = t;
                                }
                            } else if h == H::HashFinish && ret.is_scalar() {
                                if let Some(d) = dst {
                                    Self::set(st, *d, C(0));
                                }
                                match normal {
                                    Some(n) => self.jump(st, *n),
                                    None => next!(),
                                }
                                return Ok(());
                            } else {
                                let r = self.hook(st, h, &callee.pretty, &av, args, ret)?;
                                if let Some(d) = dst {
                                    Self::set(st, *d, r);
                                }
                                match normal {
                                    Some(n) => self.jump(st, *n),
                                    None => next!(),
                                }
                                return Ok(());
                            }
                        }
                        if st.frames.len() > 400 {
                            fail!("call depth");
                        }
                        next!();
                        let i = target;
                        let callee = &p.funcs[i as usize];
                        let mut regs = vec![C(0); callee.nregs as usize];
                        for (j, v) in av.into_iter().enumerate().take(callee.params as usize) {
                            regs[j] = v;
                        }
                        st.frames.push(Frame { f: i, b: 0, ip: 0, regs, allocas: vec![], dst: *dst, normal: *normal });
                    }
                    Tgt::H(h, n) => {
                        let name = &p.hooknames[n as usize];
                        let r = self.hook(st, h, name, &av, args, ret)?;
                        if let Some(d) = dst {
                            Self::set(st, *d, r);
                        }
                        match normal {
                            Some(n) => self.jump(st, *n),
                            None => next!(),
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
        Ok(())
    }
}
