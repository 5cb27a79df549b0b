//! Parser for the textual LLVM IR that rustc emits (fat LTO, whole program).
//! Produces a compact register-machine form that exec.rs interprets.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Func,
    Label,
    Meta,
    Token,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size (store size rounded up to alignment)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                match b {
                    0 | 1 => 1,
                    2 => 2,
                    3 | 4 => 4,
                    5..=8 => 8,
                    _ => (b + 15) / 16 * 16,
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            _ => panic!("field_off on {:?}", self),
        }
    }
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

/// Constant (before global addresses are resolved)
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Agg(Vec<(Ty, K)>),
    Bytes(Vec<u8>),
    Zero,
    Glob(String),
    Gep(Box<K>, i64),
    /// binary constant expr
    Bin(String, Box<K>, Box<K>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(Rc<K>),
}

#[derive(Clone, Debug)]
pub struct TOp {
    pub ty: Ty,
    pub op: Op,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast, // also ptrtoint/inttoptr/freeze (no-ops up to width)
    PtrInt,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, Ty, u32, Op, Op),
    ICmp(Pred, Ty, u32, Op, Op),
    FCmp(String, Ty, u32, Op, Op),
    FNeg(Ty, u32, Op),
    Cast(CastOp, Ty, Ty, u32, Op),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    /// dst, base, const offset, (index, index type, scale)
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>),
    Alloca(u32, u64),
    Call {
        dst: Option<u32>,
        ret: Ty,
        callee: Callee,
        args: Vec<TOp>,
        normal: Option<u32>,
    },
    Select(Ty, u32, TOp, Op, Op),
    Extract(u32, Op, Vec<u32>),
    Insert(u32, TOp, TOp, Vec<u32>),
    ExtractElt(u32, Op, Op),
    InsertElt(Ty, u32, Op, Op, Op),
    Shuffle(Ty, u32, Op, Op, Rc<Vec<i64>>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<TOp>),
    Unreachable,
    Rmw(String, Ty, u32, Op, Op),
    CmpXchg(Ty, u32, Op, Op, Op),
    Nop,
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    /// phis: (dst, ty, [(pred block, op)])
    pub phis: Vec<(u32, Ty, Vec<(u32, Op)>)>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: Ty,
}

pub struct Glob {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globs: Vec<Glob>,
    pub aliases: Vec<(String, K)>,
    pub decls: Vec<String>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String),  // identifiers, keywords, type names, numbers
    Local(String), // %x
    Glob(String),  // @x
    Str(Vec<u8>),  // "..."
    CStr(Vec<u8>), // c"..."
    P(u8),         // punctuation
    End,
}

fn hexv(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => panic!("hex"),
    }
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    cur: T,
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Lex<'a> {
        let mut l = Lex { s: s.as_bytes(), i: 0, cur: T::End };
        l.adv();
        l
    }
    fn quoted(&mut self) -> Vec<u8> {
        // self.i at opening quote
        let mut out = vec![];
        self.i += 1;
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    out.push(hexv(self.s[self.i + 1]) * 16 + hexv(self.s[self.i + 2]));
                    self.i += 3;
                }
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn adv(&mut self) {
        let s = self.s;
        while self.i < s.len() && (s[self.i] == b' ' || s[self.i] == b'\t' || s[self.i] == b'\n') {
            self.i += 1;
        }
        if self.i >= s.len() || s[self.i] == b';' {
            self.cur = T::End;
            return;
        }
        let c = s[self.i];
        let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
        self.cur = match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.s[self.i] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    let st = self.i;
                    while self.i < s.len() && isw(s[self.i]) {
                        self.i += 1;
                    }
                    String::from_utf8_lossy(&s[st..self.i]).into_owned()
                };
                if c == b'%' {
                    T::Local(name)
                } else {
                    T::Glob(name)
                }
            }
            b'"' => T::Str(self.quoted()),
            b'c' if self.i + 1 < s.len() && s[self.i + 1] == b'"' => {
                self.i += 1;
                T::CStr(self.quoted())
            }
            _ if isw(c) => {
                let st = self.i;
                while self.i < s.len() && isw(s[self.i]) {
                    self.i += 1;
                }
                T::Word(String::from_utf8_lossy(&s[st..self.i]).into_owned())
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        };
    }
    fn next(&mut self) -> T {
        let t = std::mem::replace(&mut self.cur, T::End);
        self.adv();
        t
    }
    fn is_p(&self, c: u8) -> bool {
        self.cur == T::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} got {:?} at {}", c as char, self.cur, String::from_utf8_lossy(self.s));
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(&self.cur, T::Word(x) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.next() {
            T::Word(w) => w,
            t => panic!("word expected, got {:?} in {}", t, String::from_utf8_lossy(self.s)),
        }
    }
    fn int(&mut self) -> i128 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| panic!("int {}", w))
    }
    fn skip_parens(&mut self) {
        if self.is_p(b'(') {
            let mut d = 0;
            loop {
                match self.next() {
                    T::P(b'(') => d += 1,
                    T::P(b')') => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    T::End => panic!("skip_parens"),
                    _ => {}
                }
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

pub struct Parser {
    named: HashMap<String, Ty>,
}

fn is_val_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint"
            | "inttoptr" | "bitcast" | "splat" | "add" | "sub" | "xor" | "trunc" | "ptrtoaddr"
    ) || w.as_bytes()[0].is_ascii_digit()
        || w.as_bytes()[0] == b'-'
        || w.as_bytes()[0] == b'+'
}

impl Parser {
    fn ty(&self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            T::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if l.eat_w("addrspace") {
                        l.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" => Ty::Token,
                _ if is_type_word(&w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {} in {}", w, String::from_utf8_lossy(l.s)),
            },
            T::P(b'[') => {
                let n = l.int() as u64;
                assert!(l.eat_w("x"));
                let t = self.ty(l);
                l.exp(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'{') => {
                let f = self.tylist(l, b'}');
                Ty::Struct(Rc::new(f), false)
            }
            T::P(b'<') => {
                if l.eat(b'{') {
                    let f = self.tylist(l, b'}');
                    l.exp(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = l.int() as u64;
                    assert!(l.eat_w("x"));
                    let t = self.ty(l);
                    l.exp(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::Local(n) => self.named.get(&n).cloned().unwrap_or(Ty::Void),
            t => panic!("type tok {:?} in {}", t, String::from_utf8_lossy(l.s)),
        };
        // function type: ret (args)
        if l.is_p(b'(') {
            l.skip_parens();
            return Ty::Func;
        }
        t
    }
    fn tylist(&self, l: &mut Lex, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if l.eat(close) {
            return v;
        }
        loop {
            v.push(self.ty(l));
            if l.eat(close) {
                return v;
            }
            l.exp(b',');
        }
    }
    fn kflt(w: &str, ty: &Ty) -> u128 {
        let d: f64 = match w {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "qnan" | "nan" | "+nan" => f64::NAN,
            "-qnan" | "-nan" => -f64::NAN,
            _ => {
                if let Some(h) = w.strip_prefix("f0x") {
                    return u128::from_str_radix(h, 16).unwrap();
                } else if let Some(h) = w.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else {
                    w.parse().unwrap_or_else(|_| panic!("float const {}", w))
                }
            }
        };
        match ty {
            Ty::F32 => (d as f32).to_bits() as u128,
            _ => d.to_bits() as u128,
        }
    }
    fn konst(&self, l: &mut Lex, ty: &Ty) -> K {
        match l.next() {
            T::Glob(g) => K::Glob(g),
            T::CStr(b) => K::Bytes(b),
            T::Word(w) => match w.as_str() {
                "true" => K::Int(1),
                "false" => K::Int(0),
                "null" | "none" => K::Int(0),
                "undef" | "poison" | "zeroinitializer" => {
                    if ty.is_scalar() {
                        K::Int(0)
                    } else {
                        K::Zero
                    }
                }
                "splat" => {
                    l.exp(b'(');
                    let t = self.ty(l);
                    let k = self.konst(l, &t);
                    l.exp(b')');
                    let n = match ty {
                        Ty::Vec(n, _) => *n,
                        _ => panic!("splat"),
                    };
                    K::Agg((0..n).map(|_| (t.clone(), k.clone())).collect())
                }
                "getelementptr" => {
                    while !l.is_p(b'(') {
                        l.adv();
                    }
                    l.exp(b'(');
                    let sty = self.ty(l);
                    l.exp(b',');
                    let pt = self.ty(l);
                    let base = self.konst(l, &pt);
                    let mut off = 0i64;
                    let mut cur = sty;
                    let mut first = true;
                    while l.eat(b',') {
                        while l.is_w("inrange") {
                            l.adv();
                            l.skip_parens();
                        }
                        let it = self.ty(l);
                        let k = self.konst(l, &it);
                        let idx = match k {
                            K::Int(v) => {
                                let w = it.bits();
                                ((v << (128 - w)) as i128 >> (128 - w)) as i64
                            }
                            _ => panic!("gep const idx"),
                        };
                        if first {
                            off += idx * cur.size() as i64;
                            first = false;
                        } else {
                            let (o, t) = cur.field_off(idx as usize);
                            off += o as i64;
                            cur = t;
                        }
                    }
                    l.exp(b')');
                    K::Gep(Box::new(base), off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    l.exp(b'(');
                    let t = self.ty(l);
                    let k = self.konst(l, &t);
                    assert!(l.eat_w("to"));
                    let to = self.ty(l);
                    l.exp(b')');
                    if w == "trunc" {
                        let m = (1u128 << to.bits()) - 1;
                        K::Bin("and".into(), Box::new(k), Box::new(K::Int(m)))
                    } else {
                        k
                    }
                }
                "add" | "sub" | "xor" => {
                    while !l.is_p(b'(') {
                        l.adv();
                    }
                    l.exp(b'(');
                    let t = self.ty(l);
                    let a = self.konst(l, &t);
                    l.exp(b',');
                    let t2 = self.ty(l);
                    let b = self.konst(l, &t2);
                    l.exp(b')');
                    K::Bin(w, Box::new(a), Box::new(b))
                }
                _ => match ty {
                    Ty::F32 | Ty::F64 => K::Int(Self::kflt(&w, ty)),
                    Ty::Int(n) => {
                        let m = if *n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
                        if let Ok(v) = w.parse::<i128>() {
                            K::Int(v as u128 & m)
                        } else if let Ok(v) = w.parse::<u128>() {
                            K::Int(v & m)
                        } else if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                            K::Int(u128::from_str_radix(h, 16).unwrap() & m)
                        } else {
                            panic!("int const {} in {}", w, String::from_utf8_lossy(l.s))
                        }
                    }
                    _ => panic!("const {} : {:?} in {}", w, ty, String::from_utf8_lossy(l.s)),
                },
            },
            T::P(b'[') => K::Agg(self.klist(l, b']')),
            T::P(b'{') => K::Agg(self.klist(l, b'}')),
            T::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.klist(l, b'}');
                    l.exp(b'>');
                    K::Agg(v)
                } else {
                    K::Agg(self.klist(l, b'>'))
                }
            }
            t => panic!("const tok {:?} in {}", t, String::from_utf8_lossy(l.s)),
        }
    }
    fn klist(&self, l: &mut Lex, close: u8) -> Vec<(Ty, K)> {
        let mut v = vec![];
        if l.eat(close) {
            return v;
        }
        loop {
            let t = self.ty(l);
            let k = self.konst(l, &t);
            v.push((t, k));
            if l.eat(close) {
                return v;
            }
            l.exp(b',');
        }
    }

    pub fn parse(text: &str) -> Module {
        let mut p = Parser { named: HashMap::new() };
        let mut m = Module { funcs: vec![], globs: vec![], aliases: vec![], decls: vec![] };
        // first pass: named types
        for line in text.lines() {
            if line.starts_with('%') {
                let mut l = Lex::new(line);
                let n = match l.next() {
                    T::Local(n) => n,
                    _ => continue,
                };
                l.exp(b'=');
                assert!(l.eat_w("type"));
                if l.is_w("opaque") {
                    continue;
                }
                let t = p.ty(&mut l);
                p.named.insert(n, t);
            }
        }
        let mut lines = text.lines().peekable();
        let mut comment = String::new();
        while let Some(line) = lines.next() {
            match line.as_bytes().first() {
                Some(b';') => {
                    let c = line[1..].trim();
                    if !c.starts_with("Function Attrs") {
                        comment = c.to_string()
                    }
                }
                Some(b'@') => p.global(line, &mut m),
                Some(b'd') => {
                    if line.starts_with("declare") {
                        let mut l = Lex::new(line);
                        loop {
                            match l.next() {
                                T::Glob(g) => {
                                    m.decls.push(g);
                                    break;
                                }
                                T::End => break,
                                _ => {}
                            }
                        }
                    } else if line.starts_with("define") {
                        let mut body: Vec<&str> = vec![];
                        while let Some(b) = lines.next() {
                            if b == "}" {
                                break;
                            }
                            body.push(b);
                        }
                        let f = p.func(line, &body, &comment);
                        m.funcs.push(f);
                        comment.clear();
                    }
                }
                Some(_) => {}
                None => {}
            }
        }
        m
    }

    fn global(&self, line: &str, m: &mut Module) {
        let mut l = Lex::new(line);
        let name = match l.next() {
            T::Glob(g) => g,
            _ => panic!(),
        };
        l.exp(b'=');
        let mut external = false;
        loop {
            match l.next() {
                T::Word(w) => match w.as_str() {
                    "global" | "constant" => {
                        let constant = w == "constant";
                        let ty = self.ty(&mut l);
                        let init = if external || l.cur == T::End || l.is_p(b',') { None } else { Some(self.konst(&mut l, &ty)) };
                        m.globs.push(Glob { name, ty, init, constant });
                        return;
                    }
                    "alias" | "ifunc" => {
                        let _ = self.ty(&mut l);
                        l.exp(b',');
                        let t = self.ty(&mut l);
                        let k = self.konst(&mut l, &t);
                        m.aliases.push((name, k));
                        return;
                    }
                    "external" | "extern_weak" => external = true,
                    "thread_local" | "addrspace" => l.skip_parens(),
                    _ => {}
                },
                T::End => panic!("global {}", line),
                _ => {}
            }
        }
    }

    fn func(&self, head: &str, body: &[&str], comment: &str) -> Func {
        // head: define ... retty @name(params) ...
        let mut l = Lex::new(head);
        l.adv(); // define
        let mut ret = Ty::Void;
        // skip linkage/cc/attrs until type
        loop {
            match &l.cur {
                T::Word(w) if is_type_word(w) => {
                    ret = self.ty(&mut l);
                    break;
                }
                T::Word(_) => {
                    l.adv();
                    if l.is_p(b'(') {
                        l.skip_parens();
                    }
                }
                T::P(b'{') | T::P(b'[') | T::P(b'<') => {
                    ret = self.ty(&mut l);
                    break;
                }
                T::Glob(_) => break,
                t => panic!("define tok {:?}: {}", t, head),
            }
        }
        let name = match l.next() {
            T::Glob(g) => g,
            t => panic!("define name {:?}: {}", t, head),
        };
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        let mut unnamed = 0u32;
        l.exp(b'(');
        let mut params = 0;
        if !l.eat(b')') {
            loop {
                if l.is_p(b'.') || l.is_w("...") {
                    l.adv();
                    l.exp(b')');
                    break;
                }
                let _t = self.ty(&mut l);
                let mut pname = None;
                loop {
                    match &l.cur {
                        T::Word(_) => {
                            l.adv();
                            if l.is_p(b'(') {
                                l.skip_parens();
                            }
                        }
                        T::Local(n) => {
                            pname = Some(n.clone());
                            l.adv();
                        }
                        T::Str(_) => {
                            l.adv();
                            if l.eat(b'=') {
                                l.adv();
                            }
                        }
                        _ => break,
                    }
                }
                let n = pname.unwrap_or_else(|| {
                    let s = unnamed.to_string();
                    s
                });
                if n.parse::<u32>().ok() == Some(unnamed) {
                    unnamed += 1;
                }
                regs.insert(n, nregs);
                nregs += 1;
                params += 1;
                if l.eat(b')') {
                    break;
                }
                l.exp(b',');
            }
        }
        // blocks: collect labels
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut cur: Option<usize> = None;
        let mut it = body.iter().peekable();
        while let Some(line) = it.next() {
            if line.is_empty() || line.starts_with(';') || line.trim_start().starts_with("#dbg") {
                continue;
            }
            if !line.starts_with(' ') && !line.starts_with('\t') {
                // label
                let lab = if line.starts_with('"') {
                    let mut l2 = Lex::new(line);
                    match l2.next() {
                        T::Str(s) => String::from_utf8_lossy(&s).into_owned(),
                        _ => panic!(),
                    }
                } else {
                    line[..line.find(':').unwrap()].to_string()
                };
                blocks.push((lab, vec![]));
                cur = Some(blocks.len() - 1);
                continue;
            }
            if cur.is_none() {
                blocks.push((unnamed.to_string(), vec![]));
                cur = Some(0);
            }
            let t = line.trim_start();
            if t.starts_with(';') {
                continue;
            }
            let mut s = t.to_string();
            if s.starts_with("switch") {
                // join till ']'
                let mut s2 = strip_md(&s);
                while !s2.contains(']') {
                    let n = it.next().unwrap();
                    s2.push(' ');
                    s2.push_str(n.trim());
                }
                s = s2;
            } else if s.contains(" invoke ") || s.starts_with("invoke ") {
                let n = it.next().unwrap();
                s.push(' ');
                s.push_str(n.trim());
            } else if s.contains("landingpad") {
                while let Some(n) = it.peek() {
                    let t = n.trim();
                    if t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter") {
                        it.next();
                    } else {
                        break;
                    }
                }
            }
            let c = cur.unwrap();
            blocks[c].1.push(s);
        }
        let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        // pre-assign registers for all defs
        for (_, ins) in &blocks {
            for s in ins {
                if s.starts_with('%') {
                    let mut l2 = Lex::new(s);
                    if let T::Local(n) = l2.next() {
                        regs.entry(n).or_insert_with(|| {
                            nregs += 1;
                            nregs - 1
                        });
                    }
                }
            }
        }
        let mut fb = FB { p: self, regs, bidx };
        let mut out = vec![];
        for (name, ins) in &blocks {
            let mut b = Block { name: name.clone(), phis: vec![], ins: vec![] };
            for s in ins {
                fb.ins(s, &mut b);
            }
            out.push(b);
        }
        let pretty = if comment.is_empty() || comment.starts_with("Function Attrs") { name.clone() } else { comment.to_string() };
        Func { name, pretty, params, nregs, blocks: out, ret }
    }
}

fn strip_md(s: &str) -> String {
    s.to_string()
}

struct FB<'a> {
    p: &'a Parser,
    regs: HashMap<String, u32>,
    bidx: HashMap<String, u32>,
}

impl<'a> FB<'a> {
    fn op(&self, l: &mut Lex, ty: &Ty) -> Op {
        if let T::Local(n) = &l.cur {
            let r = *self.regs.get(n).unwrap_or_else(|| panic!("reg {} in {}", n, String::from_utf8_lossy(l.s)));
            l.adv();
            return Op::Reg(r);
        }
        if *ty == Ty::Meta {
            // metadata operand: skip
            loop {
                match &l.cur {
                    T::P(b'!') => l.adv(),
                    T::Word(_) | T::Str(_) => {
                        l.adv();
                        break;
                    }
                    T::P(b'{') => {
                        while !l.eat(b'}') {
                            l.adv();
                        }
                        break;
                    }
                    _ => break,
                }
            }
            if l.is_p(b'(') {
                l.skip_parens();
            }
            return Op::K(Rc::new(K::Int(0)));
        }
        Op::K(Rc::new(self.p.konst(l, ty)))
    }
    fn top(&self, l: &mut Lex) -> TOp {
        let ty = self.p.ty(l);
        let op = self.op(l, &ty);
        TOp { ty, op }
    }
    fn label(&self, l: &mut Lex) -> u32 {
        assert!(l.eat_w("label"));
        match l.next() {
            T::Local(n) => self.bidx[&n],
            t => panic!("label {:?}", t),
        }
    }
    fn ins(&mut self, s: &str, b: &mut Block) {
        let mut l = Lex::new(s);
        let l = &mut l;
        let mut dst = None;
        if let T::Local(n) = &l.cur {
            let d = self.regs[n];
            l.adv();
            l.exp(b'=');
            dst = Some(d);
        }
        let mut opc = l.word();
        if opc == "tail" || opc == "musttail" || opc == "notail" {
            opc = l.word();
        }
        let bin = |o: &str| {
            Some(match o {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        if let Some(op) = bin(&opc) {
            loop {
                match &l.cur {
                    T::Word(w) if !is_type_word(w) => l.adv(),
                    _ => break,
                }
            }
            let ty = self.p.ty(l);
            let a = self.op(l, &ty);
            l.exp(b',');
            let c = self.op(l, &ty);
            b.ins.push(I::Bin(op, ty, dst.unwrap(), a, c));
            return;
        }
        let i = match opc.as_str() {
            "icmp" => {
                l.eat_w("samesign");
                let p = match l.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "samesign" => panic!("samesign order"),
                    x => panic!("icmp {}", x),
                };
                let ty = self.p.ty(l);
                let a = self.op(l, &ty);
                l.exp(b',');
                let c = self.op(l, &ty);
                I::ICmp(p, ty, dst.unwrap(), a, c)
            }
            "fcmp" => {
                let mut w = l.word();
                while matches!(w.as_str(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    w = l.word();
                }
                let ty = self.p.ty(l);
                let a = self.op(l, &ty);
                l.exp(b',');
                let c = self.op(l, &ty);
                I::FCmp(w, ty, dst.unwrap(), a, c)
            }
            "fneg" => {
                while matches!(&l.cur, T::Word(w) if !is_type_word(w)) {
                    l.adv();
                }
                let t = self.top(l);
                I::FNeg(t.ty, dst.unwrap(), t.op)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi"
            | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                while matches!(&l.cur, T::Word(w) if !is_type_word(w)) {
                    l.adv();
                }
                let t = self.top(l);
                assert!(l.eat_w("to"));
                let to = self.p.ty(l);
                let c = match opc.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bitcast,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    _ => CastOp::PtrInt,
                };
                I::Cast(c, t.ty, to, dst.unwrap(), t.op)
            }
            "freeze" => {
                let t = self.top(l);
                I::Cast(CastOp::Bitcast, t.ty.clone(), t.ty, dst.unwrap(), t.op)
            }
            "load" => {
                while matches!(&l.cur, T::Word(w) if w=="atomic"||w=="volatile") {
                    l.adv();
                }
                let ty = self.p.ty(l);
                l.exp(b',');
                let p = self.top(l);
                I::Load(ty, dst.unwrap(), p.op)
            }
            "store" => {
                while matches!(&l.cur, T::Word(w) if w=="atomic"||w=="volatile") {
                    l.adv();
                }
                let v = self.top(l);
                l.exp(b',');
                let p = self.top(l);
                I::Store(v.ty, v.op, p.op)
            }
            "getelementptr" => {
                while matches!(&l.cur, T::Word(w) if !is_type_word(w)) {
                    l.adv();
                    if l.is_p(b'(') {
                        l.skip_parens();
                    }
                }
                let sty = self.p.ty(l);
                l.exp(b',');
                let base = self.top(l);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = sty;
                let mut first = true;
                while l.eat(b',') {
                    if l.is_p(b'!') {
                        break;
                    }
                    let t = self.top(l);
                    let w = t.ty.bits();
                    let c = match &t.op {
                        Op::K(k) => match &**k {
                            K::Int(v) => Some(((v << (128 - w)) as i128 >> (128 - w)) as i64),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        first = false;
                        let sc = cur.size() as i64;
                        match c {
                            Some(c) => off += c * sc,
                            None => idx.push((t.op, w, sc)),
                        }
                    } else {
                        match c {
                            Some(c) => match &cur {
                                Ty::Arr(_, t) => {
                                    off += c * t.size() as i64;
                                    let t2 = (**t).clone();
                                    cur = t2;
                                }
                                _ => {
                                    let (o, t2) = cur.field_off(c as usize);
                                    off += o as i64;
                                    cur = t2;
                                }
                            },
                            None => {
                                let t2 = match &cur {
                                    Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                                    _ => panic!("gep var idx in struct"),
                                };
                                idx.push((t.op, w, t2.size() as i64));
                                cur = t2;
                            }
                        }
                    }
                }
                I::Gep(dst.unwrap(), base.op, off, idx)
            }
            "alloca" => {
                let ty = self.p.ty(l);
                let mut n = 1u64;
                if l.eat(b',') {
                    if !l.is_w("align") {
                        let t = self.top(l);
                        n = match t.op {
                            Op::K(k) => match &*k {
                                K::Int(v) => *v as u64,
                                _ => panic!(),
                            },
                            _ => panic!("dynamic alloca"),
                        };
                    }
                }
                I::Alloca(dst.unwrap(), ty.size() * n)
            }
            "call" | "invoke" => {
                // skip fmf, cc, attrs
                loop {
                    match &l.cur {
                        T::Word(w) if is_type_word(w) => break,
                        T::Word(w) => {
                            let iscc = w == "cc";
                            l.adv();
                            if iscc {
                                l.adv();
                            }
                            if l.is_p(b'(') {
                                l.skip_parens();
                            }
                        }
                        _ => break,
                    }
                }
                // return type; may be followed by function type parens
                let ret = {
                    let save_i = l.i;
                    let save_c = l.cur.clone();
                    let t = self.p.ty(l);
                    if t == Ty::Func {
                        l.i = save_i;
                        l.cur = save_c;
                        // reparse only the return type part
                        let r = self.ret_of_fty(l);
                        l.skip_parens();
                        r
                    } else {
                        t
                    }
                };
                let callee = match l.next() {
                    T::Glob(g) => Callee::Direct(g),
                    T::Local(n) => Callee::Ind(Op::Reg(self.regs[&n])),
                    T::Word(w) if w == "asm" => {
                        // skip until '('
                        while !l.is_p(b'(') {
                            l.adv();
                        }
                        Callee::Direct("$asm".into())
                    }
                    T::Word(w) if w == "inttoptr" || w == "getelementptr" => {
                        l.skip_parens();
                        Callee::Direct("$constexpr-call".into())
                    }
                    t => panic!("callee {:?} in {}", t, s),
                };
                l.exp(b'(');
                let mut args = vec![];
                if !l.eat(b')') {
                    loop {
                        let ty = self.p.ty(l);
                        if ty != Ty::Meta {
                            loop {
                                match &l.cur {
                                    T::Word(w) if is_val_word(w) => break,
                                    T::Word(w) => {
                                        let al = w == "align";
                                        l.adv();
                                        if l.is_p(b'(') {
                                            l.skip_parens();
                                        } else if al {
                                            l.adv();
                                        }
                                    }
                                    T::Str(_) => {
                                        l.adv();
                                        if l.eat(b'=') {
                                            l.adv();
                                        }
                                    }
                                    _ => break,
                                }
                            }
                        }
                        let op = self.op(l, &ty);
                        args.push(TOp { ty, op });
                        if l.eat(b')') {
                            break;
                        }
                        l.exp(b',');
                    }
                }
                let mut normal = None;
                if opc == "invoke" {
                    // find "to label %x"
                    while !l.eat_w("to") {
                        l.adv();
                    }
                    normal = Some(self.label(l));
                }
                I::Call { dst, ret, callee, args, normal }
            }
            "select" => {
                while matches!(&l.cur, T::Word(w) if !is_type_word(w)) {
                    l.adv();
                }
                let c = self.top(l);
                l.exp(b',');
                let a = self.top(l);
                l.exp(b',');
                let d = self.top(l);
                I::Select(a.ty.clone(), dst.unwrap(), c, a.op, d.op)
            }
            "extractvalue" => {
                let a = self.top(l);
                let mut v = vec![];
                while l.eat(b',') {
                    if l.is_p(b'!') {
                        break;
                    }
                    v.push(l.int() as u32);
                }
                I::Extract(dst.unwrap(), a.op, v)
            }
            "insertvalue" => {
                let a = self.top(l);
                l.exp(b',');
                let e = self.top(l);
                let mut v = vec![];
                while l.eat(b',') {
                    if l.is_p(b'!') {
                        break;
                    }
                    v.push(l.int() as u32);
                }
                I::Insert(dst.unwrap(), a, e, v)
            }
            "extractelement" => {
                let a = self.top(l);
                l.exp(b',');
                let i = self.top(l);
                I::ExtractElt(dst.unwrap(), a.op, i.op)
            }
            "insertelement" => {
                let a = self.top(l);
                l.exp(b',');
                let e = self.top(l);
                l.exp(b',');
                let i = self.top(l);
                I::InsertElt(a.ty, dst.unwrap(), a.op, e.op, i.op)
            }
            "shufflevector" => {
                let a = self.top(l);
                l.exp(b',');
                let c = self.top(l);
                l.exp(b',');
                let m = self.top(l);
                let n = match &m.ty {
                    Ty::Vec(n, _) => *n,
                    _ => panic!(),
                };
                let mask: Vec<i64> = match m.op {
                    Op::K(k) => match &*k {
                        K::Zero => vec![0; n as usize],
                        K::Agg(v) => v
                            .iter()
                            .map(|(_, k)| match k {
                                K::Int(v) => *v as i64,
                                _ => 0,
                            })
                            .collect(),
                        _ => panic!("mask"),
                    },
                    _ => panic!("mask"),
                };
                I::Shuffle(a.ty, dst.unwrap(), a.op, c.op, Rc::new(mask))
            }
            "phi" => {
                while matches!(&l.cur, T::Word(w) if !is_type_word(w)) {
                    l.adv();
                }
                let ty = self.p.ty(l);
                let mut v = vec![];
                loop {
                    l.exp(b'[');
                    let o = self.op(l, &ty);
                    l.exp(b',');
                    let bn = match l.next() {
                        T::Local(n) => self.bidx[&n],
                        t => panic!("phi {:?}", t),
                    };
                    l.exp(b']');
                    v.push((bn, o));
                    if !l.eat(b',') {
                        break;
                    }
                    if l.is_p(b'!') {
                        break;
                    }
                }
                b.phis.push((dst.unwrap(), ty, v));
                return;
            }
            "br" => {
                if l.is_w("label") {
                    I::Br(self.label(l))
                } else {
                    let c = self.top(l);
                    l.exp(b',');
                    let t = self.label(l);
                    l.exp(b',');
                    let f = self.label(l);
                    I::CondBr(c.op, t, f)
                }
            }
            "switch" => {
                let c = self.top(l);
                l.exp(b',');
                let d = self.label(l);
                l.exp(b'[');
                let mut v = vec![];
                while !l.eat(b']') {
                    let t = self.p.ty(l);
                    let k = self.p.konst(l, &t);
                    l.exp(b',');
                    let lb = self.label(l);
                    v.push((
                        match k {
                            K::Int(v) => v,
                            _ => panic!(),
                        },
                        lb,
                    ));
                }
                I::Switch(c.ty, c.op, d, Rc::new(v))
            }
            "ret" => {
                if l.is_w("void") {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.top(l)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" | "landingpad" => I::Unreachable,
            "fence" => I::Nop,
            "atomicrmw" => {
                l.eat_w("volatile");
                let o = l.word();
                let p = self.top(l);
                l.exp(b',');
                let v = self.top(l);
                I::Rmw(o, v.ty, dst.unwrap(), p.op, v.op)
            }
            "cmpxchg" => {
                while l.is_w("weak") || l.is_w("volatile") {
                    l.adv();
                }
                let p = self.top(l);
                l.exp(b',');
                let c = self.top(l);
                l.exp(b',');
                let n = self.top(l);
                I::CmpXchg(c.ty, dst.unwrap(), p.op, c.op, n.op)
            }
            _ => panic!("unknown instruction: {}", s),
        };
        b.ins.push(i);
    }
    fn ret_of_fty(&self, l: &mut Lex) -> Ty {
        // parse a type without consuming trailing parens
        match l.cur.clone() {
            T::Word(w) => {
                l.adv();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    _ => Ty::Int(w[1..].parse().unwrap()),
                }
            }
            T::P(b'{') => {
                l.adv();
                Ty::Struct(Rc::new(self.p.tylist(l, b'}')), false)
            }
            T::P(b'[') => {
                l.adv();
                let n = l.int() as u64;
                l.eat_w("x");
                let t = self.p.ty(l);
                l.exp(b']');
                Ty::Arr(n, Rc::new(t))
            }
            t => panic!("fty {:?}", t),
        }
    }
}
