//! Hash-consed bit-vector expressions over symbolic bytes, with a simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum B {
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    K(u128),
    Var(u32),
    /// Off(i | max << 8, lo): variable i minus lo, known to be in 0..=max on the path at hand
    Off(u32, u8),
    Bin(B, E, E),
    /// bitwise not
    Not(E),
    Cmp(C, E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    /// low bit position; width is the node's
    Extract(E, u8),
    /// (hi, lo)
    Concat(E, E),
    /// table read; idx beyond the table is 0
    Tbl(u32, E),
}
#[derive(Clone, Copy)]
pub struct Node {
    pub n: N,
    pub w: u8,
    pub mask: u128,
    pub max: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(N, u8), E>,
    pub vars: Vec<u8>, // declared maximum of each var
    pub tables: Vec<Vec<u64>>,
    tmap: HashMap<Vec<u64>, u32>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    tt: FxMap<E, std::rc::Rc<[u64; 4]>>,
}

pub fn wm(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

static mut ARENA: Option<Arena> = None;
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() {
            ARENA = Some(Arena {
                nodes: vec![],
                map: Default::default(),
                vars: vec![],
                tables: vec![],
                tmap: Default::default(),
                memo: vec![],
                epoch: 0,
                tt: Default::default(),
            });
            let a = ARENA.as_mut().unwrap();
            // id 0 is reserved ("no expression")
            a.nodes.push(Node { n: N::K(0), w: 1, mask: 0, max: 0 });
        }
        ARENA.as_mut().unwrap_unchecked()
    }
}
#[inline]
pub fn node(e: E) -> Node {
    ar().nodes[e as usize]
}
#[inline]
pub fn width(e: E) -> u8 {
    ar().nodes[e as usize].w
}
#[inline]
pub fn mask(e: E) -> u128 {
    ar().nodes[e as usize].mask
}
#[inline]
pub fn maxv(e: E) -> u128 {
    ar().nodes[e as usize].max
}
pub fn isk(e: E) -> Option<u128> {
    match node(e).n {
        N::K(v) => Some(v),
        _ => None,
    }
}
fn intern(n: N, w: u8, mask: u128, max: u128) -> E {
    let a = ar();
    if let Some(e) = a.map.get(&(n, w)) {
        return *e;
    }
    let id = a.nodes.len() as u32;
    a.nodes.push(Node { n, w, mask, max: max.min(wm(w)) });
    a.map.insert((n, w), id);
    id
}
pub fn k(v: u128, w: u8) -> E {
    let v = v & wm(w);
    intern(N::K(v), w, 0, v)
}
/// variable number `i` (0..128): an 8-bit unknown in 0..=ar().vars[i]
pub fn var(i: u32) -> E {
    let m = ar().vars[i as usize] as u128;
    // the declared maximum is part of the identity of the variable within one harness
    let a = ar();
    let key = N::Var(i | (m as u32) << 8);
    if let Some(e) = a.map.get(&(key, 8)) {
        return *e;
    }
    intern(key, 8, 1u128 << i, m)
}
/// variable i minus lo where the path constrains it to lo..=hi
pub fn off(i: u32, lo: u8, hi: u8) -> E {
    if lo == hi {
        return k(0, 8);
    }
    let m = (hi - lo) as u32;
    intern(N::Off(i | m << 8, lo), 8, 1u128 << i, m as u128)
}
/// rebuild `e` using the ranges the path has established for its bytes
pub fn refine(e: E, range: &dyn Fn(u32) -> (u8, u8), memo: &mut FxMap<E, E>) -> E {
    let n = node(e);
    if n.mask == 0 {
        return e;
    }
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let r = match n.n {
        N::K(_) => e,
        N::Var(raw) => {
            let i = var_index(raw);
            let (lo, hi) = range(i);
            if lo > 0 || (hi as u128) < n.max {
                add(off(i, lo, hi), k(lo as u128, 8))
            } else {
                e
            }
        }
        N::Off(raw, l0) => {
            let i = var_index(raw);
            let (lo, hi) = range(i);
            if lo > l0 || ((hi - l0) as u128) < n.max {
                add(off(i, lo, hi), k((lo - l0) as u128, 8))
            } else {
                e
            }
        }
        N::Bin(op, a, b) => {
            let (x, y) = (refine(a, range, memo), refine(b, range, memo));
            if x == a && y == b {
                e
            } else {
                match op {
                    B::Add => add(x, y),
                    B::Mul => mul(x, y),
                    B::UDiv => udiv(x, y),
                    B::URem => urem(x, y),
                    B::SDiv => sdiv(x, y),
                    B::SRem => srem(x, y),
                    B::Shl => shl(x, y),
                    B::LShr => lshr(x, y),
                    B::AShr => ashr(x, y),
                    B::And => and(x, y),
                    B::Or => or(x, y),
                    B::Xor => xor(x, y),
                }
            }
        }
        N::Not(a) => not(refine(a, range, memo)),
        N::Cmp(c, a, b) => {
            let (x, y) = (refine(a, range, memo), refine(b, range, memo));
            cmp(c, x, y)
        }
        N::Ite(c, a, b) => {
            let c = refine(c, range, memo);
            match isk(c) {
                Some(0) => refine(b, range, memo),
                Some(_) => refine(a, range, memo),
                None => {
                    let (x, y) = (refine(a, range, memo), refine(b, range, memo));
                    ite(c, x, y)
                }
            }
        }
        N::ZExt(a) => zext(refine(a, range, memo), n.w),
        N::SExt(a) => sext(refine(a, range, memo), n.w),
        N::Extract(a, lo) => extract(refine(a, range, memo), lo, n.w),
        N::Concat(a, b) => {
            let (x, y) = (refine(a, range, memo), refine(b, range, memo));
            concat(x, y)
        }
        N::Tbl(t, i) => {
            let x = refine(i, range, memo);
            match isk(x) {
                Some(v) => k(ar().tables[t as usize].get(v as usize).copied().unwrap_or(0) as u128, n.w),
                None => {
                    if x == i {
                        e
                    } else {
                        let tb = ar().tables[t as usize].clone();
                        tbl(tb, n.w, x)
                    }
                }
            }
        }
    };
    memo.insert(e, r);
    r
}
pub fn var_index(raw: u32) -> u32 {
    raw & 0xff
}

fn bl(b: bool) -> E {
    k(b as u128, 1)
}

pub fn add(a: E, b: E) -> E {
    let (a, b) = if isk(a).is_some() { (b, a) } else { (a, b) };
    let w = width(a);
    if let Some(y) = isk(b) {
        if y == 0 {
            return a;
        }
        if let Some(x) = isk(a) {
            return k(x.wrapping_add(y), w);
        }
        match node(a).n {
            N::Bin(B::Add, p, q) => {
                if let Some(z) = isk(q) {
                    return add(p, k(y.wrapping_add(z), w));
                }
            }
            // zext(p + c) + y   with p + c not wrapping and net constant >= 0
            N::ZExt(p) => {
                if let N::Bin(B::Add, r, q) = node(p).n {
                    if let Some(z) = isk(q) {
                        if maxv(r) + z <= wm(width(p)) {
                            // zext(r)+z+y
                            return add(zext(r, w), k(y.wrapping_add(z), w));
                        }
                    }
                }
            }
            N::Ite(c, p, q) if isk(p).is_some() && isk(q).is_some() => {
                return ite(c, add(p, b), add(q, b));
            }
            _ => {}
        }
        let max = maxv(a).checked_add(y).unwrap_or(u128::MAX);
        let max = if max > wm(w) { wm(w) } else { max };
        return intern(N::Bin(B::Add, a, b), w, mask(a), max);
    }
    // move constants outward: (p + c) + b = (p + b) + c
    if let N::Bin(B::Add, p, q) = node(a).n {
        if isk(q).is_some() {
            return add(add(p, b), q);
        }
    }
    if let N::Bin(B::Add, p, q) = node(b).n {
        if isk(q).is_some() {
            return add(add(a, p), q);
        }
    }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let max = maxv(a).checked_add(maxv(b)).unwrap_or(u128::MAX);
    let max = if max > wm(w) { wm(w) } else { max };
    intern(N::Bin(B::Add, a, b), w, mask(a) | mask(b), max)
}
pub fn neg(a: E) -> E {
    let w = width(a);
    if let Some(x) = isk(a) {
        return k(x.wrapping_neg(), w);
    }
    mul(a, k(wm(w), w))
}
pub fn sub(a: E, b: E) -> E {
    if a == b {
        return k(0, width(a));
    }
    add(a, neg(b))
}
pub fn mul(a: E, b: E) -> E {
    let (a, b) = if isk(a).is_some() { (b, a) } else { (a, b) };
    let w = width(a);
    if let Some(y) = isk(b) {
        if y == 0 {
            return k(0, w);
        }
        if y == 1 {
            return a;
        }
        if let Some(x) = isk(a) {
            return k(x.wrapping_mul(y), w);
        }
        match node(a).n {
            N::Bin(B::Mul, p, q) => {
                if let Some(z) = isk(q) {
                    return mul(p, k(y.wrapping_mul(z), w));
                }
            }
            // distribute over sums (mod 2^w this is always valid)
            N::Bin(B::Add, p, q) => return add(mul(p, b), mul(q, b)),
            N::Ite(c, p, q) if isk(p).is_some() && isk(q).is_some() => {
                return ite(c, mul(p, b), mul(q, b));
            }
            _ => {}
        }
        let max = maxv(a).checked_mul(y).unwrap_or(u128::MAX);
        return intern(N::Bin(B::Mul, a, b), w, mask(a), if max > wm(w) { wm(w) } else { max });
    }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let max = maxv(a).checked_mul(maxv(b)).unwrap_or(u128::MAX);
    intern(N::Bin(B::Mul, a, b), w, mask(a) | mask(b), if max > wm(w) { wm(w) } else { max })
}

/// non-wrapping linear form: sum of coef*atom + const equal to e as integers
fn lin(e: E, coef: u128, out: &mut Vec<(u128, E)>, c: &mut u128) -> bool {
    let n = node(e);
    match n.n {
        N::K(v) => {
            match v.checked_mul(coef).and_then(|x| c.checked_add(x)) {
                Some(x) => *c = x,
                None => return false,
            }
            true
        }
        N::Bin(B::Add, p, q) if maxv(p).checked_add(maxv(q)).map_or(false, |m| m <= wm(n.w)) => {
            lin(p, coef, out, c) && lin(q, coef, out, c)
        }
        N::Bin(B::Mul, p, q) => {
            if let Some(y) = isk(q) {
                if maxv(p).checked_mul(y).map_or(false, |m| m <= wm(n.w)) {
                    if let Some(cc) = coef.checked_mul(y) {
                        return lin(p, cc, out, c);
                    }
                }
            }
            out.push((coef, e));
            true
        }
        N::ZExt(p) => {
            // descend only through arithmetic
            match node(p).n {
                N::Bin(B::Add, x, y) if maxv(x) + maxv(y) <= wm(width(p)) => {
                    let w = n.w;
                    lin(zext(x, w), coef, out, c) && lin(zext(y, w), coef, out, c)
                }
                N::Bin(B::Mul, x, y)
                    if isk(y).is_some() && maxv(x).checked_mul(maxv(y)).map_or(false, |m| m <= wm(width(p))) =>
                {
                    match coef.checked_mul(isk(y).unwrap()) {
                        Some(cc) => lin(zext(x, n.w), cc, out, c),
                        None => false,
                    }
                }
                _ => {
                    out.push((coef, e));
                    true
                }
            }
        }
        _ => {
            out.push((coef, e));
            true
        }
    }
}
fn from_lin(t: &[(u128, E)], c: u128, w: u8) -> E {
    let mut r = k(c, w);
    for (co, e) in t {
        r = add(r, mul(*e, k(*co, w)));
    }
    r
}
fn split_div(a: E, y: u128) -> Option<(E, E)> {
    let w = width(a);
    let mut t = vec![];
    let mut c = 0u128;
    if !lin(a, 1, &mut t, &mut c) {
        return None;
    }
    if t.len() == 1 && t[0].0 == 1 && c == 0 {
        if maxv(a) < y {
            return Some((k(0, w), a));
        }
        return None;
    }
    let mut q = vec![];
    let mut r = vec![];
    let mut rmax = c % y;
    for (co, e) in t {
        if co % y == 0 {
            q.push((co / y, e));
        } else {
            rmax = rmax.checked_add((co % y).checked_mul(maxv(e))?)?;
            if co / y > 0 {
                q.push((co / y, e));
            }
            r.push((co % y, e));
        }
    }
    if rmax < y {
        Some((from_lin(&q, c / y, w), from_lin(&r, c % y, w)))
    } else {
        None
    }
}
pub fn udiv(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = isk(b) {
        if y == 1 {
            return a;
        }
        if y != 0 {
            if let Some(x) = isk(a) {
                return k(x / y, w);
            }
            if maxv(a) < y {
                return k(0, w);
            }
            if let Some((q, _)) = split_div(a, y) {
                return q;
            }
            // udiv(udiv(x,c1),c2) = udiv(x,c1*c2)
            if let N::Bin(B::UDiv, p, q) = node(a).n {
                if let Some(z) = isk(q) {
                    if let Some(zz) = z.checked_mul(y) {
                        if zz <= wm(w) {
                            return udiv(p, k(zz, w));
                        }
                    }
                }
            }
            if let N::ZExt(p) = node(a).n {
                if y <= wm(width(p)) {
                    return zext(udiv(p, k(y, width(p))), w);
                }
            }
            return intern(N::Bin(B::UDiv, a, b), w, mask(a), maxv(a) / y);
        }
    }
    intern(N::Bin(B::UDiv, a, b), w, mask(a) | mask(b), wm(w))
}
pub fn urem(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = isk(b) {
        if y == 1 {
            return k(0, w);
        }
        if y != 0 {
            if let Some(x) = isk(a) {
                return k(x % y, w);
            }
            if maxv(a) < y {
                return a;
            }
            if y.is_power_of_two() {
                return and(a, k(y - 1, w));
            }
            if let Some((_, r)) = split_div(a, y) {
                return r;
            }
            if let N::ZExt(p) = node(a).n {
                if y <= wm(width(p)) {
                    return zext(urem(p, k(y, width(p))), w);
                }
            }
            return intern(N::Bin(B::URem, a, b), w, mask(a), y - 1);
        }
    }
    intern(N::Bin(B::URem, a, b), w, mask(a) | mask(b), maxv(a))
}
pub fn sdiv(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (isk(a), isk(b)) {
        if y != 0 {
            return k(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
        }
    }
    if maxv(a) <= wm(w) >> 1 && maxv(b) <= wm(w) >> 1 {
        return udiv(a, b);
    }
    intern(N::Bin(B::SDiv, a, b), w, mask(a) | mask(b), wm(w))
}
pub fn srem(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (isk(a), isk(b)) {
        if y != 0 {
            return k(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
        }
    }
    if maxv(a) <= wm(w) >> 1 && maxv(b) <= wm(w) >> 1 {
        return urem(a, b);
    }
    intern(N::Bin(B::SRem, a, b), w, mask(a) | mask(b), wm(w))
}
pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = isk(b) {
        if y >= w as u128 {
            return k(0, w);
        }
        return mul(a, k(1u128 << y, w));
    }
    intern(N::Bin(B::Shl, a, b), w, mask(a) | mask(b), wm(w))
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(y) = isk(b) {
        if y >= w as u128 {
            return k(0, w);
        }
        if y == 0 {
            return a;
        }
        return zext(extract(a, y as u8, w - y as u8), w);
    }
    intern(N::Bin(B::LShr, a, b), w, mask(a) | mask(b), maxv(a))
}
pub fn ashr(a: E, b: E) -> E {
    let w = width(a);
    if maxv(a) <= wm(w) >> 1 {
        return lshr(a, b);
    }
    if let Some(y) = isk(b) {
        let y = y.min(w as u128 - 1) as u8;
        return sext(extract(a, y, w - y), w);
    }
    intern(N::Bin(B::AShr, a, b), w, mask(a) | mask(b), wm(w))
}
fn bitsmax(m: u128) -> u128 {
    // smallest 2^n-1 >= m
    if m == 0 {
        0
    } else {
        u128::MAX >> m.leading_zeros()
    }
}
/// number of low bits known to be zero
fn tz(e: E) -> u32 {
    match node(e).n {
        N::K(v) => v.trailing_zeros(),
        N::Bin(B::Add, a, b) => tz(a).min(tz(b)),
        N::Bin(B::Mul, _, b) => isk(b).map_or(0, |v| v.trailing_zeros()),
        N::ZExt(a) => tz(a),
        _ => 0,
    }
}
pub fn and(a: E, b: E) -> E {
    let (a, b) = if isk(a).is_some() { (b, a) } else { (a, b) };
    let w = width(a);
    if a == b {
        return a;
    }
    if let Some(y) = isk(b) {
        if y == 0 {
            return k(0, w);
        }
        if y == wm(w) {
            return a;
        }
        if let Some(x) = isk(a) {
            return k(x & y, w);
        }
        {
            let t = tz(a);
            if t < 64 && (bitsmax(maxv(a)) >> t << t) & !y == 0 {
                return a;
            }
        }
        if (y + 1).is_power_of_two() {
            let n = y.count_ones() as u8;
            if maxv(a) <= y {
                return a;
            }
            return zext(extract(a, 0, n), w);
        }
        match node(a).n {
            N::ZExt(p) => {
                let pw = width(p);
                return zext(and(p, k(y, pw)), w);
            }
            N::Bin(B::And, p, q) => {
                if let Some(z) = isk(q) {
                    return and(p, k(y & z, w));
                }
            }
            N::Concat(h, l) => {
                let lw = width(l);
                return concat(and(h, k(y >> lw, w - lw)), and(l, k(y, lw)));
            }
            N::Ite(c, p, q) if isk(p).is_some() || isk(q).is_some() => {
                return ite(c, and(p, b), and(q, b));
            }
            _ => {}
        }
        return intern(N::Bin(B::And, a, b), w, mask(a), y.min(bitsmax(maxv(a))) & bitsmax(maxv(a)));
    }
    if w == 1 {
        // a & !a
        if node(a).n == N::Not(b) || node(b).n == N::Not(a) {
            return bl(false);
        }
    }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    intern(N::Bin(B::And, a, b), w, mask(a) | mask(b), maxv(a).min(maxv(b)))
}
pub fn or(a: E, b: E) -> E {
    let (a, b) = if isk(a).is_some() { (b, a) } else { (a, b) };
    let w = width(a);
    if a == b {
        return a;
    }
    if let Some(y) = isk(b) {
        if y == 0 {
            return a;
        }
        if y == wm(w) {
            return b;
        }
        if let Some(x) = isk(a) {
            return k(x | y, w);
        }
        match node(a).n {
            N::ZExt(p) if y <= wm(width(p)) => return zext(or(p, k(y, width(p))), w),
            N::Concat(h, l) => {
                let lw = width(l);
                return concat(or(h, k(y >> lw, w - lw)), or(l, k(y, lw)));
            }
            N::Bin(B::Mul, p, q) => {
                // (p * 2^n) | y with y < 2^n  ==> addition
                let _ = p;
                if let Some(z) = isk(q) {
                    if z.is_power_of_two() && y < z {
                        return add(a, b);
                    }
                }
            }
            N::Ite(c, p, q) if isk(p).is_some() || isk(q).is_some() => {
                return ite(c, or(p, b), or(q, b));
            }
            _ => {}
        }
        return intern(N::Bin(B::Or, a, b), w, mask(a), bitsmax(maxv(a)) | y);
    }
    if w == 1 {
        if node(a).n == N::Not(b) || node(b).n == N::Not(a) {
            return bl(true);
        }
    }
    // disjoint bit ranges: (hi << n) | lo  where lo < 2^n
    for (x, y) in [(a, b), (b, a)] {
        if let N::Bin(B::Mul, p, q) = node(x).n {
            if let Some(z) = isk(q) {
                if z.is_power_of_two() && maxv(y) < z {
                    let n = z.trailing_zeros() as u8;
                    if n % 8 == 0 && w % 8 == 0 {
                        return concat(extract(p, 0, w - n), extract(y, 0, n));
                    }
                    return add(x, y);
                }
            }
        }
        if let N::Concat(h, l) = node(x).n {
            if isk(l) == Some(0) && maxv(y) <= wm(width(l)) {
                return concat(h, extract(y, 0, width(l)));
            }
        }
    }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    intern(N::Bin(B::Or, a, b), w, mask(a) | mask(b), bitsmax(maxv(a)) | bitsmax(maxv(b)))
}
pub fn xor(a: E, b: E) -> E {
    let (a, b) = if isk(a).is_some() { (b, a) } else { (a, b) };
    let w = width(a);
    if a == b {
        return k(0, w);
    }
    if let Some(y) = isk(b) {
        if y == 0 {
            return a;
        }
        if let Some(x) = isk(a) {
            return k(x ^ y, w);
        }
        if y == wm(w) {
            return not(a);
        }
        match node(a).n {
            N::Bin(B::Xor, p, q) => {
                if let Some(z) = isk(q) {
                    return xor(p, k(y ^ z, w));
                }
            }
            N::ZExt(p) if y <= wm(width(p)) => return zext(xor(p, k(y, width(p))), w),
            N::Concat(h, l) => {
                let lw = width(l);
                return concat(xor(h, k(y >> lw, w - lw)), xor(l, k(y, lw)));
            }
            N::Ite(c, p, q) if isk(p).is_some() || isk(q).is_some() => {
                return ite(c, xor(p, b), xor(q, b));
            }
            _ => {}
        }
        return intern(N::Bin(B::Xor, a, b), w, mask(a), bitsmax(maxv(a)) | y);
    }
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (node(a).n, node(b).n) {
        if width(l1) == width(l2) {
            return concat(xor(h1, h2), xor(l1, l2));
        }
    }
    intern(N::Bin(B::Xor, a, b), w, mask(a) | mask(b), bitsmax(maxv(a)) | bitsmax(maxv(b)))
}
pub fn not(a: E) -> E {
    let w = width(a);
    match node(a).n {
        N::K(x) => return k(!x, w),
        N::Not(x) => return x,
        N::Ite(c, p, q) if isk(p).is_some() || isk(q).is_some() => return ite(c, not(p), not(q)),
        N::Cmp(C::Ult, x, y) if w == 1 => return cmp(C::Ule, y, x),
        N::Cmp(C::Ule, x, y) if w == 1 => return cmp(C::Ult, y, x),
        N::Cmp(C::Slt, x, y) if w == 1 => return cmp(C::Sle, y, x),
        N::Cmp(C::Sle, x, y) if w == 1 => return cmp(C::Slt, y, x),
        N::Bin(B::And, x, y) if w == 1 => return or(not(x), not(y)),
        N::Bin(B::Or, x, y) if w == 1 => return and(not(x), not(y)),
        N::Concat(h, l) => return concat(not(h), not(l)),
        _ => {}
    }
    intern(N::Not(a), w, mask(a), wm(w))
}
pub fn zext(a: E, w: u8) -> E {
    let n = node(a);
    if n.w == w {
        return a;
    }
    if n.w > w {
        return extract(a, 0, w);
    }
    match n.n {
        N::K(v) => return k(v, w),
        N::ZExt(p) => return zext(p, w),
        // push zext under arithmetic that cannot wrap
        N::Bin(B::Add, p, q) if maxv(p).checked_add(maxv(q)).map_or(false, |m| m <= wm(n.w)) => {
            return add(zext(p, w), zext(q, w))
        }
        N::Bin(B::Mul, p, q) if maxv(p).checked_mul(maxv(q)).map_or(false, |m| m <= wm(n.w)) => {
            return mul(zext(p, w), zext(q, w))
        }
        N::Ite(c, p, q) if isk(p).is_some() && isk(q).is_some() => return ite(c, zext(p, w), zext(q, w)),
        _ => {}
    }
    intern(N::ZExt(a), w, n.mask, n.max)
}
pub fn sext(a: E, w: u8) -> E {
    let n = node(a);
    if n.w == w {
        return a;
    }
    if n.max <= wm(n.w) >> 1 {
        return zext(a, w);
    }
    match n.n {
        N::K(v) => return k(sx(v, n.w) as u128, w),
        N::SExt(p) => return sext(p, w),
        N::Ite(c, p, q) if isk(p).is_some() && isk(q).is_some() => return ite(c, sext(p, w), sext(q, w)),
        _ => {}
    }
    if n.w == 1 {
        return ite(a, k(wm(w), w), k(0, w));
    }
    intern(N::SExt(a), w, n.mask, wm(w))
}
pub fn trunc(a: E, w: u8) -> E {
    extract(a, 0, w)
}
pub fn extract(a: E, lo: u8, w: u8) -> E {
    let n = node(a);
    if lo == 0 && w == n.w {
        return a;
    }
    match n.n {
        N::K(v) => return k(v >> lo, w),
        N::Extract(p, l2) => return extract(p, lo + l2, w),
        N::ZExt(p) => {
            let pw = width(p);
            if lo >= pw {
                return k(0, w);
            }
            if lo + w <= pw {
                return extract(p, lo, w);
            }
            return zext(extract(p, lo, pw - lo), w);
        }
        N::SExt(p) => {
            let pw = width(p);
            if lo + w <= pw {
                return extract(p, lo, w);
            }
            if lo < pw {
                return sext(extract(p, lo, pw - lo), w);
            }
        }
        N::Concat(h, l) => {
            let lw = width(l);
            if lo + w <= lw {
                return extract(l, lo, w);
            }
            if lo >= lw {
                return extract(h, lo - lw, w);
            }
            return concat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo));
        }
        N::Ite(c, p, q) if isk(p).is_some() || isk(q).is_some() => {
            return ite(c, extract(p, lo, w), extract(q, lo, w))
        }
        N::Bin(op, p, q) if lo == 0 => match op {
            B::Add => return add(extract(p, 0, w), extract(q, 0, w)),
            B::Mul => return mul(extract(p, 0, w), extract(q, 0, w)),
            B::And => return and(extract(p, 0, w), extract(q, 0, w)),
            B::Or => return or(extract(p, 0, w), extract(q, 0, w)),
            B::Xor => return xor(extract(p, 0, w), extract(q, 0, w)),
            B::UDiv | B::URem if maxv(p) <= wm(w) && isk(q).map_or(false, |y| y != 0 && y <= wm(w)) => {
                let (p2, q2) = (extract(p, 0, w), extract(q, 0, w));
                return if op == B::UDiv { udiv(p2, q2) } else { urem(p2, q2) };
            }
            _ => {}
        },
        N::Bin(op, p, q) => match op {
            B::And => return and(extract(p, lo, w), extract(q, lo, w)),
            B::Or => return or(extract(p, lo, w), extract(q, lo, w)),
            B::Xor => return xor(extract(p, lo, w), extract(q, lo, w)),
            B::Mul => {
                // p * 2^n, extracting at or above bit n
                if let Some(z) = isk(q) {
                    if z.is_power_of_two() && lo >= z.trailing_zeros() as u8 {
                        return extract(p, lo - z.trailing_zeros() as u8, w);
                    }
                }
            }
            _ => {}
        },
        N::Not(p) => return not(extract(p, lo, w)),
        _ => {}
    }
    if n.max >> lo == 0 {
        return k(0, w);
    }
    if lo > 0 && matches!(n.n, N::Bin(B::Add, ..) | N::Bin(B::Mul, ..)) {
        if let Some((q, _)) = split_div(a, 1u128 << lo) {
            return trunc(q, w);
        }
    }
    intern(N::Extract(a, lo), w, n.mask, if n.max >> lo <= wm(w) { n.max >> lo } else { wm(w) })
}
pub fn concat(h: E, l: E) -> E {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    if let Some(x) = isk(h) {
        if let Some(y) = isk(l) {
            return k(x << lw | y, w);
        }
        if x == 0 {
            return zext(l, w);
        }
    }
    if let (N::Extract(p, lo1), N::Extract(q, lo2)) = (node(h).n, node(l).n) {
        if p == q && lo1 == lo2 + lw {
            return extract(p, lo2, w);
        }
    }
    // extract from the low part of the same expr (extract at 0 may have been pushed into arithmetic)
    if let N::Extract(p, lo1) = node(h).n {
        if lo1 == lw && extract(p, 0, lw) == l {
            return extract(p, 0, w);
        }
    }
    if let N::Concat(h1, l1) = node(h).n {
        // right-assoc: concat(h1, concat(l1, l))
        return concat(h1, concat(l1, l));
    }
    if let N::Concat(h2, l2) = node(l).n {
        if let (N::Extract(p, lo1), N::Extract(q, lo2)) = (node(h).n, node(h2).n) {
            if p == q && lo1 == lo2 + width(h2) {
                return concat(extract(p, lo2, hw + width(h2)), l2);
            }
        }
        if let (Some(x), Some(y)) = (isk(h), isk(h2)) {
            return concat(k(x << width(h2) | y, hw + width(h2)), l2);
        }
    }
    // zext(x) as high extension handled above; low zext of narrower value
    if let N::ZExt(p) = node(h).n {
        return zext(concat(p, l), w);
    }
    intern(N::Concat(h, l), w, mask(h) | mask(l), maxv(h) << lw | wm(lw))
}
pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = isk(c) {
        return if v != 0 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    if w == 1 {
        match (isk(a), isk(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(1)) => return or(not(c), a),
            (_, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    if let N::Not(x) = node(c).n {
        return ite(x, b, a);
    }
    // ite(c, ite(c, x, _), y)
    if let N::Ite(c2, x, _) = node(a).n {
        if c2 == c {
            return ite(c, x, b);
        }
    }
    if let N::Ite(c2, _, y) = node(b).n {
        if c2 == c {
            return ite(c, a, y);
        }
    }
    intern(N::Ite(c, a, b), w, mask(c) | mask(a) | mask(b), maxv(a).max(maxv(b)))
}
fn eqk(a: E, y: u128) -> E {
    // a == y
    let n = node(a);
    if y > n.max {
        return bl(false);
    }
    match n.n {
        N::K(x) => return bl(x == y),
        N::ZExt(p) => return eqk(p, y),
        N::Bin(B::Add, p, q) => {
            if let Some(z) = isk(q) {
                return eqk(p, y.wrapping_sub(z) & wm(n.w));
            }
        }
        N::Bin(B::Mul, p, q) => {
            if let Some(z) = isk(q) {
                if z != 0 && maxv(p).checked_mul(z).map_or(false, |m| m <= wm(n.w)) {
                    return if y % z == 0 { eqk(p, y / z) } else { bl(false) };
                }
            }
        }
        N::Bin(B::Xor, p, q) => {
            if let Some(z) = isk(q) {
                return eqk(p, y ^ z);
            }
        }
        N::Bin(B::Or, _p, q) => {
            if let Some(z) = isk(q) {
                if z & !y != 0 {
                    return bl(false);
                }
            } else if y == 0 {
                return and(eqk(_p, 0), eqk(q, 0));
            }
        }
        N::Bin(B::And, _, q) => {
            if let Some(z) = isk(q) {
                if y & !z != 0 {
                    return bl(false);
                }
            }
        }
        N::Not(p) => return eqk(p, !y & wm(n.w)),
        N::Concat(h, l) => {
            let lw = width(l);
            return and(eqk(h, y >> lw), eqk(l, y & wm(lw)));
        }
        N::Ite(c, p, q) => {
            if isk(p).is_some() || isk(q).is_some() {
                let (x, z) = (eqk(p, y), eqk(q, y));
                if isk(x).is_some() || isk(z).is_some() {
                    return ite(c, x, z);
                }
            }
        }
        N::SExt(p) => {
            let pw = width(p);
            let t = sx(y & wm(pw), pw) as u128 & wm(n.w);
            return if t == y { eqk(p, y & wm(pw)) } else { bl(false) };
        }
        _ => {}
    }
    if n.w == 1 {
        return if y == 1 { a } else { not(a) };
    }
    let kb = k(y, n.w);
    intern(N::Cmp(C::Eq, a, kb), 1, n.mask, 1)
}
pub fn eq(a: E, b: E) -> E {
    if a == b {
        return bl(true);
    }
    let (a, b) = if isk(a).is_some() { (b, a) } else { (a, b) };
    if let Some(y) = isk(b) {
        return eqk(a, y);
    }
    if width(a) == 1 {
        return not(xor(a, b));
    }
    // common addend constants
    let (mut a, mut b) = (a, b);
    match (node(a).n, node(b).n) {
        (N::ZExt(p), N::ZExt(q)) if width(p) == width(q) => return eq(p, q),
        (N::Bin(B::Add, p, c1), N::Bin(B::Add, q, c2)) => {
            if c1 == c2 && isk(c1).is_some() {
                return eq(p, q);
            }
        }
        (N::Concat(h1, l1), N::Concat(h2, l2)) if width(l1) == width(l2) => return and(eq(h1, h2), eq(l1, l2)),
        (N::Ite(c, p, q), _) if isk(p).is_some() && isk(q).is_some() => {
            return ite(c, eq(p, b), eq(q, b));
        }
        (_, N::Ite(c, p, q)) if isk(p).is_some() && isk(q).is_some() => {
            return ite(c, eq(p, a), eq(q, a));
        }
        _ => {}
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    intern(N::Cmp(C::Eq, a, b), 1, mask(a) | mask(b), 1)
}
pub fn cmp(c: C, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (isk(a), isk(b)) {
        return bl(match c {
            C::Eq => x == y,
            C::Ult => x < y,
            C::Ule => x <= y,
            C::Slt => sx(x, w) < sx(y, w),
            C::Sle => sx(x, w) <= sx(y, w),
        });
    }
    let half = wm(w) >> 1;
    match c {
        C::Eq => return eq(a, b),
        C::Slt | C::Sle => {
            if maxv(a) <= half && maxv(b) <= half {
                return cmp(if c == C::Slt { C::Ult } else { C::Ule }, a, b);
            }
            // sign test of a value whose sign bit is known clear
            if let Some(y) = isk(b) {
                if y > half && maxv(a) <= half {
                    return bl(false);
                }
            }
            if let Some(x) = isk(a) {
                if x > half && maxv(b) <= half {
                    return bl(true);
                }
            }
        }
        _ => {}
    }
    if a == b {
        return bl(matches!(c, C::Ule | C::Sle));
    }
    match c {
        C::Ult => {
            if let Some(y) = isk(b) {
                if y == 0 {
                    return bl(false);
                }
                if maxv(a) < y {
                    return bl(true);
                }
                if y == 1 {
                    return eqk(a, 0);
                }
                return cmp(C::Ule, a, k(y - 1, w));
            }
            if let Some(x) = isk(a) {
                if x >= maxv(b) {
                    return bl(false);
                }
                return cmp(C::Ule, k(x + 1, w), b);
            }
        }
        C::Ule => {
            if let Some(y) = isk(b) {
                if maxv(a) <= y {
                    return bl(true);
                }
                if y == 0 {
                    return eqk(a, 0);
                }
                match node(a).n {
                    N::ZExt(p) => return cmp(C::Ule, p, k(y, width(p))),
                    N::Bin(B::Add, p, q) => {
                        // no wrap: p + z <= y
                        if let Some(z) = isk(q) {
                            if maxv(p).checked_add(z).map_or(false, |m| m <= wm(w)) {
                                return if y < z { bl(false) } else { cmp(C::Ule, p, k(y - z, w)) };
                            }
                        }
                    }
                    N::Ite(c, p, q) if isk(p).is_some() && isk(q).is_some() => {
                        return ite(c, cmp(C::Ule, p, b), cmp(C::Ule, q, b))
                    }
                    _ => {}
                }
            }
            if let Some(x) = isk(a) {
                if x == 0 {
                    return bl(true);
                }
                if x > maxv(b) {
                    return bl(false);
                }
                match node(b).n {
                    N::ZExt(p) => return cmp(C::Ule, k(x, width(p)), p),
                    N::Bin(B::Add, p, q) => {
                        if let Some(z) = isk(q) {
                            if maxv(p).checked_add(z).map_or(false, |m| m <= wm(w)) {
                                return if x <= z { bl(true) } else { cmp(C::Ule, k(x - z, w), p) };
                            }
                        }
                    }
                    N::Ite(c, p, q) if isk(p).is_some() && isk(q).is_some() => {
                        return ite(c, cmp(C::Ule, a, p), cmp(C::Ule, a, q))
                    }
                    _ => {}
                }
            }
        }
        _ => {
            if let N::Ite(cc, p, q) = node(a).n {
                if isk(p).is_some() && isk(q).is_some() && isk(b).is_some() {
                    return ite(cc, cmp(c, p, b), cmp(c, q, b));
                }
            }
            if let N::Ite(cc, p, q) = node(b).n {
                if isk(p).is_some() && isk(q).is_some() && isk(a).is_some() {
                    return ite(cc, cmp(c, a, p), cmp(c, a, q));
                }
            }
        }
    }
    intern(N::Cmp(c, a, b), 1, mask(a) | mask(b), 1)
}

/// read table[idx] (entries of width w)
pub fn tbl(t: Vec<u64>, w: u8, idx: E) -> E {
    // two-digit decimal table: table[2x] = '0'+x/10, table[2x+1] = '0'+x%10
    let iw = width(idx);
    if w == 8 {
        let mut terms = vec![];
        let mut c = 0u128;
        if t.len() >= 20 && lin(idx, 1, &mut terms, &mut c) && terms.iter().all(|x| x.0 % 2 == 0) {
            let odd = c % 2;
            let half: Vec<(u128, E)> = terms.iter().map(|x| (x.0 / 2, x.1)).collect();
            let x = from_lin(&half, c / 2, iw);
            if maxv(x) * 2 + 1 < t.len() as u128 {
                let n = maxv(x) as usize;
                if (0..=n).all(|i| t[2 * i] == 48 + (i as u64) / 10 && t[2 * i + 1] == 48 + (i as u64) % 10) {
                    let ten = k(10, iw);
                    let r = if odd == 0 { udiv(x, ten) } else { urem(x, ten) };
                    return add(trunc(r, 8), k(48, 8));
                }
            }
        }
    }
    let max = t.iter().cloned().max().unwrap_or(0) as u128;
    if t.iter().all(|x| *x == t[0]) && (maxv(idx) as usize) < t.len() {
        return k(t[0] as u128, w);
    }
    let a = ar();
    let id = match a.tmap.get(&t) {
        Some(i) => *i,
        None => {
            let i = a.tables.len() as u32;
            a.tables.push(t.clone());
            a.tmap.insert(t, i);
            i
        }
    };
    intern(N::Tbl(id, idx), w, mask(idx), max)
}

/// evaluate under a model (bytes per variable)
pub fn eval(e: E, m: &[u8]) -> u128 {
    let a = ar();
    a.epoch += 1;
    if a.memo.len() < a.nodes.len() {
        let n = a.nodes.len();
        a.memo.resize(n + n / 2 + 16, (0, 0));
    }
    ev(e, m)
}
fn ev(e: E, m: &[u8]) -> u128 {
    let a = ar();
    let n = a.nodes[e as usize];
    match n.n {
        N::K(v) => return v,
        N::Var(i) => return m[var_index(i) as usize] as u128,
        N::Off(i, lo) => return m[var_index(i) as usize].wrapping_sub(lo) as u128,
        _ => {}
    }
    let (ep, v) = a.memo[e as usize];
    if ep == a.epoch {
        return v;
    }
    let w = n.w;
    let r = match n.n {
        N::Bin(op, x, y) => {
            let xv = ev(x, m);
            let yv = ev(y, m);
            match op {
                B::Add => xv.wrapping_add(yv),
                B::Mul => xv.wrapping_mul(yv),
                // SMT-LIB semantics for zero divisors
                B::UDiv => {
                    if yv == 0 {
                        u128::MAX
                    } else {
                        xv / yv
                    }
                }
                B::URem => {
                    if yv == 0 {
                        xv
                    } else {
                        xv % yv
                    }
                }
                B::SDiv => {
                    if yv == 0 {
                        if sx(xv, w) < 0 {
                            1
                        } else {
                            u128::MAX
                        }
                    } else {
                        sx(xv, w).wrapping_div(sx(yv, w)) as u128
                    }
                }
                B::SRem => {
                    if yv == 0 {
                        xv
                    } else {
                        sx(xv, w).wrapping_rem(sx(yv, w)) as u128
                    }
                }
                B::Shl => {
                    if yv >= w as u128 {
                        0
                    } else {
                        xv << yv
                    }
                }
                B::LShr => {
                    if yv >= w as u128 {
                        0
                    } else {
                        xv >> yv
                    }
                }
                B::AShr => (sx(xv, w) >> yv.min(w as u128 - 1)) as u128,
                B::And => xv & yv,
                B::Or => xv | yv,
                B::Xor => xv ^ yv,
            }
        }
        N::Not(x) => !ev(x, m),
        N::Cmp(c, x, y) => {
            let xw = width(x);
            let xv = ev(x, m);
            let yv = ev(y, m);
            (match c {
                C::Eq => xv == yv,
                C::Ult => xv < yv,
                C::Ule => xv <= yv,
                C::Slt => sx(xv, xw) < sx(yv, xw),
                C::Sle => sx(xv, xw) <= sx(yv, xw),
            }) as u128
        }
        N::Ite(c, x, y) => {
            if ev(c, m) != 0 {
                ev(x, m)
            } else {
                ev(y, m)
            }
        }
        N::ZExt(x) => ev(x, m),
        N::SExt(x) => sx(ev(x, m), width(x)) as u128,
        N::Extract(x, lo) => ev(x, m) >> lo,
        N::Concat(h, l) => ev(h, m) << width(l) | ev(l, m),
        N::Tbl(t, i) => {
            let iv = ev(i, m);
            ar().tables[t as usize].get(iv as usize).copied().unwrap_or(0) as u128
        }
        _ => unreachable!(),
    } & wm(w);
    let a = ar();
    a.memo[e as usize] = (a.epoch, r);
    r
}
/// truth table (256 bits) of a boolean expression over its single variable
pub fn truth(e: E) -> std::rc::Rc<[u64; 4]> {
    if let Some(t) = ar().tt.get(&e) {
        return t.clone();
    }
    let m = mask(e);
    debug_assert!(m.count_ones() == 1);
    let v = m.trailing_zeros() as usize;
    let mut model = [0u8; 128];
    let mut t = [0u64; 4];
    for x in 0..256usize {
        model[v] = x as u8;
        if eval(e, &model) != 0 {
            t[x >> 6] |= 1 << (x & 63);
        }
    }
    let r = std::rc::Rc::new(t);
    ar().tt.insert(e, r.clone());
    r
}

pub fn show(e: E) -> String {
    let n = node(e);
    match n.n {
        N::K(v) => format!("{}:{}", v, n.w),
        N::Var(i) => format!("v{}", var_index(i)),
        N::Off(i, lo) => format!("(v{}-{})", var_index(i), lo),
        N::Bin(o, a, b) => format!("({:?} {} {})", o, show(a), show(b)),
        N::Not(a) => format!("(not {})", show(a)),
        N::Cmp(c, a, b) => format!("({:?} {} {})", c, show(a), show(b)),
        N::Ite(c, a, b) => format!("(ite {} {} {})", show(c), show(a), show(b)),
        N::ZExt(a) => format!("(zx{} {})", n.w, show(a)),
        N::SExt(a) => format!("(sx{} {})", n.w, show(a)),
        N::Extract(a, lo) => format!("(ex {} {}..{})", show(a), lo, lo + n.w),
        N::Concat(a, b) => format!("(cat {} {})", show(a), show(b)),
        N::Tbl(t, i) => format!("(tbl{} {})", t, show(i)),
    }
}
