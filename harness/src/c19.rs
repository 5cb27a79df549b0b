//! C19: image attributes are accepted exactly if they follow the grammar and its ordering rules,
//! and then say what the text says.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::*;
use SdpAttributeImageAttrSRange as S;
use SdpAttributeImageAttrXyRange as XY;
type Set = SdpAttributeImageAttrSet;
type List = SdpAttributeImageAttrSetList;

fn set(x: u32, y: u32) -> Set {
    Set { x: XY::DiscreteValues(vec![x]), y: XY::DiscreteValues(vec![y]), sar: None, par: None, q: None }
}
/// the whole attribute must be accepted exactly if an expectation is given
fn expect(v: &str, e: Option<(List, List)>, label: &str) {
    match (pa(&format!("imageattr:97 {}", v)), e) {
        (Some(SdpAttribute::ImageAttr(a)), Some((send, recv))) => {
            check(matches!(a.pt, SdpAttributePayloadType::PayloadType(97)), "the payload type differs");
            check(isets_eq(&a.send, &send), "the sets to send differ");
            check(isets_eq(&a.recv, &recv), "the sets to receive differ");
            cover(label);
        }
        (None, None) => cover("rejected"),
        (Some(_), None) => check(false, "an ill-formed image attribute is accepted"),
        _ => check(false, "a well-formed image attribute is rejected"),
    }
}
/// one set, for one of the directions
fn one_set(v: &str, e: Option<Set>, label: &str) {
    let back = choice(2) == 1;
    let l = |v| List::Sets(v);
    let t = format!("{} {}", if back { "recv" } else { "send" }, v);
    expect(&t, e.map(|s| if back { (l(vec![]), l(vec![s])) } else { (l(vec![s]), l(vec![])) }), label);
}
/// ratios with one arbitrary digit each, and their order
fn ratio() -> (String, u32) {
    // the value times ten thousand; the digits are arbitrary
    let a = dig();
    let x = (a - b'0') as u32;
    match choice(4) {
        0 => (format!("0.{}", a as char), x * 1000),
        1 => (format!("1.0{}", a as char), 10000 + x * 100),
        2 => (format!("{}.5", a as char), x * 10000 + 5000),
        _ => (format!("{}", a as char), x * 10000),
    }
}
/// one of a few ratios, ascending by index
const R: &[(&str, f32)] = &[("0.1", 0.1), ("0.5", 0.5), ("1.0001", 1.0001), ("1.1", 1.1), ("1.9", 1.9), ("9.9999", 9.9999), ("10", 10.0)];
fn r() -> usize {
    choice(R.len() as u32) as usize
}
harnesses! {
    fn h_c19_coincide() {
        agrees(&coincide(|| gen("imageattr", true)), "coincide")
    }
    fn h_c19_long_lists() {
        let k = [11, 12, 13][choice(3) as usize];
        let n = many();
        // lists of one have another form
        if n < 2 && matches!(k, 9 | 11 | 12) { return }
        agrees(&long_list(k, n), "long list")
    }
    fn h_c19_repeated() {
        // repeated elements are kept, wherever in the list they stand
        agrees(&pattern(11 + choice(3)), "repeated")
    }
    fn h_c19_directions() {
        // payload type, direction, sets or *, and maybe the other direction with its own
        const W: &[&str] = &["send", "recv", "*", "[x=1,y=2]", "[x=3,y=4]", "foo", "SEND", "[x=5]"];
        let n = 1 + choice(if deep() { 6 } else { 5 }) as usize;
        let mut w = vec![];
        for _ in 0..n { w.push(choice(W.len() as u32) as usize); }
        let text = w.iter().map(|&i| W[i]).collect::<Vec<_>>().join(" ");
        // the reference reading
        let mut ok = true;
        let mut lists = [None, None];
        let mut at = 0;
        while at < n && ok {
            let d = w[at];
            at += 1;
            if d > 1 || lists[d].is_some() || at == n { ok = false; break; }
            if w[at] == 2 {
                at += 1;
                lists[d] = Some(List::Wildcard);
                continue;
            }
            let mut v = vec![];
            while at < n && (w[at] == 3 || w[at] == 4) {
                v.push(if w[at] == 3 { set(1, 2) } else { set(3, 4) });
                at += 1;
            }
            ok &= !v.is_empty();
            lists[d] = Some(List::Sets(v));
        }
        let [s, r] = lists;
        let none = || List::Sets(vec![]);
        expect(&text, if ok { Some((s.unwrap_or_else(none), r.unwrap_or_else(none))) } else { None }, "directions");
    }
    fn h_c19_forms() {
        agrees(&gen("imageattr", true), "forms")
    }
    fn h_c19_again() {
        // of a repeated key the last one counts
        const K: &[&str] = &["sar=1.1", "sar=[1.2-1.3]", "sar=[1.4,1.5]", "par=[1.2-1.3]", "par=[0.2-9.3]", "q=0.5", "q=0.9", "foo=1", "foo=2"];
        let n = 1 + choice(4) as usize;
        let mut t = String::from("[x=1,y=2");
        let mut s = set(1, 2);
        for _ in 0..n {
            let k = choice(K.len() as u32) as usize;
            t.push(',');
            t.push_str(K[k]);
            match k {
                0 => s.sar = Some(S::DiscreteValues(vec![1.1])),
                1 => s.sar = Some(S::Range(1.2, 1.3)),
                2 => s.sar = Some(S::DiscreteValues(vec![1.4, 1.5])),
                3 => s.par = Some(SdpAttributeImageAttrPRange { min: 1.2, max: 1.3 }),
                4 => s.par = Some(SdpAttributeImageAttrPRange { min: 0.2, max: 9.3 }),
                5 => s.q = Some(0.5),
                6 => s.q = Some(0.9),
                _ => {}
            }
        }
        t.push(']');
        one_set(&t, Some(s), "again");
    }
    fn h_c19_many_sets() {
        // any number of sets keep their order and their values
        let n = count1();
        let m = choice(3) as usize;
        let mut a = vec![];
        let mut b = vec![];
        let mut t = String::new();
        for i in 0..n {
            let (s, x) = if i < 3 { u32v(false) } else { ("7".to_string(), 7) };
            t.push_str(&format!(" [x={},y={}]", s, i));
            a.push(set(x, i as u32));
        }
        let mut u = String::new();
        for i in 0..m {
            u.push_str(&format!(" [x={},y={}]", 100 + i, i));
            b.push(set(100 + i as u32, i as u32));
        }
        let l = |v| List::Sets(v);
        let (send, recv, text) = match choice(3) {
            0 => (l(a), l(b), if m == 0 { format!("send{}", t) } else { format!("send{} recv{}", t, u) }),
            1 => (l(b), l(a), if m == 0 { format!("recv{}", t) } else { format!("recv{} send{}", t, u) }),
            _ => (List::Wildcard, l(a), format!("recv{} send *", t)),
        };
        expect(&text, Some((send, recv)), "many");
    }
    fn h_c19_keys() {
        // x first, y second, then the others in any order; unknown ones are ignored
        const K: &[&str] = &["x=1", "y=2", "sar=1.1", "par=[1.2-1.3]", "q=0.5", "foo=[1,2]", "bar=a b", "sarr=7", "Q=0.1", "xq=9"];
        let n = choice(if deep() { 6 } else { 5 }) as usize;
        let mut k = vec![];
        for i in 0..n {
            let c = choice(K.len() as u32) as usize;
            // (repetitions are not specified)
            for &p in &k { if p == c && c < 5 { return } }
            if c < 2 && i > 1 { return }
            k.push(c);
        }
        let text = format!("[{}]", k.iter().map(|&i| K[i]).collect::<Vec<_>>().join(","));
        // a blank within a set needs its brackets outside
        if k.contains(&6) && (k.contains(&5) || k.contains(&3)) { return }
        let ok = n >= 2 && k[0] == 0 && k[1] == 1;
        let mut s = set(1, 2);
        if k.contains(&2) { s.sar = Some(S::DiscreteValues(vec![1.1])); }
        if k.contains(&3) { s.par = Some(SdpAttributeImageAttrPRange { min: 1.2, max: 1.3 }); }
        if k.contains(&4) { s.q = Some(0.5); }
        one_set(&text, if ok { Some(s) } else { None }, "keys");
    }
    fn h_c19_first_key() {
        // only lower-case x= and y= in their places
        let a = tok(1, b"[], ");
        let b = tok(1, b"[], ");
        let ok = a == "x" && b == "y";
        one_set(&format!("[{}=1,{}=2]", a, b), if ok { Some(set(1, 2)) } else { None }, "first keys");
    }
    fn h_c19_range() {
        // one value, a range with or without step, or a list of at least two
        let n = choice(5) as usize;
        let sep = pick(&[":", ","]);
        let mut v = vec![];
        let mut t = vec![];
        for i in 0..n {
            let (s, x) = u32v(i == 1);
            t.push(s);
            v.push(x);
        }
        let body = t.join(sep);
        let braces = choice(3) != 0;
        let open = !braces && choice(2) == 1;
        let text = if braces { format!("[{}]", body) } else if open { format!("[{}", body) } else { body };
        if !braces && !open && n > 1 { return }
        let e = if open { None } else if !braces {
            if n == 1 { Some(XY::DiscreteValues(v)) } else { None }
        } else if n < 2 { None }
        else if sep == "," { Some(XY::DiscreteValues(v)) }
        else if n == 2 { Some(XY::Range(v[0], v[1], None)) }
        else if n == 3 { Some(XY::Range(v[0], v[2], Some(v[1]))) }
        else { None };
        let mut s = set(1, 2);
        if choice(2) == 0 {
            let ok = e.map(|x| { s.x = x; s });
            one_set(&format!("[x={},y=2]", text), ok, "range x");
        } else {
            let ok = e.map(|y| { s.y = y; s });
            one_set(&format!("[x=1,y={}]", text), ok, "range y");
        }
    }
    fn h_c19_range_digits() {
        // the ends of a range, its step and the values of a list may be equal, and in any order
        let (a, b, c) = (dig(), dig(), dig());
        let (x, y, z) = ((a - b'0') as u32, (b - b'0') as u32, (c - b'0') as u32);
        let (a, b, c) = (a as char, b as char, c as char);
        let (t, e) = match choice(5) {
            0 => (format!("[{}:{}]", a, b), XY::Range(x, y, None)),
            1 => (format!("[{}:{}:{}]", a, b, c), XY::Range(x, z, Some(y))),
            2 => (format!("[{},{}]", a, b), XY::DiscreteValues(vec![x, y])),
            3 => (format!("[{},{},{}]", a, b, c), XY::DiscreteValues(vec![x, y, z])),
            _ => (format!("{}", a), XY::DiscreteValues(vec![x])),
        };
        let mut s = set(1, 2);
        match choice(3) {
            0 => { s.x = e; one_set(&format!("[x={},y=2]", t), Some(s), "digits x") }
            1 => { s.y = e; one_set(&format!("[x=1,y={}]", t), Some(s), "digits y") }
            _ => { s.x = e.clone(); s.y = e; one_set(&format!("[x={},y={}]", t, t), Some(s), "digits both") }
        }
    }
    fn h_c19_q() {
        // any number will do for q
        const Q: &[(&str, f32)] = &[("0", 0.0), ("0.5", 0.5), ("1", 1.0), ("1.0001", 1.0001), ("1.5", 1.5), ("2", 2.0), ("100", 100.0), ("-1", -1.0), ("0.001", 0.001)];
        let (t, q) = Q[choice(Q.len() as u32) as usize];
        let mut s = set(1, 2);
        s.q = Some(q);
        one_set(&format!("[x=1,y=2,q={}]", t), Some(s), "q");
    }
    fn h_c19_range_bad() {
        let b = rng(0x21, 0x7e);
        assume(!(b.is_ascii_digit() | (b == b'+') | (b == b',') | (b == b':') | (b == b'[') | (b == b']')));
        let b = b as char;
        let v = match choice(8) {
            0 => format!("{}", b),
            1 => format!("1{}", b),
            2 => format!("[1{}2]", b),
            3 => format!("[1:{}]", b),
            4 => format!("[{},2]", b),
            5 => format!("[1:2,{}]", dig() as char),
            6 => format!("[1,2]{}", b),
            _ => format!("{}[1,2]", b),
        };
        one_set(&if choice(2) == 0 { format!("[x={},y=2]", v) } else { format!("[x=1,y={}]", v) }, None, "");
    }
    fn h_c19_sar_list() {
        // strictly ascending, at least two
        let n = [1, 2, 3, 4][choice(4) as usize];
        let mut ok = n > 1;
        let mut v = vec![];
        let mut t = vec![];
        let mut last = None;
        for i in 0..n {
            let k = if i < 3 { r() } else { R.len() - 1 };
            if let Some(l) = last { ok &= l < k; }
            last = Some(k);
            t.push(R[k].0);
            v.push(R[k].1);
        }
        let mut s = set(1, 2);
        s.sar = Some(S::DiscreteValues(v));
        one_set(&format!("[x=1,y=2,sar=[{}]]", t.join(",")), if ok { Some(s) } else { None }, "sar list");
    }
    fn h_c19_ratio_range() {
        // a range ascends, strictly; par is always a range, sar may be
        let (i, j) = (r(), r());
        let mut s = set(1, 2);
        let ok = i < j;
        let par = choice(2) == 1;
        if par { s.par = Some(SdpAttributeImageAttrPRange { min: R[i].1, max: R[j].1 }); } else { s.sar = Some(S::Range(R[i].1, R[j].1)); }
        let pre = pick(&["", ",foo=1"]);
        let (k, e) = (if par { "par" } else { "sar" }, if ok { Some(s) } else { None });
        one_set(&format!("[x=1,y=2{},{}=[{}-{}]]", pre, k, R[i].0, R[j].0), e, "ratio range");
    }
    fn h_c19_ratio_order() {
        // the order of two ratios with arbitrary digits decides
        let (a, x) = ratio();
        let (b, y) = ratio();
        let key = pick(&["par=", "sar="]);
        let list = key == "sar=" && choice(2) == 1;
        let ok = x < y && !(list && x == 0);
        let t = format!("imageattr:97 send [x=1,y=2,{}[{}{}{}]]", key, a, if list { "," } else { "-" }, b);
        match pa(&t) {
            Some(SdpAttribute::ImageAttr(_)) => { check(ok, "ratios that do not ascend are accepted"); cover("ratio ok"); }
            _ => { check(!ok, "ascending ratios are rejected"); cover("ratio rejected"); }
        }
    }
    fn h_c19_ratio_bad() {
        let b = rng(0x21, 0x7e);
        assume(!(b.is_ascii_digit() | (b == b'+') | (b == b'.') | (b == b'-') | (b == b',') | (b == b'[') | (b == b']') | (b == b'e') | (b == b'E')));
        let b = b as char;
        let v = match choice(14) {
            0 => "sar=[1.5]".to_string(),
            1 => "sar=[]".to_string(),
            2 => "par=1.5".to_string(),
            3 => "par=[1.5]".to_string(),
            4 => "par=[1.5,1.6]".to_string(),
            5 => format!("sar={}", b),
            6 => format!("sar=[1.1,{}]", b),
            7 => format!("sar=[{}-2]", b),
            8 => format!("par=[1-{}]", b),
            9 => format!("q={}", b),
            10 => format!("par=[1-2-{}]", dig() as char),
            11 => "sar=[1.1,1.2".to_string(),
            12 => "par=[1.1-1.2".to_string(),
            _ => pick(&["sar=[NaN,1]", "sar=[1,NaN]", "par=[NaN-1]", "par=[1-NaN]", "sar=[1-NaN]", "q="]).to_string(),
        };
        one_set(&format!("[x=1,y=2,{}]", v), None, "");
    }
    fn h_c19_brackets() {
        // brackets around a set are required and balanced
        let v = match choice(8) {
            0 => "x=1,y=2",
            1 => "[x=1,y=2",
            2 => "x=1,y=2]",
            3 => "[[x=1,y=2]]",
            4 => "[]",
            5 => "[x=1,y=2]]",
            6 => "[x=1,y=2][x=3,y=4]",
            _ => "[x=1,y=2],[x=3,y=4]",
        };
        one_set(v, None, "");
    }
    fn h_c19_payload() {
        let (s, x) = num([1, 2, 3, 4][choice(4) as usize]);
        let x = x.unwrap_or(999);
        match pa(&format!("imageattr:{} send *", st(s))) {
            Some(SdpAttribute::ImageAttr(a)) => {
                match a.pt {
                    SdpAttributePayloadType::PayloadType(p) => check(p as u64 == x, "payload type differs"),
                    _ => check(false, "a payload type became *"),
                }
                cover("payload");
            }
            _ => { check(x > 255, "a payload type is rejected"); cover("payload rejected"); }
        }
        match pa("imageattr:* recv *") {
            Some(SdpAttribute::ImageAttr(a)) => check(matches!(a.pt, SdpAttributePayloadType::Wildcard), "* is not the wildcard"),
            _ => check(false, "* is rejected"),
        }
        let b = tok(1, b"*0123456789");
        check(pa(&format!("imageattr:{} recv *", b)).is_none(), "a bad payload type is accepted");
    }
}
