//! C20: rid and simulcast attributes are accepted exactly if they are well formed, and then say
//! what the text says.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::*;
type Rid = SdpAttributeRid;
type V = SdpAttributeSimulcastVersion;

fn rid0() -> Rid {
    SdpAttributeRid {
        id: "a".to_string(),
        direction: SdpSingleDirection::Send,
        formats: vec![],
        params: SdpAttributeRidParameters { max_width: 0, max_height: 0, max_fps: 0, max_fs: 0, max_br: 0, max_pps: 0, unknown: vec![] },
        depends: vec![],
    }
}
fn rid_is(v: &str, e: Option<Rid>, label: &str) {
    match (pa(&format!("rid:{}", v)), e) {
        (Some(a @ SdpAttribute::Rid(_)), Some(e)) => {
            check(attr_eq(&a, &SdpAttribute::Rid(e)), "the rid differs from what the text says");
            cover(label);
        }
        (None, None) => cover("rejected"),
        (Some(_), None) => check(false, "an ill-formed rid is accepted"),
        _ => check(false, "a well-formed rid is rejected"),
    }
}
const NAMES: &[&str] = &["max-width", "max-height", "max-fps", "max-fs", "max-br", "max-pps"];
fn put(r: &mut Rid, i: usize, x: u32) {
    let p = &mut r.params;
    *[&mut p.max_width, &mut p.max_height, &mut p.max_fps, &mut p.max_fs, &mut p.max_br, &mut p.max_pps][i] = x;
}
/// parameter `i` of 10 as text; false if it must be rejected there
fn param(i: usize, first: bool, n: usize, r: &mut Rid, v: &mut Vec<String>) -> bool {
    match i {
        0..=5 => {
            let d = dig();
            put(r, i, (d - b'0') as u32);
            v.push(format!("{}={}", NAMES[i], d as char));
        }
        6 => {
            let d = dig();
            v.push(format!("pt={},{}", d as char, 90 + n));
            r.formats.extend(&[(d - b'0') as u16, 90 + n as u16]);
            return first;
        }
        7 => {
            let a = tok(1, b",;");
            v.push(format!("depends={},d{}", a, n));
            r.depends.push(a);
            r.depends.push(format!("d{}", n));
        }
        8 => {
            let s = format!("x-{}={}", n, tok(1, b";"));
            v.push(s.clone());
            r.params.unknown.push(s);
        }
        _ => {
            v.push(pick(&["max-fs", "", "pt"]).to_string());
            return false;
        }
    }
    true
}
fn dir() -> (&'static str, bool) {
    if choice(2) == 1 { ("recv", true) } else { ("send", false) }
}
/// a list of alternatives: n versions with up to m ids each, any of them paused
fn list(n: usize, m: usize, wide: bool) -> (String, Vec<V>) {
    let mut v = vec![];
    let mut t = vec![];
    for i in 0..n {
        let k = 1 + if i < 2 { choice(m as u32) as usize } else { 0 };
        let mut ids = vec![];
        let mut u = vec![];
        for j in 0..k {
            let id = if wide && i == n - 1 && j == k - 1 { tok(2, b",;=~") } else { format!("{}{}", (b'a' + i as u8) as char, j) };
            let paused = i + j < 3 && choice(2) == 1;
            u.push(format!("{}{}", if paused { "~" } else { "" }, id));
            ids.push(SdpAttributeSimulcastId { id, paused });
        }
        t.push(u.join(","));
        v.push(V { ids });
    }
    (t.join(";"), v)
}
fn sim_is(v: &str, e: Option<(&[V], &[V])>, label: &str) {
    match (pa(&format!("simulcast:{}", v)), e) {
        (Some(SdpAttribute::Simulcast(s)), Some((a, b))) => {
            check(s.send.len() == a.len() && s.receive.len() == b.len(), "a list of alternatives has another length");
            for (x, y) in s.send.iter().zip(a).chain(s.receive.iter().zip(b)) {
                check(simv_eq(x, y), "an alternative differs from what the text says");
            }
            cover(label);
        }
        (None, None) => cover("rejected"),
        (Some(_), None) => check(false, "an ill-formed simulcast is accepted"),
        _ => check(false, "a well-formed simulcast is rejected"),
    }
}
harnesses! {
    fn h_c20_coincide() {
        agrees(&coincide(|| gen(if choice(2) == 0 { "rid" } else { "simulcast" }, true)), "coincide")
    }
    fn h_c20_forms() {
        agrees(&gen(if choice(2) == 0 { "rid" } else { "simulcast" }, true), "forms")
    }
    fn h_c20_long_lists() {
        let k = [4, 5, 6, 7, 8][choice(5) as usize];
        let n = many();
        // lists of one have another form
        if n < 2 && matches!(k, 9 | 11 | 12) { return }
        agrees(&long_list(k, n), "long list")
    }
    fn h_c20_repeated() {
        // repeated elements are kept, wherever in the list they stand
        agrees(&pattern(4 + choice(5)), "repeated")
    }
    fn h_c20_rid_params() {
        let n = choice(if deep() { 5 } else { 4 }) as usize;
        let mut r = rid0();
        let mut v = vec![];
        let mut ok = true;
        for i in 0..n {
            let k = choice(10) as usize;
            ok &= param(k, i == 0, i, &mut r, &mut v);
        }
        // (an empty parameter at the end is trimmed with the blank before it)
        if n > 0 && v.join(";").is_empty() { return }
        let t = if n == 0 { "a send".to_string() } else { format!("a send {}", v.join(";")) };
        rid_is(&t, if ok { Some(r) } else { None }, "rid params");
    }
    fn h_c20_rid_spaces() {
        // blanks around parameters and list items do not matter
        let b = pick(&[" ", "  ", "\t"]);
        let mut r = rid0();
        let d = dig();
        let t = match choice(5) {
            0 => { put(&mut r, 0, (d - b'0') as u32); put(&mut r, 5, 7); format!("max-width={}{};{}max-pps=7", d as char, b, b) }
            1 => { r.formats = vec![(d - b'0') as u16, 97]; format!("pt={}{},{}97", d as char, b, b) }
            2 => { r.depends = vec![(d as char).to_string(), "x".to_string()]; format!("depends={}{},{}x", d as char, b, b) }
            3 => { r.depends = vec!["y".to_string()]; put(&mut r, 4, (d - b'0') as u32); format!("depends=,y,{};{}max-br={}", b, b, d as char) }
            _ => { r.formats = vec![(d - b'0') as u16]; r.params.unknown.push("z=1 2".to_string()); format!("pt={}{};z=1 2", d as char, b) }
        };
        rid_is(&format!("a send {}", t), Some(r), "rid spaces");
    }
    fn h_c20_rid_id() {
        let mut r = rid0();
        let (d, back) = dir();
        let t = format!("{} {}", pick(&["", "x"]).to_string() + &tok(2, &[]), d);
        r.id = t[..t.len() - 5].to_string();
        if back { r.direction = SdpSingleDirection::Recv; }
        put(&mut r, 1, 5);
        rid_is(&format!("{} max-height=5", t), Some(r), "rid id");
    }
    fn h_c20_rid_direction() {
        // send or recv, nothing else
        let w = match choice(4) {
            0 => pick(&["SEND", "Recv", "sendrecv", "sendx", "rec", "sen", "recv;", "", "pt=5"]).to_string(),
            1 => tok(4, &[]),
            2 => tok(3, &[]),
            _ => format!("{}end", tok(1, &[])),
        };
        let mut r = rid0();
        let ok = w == "send" || w == "recv";
        if w == "recv" { r.direction = SdpSingleDirection::Recv; }
        put(&mut r, 3, 5);
        rid_is(&format!("a {} max-fs=5", w), if ok { Some(r) } else { None }, "rid direction");
        check(pa("rid:a").is_none(), "a rid without direction is accepted");
    }
    fn h_c20_rid_value() {
        let i = choice(6) as usize;
        let (s, x) = num([1, 2, 4, 8, 9, 10, 11][choice(7) as usize]);
        let x = x.unwrap_or(u64::MAX);
        let mut r = rid0();
        let ok = x <= u32::MAX as u64;
        if ok { put(&mut r, i, x as u32); }
        rid_is(&format!("a send {}={}", NAMES[i], st(s)), if ok { Some(r) } else { None }, "rid value");
    }
    fn h_c20_rid_bad_value() {
        let b = rng(0x21, 0x7e);
        assume(!(b.is_ascii_digit() | (b == b'+') | (b == b';') | (b == b',')));
        let b = b as char;
        let n = match choice(7) { 6 => "pt", i => NAMES[i as usize] };
        let v = match choice(5) { 0 => String::new(), 1 => format!("{}", b), 2 => format!("1{}", b), 3 => format!("{}1", b), _ => format!("1{}1", b) };
        rid_is(&format!("a send {}={}", n, v), None, "");
        if n == "pt" { rid_is(&format!("a send pt=1,{}", v), None, ""); }
    }
    fn h_c20_rid_format() {
        let n = 1 + choice(4) as usize;
        let at = choice(n as u32) as usize;
        let (s, x) = num([1, 2, 3, 4, 5][choice(5) as usize]);
        let (s, x) = (st(s), x.unwrap_or(u64::MAX));
        let ok = x <= 65535;
        let mut r = rid0();
        let mut v = vec![];
        for i in 0..n {
            v.push(if i == at { s.clone() } else { format!("{}", i) });
            r.formats.push(if i == at { x as u16 } else { i as u16 });
        }
        put(&mut r, 2, 5);
        rid_is(&format!("a send pt={};max-fps=5", v.join(",")), if ok { Some(r) } else { None }, "rid format");
    }
    fn h_c20_rid_near_names() {
        // a name that differs in one place, in case too, is not the name
        let i = choice(8) as usize;
        let n = match i { 6 => "depends", 7 => "pt", i => NAMES[i] };
        let at = choice(n.len() as u32 + 1) as usize;
        let b = rng(0x21, 0x7e);
        assume((b != b';') & (b != b'='));
        let mut v = n.as_bytes().to_vec();
        match choice(3) {
            0 => v.insert(at, b),
            1 => { if at == n.len() { return } v.remove(at); assume(b == b'x'); }
            _ => { if at == n.len() { return } v[at] = b; }
        }
        let m = st(v);
        if m == "depends" || m == "pt" { return }
        for j in NAMES { if m == *j { return } }
        let mut r = rid0();
        let s = format!("{}=1", m);
        r.params.unknown.push(s.clone());
        put(&mut r, 0, 6);
        rid_is(&format!("a send {};max-width=6", s), Some(r), "rid near");
    }
    fn h_c20_simulcast_lists() {
        let (d, back) = dir();
        let n = [1, 2, 3, 6][choice(4) as usize];
        let (s, v) = list(n, 3, true);
        let pre = pick(&["", "rid="]);
        let e: (&[V], &[V]) = if back { (&[], &v) } else { (&v, &[]) };
        sim_is(&format!("{} {}{}", d, pre, s), Some(e), "simulcast list");
    }
    fn h_c20_simulcast_two() {
        let (d, back) = dir();
        // lists of up to 2 with free ids, or of up to 4 with plain ones on either side
        let (m, n, wide) = match choice(3) {
            0 => (1 + choice(2) as usize, 1 + choice(2) as usize, true),
            1 => (3 + choice(2) as usize, 1, false),
            _ => (1, 3 + choice(2) as usize, false),
        };
        let k = if wide { 2 } else { 1 };
        let (s, v) = list(m, k, wide);
        let (t, w) = list(n, k, false);
        let e: (&[V], &[V]) = if back { (&w, &v) } else { (&v, &w) };
        // the same direction cannot be said twice
        let same = choice(2) == 1;
        let second = if back != same { "send" } else { "recv" };
        let text = format!("{} {}{}{}{} {}{}", d, pick(&["", "rid="]), s, pick(&[" ", "  "]), second, if back { "rid=" } else { "" }, t);
        sim_is(&text, if same { None } else { Some(e) }, "simulcast two");
    }
    fn h_c20_simulcast_words() {
        // direction and list, and maybe the other direction and its list
        const W: &[&str] = &["send", "recv", "a", "b;~c", "rid=d", "pt=97", "SEND", "e,,f", "~", "g=h;i", ";", "sendrecv", "rid=x;rid=y"];
        let n = 1 + choice(4) as usize;
        let mut w = vec![];
        for _ in 0..n { w.push(choice(W.len() as u32) as usize); }
        let text = w.iter().map(|&i| W[i]).collect::<Vec<_>>().join(" ");
        let id = |s: &str, paused| SdpAttributeSimulcastId { id: s.to_string(), paused };
        let read = |i: usize| match i {
            0 | 1 | 2 | 6 | 11 => Some(vec![V { ids: vec![id(W[i], false)] }]),
            3 => Some(vec![V { ids: vec![id("b", false)] }, V { ids: vec![id("c", true)] }]),
            4 => Some(vec![V { ids: vec![id("d", false)] }]),
            _ => None,
        };
        let mut ok = w[0] < 2 && n % 2 == 0 && (n < 4 || w[2] == 1 - w[0]);
        let mut l = [vec![], vec![]];
        for i in 0..n / 2 {
            match read(w[2 * i + 1]) {
                Some(v) => if w[2 * i] < 2 { l[w[2 * i]] = v },
                None => ok = false,
            }
        }
        let [a, b] = l;
        sim_is(&text, if ok { Some((&a, &b)) } else { None }, "simulcast words");
    }
    fn h_c20_simulcast_bad() {
        // empty ids, unknown descriptors, ids with '='
        let a = tok(1, b"~,;=");
        let (d, _) = dir();
        let t = match choice(12) {
            0 => format!("{};", a),
            1 => format!(";{}", a),
            2 => format!("{},", a),
            3 => format!(",{}", a),
            4 => format!("{};;b", a),
            5 => format!("{},,b", a),
            6 => format!("{},~", a),
            7 => format!("~;{}", a),
            8 => format!("{}=b", a),
            9 => format!("rid={}=b", a),
            10 => "rid=".to_string(),
            _ => format!("rid={};b=c", a),
        };
        sim_is(&format!("{} {}", d, t), None, "");
        sim_is(d, None, "");
    }
    fn h_c20_simulcast_id() {
        // the id keeps everything but one leading '~'
        let t = tok(3, b",;=");
        assume(t.as_bytes()[0] != b'~');
        let (d, back) = dir();
        let p = choice(3);
        let v = vec![V { ids: vec![SdpAttributeSimulcastId { id: if p == 2 { format!("~{}", t) } else { t.clone() }, paused: p > 0 }] }];
        let e: (&[V], &[V]) = if back { (&[], &v) } else { (&v, &[]) };
        sim_is(&format!("{} {}{}", d, ["", "~", "~~"][p as usize], t), Some(e), "simulcast id");
    }
}
