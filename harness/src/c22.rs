//! C22: ICE candidates: the eight mandatory parts, and extensions in any order and number.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
type C = SdpAttributeCandidate;

fn cand_is(v: &str, e: Option<C>, label: &str) {
    match (pa(&format!("candidate:{}", v)), e) {
        (Some(a @ SdpAttribute::Candidate(_)), Some(e)) => {
            check(attr_eq(&a, &SdpAttribute::Candidate(e)), "the candidate differs from what the text says");
            match pa(&a.to_string()) {
                Some(b) => check(attr_eq(&a, &b), "a printed candidate parses to another one"),
                None => check(false, "a printed candidate is rejected"),
            }
            cover(label);
        }
        (None, None) => cover("rejected"),
        (Some(_), None) => check(false, "an ill-formed candidate is accepted"),
        _ => check(false, "a well-formed candidate is rejected"),
    }
}
fn ip(s: &str) -> Address {
    match s.parse() {
        Ok(a) => a,
        Err(_) => Address::Fqdn(String::new()),
    }
}
const BASE: &str = "f 1 UDP 7 1.2.3.4 9 typ host";
fn base() -> C {
    C::new("f".into(), 1, SdpAttributeCandidateTransport::Udp, 7, ip("1.2.3.4"), 9, SdpAttributeCandidateType::Host)
}
/// one extension, as text and in the candidate; false if it makes the candidate ill-formed
fn ext(i: u32, n: usize, c: &mut C, t: &mut String) -> bool {
    use SdpAttributeCandidateTcpType::*;
    let d = dig();
    let x = (d - b'0') as u32;
    let d = d as char;
    match i {
        0 => { c.generation = Some(x); *t += &format!(" generation {}", d) }
        1 => { c.networkcost = Some(x); *t += &format!(" network-cost {}", d) }
        2 => { c.raddr = Some(Address::Ip(std::net::IpAddr::V4(std::net::Ipv4Addr::new(9, x as u8, 9, n as u8)))); *t += &format!(" raddr 9.{}.9.{}", d, n) }
        3 => { c.rport = Some(x); *t += &format!(" rport {}", d) }
        4 => {
            assume(d == '0');
            let (s, k) = match n % 3 { 0 => ("active", Active), 1 => ("passive", Passive), _ => ("so", Simultaneous) };
            c.tcp_type = Some(k);
            *t += &format!(" tcptype {}", s);
        }
        5 => { c.ufrag = Some(format!("u{}", d)); *t += &format!(" ufrag u{}", d) }
        6 => { c.unknown_extensions.push((format!("x{}", n), d.to_string())); *t += &format!(" x{} {}", n, d) }
        7 => { c.unknown_extensions.push(("same".into(), d.to_string())); *t += &format!(" same {}", d) }
        // the value of an unknown extension may look like a name, and be anything
        8 => { c.unknown_extensions.push((d.to_string(), "generation".into())); *t += &format!(" {} generation", d) }
        _ => { *t += [" generation x", " rport 65536", " tcptype x", " network-cost -1"][n % 4]; return false }
    }
    true
}
harnesses! {
    fn h_c22_coincide() {
        agrees(&coincide(|| gen("candidate", true)), "coincide")
    }
    fn h_c22_forms() {
        agrees(&gen("candidate", true), "forms")
    }
    fn h_c22_lengths() {
        // the texts are kept whatever their length
        let k = choice(4);
        let s = strv(true, &[]);
        let mut c = base();
        let t = match k {
            0 => { c.foundation = s.clone(); format!("{} 1 UDP 7 1.2.3.4 9 typ host", s) }
            1 => { c.ufrag = Some(s.clone()); format!("{} ufrag {}", BASE, s) }
            2 => { c.unknown_extensions.push(("-".to_string() + &s, "v".into())); format!("{} -{} v", BASE, s) }
            _ => { c.unknown_extensions.push(("n".into(), s.clone())); format!("{} n {}", BASE, s) }
        };
        cand_is(&t, Some(c), "lengths");
    }
    fn h_c22_long_lists() {
        let k = [14][choice(1) as usize];
        let n = many();
        // lists of one have another form
        if n < 2 && matches!(k, 9 | 11 | 12) { return }
        agrees(&long_list(k, n), "long list")
    }
    fn h_c22_repeated() {
        // repeated elements are kept, wherever in the list they stand
        agrees(&pattern(14), "repeated")
    }
    fn h_c22_extensions() {
        // any sequence of extensions: the last of a known kind wins, unknown ones are all kept
        let n = choice(if deep() { 6 } else { 5 }) as usize;
        let mut c = base();
        let mut t = BASE.to_string();
        let mut ok = true;
        for i in 0..n { ok &= ext(choice(10), i, &mut c, &mut t); }
        cand_is(&t, if ok { Some(c) } else { None }, "extensions");
    }
    fn h_c22_all_extensions() {
        // all of them in every rotation, twice
        let k = choice(9);
        let back = choice(2) == 1;
        let mut c = base();
        let mut t = BASE.to_string();
        for i in 0..18u32 {
            let j = (i + k) % 9;
            ext(if back { 8 - j } else { j }, i as usize, &mut c, &mut t);
        }
        cand_is(&t, Some(c), "all extensions");
    }
    fn h_c22_words() {
        // at least eight words, and then an even number
        const W: &[&str] = &["f", "1", "UDP", "7", "1.2.3.4", "9", "typ", "host", "generation", "3", "x", "y", "rport", "4", "ufrag", "z"];
        let n = choice(17) as usize;
        let sep = pick(&[" ", "  ", "\t"]);
        let mut c = base();
        if n >= 10 { c.generation = Some(3); }
        if n >= 12 { c.unknown_extensions.push(("x".into(), "y".into())); }
        if n >= 14 { c.rport = Some(4); }
        if n >= 16 { c.ufrag = Some("z".into()); }
        cand_is(&W[..n].join(sep), if n >= 8 && n % 2 == 0 { Some(c) } else { None }, "words");
    }
    fn h_c22_odd_is_unsupported() {
        // a name without value is a warning in a description, and the candidate is left out
        let mut c = base();
        let mut t = BASE.to_string();
        if choice(2) == 1 { ext(choice(9), 1, &mut c, &mut t); }
        let s = format!("{}m=audio 9 RTP/AVP 0\r\nc=IN IP4 1.2.3.4\r\na=candidate:{} {}\r\na=candidate:{}\r\n", HEAD, t, tok(2, &[]), BASE);
        check(ps(&s, true).is_none(), "not even a warning");
        match ps(&s, false) {
            Some(s) => {
                check(s.warnings.len() == 1, "not exactly one warning");
                check(s.media[0].get_attributes_of_type(SdpAttributeType::Candidate).len() == 1, "not the one good candidate");
                cover("odd");
            }
            None => check(false, "the description is rejected"),
        }
    }
    fn h_c22_keywords() {
        // transport, typ, type and tcptype: only the defined words, in any letter case
        let (pre, set, post): (&str, &[&str], &str) = [
            ("f 1 ", &["udp", "tcp"][..], " 7 1.2.3.4 9 typ host"),
            ("f 1 UDP 7 1.2.3.4 9 ", &["typ"], " host"),
            ("f 1 UDP 7 1.2.3.4 9 typ ", &["host", "srflx", "prflx", "relay"], ""),
            ("f 1 TCP 7 1.2.3.4 9 typ host tcptype ", &["active", "passive", "so"], ""),
        ][choice(4) as usize];
        let w = set[choice(set.len() as u32) as usize];
        let at = choice(w.len() as u32 + 1) as usize;
        let mut v = w.as_bytes().to_vec();
        let b = rng(0x21, 0x7e);
        match choice(3) {
            0 => v.insert(at, b),
            1 => { if at == v.len() { return } assume(b == b'x'); v.remove(at); if v.is_empty() { return } }
            _ => { if at == v.len() { return } v[at] = b }
        }
        let m = st(v);
        let mut ok = false;
        for k in set { ok |= m.eq_ignore_ascii_case(k); }
        match pa(&format!("candidate:{}{}{}", pre, m, post)) {
            Some(_) => { check(ok, "an unknown keyword is accepted"); cover("keyword"); }
            None => { check(!ok, "a keyword is rejected"); cover("rejected keyword"); }
        }
    }
    fn h_c22_near_names() {
        // a name that differs in one place is an unknown extension
        const K: &[&str] = &["generation", "network-cost", "raddr", "rport", "tcptype", "ufrag"];
        let w = K[choice(6) as usize];
        let at = choice(w.len() as u32 + 1) as usize;
        let mut v = w.as_bytes().to_vec();
        let b = rng(0x21, 0x7e);
        match choice(3) {
            0 => v.insert(at, b),
            1 => { if at == v.len() { return } assume(b == b'x'); v.remove(at); }
            _ => { if at == v.len() { return } v[at] = b }
        }
        let m = st(v);
        for k in K { if m.eq_ignore_ascii_case(k) { return } }
        let mut c = base();
        c.unknown_extensions.push((m.clone(), "5".into()));
        c.generation = Some(1);
        cand_is(&format!("{} {} 5 generation 1", BASE, m), Some(c), "near");
    }
    fn h_c22_limits() {
        let i = choice(6) as usize;
        let (s, x) = num([1, 4, 5, 8, 10, 11, 19, 20, 21][choice(9) as usize]);
        let s = st(s);
        let mut c = base();
        let max = [u32::MAX as u64, u64::MAX, 65535, u32::MAX as u64, u32::MAX as u64, 65535][i];
        let ok = match x { Some(x) => x <= max, None => false };
        let x = x.unwrap_or(0);
        let t = match i {
            0 => { c.component = x as u32; format!("f {} UDP 7 1.2.3.4 9 typ host", s) }
            1 => { c.priority = x; format!("f 1 UDP {} 1.2.3.4 9 typ host", s) }
            2 => { c.port = x as u32; format!("f 1 UDP 7 1.2.3.4 {} typ host", s) }
            3 => { c.generation = Some(x as u32); format!("{} generation {}", BASE, s) }
            4 => { c.networkcost = Some(x as u32); format!("{} network-cost {}", BASE, s) }
            _ => { c.rport = Some(x as u32); format!("{} rport {}", BASE, s) }
        };
        cand_is(&t, if ok { Some(c) } else { None }, "limits");
    }
    fn h_c22_foundation_and_ufrag() {
        let a = tok(3, &[]);
        let b = tok(3, &[]);
        let mut c = base();
        c.foundation = a.clone();
        c.ufrag = Some(b.clone());
        let (x, y) = (tok(2, &[]), tok(2, &[]));
        c.unknown_extensions.push((format!("-{}", x), y.clone()));
        cand_is(&format!("{} 1 udp 7 1.2.3.4 9 TYP Host -{} {} UFRAG {}", a, x, y, b), Some(c), "words kept");
    }
    fn h_c22_in_media() {
        // candidates of a section keep their number, order and values
        let n = count1();
        let mut t = format!("{}m=audio 9 RTP/AVP 0\r\nc=IN IP4 1.2.3.4\r\n", HEAD);
        let mut v = vec![];
        for i in 0..n {
            let mut c = base();
            let (s, x) = if i < 3 { u8v(false) } else { (i.to_string(), i as u8) };
            c.priority = x as u64;
            let mut e = String::new();
            if i < 3 { ext([0, 6, 5][i], i, &mut c, &mut e); }
            t += &format!("a=candidate:f 1 UDP {} 1.2.3.4 9 typ host{}\r\n", s, e);
            if i % 3 == 1 { t += "a=sendrecv\r\n"; }
            v.push(c);
        }
        match ps(&t, true) {
            Some(s) => {
                let l = s.media[0].get_attributes_of_type(SdpAttributeType::Candidate);
                check(l.len() == n, "a candidate is lost");
                for (a, b) in l.into_iter().zip(v) { check(attr_eq(a, &SdpAttribute::Candidate(b)), "a candidate of a section differs"); }
                cover("in media");
            }
            None => check(false, "candidates are rejected"),
        }
    }
}
