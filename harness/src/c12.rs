//! C12: a fingerprint is accepted exactly when it has the length of its hash and consists of
//! two-digit hexadecimal octets; its octets are those of the text.
use super::gen::*;
use super::sym::*;
use super::util::*;
use std::convert::TryFrom;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;

fn hexval(b: u8) -> Option<u8> {
    if (b >= b'0') & (b <= b'9') {
        Some(b - b'0')
    } else if (b >= b'a') & (b <= b'f') {
        Some(b - b'a' + 10)
    } else if (b >= b'A') & (b <= b'F') {
        Some(b - b'A' + 10)
    } else {
        None
    }
}
fn base(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            v.push(b':');
        }
        let x = (i * 29 + 7) as u8;
        for d in [x >> 4, x & 15] {
            v.push(if d < 10 { b'0' + d } else if i % 2 == 0 { b'A' + d - 10 } else { b'a' + d - 10 });
        }
    }
    v
}
/// what the text stands for: None when it is no list of octets
fn oracle(t: &[u8]) -> Option<Vec<u8>> {
    let mut r = vec![];
    let mut i = 0;
    loop {
        if i + 2 > t.len() {
            return None;
        }
        let (a, b) = (hexval(t[i])?, hexval(t[i + 1])?);
        r.push(a * 16 + b);
        i += 2;
        if i == t.len() {
            return Some(r);
        }
        if t[i] != b':' {
            return None;
        }
        i += 1;
    }
}
fn judge(k: usize, t: Vec<u8>) {
    let (name, n, h) = HASHES[k];
    let exp = match oracle(&t) {
        Some(v) if v.len() == n => Some(v),
        _ => None,
    };
    let s = st(t);
    match h.parse_octets(&s) {
        Ok(v) => match &exp {
            Some(e) => {
                check(b_eq(&v, e), "the octets differ from the text");
                cover("accepted");
            }
            None => check(false, "an invalid list of octets is accepted"),
        },
        Err(_) => {
            check(exp.is_none(), "a valid list of octets is rejected");
            cover("rejected");
        }
    }
    // as an attribute; white space would separate further tokens or end the line
    if s.bytes().any(|b| (b == b' ') | ((b >= 9) & (b <= 13))) {
        return;
    }
    match pa(&format!("fingerprint:{} {}", name, s)) {
        Some(SdpAttribute::Fingerprint(f)) => match &exp {
            Some(e) => {
                check(d_eq(&f.hash_algorithm, &h), "another hash algorithm");
                check(b_eq(&f.fingerprint, e), "the fingerprint differs from its text");
                let mut c = String::from(name);
                c.push(' ');
                let up = s.to_ascii_uppercase();
                c.push_str(&up);
                check(s_eq(&f.to_string(), &c), "the fingerprint prints as another text");
            }
            None => check(false, "an invalid fingerprint is accepted"),
        },
        Some(_) => check(false, "another attribute"),
        None => check(exp.is_none(), "a valid fingerprint is rejected"),
    }
}
fn hash() -> usize {
    choice(5) as usize
}
harnesses! {
    fn h_c12_window() {
        // two or three arbitrary characters anywhere
        let k = hash();
        let n = HASHES[k].1;
        let mut t = base(n);
        let w = if deep() { 3 } else { 2 };
        let len = t.len();
        // quick: the first and the last octets; deep: everywhere
        let p = if deep() { choice((len - w + 1) as u32) as usize } else { [0, 1, 2, 3, len / 2, len - 5, len - 4, len - 3, len - 2][choice(9) as usize] };
        for i in 0..w { t[p + i] = byte(127); }
        judge(k, t);
    }
    fn h_c12_octet() {
        // any octet of any hash, in either case of letters
        let k = hash();
        let n = HASHES[k].1;
        let mut t = base(n);
        let p = choice(n as u32) as usize;
        for i in 0..2 { let b = byte(127); assume(b.is_ascii_hexdigit()); t[3 * p + i] = b; }
        judge(k, t);
    }
    fn h_c12_insert() {
        let k = hash();
        let mut t = base(HASHES[k].1);
        let p = [0, 1, 2, 3, 30, t.len() - 1, t.len()][choice(7) as usize];
        let b = byte(127);
        t.insert(p, b);
        judge(k, t);
    }
    fn h_c12_remove() {
        let k = hash();
        let mut t = base(HASHES[k].1);
        let p = choice(t.len() as u32) as usize;
        let c = choice(3);
        for _ in 0..=c { if p < t.len() { t.remove(p); } }
        judge(k, t);
    }
    fn h_c12_counts() {
        // any number of octets from one to twelve above the right one
        let k = hash();
        let n = 1 + choice(76) as usize;
        let mut t = base(n);
        // all of them, or those in excess, may be the same
        let d = [b'0', b'F', b'1'];
        let (from, d) = match choice(6) { 0 => (0, d[choice(3) as usize]), 1 => (HASHES[k].1.min(n), b'0'), 2 => (HASHES[k].1.min(n), b'F'), 3 => (n / 2, b'0'), _ => (n, b'0') };
        for (i, x) in t.iter_mut().enumerate() {
            if i >= 3 * from && *x != b':' { *x = d; }
        }
        judge(k, t);
    }
    fn h_c12_other_hash() {
        // the length of one hash with the name of another
        let (k, j) = (hash(), hash());
        let t = base(HASHES[j].1);
        judge(k, t);
    }
    fn h_c12_hash_name() {
        // an unknown hash is unsupported, not an error
        let s = match choice(7) {
            4 => tok(7, &[]),
            // one character of a known name missing, added or exchanged
            5 => {
                let mut v = HASHES[hash()].0.as_bytes().to_vec();
                let p = choice(v.len() as u32) as usize;
                match choice(3) {
                    0 => { v.remove(p); }
                    1 => v[p] = tchar(&[]),
                    _ => v.insert(p, tchar(&[])),
                }
                st(v)
            }
            6 => String::from(HASHES[hash()].0) + &tok(1, &[]),
            0 => tok(5, &[]),
            1 => String::from("sha-") + &tok(3, &[]),
            2 => String::from("sha-") + &tok(1, &[]),
            _ => tok(1, &[]) + "ha-256",
        };
        let known = HASHES.iter().any(|h| s_eq(h.0, &s));
        match SdpAttributeFingerprintHashType::try_from_name(&s) {
            Ok(h) => {
                check(known, "an unknown hash is accepted");
                check(s_eq(&h.to_string(), &s), "the hash prints as another name");
                let mut n = 0;
                for x in HASHES { if s_eq(x.0, &s) { n = x.1; check(d_eq(&x.2, &h), "a hash name means another hash"); } }
                check(h.octet_count() == n, "the length of the hash differs");
                cover("known");
            }
            Err(e) => {
                check(!known, "a known hash is rejected");
                check(matches!(e, SdpParserInternalError::Unsupported(_)), "an unknown hash is not reported as unsupported");
                cover("unknown");
            }
        }
        if !known {
            let t = st(base(20));
            let l = format!("fingerprint:{} {}", s, t);
            note(l.as_bytes());
            check(matches!(l.parse::<SdpAttribute>(), Err(SdpParserInternalError::Unsupported(_))), "an unknown hash is not reported as unsupported");
        }
    }
    fn h_c12_tokens() {
        // exactly two tokens
        let t = st(base(20));
        let l = match choice(4) {
            0 => "fingerprint:sha-1".to_string(),
            1 => format!("fingerprint:sha-1 {} {}", t, tok(1, &[])),
            2 => format!("fingerprint:{}", t),
            _ => format!("fingerprint:sha-1{}", t),
        };
        check(pa(&l).is_none(), "a fingerprint with missing or extra parts is accepted");
    }
    fn h_c12_constructor() {
        // built from octets: only with the length of the hash
        let k = hash();
        let n = choice(80) as usize;
        let mut v = vec![0u8; n];
        if n > 0 { v[0] = byte(255); v[n - 1] = byte(255); }
        match SdpAttributeFingerprint::try_from((HASHES[k].2, v.clone())) {
            Ok(f) => {
                check(n == HASHES[k].1, "a fingerprint of the wrong length is built");
                check(b_eq(&f.fingerprint, &v) && d_eq(&f.hash_algorithm, &HASHES[k].2), "the built fingerprint differs");
                let t = f.to_string();
                match format!("fingerprint:{}", t).parse::<SdpAttribute>() {
                    Ok(a) => check(attr_eq(&a, &SdpAttribute::Fingerprint(f)), "a built fingerprint prints as another one"),
                    Err(_) => check(false, "a built fingerprint prints as an invalid one"),
                }
                cover("built");
            }
            Err(_) => { check(n != HASHES[k].1, "a fingerprint of the right length is not built"); cover("not built") }
        }
    }
}
