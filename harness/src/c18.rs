//! C18: codec parameters (fmtp) mean what they say: each name sets its own field and no other,
//! the last setting wins, order and spacing do not matter, and what is not known is kept.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::*;
type P = SdpAttributeFmtpParameters;

const U32: &[&str] = &[
    "max-mbps", "max-fs", "max-cpb", "max-dpb", "max-br", "max-fr", "maxplaybackrate", "maxaveragebitrate", "ptime",
    "maxptime", "minptime",
];
const BOOL: &[&str] = &["level-asymmetry-allowed", "usedtx", "stereo", "useinbandfec", "cbr"];
const SMALL: &[(&str, u64)] = &[("packetization-mode", 2), ("profile", 2), ("level-idx", 31), ("tier", 1), ("apt", 255)];
/// 11 + 5 + 5 + profile-level-id, rtx-time, and one name nobody knows
const N: usize = 24;
fn name(i: usize) -> &'static str {
    match i {
        0..=10 => U32[i],
        11..=15 => BOOL[i - 11],
        16..=20 => SMALL[i - 16].0,
        21 => "profile-level-id",
        22 => "rtx-time",
        _ => "x-unknown",
    }
}
fn limit(i: usize) -> u64 {
    match i {
        11..=15 => 1,
        16..=20 => SMALL[i - 16].1,
        21 => 0xff_ffff,
        _ => u32::MAX as u64,
    }
}
/// what the parameter `i` with value `x` does; false if it cannot stand there
fn put(p: &mut P, i: usize, x: u32) -> bool {
    match i {
        0 => p.max_mbps = x,
        1 => p.max_fs = x,
        2 => p.max_cpb = x,
        3 => p.max_dpb = x,
        4 => p.max_br = x,
        5 => p.max_fr = x,
        6 => p.maxplaybackrate = x,
        7 => p.maxaveragebitrate = x,
        8 => p.ptime = x,
        9 => p.maxptime = x,
        10 => p.minptime = x,
        11 => p.level_asymmetry_allowed = x == 1,
        12 => p.usedtx = x == 1,
        13 => p.stereo = x == 1,
        14 => p.useinbandfec = x == 1,
        15 => p.cbr = x == 1,
        16 => p.packetization_mode = x,
        17 => p.profile = Some(x as u8),
        18 => p.level_idx = Some(x as u8),
        19 => p.tier = Some(x as u8),
        20 => p.rtx = Some(RtxFmtpParameters { apt: x as u8, rtx_time: None }),
        21 => p.profile_level_id = x,
        22 => match p.rtx {
            Some(ref mut r) => r.rtx_time = Some(x),
            None => return false,
        },
        _ => p.unknown_tokens.push(format!("x-unknown={}", x)),
    }
    true
}
/// a small value that may stand for parameter `i`
fn value(i: usize) -> (String, u32) {
    let d = rng(b'0', match limit(i) { 1 => b'1', 2 => b'2', _ => b'9' });
    (st(vec![d]), (d - b'0') as u32)
}
fn parse(v: &str) -> Option<P> {
    let t = format!("fmtp:97 {}", v);
    match pa(&t) {
        Some(SdpAttribute::Fmtp(f)) => {
            check(f.payload_type == 97, "fmtp payload type differs");
            Some(f.parameters)
        }
        Some(_) => {
            check(false, "fmtp is parsed as something else");
            None
        }
        None => None,
    }
}
fn expect(v: &str, e: Option<&P>, label: &str) {
    match (parse(v), e) {
        (Some(p), Some(e)) => {
            check(params_eq(&p, e), "the parameters differ from what the text says");
            cover(label);
        }
        (None, None) => cover("rejected"),
        (Some(_), None) => check(false, "ill-formed parameters are accepted"),
        (None, Some(_)) => check(false, "well-formed parameters are rejected"),
    }
}
/// the parameters of `list` in that order
fn run(list: &[usize], sep: &str, label: &str) {
    let mut p = default_params();
    let mut ok = true;
    let mut v = vec![];
    for &i in list {
        let (s, x) = value(i);
        ok &= put(&mut p, i, x);
        v.push(format!("{}={}", name(i), s));
    }
    expect(&v.join(sep), if ok { Some(&p) } else { None }, label);
}
fn any() -> usize {
    choice(N as u32) as usize
}
harnesses! {
    fn h_c18_coincide() {
        agrees(&coincide(|| gen("fmtp", true)), "coincide")
    }
    fn h_c18_forms() {
        agrees(&gen("fmtp", true), "forms")
    }
    fn h_c18_long_lists() {
        let k = [9, 10, 16][choice(3) as usize];
        let n = many();
        // lists of one have another form
        if n < 2 && matches!(k, 9 | 11 | 12) { return }
        agrees(&long_list(k, n), "long list")
    }
    fn h_c18_repeated() {
        // repeated elements are kept, wherever in the list they stand
        agrees(&pattern([9, 10, 16][choice(3) as usize]), "repeated")
    }
    fn h_c18_pairs() {
        let (i, j) = (any(), any());
        run(&[i, j], ";", "pair");
    }
    fn h_c18_triples() {
        // the last setting wins, whatever stands between
        let (i, j, k) = (any(), any(), any());
        run(&[i, j, k], ";", "triple");
    }
    fn h_c18_rtx() {
        // rtx-time belongs to the apt before it
        let mut l = vec![];
        for _ in 0..(if deep() { 5 } else { 4 }) {
            l.push([20, 22, 1, 23][choice(4) as usize]);
        }
        run(&l, ";", "rtx");
    }
    fn h_c18_all() {
        // all of them, starting anywhere, forwards or backwards
        let k = any();
        let back = choice(2) == 1;
        let mut l = vec![];
        for i in 0..N {
            let i = (i + k) % N;
            l.push(if back { N - 1 - i } else { i });
        }
        // (keep apt before rtx-time)
        l.insert(0, 20);
        run(&l, ";", "all");
    }
    fn h_c18_separators() {
        const S: &[&str] = &[";", "; ", " ;", ";;", " ; ", ";\t", "; ;", ";  ;;", "\t;\t"];
        let (i, j) = (any(), [1, 8, 13, 21, 23][choice(5) as usize]);
        let mut p = default_params();
        let (a, x) = value(i);
        let (b, y) = value(j);
        let ok = put(&mut p, i, x) & put(&mut p, j, y);
        let lead = pick(&["", ";", "; ", " ", ";;"]);
        let trail = pick(&["", ";", " ;", ";;"]);
        let s = S[choice(S.len() as u32) as usize];
        expect(&format!("{}{}={}{}{}={}{}", lead, name(i), a, s, name(j), b, trail), if ok { Some(&p) } else { None }, "separators");
    }
    fn h_c18_case() {
        let i = choice(22) as usize;
        let mut p = default_params();
        let (a, x) = value(i);
        put(&mut p, i, x);
        let n = name(i);
        let n = if choice(2) == 1 { n.to_ascii_uppercase() } else { format!("{}{}", anycase(&n[..2]), &n[2..]) };
        expect(&format!("{}={}", n, a), Some(&p), "case");
    }
    fn h_c18_limits() {
        // each parameter takes exactly the values up to its limit
        let i = choice(23) as usize;
        if i == 21 { return }
        let k = [1, 2, 3, 4, 8, 9, 10, 11][choice(8) as usize];
        let (s, x) = num(k);
        let s = st(s);
        let small = matches!(i, 11..=15 | 17..=20);
        if small && k > 4 { return }
        let mut p = default_params();
        let pre = if i == 22 { p.rtx = Some(RtxFmtpParameters { apt: 5, rtx_time: None }); "apt=5;" } else { "" };
        let x = x.unwrap_or(u64::MAX);
        let ok = x <= limit(i);
        if ok { put(&mut p, i, x as u32); }
        expect(&format!("{}{}={}", pre, name(i), s), if ok { Some(&p) } else { None }, "limit");
    }
    fn h_c18_profile_level() {
        let mut p = default_params();
        let mut v = vec![];
        let mut x = 0u32;
        let k = 1 + choice(6);
        for n in 0..k {
            let b = one(b"0123456789abcdefABCDEF");
            // only two of the digits are arbitrary
            let b = if n == 0 || n == k - 1 { b } else { b'4' };
            v.push(b);
            x = x * 16 + ((b & 15) + (b >> 6) * 9) as u32;
        }
        p.profile_level_id = x;
        expect(&format!("profile-level-id={}", st(v)), Some(&p), "profile-level-id");
    }
    fn h_c18_profile_level_bad() {
        let v = match choice(6) {
            0 => format!("{}000000", st(vec![rng(b'1', b'9')])),
            1 => format!("{}0000000", st(vec![rng(b'1', b'f')])),
            2 => format!("42{}00a", st(vec![rng(b'g', b'z')])),
            3 => String::new(),
            4 => format!("0x{}", st(vec![dig()])),
            _ => format!("-{}", st(vec![dig()])),
        };
        expect(&format!("profile-level-id={}", v), None, "");
    }
    fn h_c18_bad_value() {
        // anything but a number
        let i = choice(23) as usize;
        if i == 21 { return }
        let pre = if i == 22 { "apt=5;" } else { "" };
        let b = rng(0x21, 0x7e);
        assume(!(b.is_ascii_digit() | (b == b';')));
        let b = st(vec![b]);
        let v = match choice(5) {
            0 => String::new(),
            1 => b,
            2 => format!("1{}", b),
            3 => format!("0{}0", b),
            _ => { assume(b.as_bytes()[0] != b'+'); format!("{}1", b) }
        };
        expect(&format!("{}{}={}", pre, name(i), v), None, "");
    }
    fn h_c18_near_names() {
        // a name that differs in one place is not the name
        let i = choice(23) as usize;
        let n = name(i).as_bytes();
        let at = choice(n.len() as u32 + 1) as usize;
        let b = rng(0x21, 0x7e);
        assume((b != b';') & (b != b'='));
        let mut v = n.to_vec();
        match choice(3) {
            0 => v.insert(at, b),
            1 => { if at == n.len() { return } v.remove(at); assume(b == b'x'); }
            _ => {
                if at == n.len() { return }
                assume(b.to_ascii_lowercase() != n[at]);
                v[at] = b;
            }
        }
        let m = st(v);
        for j in 0..23 {
            if m.eq_ignore_ascii_case(name(j)) { return }
        }
        let mut p = default_params();
        p.unknown_tokens.push(format!("{}=1", m));
        p.stereo = true;
        expect(&format!("{}=1;stereo=1", m), Some(&p), "near");
    }
    fn h_c18_unknown() {
        // kept as written and in order, among known ones
        let mut p = default_params();
        let mut v = vec![];
        for i in 0..choice(4) {
            let s = match choice(4) {
                0 => format!("x-{}={}", i, tok(1, b";")),
                1 => format!("sprop-parameter-sets=Z0IACpZT,{}=={}", tok(1, b";="), tok(1, b";")),
                2 => format!("{}.{}=", tok(1, b";=/,"), i),
                _ => format!("y={}=", tok(1, b";")),
            };
            v.push(s.clone());
            p.unknown_tokens.push(s);
            if choice(2) == 1 {
                let (s, x) = value(1);
                put(&mut p, 1, x);
                v.push(format!("max-fs={}", s));
            }
        }
        if v.is_empty() { return }
        expect(&v.join(";"), Some(&p), "unknown");
    }
    fn h_c18_no_value() {
        // among parameters, one without a value is an error
        let i = choice(23) as usize;
        let w = match choice(3) { 0 => name(i).to_string(), 1 => tok(1, b";=, "), _ => "0-15".to_string() };
        let v = match choice(3) {
            0 => format!("max-fs=1;{}", w),
            1 => format!("{};max-fs=1", w),
            _ => format!("max-fs=1; {} ;stereo=1", w),
        };
        expect(&v, None, "");
    }
    fn h_c18_red() {
        let mut p = default_params();
        let n = [2, 3, 5, 17][choice(4) as usize];
        let at = [0, 1, n - 1][choice(3) as usize];
        let (s, x) = num([1, 2, 3][choice(3) as usize]);
        let (s, x) = (st(s), x.unwrap_or(999));
        let ok = x <= 128;
        let mut v = vec![];
        for i in 0..n {
            if i == at {
                v.push(s.clone());
                p.encodings.push(x as u8);
            } else {
                v.push(format!("{}", i * 7));
                p.encodings.push(i as u8 * 7);
            }
        }
        expect(&v.join("/"), if ok { Some(&p) } else { None }, "red");
    }
    fn h_c18_red_bad() {
        let b = rng(0x21, 0x7e);
        assume(!(b.is_ascii_digit() | (b == b'=') | (b == b'+')));
        let b = st(vec![b]);
        let v = match choice(5) {
            0 => format!("96/{}", b),
            1 => format!("{}/96", b),
            2 => "96/".to_string(),
            3 => "/96".to_string(),
            _ => format!("96/9{}/97", b),
        };
        // (a lone slash more leaves an empty piece, a comma is no separator here)
        expect(&v, None, "");
    }
    fn h_c18_dtmf() {
        // lists of tones and ascending ranges up to 100 are kept as written, others become 0-15
        let mut p = default_params();
        let mut ok = true;
        let mut v = vec![];
        let n = 1 + choice(3);
        let at = choice(n);
        for i in 0..n {
            if i != at {
                v.push(pick(&["7", "0-100"]).to_string());
                continue;
            }
            let (a, x) = num([1, 2, 3][choice(3) as usize]);
            let (a, x) = (st(a), x.unwrap_or(999));
            if choice(2) == 0 {
                ok &= x <= 100;
                v.push(a);
            } else {
                let (b, y) = num([1, 2, 3][choice(3) as usize]);
                let (b, y) = (st(b), y.unwrap_or(999));
                ok &= x <= 100 && y <= 100 && x < y;
                v.push(format!("{}-{}", a, b));
            }
        }
        let v = v.join(",");
        p.dtmf_tones = if ok { v.clone() } else { "0-15".to_string() };
        expect(&v, Some(&p), if ok { "dtmf" } else { "dtmf default" });
    }
    fn h_c18_dtmf_bad() {
        let mut p = default_params();
        let b = rng(0x20, 0x7e);
        assume(!(b.is_ascii_digit() | (b == b'=') | (b == b'+') | (b == b'/') | (b == b'-') | (b == b',')));
        let b = st(vec![b]);
        let v = match choice(6) {
            0 => format!("0-{}", b),
            1 => format!("{}-5", b),
            2 => format!("1{}", b),
            3 => format!("1,,{}", b),
            4 => format!("0-5-{}", dig() as char),
            _ => format!("0-15,{}", b),
        };
        // (the value of the attribute is trimmed before)
        if v.ends_with(' ') { return }
        p.dtmf_tones = "0-15".to_string();
        expect(&v, Some(&p), "dtmf bad");
    }
    fn h_c18_payload() {
        // the payload type is any 8-bit number
        let (s, x) = num([1, 2, 3, 4][choice(4) as usize]);
        let t = format!("fmtp:{} max-fs=5", st(s));
        let x = x.unwrap_or(999);
        match pa(&t) {
            Some(SdpAttribute::Fmtp(f)) => {
                check(x <= 255 && f.payload_type as u64 == x, "the payload type differs");
                let mut p = default_params();
                p.max_fs = 5;
                check(params_eq(&f.parameters, &p), "parameters differ");
                cover("payload");
            }
            _ => { check(x > 255, "a payload type is rejected"); cover("payload rejected"); }
        }
    }
    fn h_c18_in_media() {
        // attributes for several payload types keep apart
        let (i, j) = (any(), any());
        if i == 22 || j == 22 { return }
        let (a, x) = value(i);
        let (b, y) = value(j);
        let t = format!("{}m=video 9 RTP/AVP 96 97\r\nc=IN IP4 1.2.3.4\r\na=fmtp:96 {}={}\r\na=rtpmap:96 VP8/90000\r\na=fmtp:97 {}={}\r\n", HEAD, name(i), a, name(j), b);
        match ps(&t, true) {
            Some(s) => {
                let v = s.media[0].get_attributes_of_type(SdpAttributeType::Fmtp);
                check(v.len() == 2, "an fmtp is lost");
                for (k, (i, x)) in [(i, x), (j, y)].iter().enumerate() {
                    let mut p = default_params();
                    put(&mut p, *i, *x);
                    match v[k] {
                        SdpAttribute::Fmtp(f) => check(f.payload_type == 96 + k as u8 && params_eq(&f.parameters, &p), "an fmtp in a media section differs"),
                        _ => check(false, "not an fmtp"),
                    }
                }
                cover("in media");
            }
            None => check(false, "rejected"),
        }
    }
}
