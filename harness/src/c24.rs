//! C24: what errors and warnings say about their cause.
use super::gen::*;
use super::sym::*;
use super::util::*;
use std::convert::TryFrom;
use std::error::Error;
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::error::*;
use webrtc_sdp::*;

/// where a number is required: text before and behind it
const NUMBERS: &[(&str, &str)] = &[
    ("v=", ""),
    ("o=- ", " 0 IN IP4 0.0.0.0"),
    ("o=- 0 ", " IN IP4 0.0.0.0"),
    ("t=", " 0"),
    ("t=0 ", ""),
    ("b=AS:", ""),
    ("b=X:", ""),
    ("c=IN IP4 224.0.0.1/", ""),
    ("c=IN IP4 224.0.0.1/1/", ""),
    ("m=audio ", " RTP/AVP 0"),
    ("m=audio 9/", " RTP/AVP 0"),
    ("m=audio 9 RTP/AVP ", ""),
    ("m=video 9 RTP/AVP 0 ", " 8"),
    ("a=ptime:", ""),
    ("a=maxptime:", ""),
    ("a=max-message-size:", ""),
    ("a=sctp-port:", ""),
    ("a=ice-pacing:", ""),
    ("a=extmap:", " urn:x"),
    ("a=extmap:", "/sendonly urn:x"),
    ("a=rtpmap:", " a/1"),
    ("a=rtpmap:0 a/", ""),
    ("a=rtpmap:0 a/1/", ""),
    ("a=ssrc:", ""),
    ("a=ssrc:", " a:b"),
    ("a=ssrc-group:FID 1 ", " 2"),
    ("a=fmtp:", " max-fs=1"),
    ("a=fmtp:0 max-fs=", ""),
    ("a=fmtp:0 max-fs=", ";max-br=2"),
    ("a=fmtp:0 stereo=", ""),
    ("a=fmtp:0 profile-level-id=", ""),
    ("a=fmtp:0 1/", "/3"),
    ("a=rid:1 send max-fs=", ""),
    ("a=rid:1 send pt=1,", ""),
    ("a=rtcp:", ""),
    ("a=rtcp-fb:", " nack"),
    ("a=sctpmap:", " webrtc-datachannel 1"),
    ("a=sctpmap:1 webrtc-datachannel ", ""),
    ("a=imageattr:", " send *"),
    ("a=imageattr:* send [x=", ",y=1]"),
    ("a=imageattr:* send [x=1,y=[", ",5]]"),
    ("a=candidate:1 ", " udp 1 1.1.1.1 1 typ host"),
    ("a=candidate:1 1 udp ", " 1.1.1.1 1 typ host"),
    ("a=candidate:1 1 udp 1 1.1.1.1 ", " typ host"),
    ("a=candidate:1 1 udp 1 1.1.1.1 1 typ host generation ", ""),
    ("a=candidate:1 1 udp 1 1.1.1.1 1 typ host network-cost ", ""),
    ("a=candidate:1 1 udp 1 1.1.1.1 1 typ host rport ", ""),
    ("a=remote-candidates:", " 1.1.1.1 1"),
    ("a=remote-candidates:1 1.1.1.1 ", ""),
];
const FLOATS: &[(&str, &str)] = &[
    ("a=framerate:", ""),
    ("a=imageattr:* send [x=1,y=1,q=", "]"),
    ("a=imageattr:* send [x=1,y=1,sar=", "]"),
    ("a=imageattr:* send [x=1,y=1,sar=[1.0,", "]]"),
    ("a=imageattr:* send [x=1,y=1,par=[", "-2.0]]"),
];
/// where a host or address is required
const HOSTS: &[(&str, &str)] = &[
    ("o=- 0 0 IN IP4 ", ""),
    ("c=IN IP4 ", ""),
    ("c=IN IP6 ", "/5"),
    ("a=rtcp:9 IN IP4 ", ""),
    ("a=candidate:1 1 udp 1 ", " 1 typ host"),
    ("a=candidate:1 1 udp 1 1.1.1.1 1 typ host raddr ", ""),
    ("a=remote-candidates:1 ", " 1"),
];
fn contains(h: &str, n: &str) -> bool {
    let (h, n) = (h.as_bytes(), n.as_bytes());
    if n.len() > h.len() {
        return false;
    }
    let mut r = false;
    for i in 0..=h.len() - n.len() {
        r |= h[i..i + n.len()] == *n;
    }
    r
}
fn ends(h: &str, n: &str) -> bool {
    let (h, n) = (h.as_bytes(), n.as_bytes());
    n.len() <= h.len() && h[h.len() - n.len()..] == *n
}
/// a line that is refused, and its cause
fn cause(line: &str) -> Option<SdpParserInternalError> {
    note(line.as_bytes());
    match parse_sdp_line(line, 7) {
        Ok(_) => {
            check(false, "a malformed line is accepted");
            None
        }
        Err(e) => {
            let src = e.source();
            check(src.is_some(), "the error of a line has no source");
            let text = e.to_string();
            check(ends(&text, line), "the printed error does not end with the line");
            check(contains(&text, "(7)"), "the printed error lacks the line number");
            match e {
                SdpParserError::Line { ref error, line: ref l, line_number }
                | SdpParserError::Unsupported { ref error, line: ref l, line_number } => {
                    check(s_eq(l, line) && line_number == 7, "the error names another line");
                    let c = error.to_string();
                    check(contains(&text, &c), "the printed error lacks its cause");
                    if let Some(s) = src {
                        check(s.is::<SdpParserInternalError>(), "the source is of another type");
                        check(s_eq(&s.to_string(), &c), "the source is another error");
                    }
                    Some(error.clone())
                }
                SdpParserError::Sequence { .. } => {
                    check(false, "a malformed line is reported as a sequence error");
                    None
                }
            }
        }
    }
}
/// the underlying error is the source, and part of the text
fn under(e: &SdpParserInternalError, u: &dyn Error) {
    match e.source() {
        None => check(false, "the underlying error is not the source"),
        Some(s) => check(s_eq(&s.to_string(), &u.to_string()), "the source is another error"),
    }
    check(ends(&e.to_string(), &u.to_string()), "the underlying error is not printed");
}
fn bad_number(i: u32) -> String {
    match i {
        0 => st(vec![b'1', tchar(b"0123456789/,;:[]-=+.\""), b'2']),
        1 => st(vec![tchar(b"0123456789/,;:[]-=+*.\"")]),
        2 => "18446744073709551616".to_string(),
        _ => st(vec![tchar(b"0123456789/,;:[]-=+abcdefABCDEF*.\""), dig()]),
    }
}
harnesses! {
    fn h_c24_integer() {
        // whatever stands in place of a number, the cause is the integer error
        let (a, b) = NUMBERS[choice(NUMBERS.len() as u32) as usize];
        let hex = ends(a, "level-id=");
        let i = choice(4);
        assume(!hex || i >= 2);
        let v = bad_number(i);
        let l = format!("{}{}{}", a, v, b);
        if let Some(e) = cause(&l) {
            match e {
                SdpParserInternalError::Integer(ref u) => { under(&e, u); cover("integer") }
                _ => check(false, "the cause of a bad integer is another one"),
            }
        }
    }
    fn h_c24_blanks() {
        // the line is reported as it stands, blanks included
        let (f, m, e) = (one(b" \t"), ["a=ptime:x", "a=group:X 1", "v=x", "c=IN IP4 ::1", "x=1", "=1", "ab=1", "noequals", "b=X", "a=framerate:x", "a=candidate:1 1 udp 1 1::1::1 1 typ host"][choice(11) as usize], one(b" \t\x0b"));
        let c = choice(3);
        let mut l = vec![];
        if c != 1 {
            l.push(f);
        }
        l.extend_from_slice(m.as_bytes());
        if c != 0 {
            l.push(e);
        }
        if cause(&st(l)).is_some() {
            cover("blanks");
        }
    }
    fn h_c24_float() {
        let (a, b) = FLOATS[choice(FLOATS.len() as u32) as usize];
        let v = match choice(3) {
            0 => st(vec![b'1', b'.', tchar(b"0123456789/,;:[]-=+eE")]),
            1 => st(vec![tchar(b"0123456789/,;:[]-=+")]),
            _ => "1.2.3".to_string(),
        };
        let l = format!("{}{}{}", a, v, b);
        if let Some(e) = cause(&l) {
            match e {
                SdpParserInternalError::Float(ref u) => { under(&e, u); cover("float") }
                _ => check(false, "the cause of a bad decimal is another one"),
            }
        }
    }
    fn h_c24_host() {
        let (a, b) = HOSTS[choice(HOSTS.len() as u32) as usize];
        let c = choice(4);
        let v = match c {
            0 => format!("1.1.1.{}", ["256", "1.1", "0x100"][choice(3) as usize]),
            1 => format!("a{}b", one(b"%<>?@\\^|") as char),
            2 => format!("{}::1::2", dig() as char),
            _ => format!("a:{}", one(b"ghxyz") as char),
        };
        let l = format!("{}{}{}", a, v, b);
        if let Some(e) = cause(&l) {
            match e {
                SdpParserInternalError::Domain(ref u) => {
                    check(c < 2, "the cause of a bad address is another one");
                    under(&e, u);
                    cover("host");
                }
                SdpParserInternalError::IpAddress(ref u) => {
                    check(c >= 2, "the cause of a bad host name is another one");
                    under(&e, u);
                    cover("address");
                }
                _ => check(false, "the cause of a bad host or address is another one"),
            }
        }
    }
    fn h_c24_family() {
        // a literal of another family than stated, and unknown families
        let six = choice(2) == 1;
        let (a, b) = [("o=- 0 0 IN ", ""), ("c=IN ", ""), ("c=IN ", "/5"), ("a=rtcp:9 IN ", "")][choice(4) as usize];
        let v = if six { format!("::{}", dig() as char) } else { format!("{}.0.0.{}", dig() as char, dig() as char) };
        if choice(2) == 0 {
            let l = format!("{}IP{} {}{}", a, if six { 4 } else { 6 }, v, b);
            if let Some(e) = cause(&l) {
                check(e.source().is_none(), "a mismatch has a source");
                match e {
                    SdpParserInternalError::AddressTypeMismatch { found, expected } => {
                        check((found == AddressType::IpV6) == six && (expected == AddressType::IpV4) == six, "the families are reported wrongly");
                        let t = e.to_string();
                        check(ends(&t, if six { "IP6, IP4" } else { "IP4, IP6" }), "the families are not printed");
                        cover("mismatch");
                    }
                    _ => check(false, "the cause of a mismatch is another one"),
                }
            }
        } else {
            let f = format!("{}{}", ["IP", "ip", "I"][choice(3) as usize], tchar(b"46Pp") as char);
            let l = format!("{}{} {}{}", a, f, v, b);
            if let Some(e) = cause(&l) {
                match e {
                    SdpParserInternalError::UnknownAddressType(ref x) => {
                        check(s_eq(x, &f), "the unknown family is reported wrongly");
                        check(ends(&e.to_string(), &f), "the unknown family is not printed");
                        cover("unknown family");
                    }
                    SdpParserInternalError::Generic(_) => cover("no family"),
                    _ => check(false, "the cause of an unknown family is another one"),
                }
                check(e.source().is_none(), "an unknown family has a source");
            }
            match AddressType::from_str(&f) {
                Err(SdpParserInternalError::UnknownAddressType(x)) => check(s_eq(&x, &f), "the unknown family is reported wrongly"),
                _ => check(false, "an unknown family is accepted"),
            }
        }
    }
    fn h_c24_generic() {
        // other causes have no source
        let l = [
            "b=AS", "t=1", "c=IN IP4", "m=audio 9 RTP/AVP", "o=-", "a=mid:", "a=sendrecv:", "a=setup:x", "a=fmtp:0 stereo=2", "a=rid:1 x",
            "a=candidate:1 1 x 1 1.1.1.1 1 typ host", "a=sctp-port:65536", "a=framerate:0", "xx=1", "=1", "x=1", "i=1", "k=1", "z=1", "p=1", "e=1", "u=1", "r=1", "noequals", "v=1",
        ];
        let u = [
            "a=foo", "a=foo:1", "a=group:X 1", "a=ssrc-group:X 1", "a=fmtp:0", "a=rtcp-fb:1 x", "a=rtcp-fb:1 ack", "a=rtcp-fb:1 nack x", "a=rtcp-fb:1 ccm x",
            "a=rtcp-fb:1 goog-remb 1", "a=fingerprint:md5 00", "a=candidate:1 1 udp 1 1.1.1.1 1 typ host x", "m=text 9 RTP/AVP 0", "m=audio 9 X 0",
        ];
        let k = choice((l.len() + u.len()) as u32) as usize;
        let un = k >= l.len();
        let line = if un { u[k - l.len()] } else { l[k] };
        note(line.as_bytes());
        match parse_sdp_line(line, 3) {
            Ok(_) => check(false, "a malformed line is accepted"),
            Err(e) => {
                check(matches!(e, SdpParserError::Unsupported { .. }) == un, "the kind of the error is wrong");
                match e.source() {
                    None => check(false, "the error of a line has no source"),
                    Some(s) => check(s.source().is_none(), "a cause of its own has a source"),
                }
                match e {
                    SdpParserError::Line { error, .. } => check(matches!(error, SdpParserInternalError::Generic(_)), "the cause is another one"),
                    SdpParserError::Unsupported { error, .. } => check(matches!(error, SdpParserInternalError::Unsupported(_)), "the cause is another one"),
                    _ => check(false, "a malformed line is reported as a sequence error"),
                }
                if un { cover("unsupported") } else { cover("generic") }
            }
        }
    }
    fn h_c24_print() {
        // errors of every kind with arbitrary contents
        let w = choice(3);
        let m = if w == 1 { long(many() + 2, &[]) } else { tok(3, b"") };
        let line = if w == 2 { long(many() + 2, &[]) } else { nonl(3) };
        let n = if w > 0 { 12345 } else { [0usize, 1, 9, 10, 11, 99, 100, 4294967296, usize::MAX][choice(9) as usize] };
        let num = n.to_string();
        let c = choice(4);
        let inner = match c {
            0 => SdpParserInternalError::Generic(m.clone()),
            1 => SdpParserInternalError::Unsupported(m.clone()),
            2 => SdpParserInternalError::UnknownAddressType(m.clone()),
            _ => SdpParserInternalError::from(u8::from_str("x").unwrap_err()),
        };
        let it = inner.to_string();
        if c < 3 {
            check(ends(&it, &m), "the message is not printed");
            check(inner.source().is_none(), "a cause of its own has a source");
        }
        let k = choice(3);
        let e = match k {
            0 => SdpParserError::Line { error: inner, line: line.clone(), line_number: n },
            1 => SdpParserError::Unsupported { error: inner, line: line.clone(), line_number: n },
            _ => SdpParserError::Sequence { message: m.clone(), line_number: n },
        };
        let e2 = e.clone();
        let t = e.to_string();
        check(s_eq(&t, &e2.to_string()), "a clone prints differently");
        observe(t.as_bytes());
        check(contains(&t, &format!("({})", num)), "the line number is not printed");
        if k < 2 {
            check(ends(&t, &line), "the line is not printed");
            check(contains(&t, &it), "the cause is not printed");
            check(match e.source() { Some(s) => s_eq(&s.to_string(), &it), None => false }, "the cause is not the source");
            check(t.starts_with(if k == 0 { "Line" } else { "Unsupported" }), "the kind is not printed");
        } else {
            check(ends(&t, &m), "the message is not printed");
            check(e.source().is_none(), "a sequence error has a source");
            check(t.starts_with("Sequence"), "the kind is not printed");
        }
        cover("printed");
    }
    fn h_c24_description() {
        // what a whole description reports is what its line reports
        let bad = choice(2) == 1;
        let l = if bad { format!("a=ptime:{}", tchar(b"0123456789+") as char) } else { format!("a=x{}:{}", lower(1), dig() as char) };
        let before = choice(3) as usize;
        let mut t = format!("{}c=IN IP4 1.2.3.4\r\n", HEAD);
        for _ in 0..before {
            t.push_str("a=ice-ufrag:x\r\n");
        }
        t.push_str(&l);
        t.push_str("\r\na=ice-pwd:x\r\n");
        note(t.as_bytes());
        let direct = match parse_sdp_line(&l, 5 + before) { Err(e) => e, Ok(_) => { check(false, "a malformed line is accepted"); return } };
        let got = match parse_sdp(&t, choice(2) == 1) {
            Err(e) => e,
            Ok(s) => {
                check(!bad && s.warnings.len() == 1, "the warning is not reported");
                if s.warnings.is_empty() { return }
                s.warnings[0].clone()
            }
        };
        check(s_eq(&got.to_string(), &direct.to_string()), "the description reports another error");
        check(match (got.source(), direct.source()) { (Some(a), Some(b)) => s_eq(&a.to_string(), &b.to_string()), _ => false }, "the source differs");
        if bad { cover("error in a description") } else { cover("warning in a description") }
    }
    fn h_c24_convert() {
        // the conversions keep the underlying error
        match choice(6) {
            0 => {
                let x = st(vec![tchar(b"0123456789+")]);
                let u = u32::from_str(&x).unwrap_err();
                let e = SdpParserInternalError::from(u.clone());
                check(matches!(e, SdpParserInternalError::Integer(_)), "an integer error becomes another cause");
                under(&e, &u);
            }
            1 => {
                let x = st(vec![b'1', tchar(b"0123456789.eE")]);
                let u = f32::from_str(&x).unwrap_err();
                let e = SdpParserInternalError::from(u.clone());
                check(matches!(e, SdpParserInternalError::Float(_)), "a float error becomes another cause");
                under(&e, &u);
            }
            2 => {
                let u = std::net::IpAddr::from_str("1.2.3").unwrap_err();
                let e = SdpParserInternalError::from(u.clone());
                check(matches!(e, SdpParserInternalError::IpAddress(_)), "an address error becomes another cause");
                under(&e, &u);
            }
            3 => {
                let x = format!("a{}b", one(b"%<>?@\\^|") as char);
                match Address::from_str(&x) {
                    Err(e) => match e {
                        SdpParserInternalError::Domain(ref u) => under(&e, u),
                        _ => check(false, "a host error becomes another cause"),
                    },
                    Ok(_) => check(false, "a bad host is accepted"),
                }
            }
            4 => {
                let x = format!("{}::1::2", dig() as char);
                match ExplicitlyTypedAddress::try_from((AddressType::IpV6, x.as_str())) {
                    Err(e) => match e {
                        SdpParserInternalError::IpAddress(ref u) => under(&e, u),
                        _ => check(false, "an address error becomes another cause"),
                    },
                    Ok(_) => check(false, "a bad address is accepted"),
                }
            }
            _ => {
                let e = SdpParserInternalError::from(u8::from_str("256").unwrap_err());
                let t = e.to_string();
                check(!s_eq(&t, &SdpParserInternalError::from(u8::from_str("").unwrap_err()).to_string()), "different errors print alike");
            }
        }
        cover("converted");
    }
    fn h_c24_every_cause() {
        // each error of a number is kept, whatever is wrong with the number
        let ints = ["", "-", "+", "x", "1 ", "18446744073709551616", "-129", "99999999999999999999999"];
        let floats = ["", ".", "e", "1e", "x", "1.2.3", "-", "1 "];
        let k = choice(8) as usize;
        match choice(5) {
            0 => int(u8::from_str(ints[k]).err()),
            1 => int(u64::from_str(ints[k]).err()),
            2 => int(i8::from_str(ints[k]).err()),
            3 => float(f32::from_str(floats[k]).err()),
            _ => float(f64::from_str(floats[k]).err()),
        }
        cover("every cause");
    }
    fn h_c24_missing_numbers() {
        // a number that is missing altogether
        const I: &[&str] = &["ptime:", "maxptime:", "max-message-size:", "sctp-port:", "ice-pacing:", "ssrc:", "rtcp:", "rid:1 send pt=", "rtpmap:0 a/", "rtpmap:0 a/1/", "imageattr:* send [x=,y=1]", "ssrc-group:FID  1", "fmtp:0 max-fs=", "fmtp:0 1//3", "rid:1 send max-fs=", "sctpmap: webrtc-datachannel 1"];
        const D: &[&str] = &["framerate:", "imageattr:* send [x=1,y=1,q=]", "imageattr:* send [x=1,y=1,sar=]", "imageattr:* send [x=1,y=1,par=[-1]]", "imageattr:* send [x=1,y=1,sar=[1,]]", "imageattr:* send [x=1,y=1,sar=[1-]]"];
        let k = choice((I.len() + D.len()) as u32) as usize;
        let l = if k < I.len() { I[k] } else { D[k - I.len()] };
        note(l.as_bytes());
        match l.parse::<attribute_type::SdpAttribute>() {
            Ok(_) => cover("ignored"),
            Err(e) => match e {
                SdpParserInternalError::Integer(ref u) => { check(k < I.len(), "the cause is another one"); under(&e, u); cover("no integer") }
                SdpParserInternalError::Float(ref u) => { check(k >= I.len(), "the cause is another one"); under(&e, u); cover("no decimal") }
                SdpParserInternalError::Generic(_) => cover("nothing"),
                _ => check(false, "the cause is another one"),
            },
        }
    }
}
fn int(u: Option<std::num::ParseIntError>) {
    if let Some(u) = u {
        let e = SdpParserInternalError::from(u.clone());
        check(matches!(e, SdpParserInternalError::Integer(_)), "an integer error becomes another cause");
        under(&e, &u);
    }
}
fn float(u: Option<std::num::ParseFloatError>) {
    if let Some(u) = u {
        let e = SdpParserInternalError::from(u.clone());
        check(matches!(e, SdpParserInternalError::Float(_)), "a float error becomes another cause");
        under(&e, &u);
    }
}
