//! C01: no text makes the parser panic or hang, and whatever it accepts can be printed, copied,
//! masked and looked up.
use super::gen::*;
use super::mutate::*;
use super::sym::*;
use super::util::*;
use std::str::FromStr;
use webrtc_sdp::anonymizer::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::*;

fn use_attr(a: &SdpAttribute) {
    let t = a.to_string();
    observe(t.as_bytes());
    let _ = a.allowed_at_session_level();
    let _ = a.allowed_at_media_level();
    let _ = SdpAttributeType::from(a);
    let mut an = StatefulSdpAnonymizer::new();
    let m = a.masked_clone(&mut an);
    let _ = m.to_string();
    cover("accepted");
}
/// with tracing on, what the parser traces is computed as well
fn traced() {
    log::set_max_level(log::LevelFilter::Trace);
}
fn one_attr(s: &str) {
    traced();
    match pa(s) {
        Some(a) => use_attr(&a),
        None => cover("rejected"),
    }
}
fn one_line(s: &str) {
    traced();
    note(s.as_bytes());
    match parse_sdp_line(s, 3) {
        Ok(l) => {
            check(l.line_number == 3 && s_eq(&l.text, s), "the line does not carry its number and text");
            match &l.sdp_type {
                SdpType::Attribute(a) => use_attr(a),
                SdpType::Bandwidth(b) => observe(b.to_string().as_bytes()),
                SdpType::Connection(b) => observe(b.to_string().as_bytes()),
                SdpType::Media(b) => observe(b.to_string().as_bytes()),
                SdpType::Origin(b) => observe(b.to_string().as_bytes()),
                SdpType::Timing(b) => observe(b.to_string().as_bytes()),
                SdpType::Session(b) => observe(b.as_bytes()),
                SdpType::Version(_) => {}
            }
            cover("accepted");
        }
        Err(e) => {
            let _ = e.to_string();
            cover("rejected");
        }
    }
}
fn whole(s: &str) {
    traced();
    note(s.as_bytes());
    match parse_sdp(s, false) {
        Ok(x) => {
            let t = x.to_string();
            observe(t.as_bytes());
            let mut an = StatefulSdpAnonymizer::new();
            let m = x.masked_clone(&mut an);
            let _ = m.to_string();
            cover("accepted");
        }
        Err(e) => {
            let _ = e.to_string();
            cover("rejected");
        }
    }
}
const S1: &str = "v=0\r\no=- 4 2 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\nc=IN IP4 1.2.3.4/1\r\nb=AS:1\r\na=ice-lite\r\nm=audio 9/1 RTP/AVP 0 96\r\nc=IN IP6 ::1\r\nb=x:2\r\na=rid:a send pt=0\r\na=simulcast:send a\r\na=rtcp-mux-only\r\na=rtcp-mux\r\na=foo:x\r\nm=application 9 UDP/DTLS/SCTP w\r\na=sctp-port:5\r\n";
const S2: &str = "v=0\r\no=- 0 0 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\nm=video 0 RTP/SAVPF 96\r\nc=IN IP4 0.0.0.0\r\na=mid:x\r\n";
/// pieces that may be repeated any number of times: what stands before, the piece, what follows
const REPEATED: &[(&str, &str, &str)] = &[
    ("a=ptime:", "1", ""), ("a=ptime:", "0", "5"), ("a=mid:", "é", ""), ("a=", "x", ""), ("a", "a", "=1"), ("a=", "é", ":1"),
    ("a=ice-pwd:x", "\u{1f600}", ""), ("a=mid:", ":", ""), ("s=", "é", ""), ("s=", " ", "x"),
    ("a=fmtp:97 a=b", ";", ""), ("a=fmtp:97 a=b", ";x=y", ""), ("a=fmtp:97 a=", "=", ""), ("a=fmtp:97 0", "/0", ""),
    ("a=fmtp:97 0", ",1-2", ""), ("a=fmtp:97 profile-level-id=", "0", "1"), ("a=fmtp:97 max-br=", "9", ""), ("a=fmtp:97 apt=1", ";rtx-time=1", ""),
    ("a=imageattr:97 send ", "[", ""), ("a=imageattr:97 send [x=1,y=1", "]", ""), ("a=imageattr:97 send [x=[1", ",1", "],y=1]"),
    ("a=imageattr:97 send [x=1", ":1", ",y=1]"), ("a=imageattr:97 send", " [x=1,y=1]", ""), ("a=imageattr:97 send [x=1,y=1", ",q=1", "]"),
    ("a=imageattr:97 send [x=1,y=1,", "z", "]"), ("a=imageattr:97 send *", " recv *", ""),
    ("a=simulcast:send a", ",~b", ""), ("a=simulcast:send a", ";b", ""), ("a=simulcast:send ", "~", "a"), ("a=simulcast:send rid", "=", "a"),
    ("a=rid:1 send max-br=1", ";max-br=2", ""), ("a=rid:1 send pt=0", ",0", ""), ("a=rid:1 send depends=a", ",a", ""), ("a=rid:1 send", " ", "x=1"),
    ("a=candidate:1 1 UDP 1 1.2.3.4 1 typ host", " x y", ""), ("a=candidate:1 ", "4", " UDP 1 1.2.3.4 1 typ host"),
    ("a=candidate:1 1 UDP 1 1.2.3.4 1 typ host", " raddr 1.2.3.4", ""), ("a=candidate:1 1 UDP ", "4", " 1.2.3.4 1 typ host"),
    ("a=candidate:1 1 UDP 1 1.2.3.4 ", "0", "1 typ host"), ("a=candidate:1 1 UDP 1 a", ".a", " 1 typ host"),
    ("a=ssrc-group:FID 1", " 1", ""), ("a=group:LS", " a", ""), ("a=ice-options:a", " b", ""), ("a=msid-semantic:a", " b", ""),
    ("a=fingerprint:sha-1 AB", ":AB", ""), ("a=fingerprint:sha-1 ", "A", ""), ("a=extmap:1 u", " x", ""), ("a=extmap:", "1", " u"), ("a=extmap:1", "/", " u"),
    ("a=rtpmap:97 a/1", "/1", ""), ("a=rtpmap:97 ", "a", "/1"), ("a=rtpmap:97 a/", "1", ""), ("a=rtcp-fb:97 nack", " ", "pli"), ("a=rtcp-fb:97 trr-int ", "1", ""),
    ("a=rtcp:1 IN IP6 1", ":1", ""), ("a=rtcp:", "1", ""), ("a=ssrc:", "1", ""), ("a=ssrc:1 a", ":b", ""), ("a=sctpmap:1 webrtc-datachannel ", "1", ""),
    ("a=sctp-port:", "1", ""), ("a=ice-pacing:", "1", ""), ("a=max-message-size:", "1", ""), ("a=framerate:", "1", ""), ("a=framerate:0.", "0", "1"),
    ("a=framerate:1e", "1", ""), ("a=remote-candidates:1 1.2.3.4 ", "1", ""), ("a=dtls-message:client", " a", ""), ("a=setup:", "a", ""),
    ("m=audio 9 RTP/AVP 0", " 0", ""), ("m=audio ", "9", " RTP/AVP 0"), ("m=audio 9", "/1", " RTP/AVP 0"), ("m=audio 9/", "4", " RTP/AVP 0"),
    ("m=audio 9 RTP", "/AVP", " 0"), ("m=audio 9 RTP/AVP ", "1", ""), ("m=application 9 DTLS/SCTP", " é", ""),
    ("c=IN IP4 1.2.3.4", "/1", ""), ("c=IN IP4 1.2.3.4/", "1", ""), ("c=IN IP6 1", ":1", ""), ("c=IN IP4 1", ".1", ""), ("c=IN IP4 a", ".a", ""), ("c=IN IP4 ", "a", ""),
    ("b=AS:", "1", ""), ("b=", "A", ":1"), ("b=AS", ":1", ""), ("t=0", " 0", ""), ("t=", "1", " 0"), ("o=- ", "1", " 2 IN IP4 1.1.1.1"), ("v=", "0", ""),
    ("", "a=foo:x\r\n", ""), ("", "a=ptime:x\r\n", ""), ("", "\r\n", ""), ("", "\n", ""), ("", "\r", ""), ("", "x", ""), ("", "=", ""), ("", "é", ""),
    ("", "a=rid:1 send pt=0\r\n", ""), ("", "a=simulcast:send 1\r\n", ""), ("", "b=AS:1\r\n", ""), ("", "m=audio 9 RTP/AVP 0\r\n", ""), ("", "a=ssrc:1 cname:x\r\n", ""),
    ("", "a=candidate:1 1 UDP 1 1.2.3.4 1 typ host\r\n", ""), ("", "t=0 0\r\n", ""),
];
/// an attribute line: the name and the start of its value, then arbitrary bytes
fn tail() -> String {
    let a = attr();
    let n = if a.contains("par=") || a.contains("framerate") { 1 } else if deep() { 3 } else { 2 };
    let p = a.find(':').map(|p| p + 1).unwrap_or(a.len());
    let rest = a.len() - p;
    let keep = if rest == 0 { 0 } else { choice(rest as u32 + 1) as usize };
    format!("{}{}", &a[..p + keep], nonl(n))
}

harnesses! {
    fn h_c01_attr_window() {
        let a = attr();
        // the characters of a fraction are enumerated one by one
        let w = if a.contains("par=") || a.contains("framerate") { 1 } else if deep() { 3 } else { 2 };
        one_attr(&window(a, w))
    }
    fn h_c01_attr_insert() { one_attr(&insert(attr())) }
    fn h_c01_attr_wide() { one_attr(&wide(attr())) }
    fn h_c01_attr_anywide() {
        let s = if !deep() { pick(&["mid:ab", "ssrc:1 a:b"]) } else { pick(&["mid:ab", "fmtp:9 ptime=9", "ssrc:1 a:b", "rid:a send pt=1", "simulcast:send 1", "setup:active", "group:LS a", "rtpmap:1 a/2"]) };
        one_attr(&anywide(s))
    }
    fn h_c01_attr_name() {
        let n = 1 + choice(if deep() { 5 } else { 4 }) as usize;
        one_attr(&ascii(n))
    }
    fn h_c01_attr_cut() { one_attr(&cut(attr())) }
    fn h_c01_attr_tail() { one_attr(&tail()) }
    fn h_c01_attr_splice() { one_attr(&splice(attr())) }
    fn h_c01_attr_numbers() { one_attr(&numbers(attr())) }
    fn h_c01_attr_words() { let a = attr(); one_attr(&words(a, pick(&[" ", ";", ","]))) }
    fn h_c01_line_numbers() { one_line(&numbers(line())) }
    fn h_c01_line_words() { one_line(&words(line(), " ")) }
    fn h_c01_attr_valid() { one_attr(&any_attr(true).canon) }
    fn h_c01_attr_short() {
        // nothing but a name and a few arbitrary bytes
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        // the digits of a fraction are enumerated one by one
        let n = choice(if k == "framerate" { 2 } else if deep() { 5 } else { 4 }) as usize;
        one_attr(&format!("{}:{}", k, ascii(n)))
    }
    fn h_c01_line_window() { one_line(&window(line(), if deep() { 3 } else { 2 })) }
    fn h_c01_line_insert() { one_line(&insert(line())) }
    fn h_c01_line_wide() { one_line(&wide(line())) }
    fn h_c01_line_anywide() { one_line(&anywide(if deep() { pick(&["s=ab", "a=mid:x", "t=0 1", "v=0"]) } else { "s=ab" })) }
    fn h_c01_line_cut() { one_line(&cut(line())) }
    fn h_c01_line_splice() { one_line(&splice(line())) }
    fn h_c01_line_any() { let n = choice(if deep() { 6 } else { 5 }) as usize; one_line(&ascii(n)) }
    fn h_c01_long_lists() {
        let g = long_list(choice(PATTERNS), many());
        one_attr(&format!("{}:{}", g.name, g.val))
    }
    fn h_c01_repeated() {
        let (a, b, c) = REPEATED[choice(REPEATED.len() as u32) as usize];
        let n = if deep() { many() } else { [1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 128, 129, 255, 256, 257][choice(17) as usize] };
        let mut t = st(HEAD.as_bytes().to_vec()) + "c=IN IP4 1.2.3.4\r\nm=audio 9 RTP/AVP 0 97\r\n" + a;
        for _ in 0..n { t.push_str(b) }
        t.push_str(c);
        if choice(2) == 1 { t.push_str(&nonl(1)) }
        t.push_str("\r\n");
        whole(&t)
    }
    fn h_c01_text_window() {
        let s = [S1, S2][choice(2) as usize];
        let p = choice(s.len() as u32 - 1) as usize;
        let mut v = s.as_bytes()[..p].to_vec();
        v.push(byte(127));
        if choice(2) == 1 { v.push(byte(127)); }
        v.extend_from_slice(&s.as_bytes()[p + 1..]);
        whole(&st(v))
    }
    fn h_c01_text_numbers() { whole(&numbers([S1, S2][choice(2) as usize])) }
    fn h_c01_text_cut() { let s = [S1, S2][choice(2) as usize]; whole(&s[..choice(s.len() as u32) as usize]) }
    fn h_c01_text_wide() {
        let s = [S1, S2][choice(2) as usize];
        let p = choice(s.len() as u32 + 1) as usize;
        whole(&format!("{}{}{}", &s[..p], pick(&["é", "\u{2028}", "😀", "\u{85}"]), &s[p..]))
    }
    fn h_c01_text_lines() {
        // lines missing, twice, exchanged
        let s = [S1, S2][choice(2) as usize];
        let l: Vec<&str> = s.lines().collect();
        let i = choice(l.len() as u32) as usize;
        let j = choice(l.len() as u32) as usize;
        let mut v = l.clone();
        match choice(4) {
            0 => { v.remove(i); if j < v.len() { v.remove(j); } }
            1 => v.insert(j, l[i]),
            2 => v.swap(i, j),
            _ => v.truncate(i),
        }
        whole(&(v.join(pick(&["\r\n", "\n"])) + "\r\n"))
    }
    fn h_c01_entry_points() {
        // the public functions that take pieces of text
        let n = choice(5) as usize;
        let s = match choice(3) {
            0 => ascii(n),
            1 => format!("{}{}", WIDE[choice(WIDE.len() as u32) as usize], nonl(1)),
            _ => wide("a,~b;"),
        };
        note(s.as_bytes());
        match choice(12) {
            0 => { let _ = network::parse_network_type(&s); }
            1 => { let _ = network::parse_address_type(&s); }
            2 => { let _ = attribute_type::SdpAttributeSimulcastId::new(&s).to_string(); }
            3 => { let _ = attribute_type::SdpAttributeSimulcastVersion::new(&s).to_string(); }
            4 => { let _ = SdpAttributeFingerprintHashType::try_from_name(&s); }
            5 => { let _ = SdpAttributeFingerprintHashType::Sha1.parse_octets(&s); }
            6 => { let _ = network::parse_unicast_address(&s); }
            7 => { let _ = media_type::parse_media(&s); }
            8 => { let _ = parse_attribute(&s); }
            9 => { let _ = address::AddressType::from_str(&s); }
            10 => { let _ = parse_sdp(&s, false); }
            _ => { let _ = parse_sdp_line(&s, usize::MAX); }
        }
        cover("done");
    }
    fn h_c01_address() {
        let s = match choice(7) {
            0 => ascii(2),
            1 => window("1.2.3.4", 2),
            2 => window("fe80::1:2", 2),
            3 => window("ab.example", 2),
            4 => wide("a.b"),
            5 => wide("1.2.3.4"),
            _ => insert("[::1]"),
        };
        note(s.as_bytes());
        match address::Address::from_str(&s) {
            Ok(a) => { observe(a.to_string().as_bytes()); cover("accepted") }
            Err(e) => { let _ = e.to_string(); cover("rejected") }
        }
    }
    fn h_c01_octets() {
        let s = match choice(5) {
            0 => window("CD:34:D1", 3),
            1 => wide("CD:34"),
            2 => cut("CD:34:D1"),
            3 => splice("CD:34:D1"),
            _ => insert("CD:34"),
        };
        note(s.as_bytes());
        for h in [SdpAttributeFingerprintHashType::Sha1, SdpAttributeFingerprintHashType::Sha512] {
            let _ = h.parse_octets(&s);
        }
        cover("done");
    }
    fn h_c01_section_vectors() {
        // the section parsers take any sequence of parsed lines
        let n = choice(4);
        let mk = || {
            let mut v = vec![];
            for i in 0..n {
                let l = ["v=0", "o=- 4 2 IN IP4 1.1.1.1", "s=-", "t=0 0", "c=IN IP4 1.2.3.4", "b=AS:1", "a=ice-lite", "a=sendrecv", "m=audio 9 RTP/AVP 0"][choice(9) as usize];
                if let Ok(l) = parse_sdp_line(l, i as usize) { v.push(l) }
            }
            v
        };
        if choice(2) == 0 {
            let mut v = mk();
            match media_type::parse_media_vector(&mut v) {
                Ok(m) => { for x in &m { observe(x.to_string().as_bytes()) } cover("media sections") }
                Err(_) => cover("no media sections"),
            }
        } else {
            let mut v = mk();
            let mut s = match parse_sdp(S2, false) { Ok(s) => s, Err(_) => return check(false, "a valid text is rejected") };
            match s.parse_session_vector(&mut v) {
                Ok(_) => cover("session lines"),
                Err(_) => cover("no session lines"),
            }
            observe(s.to_string().as_bytes());
        }
    }
}
