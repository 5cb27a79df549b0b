//! C11: letter case of keywords, white space around lines and tokens, and the style of line ends
//! do not change what a text means.
use super::gen::*;
use super::mutate::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::*;

fn same_attr(a: &str, b: &str) {
    let x = match a.parse::<SdpAttribute>() {
        Ok(x) => x,
        Err(_) => return check(false, "a well-formed attribute is rejected"),
    };
    match pa(b) {
        Some(y) => {
            check(attr_eq(&x, &y), "another spelling means something else");
            check(s_eq(&x.to_string(), &y.to_string()), "another spelling prints as something else");
            cover("same");
        }
        None => check(false, "another spelling is rejected"),
    }
}
fn line_eq(a: &SdpType, b: &SdpType) -> bool {
    use SdpType::*;
    match (a, b) {
        (Attribute(a), Attribute(b)) => attr_eq(a, b),
        (Bandwidth(a), Bandwidth(b)) => bw_eq(a, b),
        (Connection(a), Connection(b)) => conn_eq(a, b),
        (Media(a), Media(b)) => {
            d_eq(&a.media, &b.media) && a.port == b.port && a.port_count == b.port_count && d_eq(&a.proto, &b.proto) && fmts_eq(&a.formats, &b.formats)
        }
        (Origin(a), Origin(b)) => origin_eq(a, b),
        (Session(a), Session(b)) => s_eq(a.trim(), b.trim()),
        (Timing(a), Timing(b)) => a.start == b.start && a.stop == b.stop,
        (Version(a), Version(b)) => a == b,
        _ => false,
    }
}
fn same_line(a: &str, b: &str) {
    note(b.as_bytes());
    match (parse_sdp_line(a, 1), parse_sdp_line(b, 1)) {
        (Ok(x), Ok(y)) => {
            check(line_eq(&x.sdp_type, &y.sdp_type), "another spelling of a line means something else");
            cover("same line");
        }
        (Ok(_), Err(_)) => check(false, "another spelling of a line is rejected"),
        _ => check(false, "a well-formed line is rejected"),
    }
}
fn ws() -> String {
    match choice(4) {
        0 => String::new(),
        1 => st(vec![one(b" \t")]),
        2 => st(vec![one(b" \t"), one(b" \t")]),
        _ => st(vec![one(b" \t\x0b\x0c"), b' ', one(b" \t")]),
    }
}
/// text before, keyword, text after
const WORDS: &[(&str, &str, &str)] = &[
    ("a=candidate:0 1 ", "udp", " 1 1.2.3.4 9 typ host"),
    ("a=candidate:0 1 ", "tcp", " 1 1.2.3.4 9 typ host tcptype active"),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 ", "typ", " host"),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ ", "host", ""),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ ", "srflx", " raddr 1.1.1.1 rport 5"),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ ", "prflx", ""),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ ", "relay", ""),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ host ", "raddr", " 1.1.1.1 rport 5"),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ host raddr 1.1.1.1 ", "rport", " 5"),
    ("a=candidate:0 1 TCP 1 1.2.3.4 9 typ host ", "tcptype", " active"),
    ("a=candidate:0 1 TCP 1 1.2.3.4 9 typ host tcptype ", "active", ""),
    ("a=candidate:0 1 TCP 1 1.2.3.4 9 typ host tcptype ", "passive", ""),
    ("a=candidate:0 1 TCP 1 1.2.3.4 9 typ host tcptype ", "so", ""),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ host ", "generation", " 5"),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ host ", "ufrag", " aB"),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ host ", "network-cost", " 50"),
    ("a=setup:", "active", ""),
    ("a=setup:", "passive", ""),
    ("a=setup:", "actpass", ""),
    ("a=setup:", "holdconn", ""),
    ("a=group:", "BUNDLE", " a B"),
    ("a=group:", "LS", " a"),
    ("a=group:", "FID", " a"),
    ("a=group:", "SRF", " a"),
    ("a=group:", "ANAT", " a"),
    ("a=group:", "FEC", " a"),
    ("a=group:", "DDP", " a"),
    ("a=ssrc-group:", "FID", " 1 2"),
    ("a=ssrc-group:", "DUP", " 1 2"),
    ("a=ssrc-group:", "FEC", " 1 2"),
    ("a=ssrc-group:", "FEC-FR", " 1 2"),
    ("a=ssrc-group:", "SIM", " 1 2"),
    ("a=extmap:3/", "sendonly", " urn:x"),
    ("a=extmap:3/", "recvonly", " urn:x"),
    ("a=extmap:3/", "sendrecv", " urn:x"),
    ("a=rtcp:9 ", "IN", " IP4 1.2.3.4"),
    ("a=rtcp:9 IN ", "IP4", " 1.2.3.4"),
    ("a=rtcp:9 IN ", "IP6", " ::1"),
    ("a=sctpmap:5 ", "webrtc-datachannel", " 9"),
    ("a=fmtp:9 ", "profile-level-id", "=42e01f"),
    ("a=fmtp:9 ", "packetization-mode", "=1"),
    ("a=fmtp:9 ", "level-asymmetry-allowed", "=1"),
    ("a=fmtp:9 ", "max-fs", "=1"),
    ("a=fmtp:9 ", "max-fr", "=1"),
    ("a=fmtp:9 ", "max-br", "=1"),
    ("a=fmtp:9 ", "max-mbps", "=1"),
    ("a=fmtp:9 ", "max-cpb", "=1"),
    ("a=fmtp:9 ", "max-dpb", "=1"),
    ("a=fmtp:9 ", "profile", "=1"),
    ("a=fmtp:9 ", "level-idx", "=1"),
    ("a=fmtp:9 ", "tier", "=1"),
    ("a=fmtp:9 ", "usedtx", "=1"),
    ("a=fmtp:9 ", "stereo", "=1"),
    ("a=fmtp:9 ", "useinbandfec", "=1"),
    ("a=fmtp:9 ", "cbr", "=1"),
    ("a=fmtp:9 ", "ptime", "=1"),
    ("a=fmtp:9 ", "minptime", "=1"),
    ("a=fmtp:9 ", "maxptime", "=1"),
    ("a=fmtp:9 ", "maxplaybackrate", "=1"),
    ("a=fmtp:9 ", "maxaveragebitrate", "=1"),
    ("a=fmtp:9 ", "apt", "=1"),
    ("a=fmtp:9 apt=1;", "rtx-time", "=1"),
    ("m=", "audio", " 9 RTP/AVP 0"),
    ("m=", "video", " 9 RTP/AVP 0"),
    ("m=", "application", " 9 RTP/AVP 0"),
    ("m=audio 9 ", "RTP/AVP", " 0"),
    ("m=audio 9 ", "RTP/AVPF", " 0"),
    ("m=audio 9 ", "RTP/SAVP", " 0"),
    ("m=audio 9 ", "RTP/SAVPF", " 0"),
    ("m=audio 9 ", "TCP/DTLS/RTP/SAVP", " 0"),
    ("m=audio 9 ", "TCP/DTLS/RTP/SAVPF", " 0"),
    ("m=audio 9 ", "UDP/TLS/RTP/SAVP", " 0"),
    ("m=audio 9 ", "UDP/TLS/RTP/SAVPF", " 0"),
    ("m=application 9 ", "DTLS/SCTP", " 0"),
    ("m=application 9 ", "UDP/DTLS/SCTP", " 0"),
    ("m=application 9 ", "TCP/DTLS/SCTP", " 0"),
    ("c=", "IN", " IP4 1.2.3.4"),
    ("c=IN ", "IP4", " 1.2.3.4"),
    ("c=IN ", "IP6", " ::1"),
    ("o=- 1 1 ", "IN", " IP4 1.2.3.4"),
    ("o=- 1 1 IN ", "IP4", " 1.2.3.4"),
    ("o=- 1 1 IN ", "IP6", " ::1"),
    ("b=", "AS", ":5"),
    ("b=", "CT", ":5"),
    ("b=", "TIAS", ":5"),
    ("", "v", "=0"),
    ("", "o", "=- 1 1 IN IP4 1.2.3.4"),
    ("", "s", "=x"),
    ("", "t", "=0 0"),
    ("", "c", "=IN IP4 1.2.3.4"),
    ("", "b", "=AS:5"),
    ("", "m", "=audio 9 RTP/AVP 0"),
    ("", "a", "=sendrecv"),
];
/// lines whose tokens may be set apart by any white space
const SPACED: &[&str] = &[
    "m=audio 9 RTP/AVP 0 96",
    "m=application 9 UDP/DTLS/SCTP a b",
    "o=- 1 2 IN IP4 1.2.3.4",
    "c=IN IP4 1.2.3.4",
    "t=0 1",
    "a=candidate:0 1 UDP 1 1.2.3.4 9 typ host generation 5",
    "a=group:BUNDLE a b",
    "a=ice-options:a b",
    "a=ssrc-group:FID 1 2",
    "a=remote-candidates:0 1.2.3.4 5",
    "a=extmap:1 urn:x",
    "a=fingerprint:sha-1 CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC",
    "a=msid:a b",
    "a=rtcp:9 IN IP4 1.2.3.4",
    "a=sctpmap:5 webrtc-datachannel 9",
];
harnesses! {
    fn h_c11_words() {
        let (a, w, b) = WORDS[choice(WORDS.len() as u32) as usize];
        let c = anycase(w);
        same_line(&format!("{}{}{}", a, w, b), &format!("{}{}{}", a, c, b));
    }
    fn h_c11_attr_names() {
        let g = any_attr(false);
        let n = anycase(g.name);
        if g.val.is_empty() { same_attr(g.name, &n) } else { same_attr(&format!("{}:{}", g.name, g.val), &format!("{}:{}", n, g.val)) }
    }
    fn h_c11_padding() {
        // white space before and after the type and the value
        let l = line();
        let i = match l.find('=') { Some(i) => i, None => return };
        let p = match choice(4) {
            0 => format!("{}{}", ws(), l),
            1 => format!("{}{}{}", &l[..i], ws(), &l[i..]),
            2 => format!("{}{}{}", &l[..i + 1], ws(), &l[i + 1..]),
            _ => format!("{}{}", l, ws()),
        };
        same_line(l, &p);
    }
    fn h_c11_attr_padding() {
        let a = attr();
        let l = format!("a={}", a);
        let p = match choice(5) {
            0 => format!("{}{}", ws(), l),
            1 => format!("a{}={}", ws(), a),
            2 => format!("a={}{}", ws(), a),
            3 => format!("{}{}", l, ws()),
            _ => match a.find(':') {
                Some(i) => format!("a={}{}{}", &a[..i + 1], ws(), &a[i + 1..]),
                None => return,
            },
        };
        same_line(&l, &p);
    }
    fn h_c11_tokens() {
        // more white space between two tokens
        let l = SPACED[choice(SPACED.len() as u32) as usize];
        let n = l.matches(' ').count() as u32;
        let k = choice(n) as usize;
        let i = match l.match_indices(' ').nth(k) { Some((i, _)) => i, None => return };
        let s = match choice(2) { 0 => st(vec![one(b" \t")]), _ => st(vec![one(b" \t"), one(b" \t")]) };
        same_line(l, &format!("{}{} {}", &l[..i], s, &l[i + 1..]));
    }
    fn h_c11_line_ends() {
        // each line ends in LF or CRLF, blank lines may follow, the last end may be missing
        const LINE: &[&str] = &["v=0", "o=- 4611731400430051336 2 IN IP4 127.0.0.1", "s=x", "t=0 0", "c=IN IP4 1.2.3.4", "m=audio 9 RTP/AVP 0", "a=sendrecv"];
        // the last line: fine, not supported, or broken
        let kind = choice(3);
        let mut lines = LINE.to_vec();
        lines[6] = ["a=sendrecv", "a=foo:bar", "a=ptime:x"][kind as usize];
        let l = lines;
        let all = l.join("\r\n") + "\r\n";
        let mut t = String::new();
        let from = choice(3) as usize * 2;
        let ends = ["\n", "\r\n", "\n\n", "\r\n \r\n", "\r\n\t\n", " \n"];
        for (i, x) in l.iter().enumerate() {
            t.push_str(x);
            let window = i >= from && i < from + 3;
            if window {
                t.push_str(ends[choice(6) as usize]);
            } else if i + 1 < l.len() || choice(2) == 0 {
                t.push_str("\r\n");
            }
        }
        let t = if choice(2) == 1 { format!("\r\n{}", t) } else { t };
        note(t.as_bytes());
        // what is reported is the line without its end
        let text = |e: &SdpParserError| match e { SdpParserError::Line { line, .. } | SdpParserError::Unsupported { line, .. } => line.trim_end_matches(' ').to_string(), _ => String::new() };
        match (parse_sdp(&all, kind == 0), parse_sdp(&t, kind == 0)) {
            (Err(a), Err(b)) if kind == 2 => { check(s_eq(&text(&a), l[6]) && s_eq(&text(&b), l[6]), "line ends change the reported line"); cover("error") }
            (Ok(a), Ok(b)) => {
                check(kind < 2, "a broken line is accepted");
                for s in [&a, &b] {
                    check(s.warnings.len() == (kind == 1) as usize && s.warnings.iter().all(|w| s_eq(&text(w), l[6])), "line ends change the reported line");
                }
                check(session_eq(&a, &b), "line ends change the meaning");
                check(s_eq(&a.to_string(), &b.to_string()), "line ends change the printed text");
                cover("same");
            }
            _ => check(false, "another style of line ends is rejected"),
        }
    }
    fn h_c11_values_keep_case() {
        // free values are not folded
        let t = tok(1, b":;=,/~");
        let (k, l) = match choice(12) {
            0 => (0, format!("ice-ufrag:{}", t)),
            1 => (1, format!("ice-pwd:{}", t)),
            2 => (2, format!("mid:{}", t)),
            3 => (3, format!("label:{}", t)),
            4 => (4, format!("group:LS {}", t)),
            5 => (5, format!("rtpmap:96 {}/9", t)),
            6 => (6, format!("fmtp:96 {}=x", t)),
            7 => (7, format!("msid:{}", t)),
            8 => (8, format!("rid:{} send", t)),
            9 => (9, format!("ssrc:1 {}", t)),
            10 => (10, format!("candidate:{} 1 UDP 1 1.2.3.4 9 typ host ufrag {}", t, t)),
            _ => (11, format!("identity:{}", t)),
        };
        match pa(&l) {
            Some(a) => {
                let got = match (&a, k) {
                    (SdpAttribute::IceUfrag(s), 0) | (SdpAttribute::IcePwd(s), 1) | (SdpAttribute::Mid(s), 2) | (SdpAttribute::Label(s), 3)
                    | (SdpAttribute::Identity(s), 11) => s.clone(),
                    (SdpAttribute::Group(g), 4) => g.tags[0].clone(),
                    (SdpAttribute::Rtpmap(g), 5) => g.codec_name.clone(),
                    (SdpAttribute::Fmtp(g), 6) => { check(g.parameters.unknown_tokens.len() == 1, "an unknown parameter is lost"); g.parameters.unknown_tokens[0][..1].to_string() }
                    (SdpAttribute::Msid(g), 7) => g.id.clone(),
                    (SdpAttribute::Rid(g), 8) => g.id.clone(),
                    (SdpAttribute::Ssrc(g), 9) => g.attribute.clone().unwrap_or_default(),
                    (SdpAttribute::Candidate(c), 10) => { check(o_eq(&c.ufrag, &Some(t.clone()), str_eq), "the ufrag is changed"); c.foundation.clone() }
                    _ => return check(false, "another attribute"),
                };
                check(s_eq(&got, &t), "a free value is changed");
                cover("kept");
            }
            None => check(false, "a well-formed attribute is rejected"),
        }
    }
}
