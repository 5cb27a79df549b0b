//! C23: a line lacking a mandatory part, with a part too many where the form is closed, with an
//! unknown keyword, or with something else in place of a number is never accepted.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::*;
use P::*;

/// the kinds of parts of a line
#[derive(Clone, Copy)]
enum P {
    /// number
    N,
    /// keyword, in any letter case
    K(&'static [&'static str]),
    /// keyword, exactly
    X(&'static [&'static str]),
    /// literal text
    L(&'static str),
}
const NET: P = K(&["IN"]);
const FAM: P = K(&["IP4"]);
/// a line: its parts, each after its separator; the numbers of parts it may have; whether
/// further words make it ill-formed
struct Row(&'static str, &'static [(&'static str, P, &'static str)], &'static [usize], bool);
const ROWS: &[Row] = &[
    Row("a=dtls-message:", &[("", X(&["client", "server"]), ""), (" ", L("x"), "")], &[2], true),
    Row("a=extmap:", &[("", N, "3"), (" ", L("uri"), "")], &[2], false),
    Row("a=extmap:", &[("", N, "3"), ("/", K(&["sendonly", "recvonly", "sendrecv"]), ""), (" ", L("uri"), "")], &[3], false),
    Row("a=framerate:", &[("", N, "25")], &[1], true),
    Row("a=group:", &[("", K(&["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE"]), ""), (" ", L("a"), "")], &[1, 2], false),
    Row("a=ice-options:", &[("", L("trickle"), "")], &[1], false),
    Row("a=ice-pacing:", &[("", N, "20")], &[1], true),
    Row("a=ice-pwd:", &[("", L("x"), "")], &[1], false),
    Row("a=ice-ufrag:", &[("", L("x"), "")], &[1], false),
    Row("a=identity:", &[("", L("x"), "")], &[1], false),
    Row("a=label:", &[("", L("x"), "")], &[1], false),
    Row("a=mid:", &[("", L("x"), "")], &[1], false),
    Row("a=max-message-size:", &[("", N, "20")], &[1], true),
    Row("a=maxptime:", &[("", N, "20")], &[1], true),
    Row("a=ptime:", &[("", N, "20")], &[1], true),
    Row("a=msid:", &[("", L("x"), ""), (" ", L("y"), "")], &[1, 2], false),
    Row("a=msid-semantic:", &[("", L("WMS"), ""), (" ", L("y"), "")], &[1, 2], false),
    Row("a=remote-candidates:", &[("", N, "1"), (" ", L("1.2.3.4"), ""), (" ", N, "9")], &[3], false),
    Row("a=rtpmap:", &[("", N, "96"), (" ", L("VP8"), ""), ("/", N, "90000"), ("/", N, "2")], &[3, 4], false),
    Row("a=rtcp:", &[("", N, "9"), (" ", NET, ""), (" ", FAM, ""), (" ", L("1.2.3.4"), "")], &[1, 4], false),
    Row("a=rtcp-fb:", &[("", N, "96"), (" ", X(&["nack"]), ""), (" ", X(&["sli", "pli", "rpsi", "app"]), ""), (" ", L("x"), "")], &[2, 3, 4], false),
    Row("a=rtcp-fb:", &[("", N, "96"), (" ", X(&["ccm"]), ""), (" ", X(&["fir", "tmmbr", "tstr", "vbcm"]), ""), (" ", L("x"), "")], &[2, 3, 4], false),
    Row("a=rtcp-fb:", &[("", N, "96"), (" ", X(&["ack"]), ""), (" ", X(&["rpsi", "app"]), ""), (" ", L("x"), "")], &[3, 4], false),
    Row("a=rtcp-fb:", &[("", N, "96"), (" ", X(&["trr-int"]), ""), (" ", N, "5"), (" ", L("x"), "")], &[3, 4], false),
    Row("a=rtcp-fb:", &[("", N, "96"), (" ", X(&["goog-remb", "transport-cc"]), "")], &[2], true),
    Row("a=sctpmap:", &[("", N, "5000"), (" ", K(&["webrtc-datachannel"]), ""), (" ", N, "256")], &[3], true),
    Row("a=sctp-port:", &[("", N, "5000")], &[1], true),
    Row("a=setup:", &[("", K(&["active", "passive", "actpass", "holdconn"]), "")], &[1], true),
    Row("a=ssrc:", &[("", N, "5"), (" ", L("cname:x"), "")], &[1, 2], false),
    Row("a=ssrc-group:", &[("", K(&["DUP", "FID", "FEC", "FEC-FR", "SIM"]), ""), (" ", N, "5"), (" ", N, "6")], &[2, 3], true),
    Row("a=candidate:", &[("", L("f"), ""), (" ", N, "1"), (" ", K(&["udp", "tcp"]), ""), (" ", N, "7"), (" ", L("1.2.3.4"), ""), (" ", N, "9"),
        (" ", K(&["typ"]), ""), (" ", K(&["host", "srflx", "prflx", "relay"]), "")], &[8], true),
    Row("a=simulcast:", &[("", X(&["send"]), ""), (" ", L("a"), ""), (" ", X(&["recv"]), ""), (" ", L("b"), "")], &[2, 4], false),
    Row("a=rid:", &[("", L("a"), ""), (" ", X(&["send", "recv"]), ""), (" ", X(&["pt"]), ""), ("=", N, "5")], &[2, 4], true),
    Row("a=imageattr:", &[("", N, "97"), (" ", X(&["send", "recv"]), ""), (" ", X(&["*"]), "")], &[3], true),
    Row("a=fmtp:", &[("", N, "97"), (" ", L("x=1"), "")], &[2], false),
    Row("a=fingerprint:", &[("", X(&["sha-1"]), ""), (" ", L("00:01:02:03:04:05:06:07:08:09:0A:0B:0C:0D:0E:0F:10:11:12:13"), "")], &[2], true),
    Row("v=", &[("", N, "0")], &[1], true),
    Row("o=", &[("", L("-"), ""), (" ", N, "4"), (" ", N, "2"), (" ", NET, ""), (" ", FAM, ""), (" ", L("1.1.1.1"), "")], &[6], false),
    Row("c=", &[("", NET, ""), (" ", FAM, ""), (" ", L("1.1.1.1"), "")], &[3], true),
    Row("c=", &[("", NET, ""), (" ", FAM, ""), (" ", L("1.1.1.1"), ""), ("/", N, "5"), ("/", N, "6")], &[3, 4, 5], true),
    Row("t=", &[("", N, "1"), (" ", N, "2")], &[2], true),
    Row("b=", &[("", L("AS"), ""), (":", N, "2")], &[2], true),
    Row("m=", &[("", K(&["audio", "video", "application"]), ""), (" ", N, "9"), (" ", K(&["RTP/AVP", "RTP/SAVPF", "TCP/DTLS/RTP/SAVPF"]), ""), (" ", N, "0"), (" ", N, "8")], &[4, 5], true),
];
const PROTO: &[&str] = &["RTP/AVP", "RTP/SAVP", "RTP/AVPF", "RTP/SAVPF", "TCP/DTLS/RTP/SAVP", "TCP/DTLS/RTP/SAVPF", "UDP/TLS/RTP/SAVP", "UDP/TLS/RTP/SAVPF",
    "DTLS/SCTP", "UDP/DTLS/SCTP", "TCP/DTLS/SCTP"];

/// all words that may stand in place of this one
fn allowed(row: &Row, p: &P, m: &str) -> bool {
    let mut r = false;
    match p {
        K(s) => {
            for k in *s { r |= m.eq_ignore_ascii_case(k); }
            if *s == ["IP4"] { r |= m.eq_ignore_ascii_case("IP6"); }
            if s[0] == "RTP/AVP" { for k in PROTO { r |= m.eq_ignore_ascii_case(k); } }
        }
        X(s) => {
            for k in *s { r |= m == *k; }
            // other words of the same place are in other rows
            if row.0 == "a=rtcp-fb:" { for k in ["nack", "ccm", "ack", "trr-int", "goog-remb", "transport-cc"] { r |= m == k; } }
            if row.0 == "a=simulcast:" { for k in ["send", "recv"] { r |= m == k; } }
            if row.0 == "a=fingerprint:" { for k in ["sha-1", "sha-224", "sha-256", "sha-384", "sha-512"] { r |= m == k; } }
        }
        _ => {}
    }
    r
}
fn word(p: &(&'static str, P, &'static str), which: u32) -> String {
    match p.1 {
        N => p.2.to_string(),
        K(s) | X(s) => s[which as usize % s.len()].to_string(),
        L(s) => s.to_string(),
    }
}
fn text(r: &Row, n: usize) -> String {
    let mut t = r.0.to_string();
    for p in &r.1[..n] { t += p.0; t += &word(p, 0); }
    t
}
/// the first parts, with other keywords
fn alternative(r: &Row, n: usize, w: u32) -> String {
    let mut t = r.0.to_string();
    let families = r.1.iter().any(|p| matches!(p.1, K(s) if s == ["IP4"]));
    for p in &r.1[..n] {
        t += p.0;
        match p.1 {
            K(s) if s == ["IP4"] && w % 2 == 1 => t += "IP6",
            L(a) if families && a.contains('.') && w % 2 == 1 => t += "host.x",
            _ => t += &word(p, w),
        }
    }
    t
}
fn verdict(t: &str, ok: bool, label: &str) {
    note(t.as_bytes());
    match parse_sdp_line(t, 0) {
        Ok(_) => {
            observe(b"ok");
            check(ok, "an ill-formed line is accepted");
            cover(label);
        }
        Err(_) => {
            observe(b"error");
            check(!ok, "a well-formed line is rejected");
            cover(label);
        }
    }
}
fn row() -> &'static Row {
    &ROWS[choice(ROWS.len() as u32) as usize]
}
harnesses! {
    fn h_c23_missing_parts() {
        let r = row();
        let n = choice(r.1.len() as u32 + 1) as usize;
        let mut ok = false;
        for &k in r.2 { ok |= k == n; }
        // a list that may end anywhere, and one that may not
        if r.0 == "a=rid:" && n == 3 { ok = false; }
        let mut w = 2;
        for p in r.1 { if let K(s) | X(s) = p.1 { if s.len() > w { w = s.len() } } }
        verdict(&alternative(r, n, choice(w as u32)), ok, "missing");
        if n == 0 { verdict(text(r, 0).trim_end_matches(':'), false, "no value"); }
    }
    fn h_c23_trailing_blank() {
        // a separator without its part is no part
        let r = row();
        let n = choice(r.1.len() as u32) as usize;
        let p = &r.1[n];
        let mut ok = false;
        for &k in r.2 { ok |= k == n; }
        // (elsewhere an empty part counts as a part)
        if p.0 != " " { return }
        verdict(&format!("{} ", text(r, n)), ok, "blank");
    }
    fn h_c23_extra_part() {
        let r = row();
        if !r.3 { return }
        let w = match choice(3) { 0 => tok(1, &[]), 1 => "x".to_string(), _ => format!("x{}", tok(1, &[])) };
        // formats of a media line may be any number of payload types, and an rid parameter is free text
        if (r.0 == "m=" || r.0 == "a=ssrc-group:") && w.as_bytes()[0].is_ascii_digit() { return }
        if r.0 == "a=ssrc-group:" && w.as_bytes()[0] == b'+' { return }
        if r.0 == "a=rid:" { return }
        if r.0 == "m=" && w.as_bytes()[0] == b'+' { return }
        verdict(&format!("{} {}", text(r, r.1.len()), w), false, "extra");
    }
    fn h_c23_keywords() {
        let r = row();
        let i = choice(r.1.len() as u32) as usize;
        let p = &r.1[i];
        let s = match p.1 { K(s) | X(s) => s, _ => return };
        let w = s[choice(s.len() as u32) as usize];
        let at = choice(w.len() as u32 + 1) as usize;
        let mut v = w.as_bytes().to_vec();
        let b = rng(0x21, 0x7e);
        let next = if i + 1 < r.1.len() { r.1[i + 1].0.as_bytes()[0] } else { b' ' };
        assume((b != next) | (next == b' '));
        match choice(3) {
            0 => v.insert(at, b),
            1 => { if at == v.len() { return } assume(b == b'x'); v.remove(at); }
            _ => { if at == v.len() { return } v[at] = b }
        }
        let m = st(v);
        // (an empty word moves the next one into its place)
        if m.is_empty() { return }
        if r.0 == "a=rid:" && i == 2 { return }
        let ok = allowed(r, &p.1, &m);
        // (whether the rest fits another keyword is another matter)
        if ok && m.as_bytes().to_ascii_lowercase() != w.as_bytes().to_ascii_lowercase() { return }
        let mut t = r.0.to_string();
        for (j, q) in r.1.iter().enumerate() { t += q.0; t += &if j == i { m.clone() } else { word(q, 0) }; }
        // the last part of simulcast's two directions must differ from the first
        verdict(&t, ok, if ok { "keyword" } else { "no keyword" });
    }
    fn h_c23_numbers() {
        let r = row();
        let i = choice(r.1.len() as u32) as usize;
        let p = &r.1[i];
        if !matches!(p.1, N) { return }
        let b = rng(0x21, 0x7e);
        assume(!(b.is_ascii_digit() | (b == b'+')));
        // what may follow or separate there
        assume((b != b'/') & (b != b':') & (b != b';') & (b != b',') & (b != b'*'));
        if r.0 == "a=framerate:" { assume((b != b'.') & (b != b'-') & (b != b'e') & (b != b'E')); }
        let b = b as char;
        let m = match choice(5) {
            0 => format!("{}", b),
            1 => format!("{}{}", p.2, b),
            2 => format!("{}{}", b, p.2),
            3 => format!("1{}1", b),
            _ => "99999999999999999999999".to_string(),
        };
        if r.0 == "a=framerate:" && m.starts_with("999") { return }
        let mut t = r.0.to_string();
        for (j, q) in r.1.iter().enumerate() { t += q.0; t += &if j == i { m.clone() } else { word(q, 0) }; }
        verdict(&t, false, "no number");
    }
    fn h_c23_flags() {
        // attributes without value must have none, not even an empty one
        const F: &[&str] = &["bundle-only", "end-of-candidates", "extmap-allow-mixed", "ice-lite", "ice-mismatch", "inactive", "recvonly", "rtcp-mux",
            "rtcp-mux-only", "rtcp-rsize", "sendonly", "sendrecv"];
        let f = F[choice(F.len() as u32) as usize];
        let (t, ok) = match choice(6) {
            0 => (format!("a={}", f), true),
            1 => (format!("a={}:", f), false),
            2 => (format!("a={}:{}", f, nonl(1)), false),
            3 => (format!("a={}:{}", f, tok(2, &[])), false),
            4 => { let b = tok(1, b":"); (format!("a={}{}", f, b), false) }
            _ => (format!("a={} {}", f, tok(1, &[])), false),
        };
        verdict(&t, ok, "flag");
    }
    fn h_c23_framerate() {
        let v = match choice(8) {
            0 => "0".to_string(),
            1 => "0.0".to_string(),
            2 => "-0".to_string(),
            3 => "NaN".to_string(),
            4 => "inf".to_string(),
            5 => "-inf".to_string(),
            6 => "infinity".to_string(),
            _ => format!("1e999{}", dig() as char),
        };
        verdict(&format!("a=framerate:{}", v), false, "framerate");
    }
    fn h_c23_other_family() {
        // the stated address family must be that of the literal
        let six = choice(2) == 1;
        let fam = if choice(2) == 1 { "IP6" } else { "IP4" };
        let a = if six { format!("fe80::{}", dig() as char) } else { format!("1.2.3.{}", dig() as char) };
        let ok = six == (fam == "IP6");
        let t = match choice(4) {
            0 => format!("o=- 4 2 IN {} {}", fam, a),
            1 => format!("c=IN {} {}", fam, a),
            2 => format!("a=rtcp:9 IN {} {}", fam, a),
            _ => format!("c=IN {} {}/7", fam, a),
        };
        verdict(&t, ok, "family");
    }
    fn h_c23_in_a_description() {
        // such a line makes the description fail, or is left out with a warning; it never becomes an attribute
        let r = row();
        if !r.0.starts_with("a=") { return }
        let n = choice(r.1.len() as u32 + 1) as usize;
        for &k in r.2 { if k == n { return } }
        let t = format!("{}m=video 9 RTP/AVP 96\r\nc=IN IP4 1.2.3.4\r\na=sendrecv\r\n{}\r\na=mid:{}\r\n", HEAD, text(r, n), tok(1, &[]));
        check(ps(&t, true).is_none(), "an ill-formed line passes with fail-on-warning");
        match ps(&t, false) {
            Some(s) => {
                check(s.warnings.len() == 1, "an ill-formed line is dropped without a warning");
                check(s.media[0].get_attribute(SdpAttributeType::Sendrecv).is_some() && s.media[0].get_attribute(SdpAttributeType::Mid).is_some(), "other lines are lost");
                cover("warned");
            }
            None => cover("failed"),
        }
    }
}
