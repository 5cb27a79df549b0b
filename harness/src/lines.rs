//! Generators for the lines that are not attributes: text and value.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

pub fn origin(f: &mut F) -> (String, SdpOrigin) {
    let username = strv(f.on(), &[]);
    let (a, session_id) = u64v(f.on());
    let (b, session_version) = u64v(f.on());
    let (c, unicast_addr) = eaddr(f.on());
    (format!("{} {} {} {}", username, a, b, c), SdpOrigin { username, session_id, session_version, unicast_addr })
}
pub fn conn(f: &mut F) -> (String, SdpConnection) {
    let (c, address) = eaddr(f.on());
    let k = choice(3);
    let (t, ttl) = u8v(f.on());
    let (a, amount) = u32v(f.on());
    match k {
        0 => (c, SdpConnection { address, ttl: None, amount: None }),
        1 => (format!("{}/{}", c, t), SdpConnection { address, ttl: Some(ttl), amount: None }),
        _ => (format!("{}/{}/{}", c, t, a), SdpConnection { address, ttl: Some(ttl), amount: Some(amount) }),
    }
}
/// a bandwidth type that is none of the known ones, whatever its case
pub fn bwtype() -> String {
    match choice(4) {
        0 => {
            let b = tchar(b":=");
            st(vec![b])
        }
        1 => {
            let t = tok(2, b":");
            let v = t.as_bytes();
            assume((v[0] | 32 != b'a') | (v[1] | 32 != b's'));
            assume((v[0] | 32 != b'c') | (v[1] | 32 != b't'));
            t
        }
        2 => String::from("X-") + &tok(2, b":"),
        _ => String::from("TIAS") + &tok(1, b":"),
    }
}
pub fn bw(full: bool) -> (String, SdpBandwidth) {
    let (v, x) = u32v(full);
    match choice(4) {
        0 => (format!("AS:{}", v), SdpBandwidth::As(x)),
        1 => (format!("CT:{}", v), SdpBandwidth::Ct(x)),
        2 => (format!("TIAS:{}", v), SdpBandwidth::Tias(x)),
        _ => {
            let t = bwtype();
            (format!("{}:{}", t, v), SdpBandwidth::Unknown(t, x))
        }
    }
}
pub fn proto(i: u32) -> (&'static str, SdpProtocolValue) {
    use SdpProtocolValue::*;
    match i {
        0 => ("UDP/TLS/RTP/SAVPF", UdpTlsRtpSavpf),
        1 => ("RTP/AVP", RtpAvp),
        2 => ("RTP/AVPF", RtpAvpf),
        3 => ("RTP/SAVP", RtpSavp),
        4 => ("RTP/SAVPF", RtpSavpf),
        5 => ("TCP/DTLS/RTP/SAVP", TcpDtlsRtpSavp),
        6 => ("TCP/DTLS/RTP/SAVPF", TcpDtlsRtpSavpf),
        7 => ("UDP/TLS/RTP/SAVP", UdpTlsRtpSavp),
        8 => ("DTLS/SCTP", DtlsSctp),
        9 => ("UDP/DTLS/SCTP", UdpDtlsSctp),
        _ => ("TCP/DTLS/SCTP", TcpDtlsSctp),
    }
}
/// an audio/video format number
pub fn avfmt(k: usize) -> (String, u32) {
    let (v, x) = digs(k);
    let x = x as u32;
    assume(((x == 0) | ((x >= 3) & (x <= 18))) | (((x >= 20) & (x <= 63)) | ((x >= 96) & (x <= 127))));
    (st(v), x)
}
pub fn mline(f: &mut F) -> (String, SdpMediaLine) {
    let (m, media) = match if f.on() { 1 + choice(2) } else { 0 } {
        0 => ("audio", SdpMediaValue::Audio),
        1 => ("video", SdpMediaValue::Video),
        _ => ("application", SdpMediaValue::Application),
    };
    let (p, port) = u16v(f.on());
    let (pc, port_count, pcs) = if f.on() {
        let (s, n) = u32v(true);
        assume(n > 0);
        (format!("/{}", s), n, true)
    } else {
        (String::new(), 0, false)
    };
    let _ = pcs;
    let (pr, proto) = proto(if f.on() { 1 + choice(10) } else { 0 });
    let fm = f.on();
    let n = if fm { [1, 2, 3, 5, 20][choice(5) as usize] } else { 1 };
    let app = matches!(media, SdpMediaValue::Application) || (fm && choice(2) == 1);
    let (m, media) = if app { ("application", SdpMediaValue::Application) } else { (m, media) };
    let mut texts = vec![];
    let formats = if app {
        let mut v = vec![];
        for i in 0..n {
            let s = if i == 0 { strv(fm, &[]) } else if i < 3 { tok(2, &[]) } else { format!("f{}", i) };
            texts.push(s.clone());
            v.push(s);
        }
        SdpFormatList::Strings(v)
    } else {
        let mut v = vec![];
        for i in 0..n {
            let (s, x) = if i < 3 { avfmt(if i == 0 && fm { [1, 2, 3][choice(3) as usize] } else { 2 }) } else { (format!("{}", 96 + i), 96 + i as u32) };
            texts.push(s);
            v.push(x);
        }
        SdpFormatList::Integers(v)
    };
    let exp = SdpMediaLine { media, port: port as u32, port_count, proto, formats };
    (format!("{} {}{} {} {}", m, p, pc, pr, texts.join(" ")), exp)
}
pub fn mline_eq(a: &SdpMediaLine, b: &SdpMediaLine) -> bool {
    d_eq(&a.media, &b.media)
        && a.port == b.port
        && a.port_count == b.port_count
        && d_eq(&a.proto, &b.proto)
        && fmts_eq(&a.formats, &b.formats)
}

