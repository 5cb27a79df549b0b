//! C21: a description built or edited through the interface prints exactly its parts, one line
//! each, and the text parses back to the same description.
use super::gen::*;
use super::lines::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

/// the text must be the expected one, and parse back to an equal description
fn prints(s: &SdpSession, text: &str, label: &str) {
    let t = s.to_string();
    observe(t.as_bytes());
    check(s_eq(&t, text), "the printed description differs");
    match ps(&t, true) {
        Some(r) => {
            check(s.media.len() == r.media.len(), "a section is lost");
            check(o_eq(&s.connection, &r.connection, conn_eq) && v_eq(&s.bandwidth, &r.bandwidth, bw_eq), "the session's lines differ after parsing");
            check(attrs_eq(&s.attribute, &r.attribute), "the session's attributes differ after parsing");
            check(origin_eq(&s.origin, &r.origin) && o_eq(&s.session, &r.session, str_eq) && s.version == r.version, "the header differs after parsing");
            check(o_eq(&s.timing, &r.timing, |a, b| a.start == b.start && a.stop == b.stop), "the timing differs after parsing");
            for (a, b) in s.media.iter().zip(&r.media) {
                // (the formats of data channels are words, whatever they were before)
                check(s_eq(&a.get_formats().to_string(), &b.get_formats().to_string()), "the formats differ after parsing");
                check(d_eq(a.get_type(), b.get_type()) && a.get_port() == b.get_port() && a.get_port_count() == b.get_port_count() && d_eq(a.get_proto(), b.get_proto()), "a media line differs after parsing");
                check(v_eq(a.get_bandwidth(), b.get_bandwidth(), bw_eq) && o_eq(a.get_connection(), b.get_connection(), conn_eq), "lines of a section differ after parsing");
                check(attrs_eq(a.get_attributes(), b.get_attributes()), "attributes of a section differ after parsing");
            }
            check(s_eq(&r.to_string(), &t), "printing again gives another text");
            cover(label);
        }
        None => check(false, "the printed description is rejected"),
    }
}
const O: &str = "- 4 2 IN IP4 1.1.1.1";
fn ip4(d: u8) -> ExplicitlyTypedAddress {
    ExplicitlyTypedAddress::Ip(std::net::IpAddr::V4(std::net::Ipv4Addr::new(1, 1, 1, d)))
}
fn blank() -> SdpSession {
    let mut s = SdpSession::new(0, SdpOrigin { username: "-".into(), session_id: 4, session_version: 2, unicast_addr: ip4(1) }, "-".into());
    s.set_timing(SdpTiming { start: 0, stop: 0 });
    s
}
const B: &str = "v=0\r\no=- 4 2 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\n";
/// what the last section needs so that this attribute is consistent
fn need(a: &SdpAttribute, m: &mut SdpMedia, t: &mut String) {
    if let SdpAttribute::RtcpMuxOnly = a {
        check(m.add_attribute(SdpAttribute::RtcpMux).is_ok(), "rtcp-mux is rejected");
        t.push_str("a=rtcp-mux\r\n");
    }
    if let SdpAttribute::Simulcast(s) = a {
        for (d, l, w) in [(SdpSingleDirection::Send, &s.send, "send"), (SdpSingleDirection::Recv, &s.receive, "recv")] {
            for i in l.iter().flat_map(|v| &v.ids) {
                let p = SdpAttributeRidParameters { max_width: 0, max_height: 0, max_fps: 0, max_fs: 0, max_br: 0, max_pps: 0, unknown: vec![] };
                let r = SdpAttributeRid { id: i.id.clone(), direction: d.clone(), formats: vec![], params: p, depends: vec![] };
                check(m.add_attribute(SdpAttribute::Rid(r)).is_ok(), "a rid is rejected");
                t.push_str(&format!("a=rid:{} {}\r\n", i.id, w));
            }
        }
    }
}
/// an audio section with one codec
fn audio(s: &mut SdpSession, t: &mut String, d: u8) {
    check(s.add_media(SdpMediaValue::Audio, SdpAttribute::Sendrecv, 9, SdpProtocolValue::RtpSavpf, ip4(d)).is_ok(), "a section is rejected");
    let n = s.media.len();
    check(s.media[n - 1].add_codec(SdpAttributeRtpmap::new(0, "PCMU".into(), 8000)).is_ok(), "a codec is rejected");
    *t += &format!("m=audio 9/1 RTP/SAVPF 0\r\nc=IN IP4 1.1.1.{}\r\na=sendrecv\r\na=rtpmap:0 PCMU/8000\r\n", d);
}
harnesses! {
    fn h_c21_many() {
        // any number of parts of a kind
        let n = many();
        let w = choice(6);
        let b = if w == 0 || w == 2 { choice(4) } else { 0 };
        let bw = |x| match b { 0 => (SdpBandwidth::As(x), "AS"), 1 => (SdpBandwidth::Ct(x), "CT"), 2 => (SdpBandwidth::Tias(x), "TIAS"), _ => (SdpBandwidth::Unknown("RS".into(), x), "RS") };
        let d = dig();
        let mut s = blank();
        let mut t = B.to_string();
        let (mut top, mut f, mut mid, mut own, mut more) = (String::new(), String::new(), String::new(), String::new(), String::new());
        check(s.add_media(SdpMediaValue::Audio, SdpAttribute::Sendrecv, 9, SdpProtocolValue::RtpSavpf, ip4(2)).is_ok(), "a section is rejected");
        check(s.media[0].add_codec(SdpAttributeRtpmap::new(0, "PCMU".into(), 8000)).is_ok(), "a codec is rejected");
        for i in 0..n {
            let x = (d - b'0') as u32 + 10 * i as u32;
            match w {
                0 => { let (v, n) = bw(x); s.add_bandwidth(v); top += &format!("b={}:{}\r\n", n, x) }
                1 => { check(s.add_attribute(SdpAttribute::Identity(format!("x{}", x))).is_ok(), "an attribute is rejected"); top += &format!("a=identity:x{}\r\n", x) }
                2 => { let (v, n) = bw(x); s.media[0].add_bandwidth(v); mid += &format!("b={}:{}\r\n", n, x) }
                3 => { check(s.media[0].add_attribute(SdpAttribute::Label(format!("x{}", x))).is_ok(), "an attribute is rejected"); own += &format!("a=label:x{}\r\n", x) }
                4 => {
                    let p = 96 + (i % 32) as u8;
                    check(s.media[0].add_codec(SdpAttributeRtpmap::new(p, format!("c{}", x), 8)).is_ok(), "a codec is rejected");
                    f += &format!(" {}", p);
                    own += &format!("a=rtpmap:{} c{}/8\r\n", p, x);
                }
                _ => {
                    check(s.add_media(SdpMediaValue::Video, SdpAttribute::Sendonly, x % 65536, SdpProtocolValue::RtpSavp, ip4(3)).is_ok(), "a section is rejected");
                    let k = s.media.len() - 1;
                    check(s.media[k].add_codec(SdpAttributeRtpmap::new(99, "v".into(), 7)).is_ok(), "a codec is rejected");
                    more += &format!("m=video {}/1 RTP/SAVP 99\r\nc=IN IP4 1.1.1.3\r\na=sendonly\r\na=rtpmap:99 v/7\r\n", x % 65536);
                }
            }
        }
        t += &format!("{}m=audio 9/1 RTP/SAVPF 0{}\r\n{}c=IN IP4 1.1.1.2\r\na=sendrecv\r\na=rtpmap:0 PCMU/8000\r\n{}{}", top, f, mid, own, more);
        prints(&s, &t, "many");
    }
    fn h_c21_header() {
        let mut f = F::new(12);
        let (o, origin) = origin(&mut f);
        let name = match if f.on() { choice(4) } else { 0 } { 0 => "-".to_string(), 1 => tok(3, &[]), 2 => format!("{} {}", tok(1, &[]), tok(1, &[])), _ => String::new() };
        let given = if f.on() { format!("{}{}{}", pick(&["", " ", "\t"]), name, pick(&["", " "])) } else { name.clone() };
        let mut s = SdpSession::new(0, origin, given);
        let (a, x) = u64v(f.on());
        let (b, y) = u64v(f.on());
        s.set_timing(SdpTiming { start: x, stop: y });
        let mut t = format!("v=0\r\no={}\r\ns={}\r\nt={} {}\r\n", o, if name.is_empty() { " " } else { &name }, a, b);
        if f.on() {
            let (c, x) = bw(true);
            let (d, y) = bw(false);
            s.add_bandwidth(x);
            s.add_bandwidth(y);
            t += &format!("b={}\r\nb={}\r\n", c, d);
        }
        let (c, x) = conn(&mut f);
        s.set_connection(x);
        t += &format!("c={}\r\n", c);
        prints(&s, &t, "header");
    }
    fn h_c21_session_attribute() {
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        let g = gen(k, deep() || !matches!(k, "simulcast" | "imageattr" | "fmtp" | "fingerprint" | "candidate" | "rid" | "extmap"));
        let mut s = blank();
        let ok = s.add_attribute(g.exp).is_ok();
        check(ok == levels(k).0, "add_attribute of the session accepts another set of types");
        let mut t = B.to_string();
        if ok { t += &format!("a={}\r\n", g.canon); }
        check(s.add_attribute(SdpAttribute::Sendonly).is_ok(), "sendonly is rejected");
        t += "a=sendonly\r\n";
        prints(&s, &t, "session attribute");
    }
    fn h_c21_media_attribute() {
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        if !levels(k).1 { return }
        let full = deep() && k != "simulcast" || !matches!(k, "simulcast" | "imageattr" | "fmtp" | "fingerprint" | "candidate" | "rid" | "rtcp-fb" | "ssrc-group" | "remote-candidates" | "rtcp");
        let g = gen(k, full);
        // rids with formats need those in the section
        if let SdpAttribute::Rid(r) = &g.exp { if !r.formats.is_empty() { return } }
        let mut s = blank();
        let mut t = B.to_string();
        audio(&mut s, &mut t, 1);
        need(&g.exp, &mut s.media[0], &mut t);
        let m = &mut s.media[0];
        check(m.add_attribute(g.exp).is_ok(), "an attribute is rejected");
        t += &format!("a={}\r\n", g.canon);
        m.set_port(7);
        let t = t.replace("m=audio 9/1", "m=audio 7/1");
        let mut t = t;
        audio(&mut s, &mut t, 2);
        prints(&s, &t, "media attribute");
    }
    fn h_c21_two_kinds() {
        // any two kinds next to each other, in a section built by hand
        let (i, j) = (choice(KINDS.len() as u32) as usize, choice(KINDS.len() as u32) as usize);
        let (k, l) = (KINDS[i], KINDS[j]);
        if !levels(k).1 || !levels(l).1 { return }
        let (g, h) = (gen(k, false), gen(l, false));
        for e in [&g.exp, &h.exp] {
            if let SdpAttribute::Rid(r) = e { if !r.formats.is_empty() { return } }
            // extmap ids and simulcast are checked elsewhere
            if let SdpAttribute::Simulcast(_) = e { return }
        }
        let mut s = blank();
        let mut t = B.to_string();
        audio(&mut s, &mut t, 1);
        need(&g.exp, &mut s.media[0], &mut t);
        need(&h.exp, &mut s.media[0], &mut t);
        let m = &mut s.media[0];
        check(m.add_attribute(g.exp).is_ok() && m.add_attribute(h.exp).is_ok(), "an attribute is rejected");
        t += &format!("a={}\r\na={}\r\n", g.canon, h.canon);
        prints(&s, &t, "two kinds");
    }
    fn h_c21_media_line() {
        // a section from a media line of any kind
        let mut f = F::new(6);
        let (t, line) = mline(&mut f);
        let mut s = blank();
        s.extend_media(vec![SdpMedia::new(line)]);
        let mut f = F::plain();
        let (c, x) = conn(&mut f);
        let (b, y) = bw(false);
        s.media[0].set_connection(x);
        s.media[0].add_bandwidth(y);
        prints(&s, &format!("{}m={}\r\nb={}\r\nc={}\r\n", B, t, b, c), "media line");
    }
    fn h_c21_codecs() {
        // codecs add their format and rtpmap in order; removing them removes both
        let mut s = blank();
        let mut t = B.to_string();
        let n = choice(5) as usize;
        check(s.add_media(SdpMediaValue::Video, SdpAttribute::Recvonly, 9, SdpProtocolValue::UdpTlsRtpSavpf, ip4(1)).is_ok(), "a section is rejected");
        let m = &mut s.media[0];
        let clear = choice(2) == 1;
        if clear {
            for i in 0..2 { check(m.add_codec(SdpAttributeRtpmap::new(100 + i, "old".into(), 1)).is_ok(), "a codec is rejected"); }
            check(m.add_attribute(SdpAttribute::SctpPort(5)).is_ok(), "sctp-port is rejected");
            m.remove_codecs();
        }
        let mut f = String::new();
        let mut r = String::new();
        for i in 0..n {
            let (p, x) = avfmt(if i == 1 { 3 } else { 2 });
            let (q, y) = u32v(i == 0);
            let name = lower(1);
            let ch = if choice(2) == 1 { Some(2) } else { None };
            check(m.add_codec(SdpAttributeRtpmap { payload_type: x as u8, codec_name: name.clone(), frequency: y, channels: ch }).is_ok(), "a codec is rejected");
            f += &format!(" {}", p);
            r += &format!("a=rtpmap:{} {}/{}{}\r\n", p, name, q, if ch.is_some() { "/2" } else { "" });
        }
        t += &format!("m=video 9/1 UDP/TLS/RTP/SAVPF{}\r\nc=IN IP4 1.1.1.1\r\na=recvonly\r\n{}", f, r);
        if n == 0 {
            // a section without formats has no text form
            return
        }
        prints(&s, &t, "codecs");
    }
    fn h_c21_datachannel() {
        let mut s = blank();
        let k = choice(11);
        let (p, proto) = proto(k);
        check(s.add_media(SdpMediaValue::Application, SdpAttribute::Sendrecv, 9, proto.clone(), ip4(1)).is_ok(), "a section is rejected");
        let name = lower(2);
        let (a, x) = u16v(k == 1 || k == 9);
        let (b, y) = u16v(false);
        let (c, z) = u32v(k == 2 || k == 10);
        let again = choice(2) == 1;
        let m = &mut s.media[0];
        if again { check(m.add_datachannel("old".into(), 1, 2, 3).is_ok(), "a data channel is rejected"); }
        check(m.add_datachannel(name.clone(), x, y, z).is_ok(), "a data channel is rejected");
        let new = matches!(proto, SdpProtocolValue::UdpDtlsSctp | SdpProtocolValue::TcpDtlsSctp);
        let size = if z > 0 { format!("a=max-message-size:{}\r\n", c) } else { String::new() };
        let t = format!("{}m=application 9/1 {} {}\r\nc=IN IP4 1.1.1.1\r\na=sendrecv\r\n", B, p, if new { name } else { a.clone() });
        let port = if new { format!("a=sctp-port:{}\r\n", a) } else { format!("a=sctpmap:{} webrtc-datachannel {}\r\n", a, b) };
        // without a new size the old one stays where it was
        let t = if again && z == 0 { format!("{}a=max-message-size:3\r\n{}", t, port) } else { format!("{}{}{}", t, port, size) };
        prints(&s, &t, "data channel");
    }
    fn h_c21_edit_parsed() {
        // parse, edit, print: every edit shows, and nothing else changes
        let id = tok(2, &[]);
        let text = format!("{}a=ice-ufrag:u\r\nm=audio 9/2 RTP/AVP 0 8\r\nb=AS:1\r\nc=IN IP4 1.1.1.1\r\na=mid:{}\r\na=rtpmap:0 PCMU/8000\r\na=ptime:20\r\na=fmtp:0 x=1\r\nm=video 7 RTP/AVP 96\r\nc=IN IP4 2.2.2.2\r\na=mid:v\r\n", B, id);
        let mut s = match ps(&text, true) { Some(s) => s, None => { check(false, "rejected"); return } };
        let mut h = B.to_string();
        let (mut port, mut fmts, mut b, mut c) = ("9".to_string(), " 0 8".to_string(), "b=AS:1\r\n".to_string(), "c=IN IP4 1.1.1.1\r\n".to_string());
        let mut at: Vec<(&str, String)> = vec![("mid", format!("mid:{}", id)), ("rtpmap", "rtpmap:0 PCMU/8000".into()), ("ptime", "ptime:20".into()), ("fmtp", "fmtp:0 x=1".into())];
        let mut sa = "a=ice-ufrag:u\r\n".to_string();
        let mut conn = String::new();
        let mut bws = String::new();
        for _ in 0..(if deep() { 4 } else { 3 }) {
            let (n, x) = u16v(false);
            match choice(12) {
                11 => { s.media[0].add_bandwidth(SdpBandwidth::As(x as u32)); b += &format!("b=AS:{}\r\n", n); }
                0 => { let d = dig(); s.media[0].set_port((d - b'0') as u32); port = st(vec![d]); }
                1 => { check(s.media[0].set_attribute(SdpAttribute::Ptime(x as u64)).is_ok(), "ptime"); at.retain(|a| a.0 != "ptime"); at.push(("ptime", format!("ptime:{}", n))); }
                2 => { s.media[0].remove_attribute(SdpAttributeType::Mid); at.retain(|a| a.0 != "mid"); }
                3 => { s.media[0].remove_codecs(); fmts = String::new(); at.retain(|a| a.0 != "rtpmap" && a.0 != "fmtp"); check(s.media[0].add_codec(SdpAttributeRtpmap::new(9, "G722".into(), 8000)).is_ok(), "codec"); fmts += " 9"; at.push(("rtpmap", "rtpmap:9 G722/8000".into())); }
                4 => { s.media[0].add_bandwidth(SdpBandwidth::Tias(x as u32)); b += &format!("b=TIAS:{}\r\n", n); }
                5 => { s.media[0].set_connection(SdpConnection { address: ip4(9), ttl: None, amount: None }); c = "c=IN IP4 1.1.1.9\r\n".into(); }
                6 => { check(s.add_attribute(SdpAttribute::IcePacing(x as u64)).is_ok(), "pacing"); sa += &format!("a=ice-pacing:{}\r\n", n); }
                7 => { s.set_connection(SdpConnection { address: ip4(8), ttl: Some(x as u8), amount: None }); assume(x < 256); conn = format!("c=IN IP4 1.1.1.8/{}\r\n", n); }
                8 => { s.add_bandwidth(SdpBandwidth::Ct(x as u32)); bws += &format!("b=CT:{}\r\n", n); }
                9 => { s.set_timing(SdpTiming { start: x as u64, stop: 5 }); h = format!("v=0\r\no={}\r\ns=-\r\nt={} 5\r\n", O, n); }
                _ => { check(s.media[0].add_attribute(SdpAttribute::Label(format!("l{}", n))).is_ok(), "label"); at.push(("label", format!("label:l{}", n))); }
            }
        }
        let mut t = format!("{}{}{}{}m=audio {}/2 RTP/AVP{}\r\n{}{}", h, bws, conn, sa, port, fmts, b, c);
        for a in &at { t += &format!("a={}\r\n", a.1); }
        t += "m=video 7 RTP/AVP 96\r\nc=IN IP4 2.2.2.2\r\na=mid:v\r\n";
        let p = s.to_string();
        observe(p.as_bytes());
        check(s_eq(&p, &t), "the printed edit differs");
        match parse_sdp(&p, true) {
            Ok(r) => { check(session_eq(&s, &r), "an edited description differs after parsing"); cover("edited"); }
            Err(_) => check(false, "an edited description is rejected"),
        }
    }
    fn h_c21_many_sections() {
        let n = [0, 1, 2, 5, 12][choice(5) as usize];
        let mut s = blank();
        let mut t = B.to_string();
        if choice(2) == 1 {
            check(s.add_attribute(SdpAttribute::IceLite).is_ok(), "ice-lite is rejected");
            t += "a=ice-lite\r\n";
        }
        for i in 0..n { audio(&mut s, &mut t, 1 + i); }
        let mut t2 = t.clone();
        let mut v = vec![];
        for i in 0..choice(3) {
            v.push(SdpMedia::new(SdpMediaLine { media: SdpMediaValue::Application, port: 5 + i, port_count: 0, proto: SdpProtocolValue::UdpDtlsSctp, formats: SdpFormatList::Strings(vec![format!("w{}", i)]) }));
            v[i as usize].set_connection(SdpConnection { address: ip4(3), ttl: None, amount: None });
            t2 += &format!("m=application {} UDP/DTLS/SCTP w{}\r\nc=IN IP4 1.1.1.3\r\n", 5 + i, i);
        }
        s.extend_media(v);
        // (texts below 51 bytes are refused as a whole)
        if t2.len() < 51 { return }
        prints(&s, &t2, "sections");
    }
}
