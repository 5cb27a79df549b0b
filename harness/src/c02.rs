//! C02: an accepted description prints as a text that is accepted again, without warnings, as an
//! equal description, and prints the same once more.
use super::gen::*;
use super::lines::*;
use super::mutate::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::*;

fn rt(s: &str) -> bool {
    match ps(s, false) {
        None => {
            cover("rejected");
            false
        }
        Some(a) => {
            let t = a.to_string();
            observe(t.as_bytes());
            check(t.ends_with("\r\n"), "the printed description has no last line end");
            match parse_sdp(&t, true) {
                Err(SdpParserErrorAlias::Unsupported { .. }) => check(false, "the printed description has warnings"),
                Err(_) => check(false, "the printed description is rejected"),
                Ok(b) => {
                    check(session_eq(&a, &b), "the printed description parses to another value");
                    check(b.warnings.is_empty(), "the printed description has warnings");
                    let u = b.to_string();
                    check(s_eq(&t, &u), "the second print differs");
                    cover("round trip");
                }
            }
            true
        }
    }
}
use webrtc_sdp::error::SdpParserError as SdpParserErrorAlias;
/// a text in printing order prints as itself
fn same(s: &str) {
    match ps(s, true) {
        None => check(false, "a well-formed description is rejected"),
        Some(a) => {
            let t = a.to_string();
            observe(t.as_bytes());
            check(s_eq(&t, s), "a description in printing order prints as another text");
            match parse_sdp(&t, true) {
                Ok(b) => check(session_eq(&a, &b), "the printed description parses to another value"),
                Err(_) => check(false, "the printed description is rejected"),
            }
            cover("same");
        }
    }
}
/// what a section needs besides the attribute
fn need(a: &SdpAttribute) -> String {
    let mut t = String::new();
    if let SdpAttribute::Simulcast(c) = a {
        for v in &c.send {
            for i in &v.ids {
                t.push_str(&format!("a=rid:{} send\r\n", i.id));
            }
        }
        for v in &c.receive {
            for i in &v.ids {
                t.push_str(&format!("a=rid:{} recv\r\n", i.id));
            }
        }
    }
    if let SdpAttribute::RtcpMuxOnly = a {
        t.push_str("a=rtcp-mux\r\n");
    }
    t
}
fn formats(a: &SdpAttribute) -> String {
    match a {
        SdpAttribute::Rid(r) if !r.formats.is_empty() => r.formats.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
        _ => "w".to_string(),
    }
}
const C: &str = "c=IN IP4 1.2.3.4\r\n";
const S1: &str = "v=0\r\no=- 4 2 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\nb=AS:1\r\nc=IN IP4 1.2.3.4/1\r\na=ice-lite\r\na=group:LS a\r\nm=audio 9/1 RTP/AVP 0 96\r\nb=x:2\r\nc=IN IP6 ::1\r\na=rid:a send pt=0\r\na=simulcast:send a\r\na=rtcp-mux-only\r\na=rtcp-mux\r\na=foo:x\r\nm=application 9 UDP/DTLS/SCTP w\r\na=sctp-port:5\r\n";

harnesses! {
    fn h_c02_many() {
        // any number of lines of a kind
        let n = many();
        let w = choice(6);
        let d = rng(b'1', b'9') as char;
        let mut t = HEAD.to_string();
        let l: String = (0..n)
            .map(|i| match w {
                0 => format!("b=AS:{}{}\r\n", d, i),
                1 => format!("a=group:LS {}{}\r\n", d, i),
                2 => format!("b=CT:{}{}\r\n", d, i),
                3 => format!("a=ssrc:{}{} x:{}\r\n", d, i, i),
                4 => format!("a=rid:{}x{} send\r\n", d, i),
                _ => format!("m=audio {}{} RTP/AVP 0\r\na=mid:{}\r\n", d, i, i),
            })
            .collect();
        if w == 0 { t += &l }
        t += C;
        if w == 1 || w == 5 { t += &l }
        t += "m=video 9 RTP/AVP 96\r\n";
        if w == 2 { t += &l }
        if w == 3 || w == 4 { t += &l }
        t += "a=sendrecv\r\nm=audio 9 RTP/AVP 0\r\n";
        same(&t);
    }
    fn h_c02_repeats() {
        // lines that repeat are all kept, wherever they stand
        let p = picks();
        let of = |v: &[String; 2]| p.iter().map(|&i| v[i].clone()).collect::<Vec<_>>().concat();
        let two = |a: &str, b: &str| [a.to_string(), b.to_string()];
        let d = format!("{}{}", HEAD, C);
        let n = (dig() as char, dig() as char);
        const M: &str = "m=audio 9 RTP/AVP 0\r\na=mid:x\r\n";
        same(&match choice(4) {
            0 => format!("{}{}{}", HEAD, of(&two(&format!("b=AS:{}\r\n", n.0), &format!("b=AS:{}\r\n", n.1))), C),
            1 => format!("{}m=audio 9 RTP/AVP 0\r\n{}{}{}", d, of(&two(&format!("b=x:{}\r\n", n.0), &format!("b=x:{}\r\n", n.1))), C, M),
            2 => format!("{}{}", d, of(&two(M, &format!("m=audio 9 RTP/AVP 0\r\na=mid:{}\r\n", n.0)))),
            _ => format!("{}{}", d, of(&two("m=audio 9 RTP/AVP 0\r\n", &format!("m=audio 1{} RTP/AVP 0\r\n", n.1)))),
        });
    }
    fn h_c02_repeated_attrs() {
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        let p = picks();
        let (g, h) = (gen(k, false), gen(k, false));
        let t: String = p.iter().map(|&i| format!("a={}\r\n", if i == 0 { &g.canon } else { &h.canon })).collect();
        if levels(k).0 { same(&format!("{}{}{}", HEAD, C, t)); }
        if levels(k).1 && k != "simulcast" {
            let n = need(&g.exp) + &need(&h.exp);
            same(&format!("{}{}m=application 9 UDP/DTLS/SCTP w\r\n{}{}", HEAD, C, n, t));
        }
    }
    fn h_c02_session_attr() {
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        if !levels(k).0 { return }
        let g = gen(k, true);
        same(&format!("{}{}a={}\r\n", HEAD, C, g.canon));
    }
    fn h_c02_session_attr_order() {
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        if !levels(k).0 { return }
        let g = gen(k, true);
        let l = if g.val.is_empty() { g.name.to_string() } else { format!("{}:{}", g.name, g.val) };
        check(rt(&format!("{}a={}\r\n{}b=AS:5\r\nm=audio 9 RTP/AVP 0\r\na=sendrecv\r\n", HEAD, l, C)), "a well-formed description is rejected");
    }
    fn h_c02_media_attr() {
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        if !levels(k).1 { return }
        // the shapes of the large kinds are covered by C03
        let g = gen(k, deep() && k != "simulcast" || !matches!(k, "simulcast" | "imageattr" | "fmtp" | "fingerprint"));
        let fm = formats(&g.exp);
        let n = need(&g.exp);
        same(&format!("{}{}m=audio 9 RTP/AVP 0\r\nm=application 9 UDP/DTLS/SCTP {}\r\n{}a={}\r\na=sendrecv\r\n", HEAD, C, fm, n, g.canon));
    }
    fn h_c02_simulcast() {
        let (a, b) = (tok(1, b"~,;="), tok(2, b"~,;="));
        let v = match choice(6) {
            0 => format!("send {};{}", a, b),
            1 => format!("send {},~{} recv c", a, b),
            2 => format!("recv ~{},{};c", a, b),
            3 => format!("send {};{},c recv {};~c", a, b, b),
            4 => format!("recv {}", b),
            _ => format!("send ~{}", a),
        };
        same(&format!("{}{}m=video 9 RTP/AVP 96\r\na=rid:{} send\r\na=rid:{} send\r\na=rid:c send\r\na=rid:{} recv\r\na=rid:{} recv\r\na=rid:c recv\r\na=simulcast:{}\r\n",
            HEAD, C, a, b, a, b, v));
    }
    fn h_c02_header() {
        let what = choice(4);
        let (o, _) = origin(&mut if what == 0 { F::new(4) } else { F::plain() });
        let name = match choice(if what == 1 { 6 } else { 2 }) {
            0 => "-".to_string(),
            1 => format!("{} {}", tok(1, &[]), tok(1, &[])),
            2 => tok(3, &[]),
            3 => long(70, &[]),
            4 => WORDS[choice(WORDS.len() as u32) as usize].to_string(),
            _ => format!("{} {}", WORDS[choice(WORDS.len() as u32) as usize], tok(1, &[])),
        };
        let (a, _) = u64v(what == 2);
        let (b, _) = u64v(what == 3);
        same(&format!("v=0\r\no={}\r\ns={}\r\nt={} {}\r\nc=IN IP4 1.2.3.4\r\n", o, name, a, b));
    }
    fn h_c02_coincide() {
        // attributes whose values are all the same
        let name = KINDS[choice(KINDS.len() as u32) as usize];
        let g = coincide(|| gen(name, false));
        let (s, _) = levels(name);
        let l = format!("a={}\r\n", g.canon);
        if s { same(&format!("{}{}{}m=audio 9 RTP/AVP 0\r\n", HEAD, C, l)) }
        rt(&format!("{}{}m=application 9 DTLS/SCTP 1 2\r\na=rtcp-mux\r\na=rid:a send\r\n{}", HEAD, C, l));
    }
    fn h_c02_name() {
        let n = 1 + choice(4) as usize;
        rt(&format!("v=0\r\no=- 4611731400430051336 2 IN IP4 127.0.0.1\r\ns={}\r\nt=0 0\r\n", nonl(n)));
    }
    fn h_c02_lines() {
        // bandwidths and connections at both levels, in printing order
        let mut t = String::from(HEAD);
        let where_ = choice(2);
        let nb = choice(3);
        let what = choice(2) == 0;
        let mut sect = |t: &mut String, on: bool| {
            for i in 0..nb {
                if on && what && i == 0 { let (b, _) = bw(true); t.push_str(&format!("b={}\r\n", b)) } else { t.push_str("b=CT:5\r\n") }
            }
            if on && !what { let (c, _) = conn(&mut F::new(3)); t.push_str(&format!("c={}\r\n", c)) } else { t.push_str(C) }
        };
        sect(&mut t, where_ == 0);
        t.push_str("m=video 0 RTP/AVP 0\r\n");
        sect(&mut t, where_ == 1);
        t.push_str("a=mid:x\r\nm=audio 9 RTP/AVP 0\r\n");
        same(&t);
    }
    fn h_c02_media_lines() {
        let mut f = F::new(5);
        let (m, _) = mline(&mut f);
        let (n, _) = mline(&mut F::plain());
        let mut t = format!("{}{}", HEAD, C);
        if choice(2) == 1 { t.push_str(&format!("m={}\r\n", n)) }
        t.push_str(&format!("m={}\r\n", m));
        if choice(2) == 1 { t.push_str(&format!("m={}\r\na=mid:x\r\n", n)) }
        same(&t);
    }
    fn h_c02_window() {
        let s = S1;
        let p = choice(s.len() as u32 - 1) as usize;
        let mut v = s.as_bytes()[..p].to_vec();
        v.push(byte(127));
        let w = choice(2) == 1;
        if w { v.push(byte(127)); }
        v.extend_from_slice(&s.as_bytes()[p + 1..]);
        rt(&st(v));
    }
    fn h_c02_structure() {
        // up to three sections of any content, with lines in any order
        let mut t = String::from(HEAD);
        let n = if deep() { 6 } else { 5 };
        t.push_str(C);
        let mut m = 0;
        for i in 0..n {
            match choice(6) {
                0 => t.push_str("a=sendonly\r\n"),
                1 => t.push_str(if m == 0 { "a=ice-lite\r\n" } else { "a=mid:x\r\n" }),
                2 => t.push_str(&format!("b=AS:{}\r\n", i)),
                3 => t.push_str(&format!("c=IN IP4 9.9.9.{}\r\n", i)),
                4 => { m += 1; t.push_str(["m=audio 9 RTP/AVP 0\r\n", "m=video 0/3 RTP/SAVPF 96 97\r\n", "m=application 1 DTLS/SCTP 5000\r\n"][(m - 1) % 3]) }
                _ => t.push_str(if i % 2 == 0 { "a=fmtp:96 max-fs=0\r\n" } else { "a=unknown:x\r\n" }),
            }
        }
        rt(&t);
    }
    fn h_c02_many_attrs() {
        // two attributes of any kinds next to each other
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        let j = KINDS[choice(KINDS.len() as u32) as usize];
        if !levels(k).1 || !levels(j).1 { return }
        let (g, h) = (gen(k, false), gen(j, false));
        let n = need(&g.exp) + &need(&h.exp);
        same(&format!("{}{}m=application 9 UDP/DTLS/SCTP w\r\n{}a={}\r\na={}\r\n", HEAD, C, n, g.canon, h.canon));
    }
    fn h_c02_wide() {
        // letters outside ASCII in free text
        let w = WIDE[choice(WIDE.len() as u32) as usize];
        let x = tok(1, &[]);
        let l = match choice(12) {
            0 => format!("a=ice-ufrag:{}{}", x, w),
            1 => format!("a=mid:{}{}", w, x),
            2 => format!("a=rtpmap:96 {}{}/9", w, tchar(b"/") as char),
            3 => format!("a=fmtp:96 {}={}", w, tchar(b"=;") as char),
            4 => format!("a=ssrc:1 {}:{}", w, x),
            5 => format!("a=label:{}", w),
            6 => format!("a=msid:{} {}", w, x),
            7 => format!("a=rid:{} send x={}", w, w),
            8 => format!("b={}:5", w),
            9 => format!("a=rtcp-fb:96 ack app {}", w),
            10 => format!("a=candidate:{} 1 udp 1 1.2.3.4 9 typ host {} {}", w, w, w),
            _ => format!("a=extmap:1 {} {}", w, w),
        };
        rt(&format!("{}{}m=audio 9 RTP/AVP 96\r\n{}\r\na=sendrecv\r\n", HEAD, C, l));
    }
}
