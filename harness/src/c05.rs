//! C05: the v/o/s/t/c/b/m lines of an accepted description hold exactly what their text says.
use super::gen::*;
use super::lines::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

/// parse one line; its text and number must be kept
fn line(l: &str) -> Option<SdpType> {
    let n = [0usize, 7, 65536][choice(3) as usize];
    note(l.as_bytes());
    match parse_sdp_line(l, n) {
        Ok(x) => {
            check(x.line_number == n, "the line number is not kept");
            check(s_eq(&x.text, l), "the line text is not kept");
            Some(x.sdp_type)
        }
        Err(_) => None,
    }
}
const BAD: &str = "a well-formed line is rejected";
const OTHER: &str = "a line yields another type";

harnesses! {
    fn h_c05_many_formats() {
        let n = many();
        let b = tok(1, &[]);
        let (e, x) = avfmt(2);
        let words = choice(2) == 1;
        let v: Vec<String> = (0..n).map(|i| if i + 1 == n { if words { b.clone() } else { e.clone() } } else { format!("{}", 96 + i % 32) }).collect();
        let f = if words { SdpFormatList::Strings(v.clone()) } else { SdpFormatList::Integers((0..n).map(|i| if i + 1 == n { x } else { 96 + (i % 32) as u32 }).collect()) };
        let t = format!("{} 9 RTP/AVP {}", if words { "application" } else { "audio" }, v.join(" "));
        match line(&format!("m={}", t)) {
            Some(SdpType::Media(m)) => {
                check(fmts_eq(&m.formats, &f), "the formats differ from the text");
                check(s_eq(&m.to_string(), &t), "the printed media line differs");
                cover("many formats");
            }
            Some(_) => check(false, OTHER),
            None => check(false, BAD),
        }
    }
    fn h_c05_repeated() {
        // repeated formats are kept, wherever in the list they stand
        let p = picks();
        let f = if choice(2) == 0 {
            let ((a, x), (b, y)) = (avfmt(2), avfmt(2));
            let v = drawn(&p, (a, x), (b, y));
            (v.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), SdpFormatList::Integers(v.iter().map(|x| x.1).collect()))
        } else {
            let v = drawn(&p, tok(1, &[]), tok(1, &[]));
            (v.clone(), SdpFormatList::Strings(v))
        };
        let t = format!("{} 9 RTP/AVP {}", if matches!(f.1, SdpFormatList::Integers(_)) { "audio" } else { "application" }, f.0.join(" "));
        match line(&format!("m={}", t)) {
            Some(SdpType::Media(m)) => {
                check(fmts_eq(&m.formats, &f.1), "the formats differ from the text");
                check(s_eq(&m.to_string(), &t), "the printed media line differs");
                cover("repeated formats");
            }
            Some(_) => check(false, OTHER),
            None => check(false, BAD),
        }
    }
    fn h_c05_version() {
        let b = byte(127);
        assume((b != b' ') & ((b < 9) | (b > 13)));
        match line(&format!("v={}", b as char)) {
            Some(SdpType::Version(v)) => check((v == 0) & (b == b'0'), "the version is not 0"),
            Some(_) => check(false, OTHER),
            None => check(b != b'0', BAD),
        }
    }
    fn h_c05_origin() {
        let mut f = F::new(4);
        let (t, e) = origin(&mut f);
        match line(&format!("o={}", t)) {
            Some(SdpType::Origin(o)) => {
                check(origin_eq(&o, &e), "the origin differs from its text");
                check(s_eq(&o.to_string(), &t), "the printed origin differs");
                cover("origin");
            }
            Some(_) => check(false, OTHER),
            None => check(false, BAD),
        }
        check(s_eq(&e.to_string(), &t), "a constructed origin prints another text");
    }
    fn h_c05_session() {
        let n = choice(5) as usize;
        let s = if n == 4 { nonl(2) + &long(100, &[]) + &nonl(1) } else { nonl(n) };
        match line(&format!("s={}", s)) {
            Some(SdpType::Session(x)) => { check(s_eq(&x, &s), "the session name differs from its text"); cover("session"); }
            Some(_) => check(false, OTHER),
            None => check(false, BAD),
        }
    }
    fn h_c05_session_name() {
        // in a whole description the name is kept without surrounding blanks; a blank one is none
        let k = choice(3) as usize;
        let s = match choice(3) {
            0 => st(vec![b' '; k]) + &tok(1, &[]) + &nonl(1) + &tok(1, &[]) + &st(vec![b' '; k]),
            1 => st(vec![b' '; k]) + &tok(1, &[]),
            _ => st(vec![b' '; k]),
        };
        let t = format!("v=0\r\no=- 4611731400430051336 2 IN IP4 127.0.0.1\r\ns={}\r\nt=0 0\r\n", s);
        match ps(&t, false) {
            Some(x) => {
                let e = s.trim_matches(' ');
                match x.get_session() {
                    None => { check(e.is_empty(), "the session name is lost"); check(s_eq(x.get_session_text(), " "), "no session name prints as a blank"); cover("none"); }
                    Some(n) => { check(s_eq(n, e), "the session name differs"); check(s_eq(x.get_session_text(), e), "the session text differs"); cover("some"); }
                }
            }
            None => check(false, BAD),
        }
    }
    fn h_c05_timing() {
        let mut f = F::new(2);
        let (a, start) = u64v(f.on());
        let (b, stop) = u64v(f.on());
        let t = format!("{} {}", a, b);
        match line(&format!("t={}", t)) {
            Some(SdpType::Timing(x)) => {
                check((x.start == start) & (x.stop == stop), "the timing differs from its text");
                check(s_eq(&x.to_string(), &t), "the printed timing differs");
                cover("timing");
            }
            Some(_) => check(false, OTHER),
            None => check(false, BAD),
        }
    }
    fn h_c05_connection() {
        let mut f = F::new(3);
        let (t, e) = conn(&mut f);
        match line(&format!("c={}", t)) {
            Some(SdpType::Connection(c)) => {
                check(conn_eq(&c, &e), "the connection differs from its text");
                check(s_eq(&c.to_string(), &t), "the printed connection differs");
                cover("connection");
            }
            Some(_) => check(false, OTHER),
            None => check(false, BAD),
        }
    }
    fn h_c05_bandwidth() {
        let (t, e) = bw(true);
        match line(&format!("b={}", t)) {
            Some(SdpType::Bandwidth(b)) => {
                check(bw_eq(&b, &e), "the bandwidth differs from its text");
                check(s_eq(&b.to_string(), &t), "the printed bandwidth differs");
                cover("bandwidth");
            }
            Some(_) => check(false, OTHER),
            None => check(false, BAD),
        }
    }
    fn h_c05_media() {
        let mut f = F::new(5);
        let (t, e) = mline(&mut f);
        match line(&format!("m={}", t)) {
            Some(SdpType::Media(m)) => {
                check(mline_eq(&m, &e), "the media line differs from its text");
                check(s_eq(&m.to_string(), &t), "the printed media line differs");
                cover("media");
            }
            Some(_) => check(false, OTHER),
            None => check(false, BAD),
        }
    }
    fn h_c05_whole() {
        // all of them at once, in one description with two media sections
        let (o, eo) = origin(&mut F::plain());
        let (c, ec) = conn(&mut F::plain());
        let nb = choice(3) as usize;
        let mut bt = String::new();
        let mut eb = vec![];
        for i in 0..nb {
            let (t, b) = if i == 0 { bw(false) } else { ("AS:17".to_string(), SdpBandwidth::As(17)) };
            bt.push_str(&format!("b={}\r\n", t));
            eb.push(b);
        }
        let (ts, start) = u64v(false);
        let (te, stop) = u64v(false);
        let mut f = F::plain();
        let (m1, em1) = mline(&mut f);
        let (c1, ec1) = eaddr(false);
        let (v, x) = u32v(false);
        let t = format!(
            "v=0\r\no={}\r\ns=-\r\nc={}\r\n{}t={} {}\r\nm={}\r\nc={}\r\nb=TIAS:{}\r\nb=CT:5\r\nm=video 9 RTP/AVP 0\r\n",
            o, c, bt, ts, te, m1, c1, v
        );
        match ps(&t, true) {
            None => check(false, "a well-formed description is rejected"),
            Some(s) => {
                check(s.get_version() == 0, "version");
                check(origin_eq(s.get_origin(), &eo), "origin");
                check(o_eq(s.get_connection(), &Some(ec), conn_eq), "connection");
                check(v_eq(&s.bandwidth, &eb, bw_eq), "bandwidth");
                check(s.timing.is_some() && s.timing.as_ref().map(|t| (t.start, t.stop)) == Some((start, stop)), "timing");
                check(s.media.len() == 2, "media count");
                let m = &s.media[0];
                check(d_eq(m.get_type(), &em1.media) && m.get_port() == em1.port && m.get_port_count() == em1.port_count, "media line");
                check(d_eq(m.get_proto(), &em1.proto) && fmts_eq(m.get_formats(), &em1.formats), "protocol and formats");
                check(o_eq(m.get_connection(), &Some(SdpConnection { address: ec1, ttl: None, amount: None }), conn_eq), "media connection");
                check(v_eq(m.get_bandwidth(), &[SdpBandwidth::Tias(x), SdpBandwidth::Ct(5)], bw_eq), "media bandwidth");
                let m = &s.media[1];
                check(matches!(m.get_type(), SdpMediaValue::Video) && m.get_port() == 9 && m.get_connection().is_none() && m.get_bandwidth().is_empty(), "second media");
                cover("whole");
            }
        }
    }
}
