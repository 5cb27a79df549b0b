//! C07: the lines of a description have a fixed order and each one belongs to its section.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

const V: &str = "v=0";
const O: &str = "o=- 4611731400430051336 2 IN IP4 127.0.0.1";
const S: &str = "s=-";

struct M {
    port: u32,
    bw: Vec<u32>,
    conn: Option<u8>,
    attrs: Vec<String>,
    app: bool,
}
struct Model {
    conn: Option<u8>,
    bw: Vec<u32>,
    timing: Option<u64>,
    attrs: Vec<String>,
    media: Vec<M>,
    bad: Option<usize>,
    /// the digits of its numbers: with one only, zero is among them
    w: usize,
}
/// appends a line of kind k to the text and to the model
fn step(k: u32, n: usize, t: &mut String, m: &mut Model) {
    let fresh = m.bad.is_none();
    match k {
        0 => {
            let d = dig();
            t.push_str(&format!("c=IN IP4 10.0.0.{}\r\n", d as char));
            if fresh {
                match m.media.last_mut() {
                    None => m.conn = Some(d - b'0'),
                    Some(x) if x.conn.is_none() => x.conn = Some(d - b'0'),
                    _ => m.bad = Some(n),
                }
            }
        }
        1 => {
            let (v, x) = digs(m.w.min(2));
            t.push_str(&format!("b=AS:{}\r\n", st(v)));
            if fresh {
                match m.media.last_mut() {
                    None => m.bw.push(x as u32),
                    Some(s) => s.bw.push(x as u32),
                }
            }
        }
        2 => {
            let u = tok(2, &[]);
            t.push_str(&format!("a=ice-ufrag:{}\r\n", u));
            if fresh {
                match m.media.last_mut() {
                    None => m.attrs.push(u),
                    Some(s) => s.attrs.push(u),
                }
            }
        }
        3 => {
            let (v, x) = digs(m.w);
            t.push_str(&format!("m=audio {} RTP/AVP 0\r\n", st(v)));
            if fresh {
                m.media.push(M { port: x as u32, bw: vec![], conn: None, attrs: vec![], app: false });
            }
        }
        4 => {
            let (v, x) = digs(m.w);
            t.push_str(&format!("m=application {} DTLS/SCTP 5000\r\n", st(v)));
            if fresh {
                m.media.push(M { port: x as u32, bw: vec![], conn: None, attrs: vec![], app: true });
            }
        }
        5 => {
            let (v, x) = digs(m.w.min(2));
            t.push_str(&format!("t={} 0\r\n", st(v)));
            if fresh {
                if m.media.is_empty() {
                    m.timing = Some(x);
                } else {
                    m.bad = Some(n);
                }
            }
        }
        k => {
            t.push_str([V, O, S][k as usize - 6]);
            t.push_str("\r\n");
            if fresh {
                m.bad = Some(n);
            }
        }
    }
}
fn ufrags(a: &[SdpAttribute], e: &[String]) -> bool {
    a.len() == e.len()
        && a.iter().zip(e.iter()).all(|(a, e)| match a {
            SdpAttribute::IceUfrag(u) => s_eq(u, e),
            _ => false,
        })
}
fn conn_is(c: &Option<SdpConnection>, d: &Option<u8>) -> bool {
    match (c, d) {
        (None, None) => true,
        (Some(c), Some(d)) => match c.address {
            address::ExplicitlyTypedAddress::Ip(std::net::IpAddr::V4(a)) => a.octets() == [10, 0, 0, *d],
            _ => false,
        },
        _ => false,
    }
}
fn bws(a: &[SdpBandwidth], e: &[u32]) -> bool {
    a.len() == e.len()
        && a.iter().zip(e.iter()).all(|(a, e)| match a {
            SdpBandwidth::As(x) => x == e,
            _ => false,
        })
}
fn judge(t: &str, m: &Model) {
    note(t.as_bytes());
    let sane = m.timing.is_some() && (m.conn.is_some() || m.media.iter().all(|x| x.conn.is_some()));
    match parse_sdp(t, true) {
        Ok(s) => {
            check(m.bad.is_none(), "a line at the wrong place is accepted");
            check(sane, "an incomplete description is accepted");
            check(s.timing.as_ref().map(|t| t.start) == m.timing, "the timing is another line's");
            check(conn_is(&s.connection, &m.conn), "the session connection is another line's");
            check(bws(&s.bandwidth, &m.bw), "the session bandwidths differ");
            check(ufrags(&s.attribute, &m.attrs), "the session attributes differ");
            check(s.media.len() == m.media.len(), "the number of media sections differs");
            for (a, e) in s.media.iter().zip(m.media.iter()) {
                check(a.get_port() == e.port, "the media sections are out of order");
                check(matches!(a.get_type(), SdpMediaValue::Application) == e.app, "the media types differ");
                check(conn_is(a.get_connection(), &e.conn), "a media connection differs");
                check(bws(a.get_bandwidth(), &e.bw), "the media bandwidths differ");
                check(ufrags(a.get_attributes(), &e.attrs), "the media attributes differ");
            }
            cover("accepted");
        }
        Err(e) => {
            check(m.bad.is_some() || !sane, "a well-ordered description is rejected");
            match e {
                SdpParserError::Sequence { line_number, .. } => {
                    if let Some(n) = m.bad {
                        check(line_number == n, "the error names another line");
                        cover("misplaced");
                    } else {
                        cover("incomplete");
                    }
                }
                _ => check(false, "a misplaced line is not a sequence error"),
            }
        }
    }
}
fn start() -> (String, Model) {
    (
        format!("{}\r\n{}\r\n{}\r\n", V, O, S),
        Model { conn: None, bw: vec![], timing: None, attrs: vec![], media: vec![], bad: None, w: 3 },
    )
}
fn run(n: usize, kinds: u32, timing: bool, w: usize) {
    let (mut t, mut m) = start();
    m.w = w;
    let mut k = 3;
    if timing {
        step(5, k, &mut t, &mut m);
        k += 1;
    }
    for _ in 0..n {
        step(choice(kinds), k, &mut t, &mut m);
        k += 1;
    }
    judge(&t, &m);
}
fn constant(name: &'static str) -> &'static str {
    for s in super::mutate::ATTRS {
        if s.split(':').next() == Some(name) {
            return s;
        }
    }
    name
}
harnesses! {
    fn h_c07_body() { run(5, 6, true, 1) }
    fn h_c07_body_long() { if deep() { run(7, 5, true, 3) } else { run(6, 4, true, 3) } }
    fn h_c07_any_kind() { run(if deep() { 5 } else { 4 }, 9, true, 3) }
    fn h_c07_no_timing() { run(if deep() { 5 } else { 4 }, 6, false, 3) }
    fn h_c07_header() {
        // the first three lines are v, o and s; whatever follows
        let lines = [V, O, S, "t=0 0", "c=IN IP4 1.2.3.4", "b=AS:5", "a=sendrecv", "m=audio 9 RTP/AVP 0"];
        let a = [choice(8), choice(8), choice(8)];
        let mut t = String::new();
        for k in a { t.push_str(lines[k as usize]); t.push_str("\r\n"); }
        t.push_str("t=0 0\r\na=ice-ufrag:");
        t.push_str(&tok(20, &[]));
        t.push_str("\r\na=ice-pwd:012345678901234567890123456789\r\n");
        let ok = a == [0, 1, 2];
        note(t.as_bytes());
        match parse_sdp(&t, false) {
            Ok(_) => { check(ok, "a description without its header is accepted"); cover("accepted"); }
            Err(SdpParserError::Sequence { line_number, .. }) => {
                check(!ok, "a well-formed description is rejected");
                let first = if a[0] != 0 { 0 } else if a[1] != 1 { 1 } else { 2 };
                check(line_number == first, "the error names another line");
                cover("rejected");
            }
            Err(_) => check(false, "a wrong header is not a sequence error"),
        }
    }
    fn h_c07_short() {
        // less than four lines are never a description
        let n = 1 + choice(3) as usize;
        let mut t = String::new();
        for k in 0..n { t.push_str([V, "o=averyveryverylongusername 4611731400430051336 2 IN IP4 127.0.0.1", "s=a rather long session name, too"][k]); t.push_str("\r\n"); }
        t.push_str(pick(&["", "\r\n\r\n\r\n\r\n", "   \r\n \r\n\t\r\n", "\n\n"]));
        note(t.as_bytes());
        check(parse_sdp(&t, false).is_err(), "less than four lines are accepted");
        cover("short");
    }
    fn h_c07_many_sections() {
        // many sections: every one keeps exactly its own lines
        let n = [1usize, 2, 3, 8, 17, 40][choice(6) as usize];
        let at = [0, n / 2, n - 1][choice(3) as usize];
        let (mut t, mut m) = start();
        step(5, 3, &mut t, &mut m);
        for i in 0..n {
            if i == at {
                step(3, 0, &mut t, &mut m);
                step(0, 0, &mut t, &mut m);
                step(1, 0, &mut t, &mut m);
                step(2, 0, &mut t, &mut m);
                step(2, 0, &mut t, &mut m);
            } else {
                t.push_str(&format!("m=application {} DTLS/SCTP 5\r\nc=IN IP4 10.0.0.{}\r\nb=AS:{}\r\na=ice-ufrag:u{}\r\n", 100 + i, i, i, i));
                m.media.push(M { port: 100 + i as u32, bw: vec![i as u32], conn: Some(i as u8), attrs: vec![format!("u{}", i)], app: true });
            }
        }
        judge(&t, &m);
    }
    fn h_c07_many_lines() {
        // many attributes and bandwidths in one section, at either level
        let n = [1usize, 2, 16, 65, 300][choice(5) as usize];
        let at = [0, n / 2, n - 1][choice(3) as usize];
        let (mut t, mut m) = start();
        step(5, 3, &mut t, &mut m);
        step(0, 3, &mut t, &mut m);
        if choice(2) == 1 { step(3, 3, &mut t, &mut m); }
        for i in 0..n {
            if i == at { step(2, 0, &mut t, &mut m); step(1, 0, &mut t, &mut m); }
            else {
                t.push_str(&format!("a=ice-ufrag:u{}\r\nb=AS:{}\r\n", i, i));
                let (a, b) = match m.media.last_mut() { None => (&mut m.attrs, &mut m.bw), Some(s) => (&mut s.attrs, &mut s.bw) };
                a.push(format!("u{}", i));
                b.push(i as u32);
            }
        }
        judge(&t, &m);
    }
    fn h_c07_forms() {
        // whatever form a line has, it belongs to its own section and to no other
        use super::lines::*;
        let what = choice(4);
        let at = choice(3) as usize; // the session, the first or the second section
        let own = choice(2) == 1;    // the sections have connections of their own
        let (l, c, b, m, tm) = match what {
            0 => { let (t, x) = conn(&mut F::new(3)); (format!("c={}\r\n", t), Some(x), None, None, None) }
            1 => { let (t, x) = bw(true); (format!("b={}\r\n", t), None, Some(x), None, None) }
            2 => { let (t, x) = mline(&mut F::new(5)); (format!("m={}\r\n", t), None, None, Some(x), None) }
            _ => { let (a, x) = u64v(choice(2) == 1); let (b, y) = u64v(choice(2) == 1); (format!("t={} {}\r\n", a, b), None, None, None, Some((x, y))) }
        };
        if (what == 2 && at == 0) || (what == 3 && at != 0) { return }
        let mut t = format!("{}\r\n{}\r\n{}\r\n", V, O, S);
        t.push_str(if what == 3 { &l } else { "t=4 5\r\n" });
        if what == 0 && at == 0 { t.push_str(&l) } else if !own || at == 0 { t.push_str("c=IN IP4 10.0.0.9\r\n") }
        if what == 1 && at == 0 { t.push_str(&l) }
        for i in 1..=3usize {
            if what == 2 && at == i { t.push_str(&l) } else { t.push_str(&format!("m=video {} RTP/AVP 9{}\r\n", i, 5 + i)) }
            if what == 0 && at == i { t.push_str(&l) } else if own { t.push_str(&format!("c=IN IP4 10.0.0.{}\r\n", i)) }
            if what == 1 && at == i { t.push_str(&l) }
            t.push_str(&format!("a=mid:m{}\r\n", i));
        }
        note(t.as_bytes());
        let s = match ps(&t, true) { Some(s) => s, None => return check(false, "a well-ordered description is rejected") };
        check(s.media.len() == 3, "the number of media sections differs");
        check(s.attribute.is_empty(), "the session attributes differ");
        check(s.timing.as_ref().map(|t| (t.start, t.stop)) == Some(tm.unwrap_or((4, 5))), "the timing is another line's");
        let is = |i: usize| at == i;
        let cn = |got: &Option<SdpConnection>, i: usize, plain: Option<u8>| match (&c, got) {
            (Some(x), Some(g)) if is(i) => eaddr_eq(&g.address, &x.address) && g.ttl == x.ttl && g.amount == x.amount,
            (Some(_), None) if is(i) => false,
            (_, g) => conn_is(g, &plain) && !matches!(g, Some(g) if g.ttl.is_some() || g.amount.is_some()),
        };
        let bs = |got: &[SdpBandwidth], i: usize| match &b { Some(x) if is(i) => got.len() == 1 && bw_eq(&got[0], x), _ => got.is_empty() };
        check(cn(&s.connection, 0, if !own || at == 0 { Some(9) } else { None }), "the session connection is another line's");
        check(bs(&s.bandwidth, 0), "the session bandwidths differ");
        for i in 1..=3usize {
            let x = &s.media[i - 1];
            match &m {
                Some(m) if is(i) => check(d_eq(x.get_type(), &m.media) && x.get_port() == m.port && x.get_port_count() == m.port_count && d_eq(x.get_proto(), &m.proto) && fmts_eq(x.get_formats(), &m.formats), "a media line differs"),
                _ => check(x.get_port() == i as u32 && x.get_port_count() == 0 && matches!(x.get_type(), SdpMediaValue::Video), "the media sections are out of order"),
            }
            check(cn(x.get_connection(), i, if own { Some(i as u8) } else { None }), "a media connection differs");
            check(bs(x.get_bandwidth(), i), "the media bandwidths differ");
            check(x.get_attributes().len() == 1 && matches!(&x.get_attributes()[0], SdpAttribute::Mid(n) if s_eq(n, &format!("m{}", i))), "the media attributes differ");
        }
        cover(["connection", "bandwidth", "media", "timing"][what as usize]);
    }
    fn h_c07_misplaced() {
        // a misplaced line is found directly after any number of well-placed ones
        let (bad, media) = [("t=0 0", true), ("t=1 2", true), (V, true), (O, true), (S, true), (V, false), (O, false), (S, false), ("c=IN IP4 1.1.1.1", true)][choice(9) as usize];
        let twice = bad.starts_with('c');
        let timing = twice || choice(2) == 0;
        let mut t = format!("{}\r\n{}\r\n{}\r\n", V, O, S);
        let mut n = 3;
        let mut add = |t: &mut String, l: &str| { t.push_str(l); t.push_str("\r\n"); n += 1; };
        if timing { add(&mut t, "t=0 0") }
        if choice(2) == 0 { add(&mut t, "c=IN IP4 1.2.3.4") }
        if media {
            let k = [0usize, 1, 2][choice(3) as usize];
            for _ in 0..k { add(&mut t, "m=video 9 RTP/AVP 96"); add(&mut t, "c=IN IP4 1.2.3.5"); }
            add(&mut t, pick(&["m=audio 9 RTP/AVP 0", "m=application 0 DTLS/SCTP 5000", "m=video 9/2 RTP/AVP 96"]));
            if twice { add(&mut t, "c=IN IP4 1.2.3.6") }
        }
        match choice(4) { 0 => {} 1 => add(&mut t, "b=AS:5"), 2 => add(&mut t, "a=sendrecv"), _ => { add(&mut t, "b=AS:5"); add(&mut t, "a=ice-pwd:abc"); } }
        t.push_str(bad);
        t.push_str("\r\na=ice-ufrag:");
        t.push_str(&tok(2, &[]));
        t.push_str("\r\n");
        let n = 3 + t[..t.len()].split("\r\n").count() - 3 - 3;
        note(t.as_bytes());
        match parse_sdp(&t, choice(2) == 1) {
            Ok(_) => check(false, "a line at the wrong place is accepted"),
            Err(e @ SdpParserError::Sequence { .. }) => {
                if let SdpParserError::Sequence { line_number, .. } = &e { check(*line_number == n, "the error names another line") }
                let x = e.to_string();
                check(!media || x.contains("media section") || twice, "the error names another section");
                cover(bad);
            }
            Err(_) => check(false, "a misplaced line is not a sequence error"),
        }
    }
    fn h_c07_pairs() {
        // attributes of any two kinds in one section, the first one twice: all are kept, in order
        let (ka, kb) = (KINDS[choice(KINDS.len() as u32) as usize], KINDS[choice(KINDS.len() as u32) as usize]);
        let session = choice(2) == 1;
        let fits = |k: &str| if session { levels(k).0 } else { levels(k).1 };
        if !fits(ka) || !fits(kb) || (!deep() && ka == "fingerprint") { return }
        let g = gen(ka, false);
        // what a description with any of them has to provide
        let mut need = String::new();
        let mut n = 0;
        if !session {
            need.push_str("a=rtcp-mux\r\n");
            for r in ["1 send", "4 send", "2 send", "3 send", "c recv", "foo send", "bar send"] { need.push_str(&format!("a=rid:{}\r\n", r)); }
            n = 8;
            if let SdpAttribute::Simulcast(s) = &g.exp {
                need.push_str(&format!("a=rid:{} send\r\n", s.send[0].ids[0].id));
                n = 9;
            }
        }
        let (a, b) = (constant(ka), constant(kb));
        let t = format!("{}c=IN IP4 1.2.3.4\r\n{}{}a={}\r\na={}\r\na={}\r\n", HEAD,
            if session { "" } else { "m=application 9 DTLS/SCTP 1 2\r\n" }, need, a, b, g.canon);
        match ps(&t, true) {
            None => check(false, "a well-formed description is rejected"),
            Some(x) => {
                let at = if session { &x.attribute } else { x.media[0].get_attributes() };
                check(at.len() == n + 3, "the number of attributes differs");
                for (i, e) in [a, b].iter().enumerate() {
                    match e.parse::<SdpAttribute>() {
                        Ok(e) => check(attr_eq(&at[n + i], &e), "an attribute is another line's"),
                        Err(_) => check(false, "a well-formed attribute is rejected"),
                    }
                }
                check(attr_eq(&at[n + 2], &g.exp), "an attribute is another line's");
                cover(ka);
            }
        }
    }
    fn h_c07_lines_are_independent() {
        // a line means the same alone as within a description, wherever it stands
        let name = KINDS[choice(KINDS.len() as u32) as usize];
        let (s, md) = levels(name);
        let g = gen(name, false);
        let l = if g.val.is_empty() { format!("a={}", name) } else { format!("a={}:{}", name, g.val) };
        let alone = match parse_sdp_line(&l, 0) { Ok(SdpLine { sdp_type: SdpType::Attribute(a), .. }) => a, _ => { check(false, "a well-formed attribute is rejected"); return } };
        let other = pick(&["a=sendrecv\r\n", "a=ice-pwd:abc\r\n", "b=AS:1\r\n"]);
        // what the rest of the description has to provide
        let need = match name {
            "simulcast" => {
                let SdpAttribute::Simulcast(ref c) = alone else { return };
                format!("a=rid:{} send\r\n", c.send[0].ids[0].id)
            }
            "rid" | "rtcp-mux-only" => "a=rtcp-mux\r\n".to_string(),
            _ => String::new(),
        };
        let session = s && choice(2) == 0;
        if !session && !md { return }
        let t = if session { format!("{}c=IN IP4 1.2.3.4\r\n{}{}\r\n{}m=audio 9 RTP/AVP 0\r\n", HEAD, other, l, other) }
            else { format!("{}c=IN IP4 1.2.3.4\r\nm=audio 9 RTP/AVP 0\r\nm=video 9 RTP/AVP 96\r\n{}{}{}\r\n{}m=audio 9 RTP/AVP 0\r\n", HEAD, other, need, l, other) };
        match ps(&t, true) {
            None => check(false, "a well-formed attribute is rejected within a description"),
            Some(x) => {
                let b = if session { &x.attribute } else { x.media[1].get_attributes() };
                check(b.iter().filter(|b| attr_eq(&alone, b)).count() >= 1, "an attribute means something else within a description");
                let n = (if other.starts_with('b') { 0 } else { 2 }) + 1 + if need.is_empty() || session { 0 } else { 1 };
                check(b.len() == n, "the number of attributes differs");
                if !session { check(x.attribute.is_empty() && x.media[0].get_attributes().is_empty() && x.media[2].get_attributes().is_empty(), "an attribute is in another section"); }
                else { check(x.media[0].get_attributes().is_empty(), "an attribute is in another section"); }
                cover(name);
            }
        }
    }
}
