//! C15: the masked clone of a description differs from it exactly in the identifying values, which
//! are replaced consistently; nothing identifying is left and nothing else is lost.
use webrtc_sdp::media_type::*;
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::address::*;
use webrtc_sdp::anonymizer::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::*;

#[derive(Clone, Copy, PartialEq)]
enum K {
    Host,
    V4,
    V6,
    Port,
    User,
    Pwd,
    Finger,
    Cname,
    Origin,
}
type P = Vec<(K, Vec<u8>, Vec<u8>)>;
fn text(p: &mut P, k: K, a: &str, b: &str) {
    p.push((k, a.as_bytes().to_vec(), b.as_bytes().to_vec()))
}
fn port(p: &mut P, a: u32, b: u32) {
    p.push((K::Port, a.to_be_bytes().to_vec(), b.to_be_bytes().to_vec()))
}
fn address(p: &mut P, a: &Address, b: &Address) {
    use std::net::IpAddr::*;
    match (a, b) {
        (Address::Fqdn(a), Address::Fqdn(b)) => text(p, K::Host, a, b),
        (Address::Ip(V4(a)), Address::Ip(V4(b))) => p.push((K::V4, a.octets().to_vec(), b.octets().to_vec())),
        (Address::Ip(V6(a)), Address::Ip(V6(b))) => p.push((K::V6, a.octets().to_vec(), b.octets().to_vec())),
        _ => check(false, "an address is masked by one of another kind"),
    }
}
fn typed(p: &mut P, a: &ExplicitlyTypedAddress, b: &ExplicitlyTypedAddress) {
    check(a.address_type() == b.address_type(), "masking changes an address type");
    address(p, &a.clone().into(), &b.clone().into())
}
fn opt<X>(p: &mut P, a: &Option<X>, b: &Option<X>, f: impl Fn(&mut P, &X, &X)) {
    match (a, b) {
        (Some(a), Some(b)) => f(p, a, b),
        (None, None) => {}
        _ => check(false, "masking adds or drops a part of an attribute"),
    }
}
fn conn(p: &mut P, a: &SdpConnection, b: &SdpConnection) {
    check(a.ttl == b.ttl && a.amount == b.amount, "masking changes another part of the connection");
    typed(p, &a.address, &b.address)
}
/// the identifying values of an attribute, with those of its masked clone put back
fn attr(p: &mut P, a: &SdpAttribute, b: &SdpAttribute) {
    use SdpAttribute::*;
    let mut c = b.clone();
    match (a, &mut c) {
        (Candidate(x), Candidate(y)) => {
            address(p, &x.address, &y.address);
            port(p, x.port, y.port);
            opt(p, &x.raddr, &y.raddr, address);
            opt(p, &x.rport, &y.rport, |p, a, b| port(p, *a, *b));
            opt(p, &x.ufrag, &y.ufrag, |p, a, b| text(p, K::User, a, b));
            y.address = x.address.clone();
            y.port = x.port;
            y.raddr = x.raddr.clone();
            y.rport = x.rport;
            y.ufrag = x.ufrag.clone();
        }
        (Fingerprint(x), Fingerprint(y)) => {
            p.push((K::Finger, x.fingerprint.clone(), y.fingerprint.clone()));
            y.fingerprint = x.fingerprint.clone();
        }
        (IcePwd(x), IcePwd(y)) => {
            text(p, K::Pwd, x, y);
            *y = x.clone();
        }
        (IceUfrag(x), IceUfrag(y)) => {
            text(p, K::User, x, y);
            *y = x.clone();
        }
        (RemoteCandidate(x), RemoteCandidate(y)) => {
            address(p, &x.address, &y.address);
            port(p, x.port, y.port);
            y.address = x.address.clone();
            y.port = x.port;
        }
        (Rtcp(x), Rtcp(y)) => {
            opt(p, &x.unicast_addr, &y.unicast_addr, typed);
            y.unicast_addr = x.unicast_addr.clone();
        }
        (Ssrc(x), Ssrc(y)) => {
            if let Some(n) = &x.attribute {
                if s_eq(&n.to_ascii_lowercase(), "cname") {
                    opt(p, &x.value, &y.value, |p, a, b| text(p, K::Cname, a, b));
                    y.value = x.value.clone();
                }
            }
        }
        _ => {}
    }
    check(attr_eq(a, &c), "masking changes another part of an attribute");
}
fn consistent(p: &P) {
    for (i, a) in p.iter().enumerate() {
        // the mask of the first IPv6 address is ::1, whatever the address
        let one = a.1.len() == 16 && a.1[..15].iter().all(|b| *b == 0) && a.1[15] == 1;
        check(one || !b_eq(&a.1, &a.2), "an identifying value is left");
        for b in &p[..i] {
            if a.0 == b.0 {
                check(b_eq(&a.1, &b.1) == b_eq(&a.2, &b.2), "equal values have different masks, or different values equal ones");
            }
        }
    }
}
fn session(p: &mut P, a: &SdpSession, b: &SdpSession) {
    check(a.version == b.version, "masking changes the version");
    check(a.origin.session_id == b.origin.session_id && a.origin.session_version == b.origin.session_version, "masking changes the session id or version");
    text(p, K::Origin, &a.origin.username, &b.origin.username);
    typed(p, &a.origin.unicast_addr, &b.origin.unicast_addr);
    check(o_eq(&a.session, &b.session, str_eq), "masking changes the session name");
    opt(p, &a.connection, &b.connection, conn);
    check(v_eq(&a.bandwidth, &b.bandwidth, bw_eq), "masking changes the bandwidths");
    check(o_eq(&a.timing, &b.timing, |a, b| a.start == b.start && a.stop == b.stop), "masking changes the timing");
    check(a.attribute.len() == b.attribute.len(), "masking adds or drops session attributes");
    for (x, y) in a.attribute.iter().zip(b.attribute.iter()) {
        attr(p, x, y)
    }
    check(a.media.len() == b.media.len(), "masking adds or drops media sections");
    for (x, y) in a.media.iter().zip(b.media.iter()) {
        media(p, x, y)
    }
}
fn media(p: &mut P, a: &SdpMedia, b: &SdpMedia) {
    check(d_eq(a.get_type(), b.get_type()) && a.get_port() == b.get_port() && a.get_port_count() == b.get_port_count()
        && d_eq(a.get_proto(), b.get_proto()) && fmts_eq(a.get_formats(), b.get_formats()), "masking changes a media line");
    check(v_eq(a.get_bandwidth(), b.get_bandwidth(), bw_eq), "masking changes the bandwidths of a media section");
    opt(p, a.get_connection(), b.get_connection(), conn);
    check(a.get_attributes().len() == b.get_attributes().len(), "masking adds or drops attributes of a media section");
    for (x, y) in a.get_attributes().iter().zip(b.get_attributes().iter()) {
        attr(p, x, y)
    }
}
/// the masked ports are the anonymizer's
fn ports(p: &P, an: &mut StatefulSdpAnonymizer) {
    for x in p.iter().filter(|x| x.0 == K::Port) {
        let n = |v: &Vec<u8>| u32::from_be_bytes([v[0], v[1], v[2], v[3]]);
        check(an.mask_port(n(&x.1)) == n(&x.2), "a port is left");
    }
}
/// an identifying token: has a Q, which nothing else has
fn q() -> String {
    let b = rng(b'a', b'd');
    st(vec![b'Q', b])
}
harnesses! {
    fn h_c15_many() {
        // many values: all of them masked, equal ones alike
        let n = many();
        let k = choice(7);
        let d = rng(b'1', b'9');
        let x = st(vec![d]);
        let mut t = format!("{}c=IN IP4 1.2.3.4\r\nm=audio 9 RTP/AVP 0\r\n", HEAD);
        for i in 0..=n {
            let w = if i == n { x.clone() } else { (i + 1).to_string() };
            t.push_str(&match k {
                0 => format!("a=candidate:1 1 UDP 5 9.9.{}.{} 9 typ host\r\n", if i == n { 0 } else { (i + 1) / 250 }, if i == n { x.clone() } else { ((i + 1) % 250).to_string() }),
                1 => format!("a=ice-ufrag:Q{}\r\n", w),
                2 => format!("a=ice-pwd:Q{}\r\n", w),
                3 => format!("a=ssrc:5 cname:Q{}\r\n", w),
                4 => format!("a=candidate:1 1 UDP 5 q{}.ex 9 typ host\r\n", w),
                5 => format!("m=audio 9 RTP/AVP 0\r\nc=IN IP6 fe80::{}\r\n", w),
                _ => format!("a=remote-candidates:1 1.1.1.1 {}\r\n", 60000 + if i == n { (d - b'0') as usize } else { i + 1 }),
            });
        }
        match ps(&t, true) {
            None => check(false, "a well-formed description is rejected"),
            Some(s) => {
                let mut an = StatefulSdpAnonymizer::new();
                let m = s.masked_clone(&mut an);
                let mut p = vec![];
                session(&mut p, &s, &m);
                // against the last only: the values before it differ from each other
                let (l, rest) = match p.split_last() { Some(x) => x, None => return };
                let mut seen = 0usize;
                for a in rest {
                    if a.0 == l.0 {
                        seen += 1;
                        check(b_eq(&a.1, &l.1) == b_eq(&a.2, &l.2), "equal values have different masks, or different values equal ones");
                    }
                }
                check(seen >= n, "a value is not masked");
                for w in p.windows(2) {
                    if w[0].0 == w[1].0 {
                        check(b_eq(&w[0].1, &w[1].1) == b_eq(&w[0].2, &w[1].2), "different values have equal masks");
                    }
                }
                cover("many");
            }
        }
    }
    fn h_c15_attribute() {
        // one attribute of any kind: what identifies is replaced, the rest kept
        let name = KINDS[choice(KINDS.len() as u32) as usize];
        let full = deep() || !matches!(name, "simulcast" | "imageattr" | "fmtp");
        let g = gen(name, full);
        note(g.canon.as_bytes());
        let mut an = StatefulSdpAnonymizer::new();
        if choice(2) == 1 { an.mask_host("ab"); an.mask_ice_user("ab"); an.mask_port(7); }
        let m = g.exp.masked_clone(&mut an);
        let mut p = vec![];
        attr(&mut p, &g.exp, &m);
        ports(&p, &mut an);
        // numbers may by chance be their own mask
        let p: P = p.into_iter().filter(|x| x.0 != K::Port).collect();
        consistent(&p);
        let again = g.exp.masked_clone(&mut an);
        check(attr_eq(&m, &again), "a second masked clone differs");
        cover(name);
    }
    fn h_c15_session() {
        let (a, b, c, d) = (q(), q(), q(), q());
        let h = |s: &str| s.to_string() + ".ex";
        let v4a = 40 + choice(3);
        let x = st(vec![rng(b'1', b'3')]);
        let crypt = |x: &str| format!("0{}:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC", x);
        let y = st(vec![rng(b'1', b'3')]);
        let t = format!("v=0\r\no={a} 4 2 IN IP4 7.7.7.{x}\r\ns=-\r\nt=1 2\r\nb=AS:5\r\nc=IN IP4 7.7.7.{y}\r\na=ice-lite\r\na=ice-ufrag:{b}\r\na=ice-pwd:{c}\r\na=fingerprint:sha-1 {f1}\r\n\
            m=audio 9 RTP/AVP 0\r\nc=IN IP6 fe80::{x}\r\nb=CT:3\r\na=candidate:1 1 UDP 5 7.7.7.1 500{x} typ host ufrag {d}\r\na=candidate:2 1 UDP 5 {h1} 500{y} typ srflx raddr 7.7.7.{v} rport 5001\r\na=mid:x\r\na=ssrc:5 cname:{d}\r\na=ssrc:5 msid:zz\r\n\
            m=video 9 RTP/AVP 96\r\na=rtcp:9 IN IP4 7.7.7.{y}\r\na=remote-candidates:1 fe80::{y} 5002\r\na=fingerprint:sha-1 {f2}\r\na=ice-ufrag:{d}\r\na=ice-pwd:{a}\r\na=ssrc:6 CNAME:{b}\r\na=rtpmap:96 vp8/9\r\n",
            a = a, b = b, c = c, d = d, x = x, y = y, v = v4a, f1 = crypt(&x), f2 = crypt(&y), h1 = h(&lower(1)));
        let s = match ps(&t, true) { Some(s) => s, None => return check(false, "a well-formed description is rejected") };
        let mut an = StatefulSdpAnonymizer::new();
        let m = s.masked_clone(&mut an);
        let mut p = vec![];
        session(&mut p, &s, &m);
        consistent(&p);
        check(p.len() == 22, "another number of identifying values");
        check(m.warnings.is_empty(), "the clone has warnings");
        let out = m.to_string();
        check(!out.bytes().any(|b| b == b'Q'), "an identifying text is left in the printed clone");
        let again = s.masked_clone(&mut an);
        check(session_eq(&m, &again), "a second masked clone differs");
        cover("session");
    }
    fn h_c15_context() {
        // whatever else the section has, its identifying values are masked and the rest is kept
        use super::lines::*;
        let what = choice(5);
        let (m, _) = mline(&mut if what == 0 { F::new(5) } else { F::plain() });
        let m = if what == 4 { format!("{} 0 RTP/AVP 0", pick(&["audio", "video"])) } else { m };
        let (c, _) = conn(&mut if what == 1 { F::new(3) } else { F::plain() });
        let b = if what == 2 { bw(true).0 } else { "CT:11".to_string() };
        let (u, _) = u64v(what == 3);
        let dir = if what == 3 || what == 4 { pick(&["sendrecv", "recvonly", "sendonly", "inactive", "ice-lite", "bundle-only", "rtcp-mux", "end-of-candidates", "mid:0"]) } else { "mid:1" };
        let top = dir != "bundle-only" && dir != "end-of-candidates" && dir != "mid:0" && dir != "mid:1" && dir != "rtcp-mux";
        let low = |d: &str| if d == "ice-lite" { "a=mid:2\r\n".to_string() } else { format!("a={}\r\n", d) };
        let v = q();
        let pt = 5;
        let t = format!("v=0\r\no=- {u} 2 IN IP4 6.6.6.6\r\ns=-\r\nb={b}\r\nc={c}\r\nt={u} {u}\r\n{sd}\
            m={m}\r\nc={c}\r\nb={b}\r\n{md}a=candidate:1 1 UDP 5 5.5.5.5 {pt} typ srflx rport {pt}\r\na=ice-ufrag:{v}\r\na=ice-pwd:{v}\r\na=rtcp:9 {c2}\r\na=remote-candidates:1 5.5.5.6 6\r\na=ssrc:1 cname:{v}\r\na=fingerprint:sha-1 11:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC\r\n\
            m={m}\r\nc={c}\r\n{md}",
            u = u, b = b, c = c, m = m, v = v, pt = pt, sd = if top { format!("a={}\r\n", dir) } else { String::new() }, md = low(dir), c2 = c.split('/').next().unwrap_or(""));
        note(t.as_bytes());
        let s = match ps(&t, true) { Some(s) => s, None => return check(false, "a well-formed description is rejected") };
        let mut an = StatefulSdpAnonymizer::new();
        let k = s.masked_clone(&mut an);
        let mut p = vec![];
        session(&mut p, &s, &k);
        check(p.len() == 15, "another number of identifying values");
        ports(&p, &mut an);
        let o = k.to_string();
        check(what == 0 || what == 2 || !o.bytes().any(|b| b == b'Q'), "an identifying text is left in the printed clone");
        let p: P = p.into_iter().filter(|x| x.0 != K::Port).collect();
        consistent(&p);
        let again = s.masked_clone(&mut an);
        check(session_eq(&k, &again), "a second masked clone differs");
        cover(["media", "connection", "bandwidth", "numbers", "port 0"][what as usize]);
    }
    fn h_c15_two_sessions() {
        // offer and answer masked by one anonymizer keep what they share
        let (a, b) = (q(), q());
        let mk = |n: &str, ip: &str| format!("v=0\r\no={} 4 2 IN IP4 {}\r\ns=-\r\nt=1 2\r\na=ice-ufrag:{}\r\na=ice-pwd:{}\r\nm=audio 9 RTP/AVP 0\r\nc=IN IP4 {}\r\na=ssrc:1 cname:{}\r\n", n, ip, n, n, ip, n);
        let x = rng(b'1', b'3') as char;
        let (s, t) = match (parse_sdp(&mk(&a, &format!("9.9.9.{}", x)), true), parse_sdp(&mk(&b, "9.9.9.2"), true)) {
            (Ok(s), Ok(t)) => (s, t),
            _ => return check(false, "a well-formed description is rejected"),
        };
        let mut an = StatefulSdpAnonymizer::new();
        let ms = s.masked_clone(&mut an);
        let mt = t.masked_clone(&mut an);
        let ms2 = s.masked_clone(&mut an);
        let mut p = vec![];
        session(&mut p, &s, &ms);
        session(&mut p, &t, &mt);
        session(&mut p, &s, &ms2);
        consistent(&p);
        cover(if s_eq(&a, &b) { "shared" } else { "different" });
    }
    fn h_c15_addresses() {
        // every place of an address, every form of it
        let (txt, ad) = eaddr(true);
        let (t2, a2) = addr(true);
        let k = choice(5);
        let t = match k {
            0 => format!("v=0\r\no=- 4611731400430051336 2 {}\r\ns=-\r\nt=0 0\r\n", txt),
            1 => format!("{}c={}\r\n", HEAD, txt),
            2 => format!("{}m=audio 9 RTP/AVP 0\r\nc={}\r\n", HEAD, txt),
            3 => format!("{}m=audio 9 RTP/AVP 0\r\nc=IN IP4 1.1.1.1\r\na=rtcp:9 {}\r\n", HEAD, txt),
            _ => format!("{}m=audio 9 RTP/AVP 0\r\nc=IN IP4 1.1.1.1\r\na=candidate:1 1 UDP 5 {} 9 typ host raddr {} rport 7\r\na=remote-candidates:1 {} 9\r\n", HEAD, t2, t2, t2),
        };
        let _ = (&ad, &a2);
        match ps(&t, true) {
            None => check(false, "a well-formed description is rejected"),
            Some(s) => {
                let m = s.masked_clone(&mut StatefulSdpAnonymizer::new());
                let mut p = vec![];
                session(&mut p, &s, &m);
                consistent(&p);
                let o = m.to_string();
                let tail = if k == 4 { &t2 } else { &txt };
                // a short name is searched as a word, anything else anywhere
                let left = if tail.len() <= 17 {
                    let w = if k == 4 { format!(" {}", tail) } else { tail.clone() };
                    o.contains(&format!("{} ", w)) || o.contains(&format!("{}\r", w)) || o.contains(&format!("{}/", w))
                } else {
                    o.contains(tail.as_str())
                };
                check(tail.ends_with(":") || tail.ends_with("::1") || !left, "an address is left in the printed clone");
                cover("address");
            }
        }
    }
    fn h_c15_ssrc_names() {
        // only the canonical name of a source identifies, in any case of letters
        let n = match choice(3) { 0 => anycase("cname"), 1 => tok(1, b":"), _ => String::from("cnam") + &tok(1, b":") };
        let l = format!("ssrc:1 {}:Qx", n);
        match pa(&l) {
            Some(a) => {
                let m = a.masked_clone(&mut StatefulSdpAnonymizer::new());
                let is = s_eq(&n.to_ascii_lowercase(), "cname");
                check(m.to_string().contains('Q') != is, "the canonical name is kept, or another value is masked");
                let mut p = vec![];
                attr(&mut p, &a, &m);
                check(p.len() == is as usize, "the value is dropped");
                cover(if is { "cname" } else { "other" });
            }
            None => check(false, "a well-formed attribute is rejected"),
        }
    }
    fn h_c15_every_line() {
        // no attribute is lost or changed, whatever its kind, level and neighbours
        let l = pick(super::mutate::ODD);
        let name = l.split(':').next().unwrap_or("");
        let at = choice(2) == 0;
        let (s, m) = levels(name);
        if !(if at { s } else { m }) || name == "simulcast" || name == "rtcp-mux-only" { return }
        let near = pick(&["a=ice-ufrag:Qa\r\n", "a=inactive\r\n", "b=AS:7\r\n"]);
        let port = st(vec![dig()]);
        let l = if name == "rid" { "rid:0 send" } else { l };
        let t = if at { format!("{}c=IN IP4 7.7.7.7\r\n{}a={}\r\n{}m=audio {} RTP/AVP 0\r\n", HEAD, near, l, near, port) }
            else { format!("{}m=audio {} RTP/AVP 0\r\nc=IN IP4 7.7.7.7\r\n{}a={}\r\na={}\r\n{}", HEAD, port, near, l, l, near) };
        match ps(&t, true) {
            None => check(false, "a well-formed description is rejected"),
            Some(s) => {
                let m = s.masked_clone(&mut StatefulSdpAnonymizer::new());
                let mut p = vec![];
                session(&mut p, &s, &m);
                check(m.warnings.is_empty(), "the clone has warnings");
                cover(name);
            }
        }
    }
}
