//! C08: an attribute is accepted exactly at the levels it is defined for, by the parser and by
//! the programming interface.
use super::gen::*;
use super::mutate::ODD;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

fn kind() -> &'static str {
    KINDS[choice(KINDS.len() as u32) as usize]
}
fn line_of(g: &G) -> String {
    if g.val.is_empty() { format!("a={}\r\n", g.name) } else { format!("a={}:{}\r\n", g.name, g.val) }
}
fn media() -> SdpMedia {
    SdpMedia::new(SdpMediaLine {
        media: SdpMediaValue::Audio,
        port: 9,
        port_count: 0,
        proto: SdpProtocolValue::RtpAvp,
        formats: SdpFormatList::Integers(vec![0]),
    })
}
fn session() -> SdpSession {
    SdpSession::new(
        0,
        SdpOrigin {
            username: "-".to_string(),
            session_id: 1,
            session_version: 1,
            unicast_addr: address::ExplicitlyTypedAddress::Ip(std::net::IpAddr::V4(std::net::Ipv4Addr::new(1, 2, 3, 4))),
        },
        "x".to_string(),
    )
}
harnesses! {
    fn h_c08_session_text() {
        let name = kind();
        let g = gen(name, false);
        let (ok, _) = levels(name);
        let before = choice(2) == 1;
        let media = choice(2) == 1;
        let t = format!("{}{}{}{}{}", HEAD, "c=IN IP4 1.2.3.4\r\n", if before { "a=ice-ufrag:x\r\n" } else { "" }, line_of(&g),
            if media { "m=audio 9 RTP/AVP 0\r\n" } else { "" });
        note(t.as_bytes());
        match parse_sdp(&t, true) {
            Ok(s) => {
                check(ok, "a media attribute is accepted at session level");
                check(s.attribute.len() == 1 + before as usize && attr_eq(&s.attribute[before as usize], &g.exp), "the attribute is not kept");
                cover(name);
            }
            Err(SdpParserError::Sequence { line_number, .. }) => {
                check(!ok, "a session attribute is rejected at session level");
                check(line_number == 5 + before as usize, "the error names another line");
                cover(name);
            }
            Err(_) => check(false, "a wrong level is not a sequence error"),
        }
    }
    fn h_c08_media_text() {
        let name = kind();
        let g = gen(name, false);
        let (_, ok) = levels(name);
        let before = choice(2) == 1;
        let second = choice(2) == 1;
        let need = match &g.exp {
            SdpAttribute::Simulcast(c) => format!("a=rid:{} send\r\n", c.send[0].ids[0].id),
            _ => "a=rtcp-mux\r\n".to_string(),
        };
        let m = "m=audio 9 RTP/AVP 0\r\n";
        let t = format!("{}{}{}{}{}{}{}", HEAD, "c=IN IP4 1.2.3.4\r\n", m, if second { "m=video 9 RTP/AVP 96\r\n" } else { "" }, need,
            if before { "a=ice-ufrag:x\r\n" } else { "" }, line_of(&g));
        note(t.as_bytes());
        let at = 1 + before as usize;
        match parse_sdp(&t, true) {
            Ok(s) => {
                let a = s.media[second as usize].get_attributes();
                if name == "dtls-message" {
                    check(a.len() == at, "dtls-message is not ignored at media level");
                } else {
                    check(ok, "a session attribute is accepted at media level");
                    check(a.len() == at + 1 && attr_eq(&a[at], &g.exp), "the attribute is not kept");
                }
                cover(name);
            }
            Err(SdpParserError::Sequence { line_number, .. }) => {
                check(!ok && name != "dtls-message", "a media attribute is rejected at media level");
                check(line_number == 7 + before as usize + second as usize, "the error names another line");
                cover(name);
            }
            Err(_) => check(false, "a wrong level is not a sequence error"),
        }
    }
    fn h_c08_session_api() {
        let name = kind();
        let g = gen(name, false);
        let (ok, _) = levels(name);
        check(g.exp.allowed_at_session_level() == ok, "the session level predicate differs");
        let mut s = session();
        let n = choice(3) as usize;
        for _ in 0..n { check(s.add_attribute(SdpAttribute::Sendrecv).is_ok(), "sendrecv is rejected"); }
        let r = s.add_attribute(g.exp.clone());
        check(r.is_ok() == ok, "the session level interface differs");
        check(s.attribute.len() == n + ok as usize, "the number of session attributes differs");
        if ok { check(attr_eq(&s.attribute[n], &g.exp), "another attribute is added"); }
        for i in 0..n { check(matches!(s.attribute[i], SdpAttribute::Sendrecv), "the other attributes change"); }
        cover(name);
    }
    fn h_c08_media_api() {
        let name = kind();
        let g = gen(name, false);
        let (_, ok) = levels(name);
        check(g.exp.allowed_at_media_level() == ok, "the media level predicate differs");
        let mut s = media();
        let n = choice(3) as usize;
        for _ in 0..n { check(s.add_attribute(SdpAttribute::Setup(SdpAttributeSetup::Active)).is_ok(), "setup is rejected"); }
        let r = if choice(2) == 0 || name == "setup" { s.add_attribute(g.exp.clone()) } else { s.set_attribute(g.exp.clone()) };
        check(r.is_ok() == ok, "the media level interface differs");
        let a = s.get_attributes();
        check(a.len() == n + ok as usize, "the number of media attributes differs");
        if ok { check(attr_eq(&a[n], &g.exp), "another attribute is added"); }
        for i in 0..n { check(matches!(a[i], SdpAttribute::Setup(SdpAttributeSetup::Active)), "the other attributes change"); }
        cover(name);
    }
    fn h_c08_add_media() {
        // a media section is only added with an attribute that may stand there
        let name = kind();
        let g = gen(name, false);
        let (_, ok) = levels(name);
        let mut s = session();
        let a = address::ExplicitlyTypedAddress::Ip(std::net::IpAddr::V4(std::net::Ipv4Addr::new(1, 2, 3, 4)));
        let r = s.add_media(SdpMediaValue::Video, g.exp.clone(), 99, SdpProtocolValue::RtpSavpf, a);
        check(r.is_ok() == ok, "add_media differs from the level of its attribute");
        check(s.media.len() == ok as usize, "the number of media sections differs");
        if ok {
            let m = &s.media[0];
            check(m.get_attributes().len() == 1 && attr_eq(&m.get_attributes()[0], &g.exp), "another attribute is added");
            check(m.get_port() == 99 && matches!(m.get_type(), SdpMediaValue::Video) && matches!(m.get_proto(), SdpProtocolValue::RtpSavpf), "another media line is added");
            check(m.get_connection().is_some(), "the connection is not set");
        }
        cover(name);
    }
    fn h_c08_shapes() {
        // the level depends on the kind alone, whatever the value is
        let name = kind();
        let g = gen(name, true);
        let (s, m) = levels(name);
        note(line_of(&g).as_bytes());
        check(g.exp.allowed_at_session_level() == s, "the session level depends on the value");
        check(g.exp.allowed_at_media_level() == m, "the media level depends on the value");
        match choice(2) {
            0 => check(session().add_attribute(g.exp).is_ok() == s, "the session level interface depends on the value"),
            _ => check(media().add_attribute(g.exp).is_ok() == m, "the media level interface depends on the value"),
        }
        cover(name);
    }
    fn h_c08_odd() {
        // values with nothing or the utmost in them, by the text and by the interface
        let l = pick(ODD);
        let name = l.split(':').next().unwrap_or("");
        let (s, m) = levels(name);
        let a = match pa(l) { Some(a) => a, None => { check(false, "a well-formed attribute is rejected"); return } };
        check(a.allowed_at_session_level() == s && a.allowed_at_media_level() == m, "the level depends on the value");
        check(session().add_attribute(a.clone()).is_ok() == s, "the session level interface depends on the value");
        check(media().add_attribute(a.clone()).is_ok() == m, "the media level interface depends on the value");
        check(media().set_attribute(a.clone()).is_ok() == m, "the media level interface depends on the value");
        let at = choice(2) == 0;
        let t = format!("{}c=IN IP4 1.2.3.4\r\n{}a={}\r\n", HEAD, if at { "" } else { "m=audio 9 RTP/AVP 0\r\n" }, l);
        let ok = if at { s } else { m };
        match ps(&t, true) {
            Some(x) => {
                let n = if at { x.attribute.len() } else { x.media[0].get_attributes().len() };
                if !at && name == "dtls-message" { check(n == 0, "dtls-message is not ignored at media level"); }
                else { check(ok && n == 1, "a value is accepted at a wrong level"); }
            }
            None => check(!ok || (!at && name == "rtcp-mux-only"), "a value is rejected at its level"),
        }
        cover(name);
    }
}
