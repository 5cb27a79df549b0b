//! C17: looking up attributes by type finds exactly the ones of that type, in order, and the
//! type of an attribute is the one of its name.
use super::gen::*;
use super::sym::*;
use super::util::*;
use std::net::{IpAddr, Ipv4Addr};
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

fn kind() -> &'static str {
    KINDS[choice(KINDS.len() as u32) as usize]
}
fn section(port: u32) -> SdpMedia {
    SdpMedia::new(SdpMediaLine {
        media: SdpMediaValue::Video,
        port,
        port_count: 0,
        proto: SdpProtocolValue::RtpAvp,
        formats: SdpFormatList::Integers(vec![96]),
    })
}
fn session() -> SdpSession {
    let unicast_addr = ExplicitlyTypedAddress::Ip(IpAddr::V4(Ipv4Addr::new(1, 2, 3, 4)));
    SdpSession::new(0, SdpOrigin { username: "-".to_string(), session_id: 1, session_version: 1, unicast_addr }, "x".to_string())
}
fn same(a: &SdpAttribute, b: &SdpAttribute) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}
/// lookup in `have` must find exactly what a scan finds
fn media(m: &SdpMedia, have: &[SdpAttribute], like: &SdpAttribute) {
    let t = SdpAttributeType::from(like);
    let mut want = vec![];
    for a in have {
        if same(a, like) {
            want.push(a);
        }
    }
    match (m.get_attribute(t.clone()), want.first()) {
        (None, None) => {}
        (Some(a), Some(b)) => check(attr_eq(a, b), "get_attribute finds another attribute than the first"),
        (None, Some(_)) => check(false, "get_attribute misses an attribute"),
        (Some(_), None) => check(false, "get_attribute finds an attribute of another type"),
    }
    let got = m.get_attributes_of_type(t);
    check(got.len() == want.len(), "get_attributes_of_type finds another number of attributes");
    for i in 0..got.len().min(want.len()) {
        check(attr_eq(got[i], want[i]), "get_attributes_of_type finds another attribute");
    }
}
fn top(s: &SdpSession, have: &[SdpAttribute], like: &SdpAttribute) {
    let mut want = None;
    for a in have {
        if want.is_none() && same(a, like) {
            want = Some(a);
        }
    }
    match (s.get_attribute(SdpAttributeType::from(like)), want) {
        (None, None) => {}
        (Some(a), Some(b)) => check(attr_eq(a, b), "get_attribute finds another attribute than the first"),
        (None, Some(_)) => check(false, "get_attribute misses an attribute"),
        (Some(_), None) => check(false, "get_attribute finds an attribute of another type"),
    }
}
fn constant(name: &str) -> Vec<SdpAttribute> {
    let mut v = vec![];
    for s in super::mutate::ATTRS {
        if s.split(':').next() == Some(name) {
            match s.parse() {
                Ok(a) => v.push(a),
                Err(_) => check(false, "a well-formed attribute is rejected"),
            }
        }
    }
    if v.is_empty() {
        // attributes without a value
        match name.parse() {
            Ok(a) => v.push(a),
            Err(_) => check(false, "a well-formed attribute is rejected"),
        }
    }
    v
}
fn line(a: &str) -> String {
    format!("a={}\r\n", a)
}
harnesses! {
    fn h_c17_type() {
        // the type of an attribute is the one of its name, and prints as its name
        let name = kind();
        let g = gen(name, false);
        let t = SdpAttributeType::from(&g.exp);
        check(t == type_of(name), "the attribute has another type");
        check(s_eq(&t.to_string(), name), "the type prints as another name");
        let text = if g.val.is_empty() { name.to_string() } else { format!("{}:{}", name, g.val) };
        match pa(&text) {
            Some(a) => {
                check(SdpAttributeType::from(&a) == type_of(name), "the parsed attribute has another type");
                check(a.to_string().split(':').next() == Some(name), "the attribute prints under another name");
            }
            None => check(false, "a well-formed attribute is rejected"),
        }
        cover(name);
    }
    fn h_c17_types_differ() {
        let (a, b) = (kind(), kind());
        check((type_of(a) == type_of(b)) == s_eq(a, b), "types compare wrongly");
        check(type_of(a).clone() == type_of(a), "a cloned type differs");
        cover("types");
    }
    fn h_c17_pairs() {
        // a b a' : lookup of every type
        let (ka, kb, kt) = (kind(), kind(), kind());
        if ka != kt && kb != kt && ka != kb && kt != "mid" && kt != "group" {
            // absent type: a few are enough, any are possible in deep runs
            assume(deep());
        }
        let mut have = vec![];
        have.extend(constant(ka));
        have.extend(constant(kb));
        have.push(gen(ka, false).exp);
        let mut m = section(9);
        let mut mine = vec![];
        for a in &have {
            if a.allowed_at_media_level() {
                check(m.add_attribute(a.clone()).is_ok(), "a media attribute is rejected");
                mine.push(a.clone());
            }
        }
        let mut s = session();
        s.attribute = have.clone();
        let like = &constant(kt)[0];
        media(&m, &mine, like);
        top(&s, &have, like);
        cover(kt);
    }
    fn h_c17_many() {
        // everything at once, the looked-up kind with arbitrary values at three places
        let name = kind();
        let g = gen(name, false).exp;
        let at = choice(3);
        let mut have = vec![];
        if at == 0 { have.push(g.clone()); }
        for (i, k) in KINDS.iter().enumerate() {
            if i == 20 && at == 1 { have.push(g.clone()); }
            have.extend(constant(k));
        }
        if at == 2 { have.push(g.clone()); }
        if choice(2) == 1 { have.reverse(); }
        let mut s = session();
        s.attribute = have.clone();
        top(&s, &have, &g);
        let mut m = section(9);
        let mut mine = vec![];
        for a in &have {
            if a.allowed_at_media_level() {
                check(m.add_attribute(a.clone()).is_ok(), "a media attribute is rejected");
                mine.push(a.clone());
            }
        }
        media(&m, &mine, &g);
        cover(name);
    }
    fn h_c17_values() {
        // whatever the value of the attribute: it is found where it stands
        let name = kind();
        let g = gen(name, deep() || !matches!(name, "simulcast" | "imageattr" | "candidate" | "rid")).exp;
        let mut have = vec![g.clone()];
        match choice(3) {
            0 => {}
            1 => have.extend(constant(name)),
            _ => { have = constant("mid"); have.push(g.clone()); have.extend(constant(name)); }
        }
        let mut s = session();
        s.attribute = have.clone();
        top(&s, &have, &g);
        let mut m = section(if choice(2) == 0 { 0 } else { 9 });
        let mut mine = vec![];
        for a in &have {
            if a.allowed_at_media_level() {
                check(m.add_attribute(a.clone()).is_ok(), "a media attribute is rejected");
                mine.push(a.clone());
            }
        }
        media(&m, &mine, &g);
        cover(name);
    }
    fn h_c17_repeated() {
        // one type over and over, between others, in a section and in a session
        let name = kind();
        let g = gen(name, false).exp;
        let n = [4usize, 16, 17, 33, 70, 130][choice(6) as usize];
        let mut have = vec![];
        for i in 0..n {
            if i == n / 2 {
                have.push(g.clone());
            }
            have.extend(constant(name));
            if i % 5 == 0 && name != "mid" {
                have.extend(constant("mid"));
            }
        }
        let mut s = session();
        s.attribute = have.clone();
        top(&s, &have, &g);
        let mut m = section(9);
        let mut mine = vec![];
        for a in &have {
            if a.allowed_at_media_level() {
                check(m.add_attribute(a.clone()).is_ok(), "a media attribute is rejected");
                mine.push(a.clone());
            }
        }
        media(&m, &mine, &g);
        cover(name);
    }
    fn h_c17_parsed() {
        // lookups in a parsed description: two sections, the attribute in none, one or both
        let name = kind();
        let (top_ok, media_ok) = levels(name);
        let simulcast = name == "simulcast";
        let mut t = HEAD.to_string() + "c=IN IP4 1.2.3.4\r\n";
        let (mut at_top, mut at) = (vec![], [vec![], vec![]]);
        let place = choice(8);
        if place & 1 == 1 && top_ok {
            let g = gen(name, false);
            t += &line(&g.canon);
            at_top.push(g.exp);
        }
        for i in 0..2 {
            t += "m=video 9 RTP/AVP 96\r\n";
            if (place >> (1 + i)) & 1 == 1 && media_ok {
                for _ in 0..1 + choice(2) {
                    let g = gen(name, false);
                    // consistency rules of whole descriptions
                    if simulcast || name == "rtcp-mux-only" || name == "rid" || (name == "extmap" && !at_top.is_empty()) {
                        continue;
                    }
                    t += &line(&g.canon);
                    at[i].push(g.exp);
                }
            }
            t += "a=ptime:3\r\n";
            at[i].push(SdpAttribute::Ptime(3));
        }
        let like = &constant(name)[0];
        match ps(&t, true) {
            None => check(false, "a good description is rejected"),
            Some(s) => {
                top(&s, &at_top, like);
                check(s.media.len() == 2, "the number of sections differs");
                for i in 0..2 {
                    media(&s.media[i], &at[i], like);
                }
                cover(name);
            }
        }
    }
}
