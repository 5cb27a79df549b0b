//! C16: editing a session or a media section through its interface changes exactly what the
//! operation says; checked against a reference model over every sequence of operations.
use super::gen::*;
use super::lines::*;
use super::sym::*;
use super::util::*;
use std::net::{IpAddr, Ipv4Addr};
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

fn any16() -> u16 {
    byte(255) as u16 * 256 + byte(255) as u16
}
fn any32() -> u32 {
    any16() as u32 * 65536 + any16() as u32
}
fn ip() -> ExplicitlyTypedAddress {
    ExplicitlyTypedAddress::Ip(IpAddr::V4(Ipv4Addr::new(10, byte(255), 0, byte(255))))
}
fn connection() -> SdpConnection {
    SdpConnection { address: ip(), ttl: Some(byte(255)), amount: Some(any32()) }
}
fn bandwidth(k: u32) -> SdpBandwidth {
    match k {
        0 => SdpBandwidth::As(any32()),
        1 => SdpBandwidth::Ct(any32()),
        2 => SdpBandwidth::Tias(any32()),
        _ => SdpBandwidth::Unknown(tok(1, &[]), any32()),
    }
}
fn rtpmap() -> SdpAttributeRtpmap {
    SdpAttributeRtpmap { payload_type: byte(127), codec_name: lower(2), frequency: any32(), channels: if choice(2) == 0 { None } else { Some(any32()) } }
}
fn plain_rtpmap() -> SdpAttributeRtpmap {
    SdpAttributeRtpmap { payload_type: byte(127), codec_name: lower(1), frequency: 90000, channels: None }
}
fn plain_rtpmap0() -> SdpAttributeRtpmap {
    SdpAttributeRtpmap { payload_type: 7, codec_name: "c".to_string(), frequency: 9, channels: None }
}
/// attributes the operations treat differently, and neighbours of theirs
const FEW: u32 = 8;
fn few(k: u32) -> SdpAttribute {
    use SdpAttribute::*;
    match k {
        0 => Rtpmap(plain_rtpmap()),
        1 => Mid(lower(1)),
        2 => SctpPort(any16() as u64),
        3 => MaxMessageSize(any32() as u64),
        4 => Sendrecv,
        5 => Sctpmap(SdpAttributeSctpmap { port: any16(), channels: byte(255) as u32 }),
        6 => Rtcpfb(SdpAttributeRtcpFb {
            payload_type: SdpAttributePayloadType::PayloadType(byte(255)),
            feedback_type: SdpAttributeRtcpFbType::Nack,
            parameter: lower(1),
            extra: String::new(),
        }),
        _ => Group(SdpAttributeGroup { semantics: SdpAttributeGroupSemantic::Bundle, tags: vec![lower(1)] }),
    }
}
/// what a media section must hold
struct M {
    line: SdpMediaLine,
    conn: Option<SdpConnection>,
    bw: Vec<SdpBandwidth>,
    at: Vec<SdpAttribute>,
}
fn start() -> (SdpMedia, M) {
    let app = choice(3);
    let line = || SdpMediaLine {
        media: if app == 0 { SdpMediaValue::Video } else { SdpMediaValue::Application },
        port: 9,
        port_count: 2,
        proto: match app {
            0 => SdpProtocolValue::RtpSavpf,
            1 => SdpProtocolValue::UdpDtlsSctp,
            _ => SdpProtocolValue::DtlsSctp,
        },
        formats: if app == 1 { SdpFormatList::Strings(vec!["x".to_string()]) } else { SdpFormatList::Integers(vec![96, 97]) },
    };
    (SdpMedia::new(line()), M { line: line(), conn: None, bw: vec![], at: vec![] })
}
fn same(m: &SdpMedia, r: &M) {
    check(d_eq(m.get_type(), &r.line.media), "the media type differs");
    check(m.get_port() == r.line.port, "the port differs");
    check(m.get_port_count() == r.line.port_count, "the port count differs");
    check(d_eq(m.get_proto(), &r.line.proto), "the protocol differs");
    check(fmts_eq(m.get_formats(), &r.line.formats), "the formats differ");
    check(o_eq(m.get_connection(), &r.conn, conn_eq), "the connection differs");
    check(v_eq(m.get_bandwidth(), &r.bw, bw_eq), "the bandwidths differ");
    check(v_eq(m.get_attributes(), &r.at, attr_eq), "the attributes differ");
}
fn t(a: &SdpAttribute) -> std::mem::Discriminant<SdpAttribute> {
    std::mem::discriminant(a)
}
fn remove(r: &mut Vec<SdpAttribute>, a: &SdpAttribute) {
    let mut v = vec![];
    for x in r.drain(..) {
        if t(&x) != t(a) {
            v.push(x);
        }
    }
    *r = v;
}
fn codec(a: &SdpAttribute) -> bool {
    use SdpAttribute::*;
    matches!(a, Rtpmap(_) | Fmtp(_) | Rtcpfb(_) | Sctpmap(_) | SctpPort(_))
}
fn remove_codecs(m: &mut SdpMedia, r: &mut M) {
    m.remove_codecs();
    r.line.formats = match r.line.formats {
        SdpFormatList::Integers(_) => SdpFormatList::Integers(vec![]),
        SdpFormatList::Strings(_) => SdpFormatList::Strings(vec![]),
    };
    let mut v = vec![];
    for x in r.at.drain(..) {
        if !codec(&x) {
            v.push(x);
        }
    }
    r.at = v;
}
fn add(m: &mut SdpMedia, r: &mut M, a: SdpAttribute) {
    let ok = !matches!(a, SdpAttribute::Group(_));
    check(m.add_attribute(a.clone()).is_ok() == ok, "add_attribute accepts another set of types");
    if ok {
        r.at.push(a);
    }
}
fn set(m: &mut SdpMedia, r: &mut M, a: SdpAttribute) {
    let ok = !matches!(a, SdpAttribute::Group(_));
    check(m.set_attribute(a.clone()).is_ok() == ok, "set_attribute accepts another set of types");
    if ok {
        remove(&mut r.at, &a);
        r.at.push(a);
    }
}
fn dec(v: u8) -> String {
    let mut s = vec![];
    if v >= 100 {
        s.push(b'0' + v / 100);
    }
    if v >= 10 {
        s.push(b'0' + v / 10 % 10);
    }
    s.push(b'0' + v % 10);
    st(s)
}
fn add_codec(m: &mut SdpMedia, r: &mut M, c: SdpAttributeRtpmap) {
    check(m.add_codec(c.clone()).is_ok(), "add_codec fails");
    match &mut r.line.formats {
        SdpFormatList::Integers(v) => v.push(c.payload_type as u32),
        SdpFormatList::Strings(v) => v.push(dec(c.payload_type)),
    }
    r.at.push(SdpAttribute::Rtpmap(c));
}
fn add_datachannel(m: &mut SdpMedia, r: &mut M, size: u32) {
    let name = lower(2);
    let (port, streams) = (any16(), any16());
    check(m.add_datachannel(name.clone(), port, streams, size).is_ok(), "add_datachannel fails");
    let a = match r.line.proto {
        SdpProtocolValue::UdpDtlsSctp | SdpProtocolValue::TcpDtlsSctp => {
            r.line.formats = SdpFormatList::Strings(vec![name]);
            SdpAttribute::SctpPort(port as u64)
        }
        _ => {
            r.line.formats = SdpFormatList::Integers(vec![port as u32]);
            SdpAttribute::Sctpmap(SdpAttributeSctpmap { port, channels: streams as u32 })
        }
    };
    remove(&mut r.at, &a);
    r.at.push(a);
    if size > 0 {
        let a = SdpAttribute::MaxMessageSize(size as u64);
        remove(&mut r.at, &a);
        r.at.push(a);
    }
    r.line.media = SdpMediaValue::Application;
}
fn ty(k: u32) -> SdpAttributeType {
    use SdpAttributeType::*;
    [Rtpmap, Mid, SctpPort, MaxMessageSize, Sendrecv, Sctpmap, Rtcpfb, Group][k as usize].clone()
}
fn step(m: &mut SdpMedia, r: &mut M) {
    let k = choice(FEW * 3 + 8);
    match k {
        0..=7 => add(m, r, few(k)),
        8..=15 => set(m, r, few(k - 8)),
        16..=23 => {
            m.remove_attribute(ty(k - 16));
            remove(&mut r.at, &few(k - 16));
        }
        24 => remove_codecs(m, r),
        25 => add_codec(m, r, plain_rtpmap()),
        26 => add_datachannel(m, r, 0),
        27 => add_datachannel(m, r, 65536),
        28 => {
            let p = any32();
            m.set_port(p);
            r.line.port = p;
        }
        29 => {
            let c = connection();
            m.set_connection(c.clone());
            r.conn = Some(c);
        }
        30 => {
            let b = bandwidth(0);
            m.add_bandwidth(b.clone());
            r.bw.push(b);
        }
        _ => {
            // a clone is independent of the original
            let mut c = m.clone();
            c.set_port(1);
            c.remove_codecs();
            c.add_bandwidth(SdpBandwidth::As(1));
            check(c.add_attribute(SdpAttribute::RtcpMux).is_ok(), "rtcp-mux is rejected");
        }
    }
}
/// every kind of media attribute once or twice, with fixed values, in two orders, and one more
/// of the kind in focus with arbitrary values
fn all_kinds(m: &mut SdpMedia, r: &mut M, focus: &'static str) {
    let mut v = vec![];
    for (i, s) in super::mutate::ATTRS.iter().enumerate() {
        let a: SdpAttribute = match s.parse() {
            Ok(a) => a,
            Err(_) => {
                check(false, "a well-formed attribute is rejected");
                continue;
            }
        };
        if levels(s.split(':').next().unwrap_or("")).1 {
            v.push((i, a));
        }
    }
    match choice(3) {
        0 => {}
        1 => v.reverse(),
        _ => {
            let w = v.clone();
            v.extend(w);
        }
    }
    let at = [0, v.len() / 2, v.len()][choice(3) as usize];
    if levels(focus).1 {
        v.insert(at, (0, concrete(focus)));
    }
    for (_, a) in v {
        check(m.add_attribute(a.clone()).is_ok(), "a media attribute is rejected");
        r.at.push(a);
    }
}
fn concrete(name: &'static str) -> SdpAttribute {
    gen(name, false).exp
}
harnesses! {
    fn h_c16_many() {
        // operations on sections that hold much
        let n = many();
        let (mut m, mut r) = start();
        for i in 0..n {
            let a = if i % 3 == 2 { SdpAttribute::Sendrecv } else if i % 3 == 1 { SdpAttribute::Mid("x".to_string()) } else { SdpAttribute::Rtpmap(SdpAttributeRtpmap { payload_type: 7, codec_name: "c".to_string(), frequency: 9, channels: None }) };
            add(&mut m, &mut r, a);
        }
        for _ in 0..n % 40 {
            let b = SdpBandwidth::As(5);
            r.bw.push(b.clone());
            m.add_bandwidth(b);
        }
        match choice(6) {
            0 => remove_codecs(&mut m, &mut r),
            1 => set(&mut m, &mut r, few(1)),
            2 => for _ in 0..n { add_codec(&mut m, &mut r, plain_rtpmap0()) },
            3 => add_datachannel(&mut m, &mut r, 5),
            4 => {
                m.remove_attribute(SdpAttributeType::Mid);
                remove(&mut r.at, &few(1));
            }
            _ => add(&mut m, &mut r, few(1)),
        }
        add(&mut m, &mut r, few(1));
        same(&m, &r);
        cover("much");
    }
    fn h_c16_media_history() {
        let (mut m, mut r) = start();
        let n = if deep() { 4 } else { 3 };
        for _ in 0..n {
            step(&mut m, &mut r);
        }
        same(&m, &r);
        cover("history");
    }
    fn h_c16_media_long() {
        // a section with everything twice, then two operations
        let (mut m, mut r) = start();
        for i in 0..2 {
            for k in 0..FEW - 1 {
                if i == 0 || k % 2 == 0 {
                    add(&mut m, &mut r, few(k));
                }
            }
        }
        step(&mut m, &mut r);
        same(&m, &r);
        step(&mut m, &mut r);
        same(&m, &r);
        cover("long section");
    }
    fn h_c16_remove_codecs() {
        let (mut m, mut r) = start();
        all_kinds(&mut m, &mut r, KINDS[choice(KINDS.len() as u32) as usize]);
        remove_codecs(&mut m, &mut r);
        same(&m, &r);
        cover("codecs removed");
    }
    fn h_c16_remove_kind() {
        // every type: removes all attributes of the type and nothing else
        let (mut m, mut r) = start();
        let name = KINDS[choice(KINDS.len() as u32) as usize];
        all_kinds(&mut m, &mut r, name);
        m.remove_attribute(type_of(name));
        remove(&mut r.at, &concrete(name));
        same(&m, &r);
        cover(name);
    }
    fn h_c16_set_kind() {
        // every type: the new attribute replaces all of its type and stands at the end
        let (mut m, mut r) = start();
        let name = KINDS[choice(KINDS.len() as u32) as usize];
        all_kinds(&mut m, &mut r, name);
        let a = concrete(name);
        let ok = levels(name).1;
        check(m.set_attribute(a.clone()).is_ok() == ok, "set_attribute accepts another set of types");
        if ok {
            remove(&mut r.at, &a);
            r.at.push(a);
        }
        same(&m, &r);
        cover(name);
    }
    fn h_c16_codecs() {
        let (mut m, mut r) = start();
        if choice(2) == 1 { remove_codecs(&mut m, &mut r); }
        for _ in 0..choice(4) {
            add_codec(&mut m, &mut r, rtpmap());
        }
        same(&m, &r);
        if choice(2) == 1 { remove_codecs(&mut m, &mut r); same(&m, &r); }
        cover("codecs");
    }
    fn h_c16_datachannel() {
        // every protocol and message size
        let line = |p| SdpMediaLine {
            media: match p % 3 { 0 => SdpMediaValue::Audio, 1 => SdpMediaValue::Video, _ => SdpMediaValue::Application },
            port: 5, port_count: 0, proto: proto(p).1, formats: SdpFormatList::Integers(vec![0, 8]) };
        let p = choice(11);
        let mut m = SdpMedia::new(line(p));
        let mut r = M { line: line(p), conn: None, bw: vec![], at: vec![] };
        let size = any32();
        if choice(2) == 1 {
            for k in 0..FEW - 1 { add(&mut m, &mut r, few(k)); }
        }
        add_datachannel(&mut m, &mut r, size);
        same(&m, &r);
        if choice(2) == 1 {
            add_datachannel(&mut m, &mut r, 0);
            same(&m, &r);
        }
        cover("data channel");
    }
    fn h_c16_session_history() {
        let addr = ip();
        let (id, ver) = (any32() as u64, any32() as u64 * 65537);
        let name = pick(&["x", "", " ", " a b ", "-"]);
        let user = lower(1);
        let mut s = SdpSession::new(0, SdpOrigin { username: user.clone(), session_id: id, session_version: ver, unicast_addr: addr.clone() }, name.to_string());
        let mut conn: Option<SdpConnection> = None;
        let mut bw = vec![];
        let mut timing: Option<SdpTiming> = None;
        let mut at: Vec<SdpAttribute> = vec![];
        let mut media: Vec<M> = vec![];
        let n = if deep() { 5 } else { 4 };
        for _ in 0..n {
            match choice(8) {
                0 => {
                    let c = connection();
                    s.set_connection(c.clone());
                    conn = Some(c);
                }
                1 => {
                    let b = bandwidth(2);
                    s.add_bandwidth(b.clone());
                    bw.push(b);
                }
                2 => {
                    let (start, stop) = (any32() as u64, any32() as u64);
                    s.set_timing(SdpTiming { start, stop });
                    timing = Some(SdpTiming { start, stop });
                }
                3 => {
                    let a = few(7);
                    check(s.add_attribute(a.clone()).is_ok(), "a session attribute is rejected");
                    at.push(a);
                }
                4 => check(s.add_attribute(few(1)).is_err(), "a media attribute is accepted"),
                5 => {
                    let a = few(4);
                    let port = any32();
                    let c = ip();
                    check(s.add_media(SdpMediaValue::Audio, a.clone(), port, SdpProtocolValue::RtpSavp, c.clone()).is_ok(), "add_media fails");
                    media.push(M {
                        line: SdpMediaLine { media: SdpMediaValue::Audio, port, port_count: 1, proto: SdpProtocolValue::RtpSavp, formats: SdpFormatList::Integers(vec![]) },
                        conn: Some(SdpConnection { address: c, ttl: None, amount: None }), bw: vec![], at: vec![a] });
                }
                6 => check(s.add_media(SdpMediaValue::Audio, few(7), 9, SdpProtocolValue::RtpSavp, ip()).is_err(), "add_media takes a session attribute"),
                _ => {
                    let (mut v, mut w) = (vec![], vec![]);
                    for i in 0..2u32 {
                        let line = || SdpMediaLine { media: SdpMediaValue::Video, port: 7 + i, port_count: 0, proto: SdpProtocolValue::RtpAvp, formats: SdpFormatList::Integers(vec![96 + i]) };
                        v.push(SdpMedia::new(line()));
                        w.push(M { line: line(), conn: None, bw: vec![], at: vec![] });
                    }
                    s.extend_media(v);
                    media.extend(w);
                }
            }
        }
        check(s.get_version() == 0 && s.version == 0, "the version differs");
        let o = s.get_origin();
        check(s_eq(&o.username, &user) && o.session_id == id && o.session_version == ver && eaddr_eq(&o.unicast_addr, &addr), "the origin differs");
        let want = match name { "x" => Some("x"), " a b " => Some("a b"), "-" => Some("-"), _ => None };
        check(match (s.get_session(), want) { (None, None) => true, (Some(a), Some(b)) => s_eq(a, b), _ => false }, "the session name differs");
        check(s_eq(s.get_session_text(), want.unwrap_or(" ")), "the printed session name differs");
        check(o_eq(s.get_connection(), &conn, conn_eq), "the session connection differs");
        check(v_eq(&s.bandwidth, &bw, bw_eq), "the session bandwidths differ");
        check(o_eq(&s.timing, &timing, |a, b| a.start == b.start && a.stop == b.stop), "the timing differs");
        check(v_eq(&s.attribute, &at, attr_eq), "the session attributes differ");
        check(s.media.len() == media.len(), "the number of sections differs");
        for i in 0..media.len() {
            same(&s.media[i], &media[i]);
        }
        cover("session history");
    }
    fn h_c16_bandwidth_kinds() {
        let (mut m, mut r) = start();
        for _ in 0..3 {
            let b = bandwidth(choice(4));
            m.add_bandwidth(b.clone());
            r.bw.push(b);
        }
        same(&m, &r);
        cover("bandwidths");
    }
}
