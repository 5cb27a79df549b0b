//! C25: the serialized form (feature "serialize").
use super::gen::*;
use super::lines::*;
use super::sym::*;
use super::util::*;
use serde::ser::*;
use std::fmt::Display;
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

/// A self-delimiting format: numbers of fixed width, texts with their length, names in front
struct W(Vec<u8>, bool, Vec<Fields>, Vec<Fields>);
/// the name of a struct (or variant) and the names of its fields
type Fields = (&'static str, Vec<&'static str>);
#[derive(Debug)]
struct E;
impl Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: Display>(_: T) -> E {
        E
    }
}
type R = Result<(), E>;
impl W {
    fn n(&mut self, t: u8, v: u64) -> R {
        self.0.push(t);
        self.0.extend_from_slice(&v.to_be_bytes());
        Ok(())
    }
    fn s(&mut self, t: u8, s: &str) -> R {
        self.0.push(t);
        self.0.push(s.len() as u8);
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
    fn o(&mut self, t: u8) -> R {
        self.0.push(t);
        Ok(())
    }
}
impl<'a> Serializer for &'a mut W {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    fn is_human_readable(&self) -> bool {
        self.1
    }
    fn serialize_bool(self, v: bool) -> R {
        self.n(b'b', v as u64)
    }
    fn serialize_i8(self, v: i8) -> R {
        self.n(b'i', v as u64)
    }
    fn serialize_i16(self, v: i16) -> R {
        self.n(b'i', v as u64)
    }
    fn serialize_i32(self, v: i32) -> R {
        self.n(b'i', v as u64)
    }
    fn serialize_i64(self, v: i64) -> R {
        self.n(b'i', v as u64)
    }
    fn serialize_u8(self, v: u8) -> R {
        self.n(b'u', v as u64)
    }
    fn serialize_u16(self, v: u16) -> R {
        self.n(b'u', v as u64)
    }
    fn serialize_u32(self, v: u32) -> R {
        self.n(b'u', v as u64)
    }
    fn serialize_u64(self, v: u64) -> R {
        self.n(b'u', v)
    }
    fn serialize_f32(self, v: f32) -> R {
        self.n(b'f', v.to_bits() as u64)
    }
    fn serialize_f64(self, v: f64) -> R {
        self.n(b'd', v.to_bits())
    }
    fn serialize_char(self, v: char) -> R {
        self.n(b'c', v as u64)
    }
    fn serialize_str(self, v: &str) -> R {
        self.s(b's', v)
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.o(b'y')?;
        self.0.push(v.len() as u8);
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> R {
        self.o(b'0')
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        self.o(b'1')?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        self.o(b'U')
    }
    fn serialize_unit_struct(self, n: &'static str) -> R {
        self.s(b'S', n)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R {
        self.s(b'V', v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R {
        self.s(b'N', n)?;
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, E> {
        self.o(b'[')?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        self.o(b'(')?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Self, E> {
        self.s(b'(', n)?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, E> {
        self.s(b'(', n)?;
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, E> {
        self.o(b'{')?;
        Ok(self)
    }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<Self, E> {
        self.s(b'{', n)?;
        self.2.push((n, vec![]));
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, E> {
        self.s(b'{', n)?;
        self.2.push((n, vec![]));
        Ok(self)
    }
}
macro_rules! seq {
    ($t:ident, $f:ident) => {
        impl<'a> $t for &'a mut W {
            type Ok = ();
            type Error = E;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
                self.o(b',')?;
                v.serialize(&mut **self)
            }
            fn end(self) -> R {
                self.o(b'.')
            }
        }
    };
}
macro_rules! fields {
    ($t:ident) => {
        impl<'a> $t for &'a mut W {
            type Ok = ();
            type Error = E;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> R {
                self.s(b'=', n)?;
                if let Some(open) = self.2.last_mut() {
                    open.1.push(n);
                }
                v.serialize(&mut **self)
            }
            fn end(self) -> R {
                if let Some(open) = self.2.pop() {
                    self.3.push(open);
                }
                self.o(b'.')
            }
        }
    };
}
seq!(SerializeSeq, serialize_element);
seq!(SerializeTuple, serialize_element);
seq!(SerializeTupleStruct, serialize_field);
seq!(SerializeTupleVariant, serialize_field);
fields!(SerializeStruct);
fields!(SerializeStructVariant);
impl<'a> SerializeMap for &'a mut W {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.o(b',')?;
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        self.o(b'.')
    }
}
fn ser<T: Serialize>(t: &T, human: bool) -> Vec<u8> {
    let mut w = W(Vec::with_capacity(512), human, vec![], vec![]);
    check(t.serialize(&mut w).is_ok(), "a value cannot be serialized");
    w.0
}
/// the structs of a serialized value with their fields
fn fields<T: Serialize>(t: &T, human: bool) -> Vec<Fields> {
    let mut w = W(Vec::with_capacity(512), human, vec![], vec![]);
    check(t.serialize(&mut w).is_ok(), "a value cannot be serialized");
    w.3
}
/// every struct that both have has the same fields in both
fn same_fields(a: &[Fields], b: &[Fields]) {
    for (n, x) in a {
        for (m, y) in b {
            if n == m {
                check(x == y, "the fields of a struct depend on its contents");
                cover("fields");
            }
        }
    }
}
fn compare(eq: bool, a: &[u8], b: &[u8]) {
    if b_eq(a, b) {
        check(eq, "different values have the same serialized form");
        cover("same");
    } else {
        check(!eq, "equal values have different serialized forms");
        cover("different");
    }
}
fn field(n: &str, v: &str) -> Vec<u8> {
    let mut w = W(vec![], true, vec![], vec![]);
    let _ = w.s(b'=', n);
    let _ = w.s(b's', v);
    w.0
}
fn has(h: &[u8], n: &[u8]) -> bool {
    let mut r = false;
    if n.len() <= h.len() {
        for i in 0..=h.len() - n.len() {
            r |= h[i..i + n.len()] == *n;
        }
    }
    r
}
fn addr(i: u32) -> ExplicitlyTypedAddress {
    match i {
        0 => ExplicitlyTypedAddress::Ip(std::net::IpAddr::V4(std::net::Ipv4Addr::new(byte(255), 1, 1, byte(255)))),
        1 => ExplicitlyTypedAddress::Ip(std::net::IpAddr::V6(std::net::Ipv6Addr::new(1, 0, 0, byte(255) as u16, 0, 0, 0, byte(255) as u16))),
        2 => ExplicitlyTypedAddress::Fqdn { address_type: AddressType::IpV4, domain: lower(1) },
        _ => ExplicitlyTypedAddress::Fqdn { address_type: AddressType::IpV6, domain: lower(1) },
    }
}
/// a session that differs in one part
fn session(p: u32, v: u32) -> SdpSession {
    let o = SdpOrigin { username: "-".to_string(), session_id: 1, session_version: 1, unicast_addr: addr2() };
    let mut s = SdpSession::new(if p == 0 { byte(255) as u64 } else { 0 }, o, "n".to_string());
    s.set_timing(SdpTiming { start: 1, stop: 1 });
    let w = |x: u8| if p != 20 { x as u32 } else { 0 };
    match p {
        1 => s.origin.username = tok(1 + v as usize, &[]),
        2 => s.origin.session_id = (byte(255) as u64) << (v % 2 * 56),
        3 => s.origin.session_version = (byte(255) as u64) << (v % 2 * 56),
        4 => s.origin.unicast_addr = addr(v % 4),
        5 => s.session = if v == 0 { None } else { Some(tok(1, &[])) },
        6 => s.connection = if v == 0 { None } else { Some(SdpConnection { address: addr(v % 4), ttl: None, amount: None }) },
        7 => s.connection = Some(SdpConnection { address: addr2(), ttl: if v == 0 { None } else { Some(byte(255)) }, amount: if v < 2 { None } else { Some(w(byte(255)) << 24) } }),
        8 => for i in 0..v {
            let x = w(byte(255));
            s.add_bandwidth(match i { 0 => SdpBandwidth::As(x), 1 => SdpBandwidth::Ct(x), _ => SdpBandwidth::Tias(x) });
        },
        9 => s.add_bandwidth(match v { 0 => SdpBandwidth::As(5), 1 => SdpBandwidth::Ct(5), 2 => SdpBandwidth::Tias(5), _ => SdpBandwidth::Unknown(tok(1, &[]), 5) }),
        10 => s.timing = match v { 0 => None, 1 => Some(SdpTiming { start: byte(255) as u64, stop: 1 }), 2 => Some(SdpTiming { start: 1, stop: byte(255) as u64 }), _ => Some(SdpTiming { start: (byte(255) as u64) << 56, stop: 1 }) },
        11 => for _ in 0..v {
            let _ = s.add_attribute(SdpAttribute::IceUfrag(tok(1, &[])));
        },
        12 => for _ in 0..v {
            s.media.push(SdpMedia::new(mlined(4, 0)));
        },
        13 => s.media.push(SdpMedia::new(mlined(0, v))),
        14 => s.media.push(SdpMedia::new(mlined(1, v))),
        15 => s.media.push(SdpMedia::new(mlined(2, v))),
        16 => s.media.push(SdpMedia::new(mlined(3, v))),
        17 => {
            let mut m = SdpMedia::new(mlined(9, 0));
            if v > 0 {
                m.set_connection(SdpConnection { address: addr(v % 4), ttl: None, amount: None });
            }
            s.media.push(m);
        }
        18 => {
            let mut m = SdpMedia::new(mlined(9, 0));
            for _ in 0..v {
                m.add_bandwidth(SdpBandwidth::As(w(byte(255))));
            }
            s.media.push(m);
        }
        _ => {
            let mut m = SdpMedia::new(mlined(9, 0));
            for _ in 0..v {
                let _ = m.add_attribute(SdpAttribute::Mid(tok(1, &[])));
            }
            s.media.push(m);
        }
    }
    s
}
fn addr2() -> ExplicitlyTypedAddress {
    ExplicitlyTypedAddress::Ip(std::net::IpAddr::V4(std::net::Ipv4Addr::new(1, 2, 3, 4)))
}
fn mlined(p: u32, v: u32) -> SdpMediaLine {
    let mut m = SdpMediaLine { media: SdpMediaValue::Audio, port: 9, port_count: 0, proto: SdpProtocolValue::RtpAvp, formats: SdpFormatList::Integers(vec![0]) };
    match p {
        0 => m.media = [SdpMediaValue::Audio, SdpMediaValue::Video, SdpMediaValue::Application][v as usize % 3].clone(),
        1 => m.port = byte(255) as u32 * if v == 0 { 1 } else { 257 },
        2 => m.port_count = (byte(255) as u32) << (v * 8),
        3 => m.formats = match v {
            0 => SdpFormatList::Integers(vec![]),
            1 => SdpFormatList::Integers(vec![byte(255) as u32, byte(255) as u32]),
            2 => SdpFormatList::Strings(vec![]),
            _ => SdpFormatList::Strings(vec![tok(1, &[]), tok(1, &[])]),
        },
        4 => m.port = byte(255) as u32,
        _ => (),
    }
    m
}
/// values that differ in one part only (# an arbitrary digit, the same in all)
const PARTS: &[&[&str]] = &[
    &["ssrc-group:FID #", "ssrc-group:DUP #", "ssrc-group:FEC #", "ssrc-group:FEC-FR #", "ssrc-group:SIM #", "ssrc-group:FID # #"],
    &["group:LS #", "group:FID #", "group:SRF #", "group:ANAT #", "group:FEC #", "group:DDP #", "group:BUNDLE #", "group:BUNDLE # #", "group:BUNDLE"],
    &["setup:active", "setup:passive", "setup:actpass", "setup:holdconn"],
    &["sendrecv", "sendonly", "recvonly", "inactive", "end-of-candidates", "bundle-only", "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "ice-lite", "extmap-allow-mixed"],
    &["dtls-message:client #", "dtls-message:server #", "dtls-message:client ##"],
    &["extmap:# u", "extmap:#/sendrecv u", "extmap:#/sendonly u", "extmap:#/recvonly u", "extmap:# u x", "extmap:# u x y", "extmap:# v"],
    &["candidate:1 1 udp # 1.1.1.1 9 typ host", "candidate:1 1 tcp # 1.1.1.1 9 typ host", "candidate:1 1 udp # 1.1.1.1 9 typ srflx", "candidate:1 1 udp # 1.1.1.1 9 typ prflx", "candidate:1 1 udp # 1.1.1.1 9 typ relay",
      "candidate:1 1 udp # 1.1.1.1 9 typ host raddr 1.1.1.1", "candidate:1 1 udp # 1.1.1.1 9 typ host rport #", "candidate:1 1 udp # 1.1.1.1 9 typ host tcptype active", "candidate:1 1 udp # 1.1.1.1 9 typ host tcptype passive",
      "candidate:1 1 udp # 1.1.1.1 9 typ host tcptype so", "candidate:1 1 udp # 1.1.1.1 9 typ host generation #", "candidate:1 1 udp # 1.1.1.1 9 typ host generation 0", "candidate:1 1 udp # 1.1.1.1 9 typ host ufrag #", "candidate:1 1 udp # 1.1.1.1 9 typ host network-cost #",
      "candidate:1 1 udp # 1.1.1.1 9 typ host x #", "candidate:1 1 udp # 1.1.1.1 9 typ host y #", "candidate:1 1 udp # 1.1.1.1 9 typ host x # y #", "candidate:1 2 udp # 1.1.1.1 9 typ host", "candidate:2 1 udp # 1.1.1.1 9 typ host", "candidate:1 1 udp # 1.1.1.1 8 typ host", "candidate:1 1 udp # 1.1.1.2 9 typ host", "candidate:1 1 udp # x 9 typ host"],
    &["rid:# send", "rid:# recv", "rid:# send pt=1", "rid:# send pt=1,2", "rid:# send max-width=1", "rid:# send max-height=1", "rid:# send max-fps=1", "rid:# send max-fs=1", "rid:# send max-br=1", "rid:# send max-pps=1", "rid:# send depend=1", "rid:# send depend=1,2", "rid:# send x=1", "rid:# send x=1;y=1"],
    &["simulcast:send #", "simulcast:recv #", "simulcast:send ~#", "simulcast:send #,1", "simulcast:send #,~1", "simulcast:send #;1", "simulcast:send # recv #", "simulcast:send # recv ~#"],
    &["imageattr:* send [x=#,y=5]", "imageattr:1 send [x=#,y=5]", "imageattr:* recv [x=#,y=5]", "imageattr:* send *", "imageattr:* recv *", "imageattr:* send [x=#,y=5] recv *", "imageattr:* send [x=#,y=5] recv [x=#,y=5]", "imageattr:* send [x=#,y=5] [x=#,y=5]",
      "imageattr:* send [x=#,y=5,sar=1.5]", "imageattr:* send [x=#,y=5,sar=2.5]", "imageattr:* send [x=#,y=5,sar=[1.5,2.5]]", "imageattr:* send [x=#,y=5,sar=[1.5-2.5]]", "imageattr:* send [x=#,y=5,par=[1.5-2.5]]", "imageattr:* send [x=#,y=5,par=[1.5-3.5]]", "imageattr:* send [x=#,y=5,par=[1.0-2.5]]", "imageattr:* send [x=#,y=5,q=0.25]", "imageattr:* send [x=#,y=5,q=0.5]",
      "imageattr:* send [x=[#,99],y=5]", "imageattr:* send [x=[#:99],y=5]", "imageattr:* send [x=[#:1:99],y=5]", "imageattr:* send [x=[#:2:99],y=5]", "imageattr:* send [x=#,y=[5,99]]", "imageattr:* send [x=#,y=[5:99]]"],
    &["msid:a#", "msid:b#", "msid:a# b", "msid:a# c", "msid-semantic:a#", "msid-semantic:a# b", "msid-semantic:a# b c"],
    &["ssrc:#", "ssrc:# a", "ssrc:# b", "ssrc:# a:1", "ssrc:# a:2", "ssrc:# b:1"],
    &["rtpmap:0 a/#", "rtpmap:0 b/#", "rtpmap:1 a/#", "rtpmap:0 a/#/2", "rtpmap:0 a/#/3"],
    &["rtcp:9#", "rtcp:9# IN IP4 1.1.1.1", "rtcp:9# IN IP6 ::1", "rtcp:9# IN IP4 x", "rtcp:9# IN IP6 x"],
    &["rtcp-fb:# ack rpsi", "rtcp-fb:# ack app", "rtcp-fb:# ack app x", "rtcp-fb:# nack", "rtcp-fb:# nack sli", "rtcp-fb:# nack pli", "rtcp-fb:# nack rpsi", "rtcp-fb:# nack app", "rtcp-fb:# nack app x", "rtcp-fb:# ccm fir", "rtcp-fb:# ccm tmmbr", "rtcp-fb:# ccm tmmbr x", "rtcp-fb:# ccm tstr", "rtcp-fb:# ccm vbcm", "rtcp-fb:# trr-int 1", "rtcp-fb:# trr-int 2", "rtcp-fb:# goog-remb", "rtcp-fb:# transport-cc", "rtcp-fb:* nack"],
    &["sctpmap:# webrtc-datachannel 1", "sctpmap:# webrtc-datachannel 2", "remote-candidates:# 1.1.1.1 1", "remote-candidates:# 1.1.1.1 2", "remote-candidates:# 1.1.1.2 1", "remote-candidates:# x 1"],
    &["fmtp:0 max-fs=#", "fmtp:0 max-cpb=#", "fmtp:0 max-dpb=#", "fmtp:0 max-br=#", "fmtp:0 max-mbps=#", "fmtp:0 max-fr=#", "fmtp:0 packetization-mode=1", "fmtp:0 level-asymmetry-allowed=1", "fmtp:0 profile-level-id=42000#", "fmtp:0 maxplaybackrate=#", "fmtp:0 maxaveragebitrate=#", "fmtp:0 stereo=1", "fmtp:0 useinbandfec=1", "fmtp:0 usedtx=1", "fmtp:0 cbr=1", "fmtp:0 ptime=#", "fmtp:0 minptime=#", "fmtp:0 maxptime=#", "fmtp:0 apt=#", "fmtp:0 profile=1", "fmtp:0 level-idx=#", "fmtp:0 tier=1", "fmtp:0 apt=1;rtx-time=#", "fmtp:0 x=#", "fmtp:0 0-1#", "fmtp:0 #/1", "fmtp:0 max-fs=#;x=1", "fmtp:1 max-fs=#"],
    &["mid:#", "ice-ufrag:#", "ice-pwd:#", "ice-mismatch", "identity:#", "label:#", "ice-options:#", "ice-options:# #", "ptime:#", "maxptime:#", "ice-pacing:#", "sctp-port:#", "max-message-size:#", "framerate:#", "ssrc:#"],
];
harnesses! {
    fn h_c25_parts() {
        // any two values that differ in one part
        let g = PARTS[choice(PARTS.len() as u32) as usize];
        let i = choice(g.len() as u32) as usize;
        let d = st(vec![rng(b'1', b'4')]);
        let t = g[i].replace('#', &d);
        let a = match pa(&t) { Some(a) => a, None => { check(false, "a well-formed attribute is rejected"); return } };
        let x = ser(&a, false);
        check(b_eq(&x, &ser(&a, false)), "equal values have different serialized forms");
        for (j, o) in g.iter().enumerate() {
            if j == i {
                continue;
            }
            match SdpAttribute::from_str(&o.replace('#', &d)) {
                Ok(b) => if !attr_eq(&a, &b) {
                    check(!b_eq(&x, &ser(&b, false)), "different values have the same serialized form");
                } else {
                    check(b_eq(&x, &ser(&b, false)), "equal values have different serialized forms");
                },
                Err(_) => check(false, "a well-formed attribute is rejected"),
            }
        }
        cover("parts");
    }
    fn h_c25_value() {
        // two values of one kind
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        let a = gen(k, false);
        let b = gen(k, false);
        compare(attr_eq(&a.exp, &b.exp), &ser(&a.exp, false), &ser(&b.exp, false));
    }
    fn h_c25_twins() {
        // two values of one shape
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        let (a, b) = twin(|| gen(k, true));
        let x = ser(&a.exp, false);
        check(x.len() == ser(&b.exp, false).len(), "values of one shape have serialized forms of different shapes");
        check(b_eq(&x, &ser(&b.exp, false)) == s_eq(&a.canon, &b.canon), "values are equal and their serialized forms not, or the reverse");
        observe(&x);
        cover(k);
    }
    fn h_c25_fields() {
        // descriptions of one shape have the same fields, whatever the values
        let (p, v) = (choice(20), choice(4));
        let human = choice(2) == 1;
        let (a, b) = twin(|| session(p, v));
        let (x, y) = (ser(&a, human), ser(&b, human));
        // (addresses are texts of any length)
        check(matches!(p, 4 | 6 | 17) || x.len() == y.len(), "values of one shape have serialized forms of different shapes");
        compare(session_eq(&a, &b), &x, &y);
    }
    fn h_c25_keys() {
        // and no value has other fields than the next one
        let human = choice(2) == 1;
        if choice(2) == 1 {
            let (p, v) = (choice(20), choice(4));
            let mut plain = session(100, 1);
            plain.set_connection(SdpConnection { address: addr2(), ttl: None, amount: None });
            same_fields(&fields(&session(p, v), human), &fields(&plain, human));
        } else {
            let k = KINDS[choice(KINDS.len() as u32) as usize];
            same_fields(&fields(&gen(k, false).exp, human), &fields(&gen(k, true).exp, human));
        }
    }
    fn h_c25_big() {
        // numbers of 64 bits keep all of them
        use SdpAttribute::*;
        let (a, b) = (byte(255), byte(255));
        let (i, j) = (choice(8) * 8, choice(8) * 8);
        let (x, y) = ((a as u64) << i, (b as u64) << j);
        let c = |x| Candidate(SdpAttributeCandidate::new("1".into(), 1, SdpAttributeCandidateTransport::Udp, x, Address::Fqdn("x".into()), 9, SdpAttributeCandidateType::Host));
        let (p, q) = match choice(6) {
            0 => (IcePacing(x), IcePacing(y)),
            1 => (MaxMessageSize(x), MaxMessageSize(y)),
            2 => (MaxPtime(x), MaxPtime(y)),
            3 => (Ptime(x), Ptime(y)),
            4 => (SctpPort(x), SctpPort(y)),
            _ => (c(x), c(y)),
        };
        check(b_eq(&ser(&p, false), &ser(&q, false)) == (x == y), "a number is not serialized in full");
        cover("numbers");
    }
    fn h_c25_shape() {
        // a plain value and one of any shape
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        let a = gen(k, false);
        let b = gen(k, true);
        compare(attr_eq(&a.exp, &b.exp), &ser(&a.exp, false), &ser(&b.exp, false));
    }
    fn h_c25_kinds() {
        // two kinds
        let i = choice(KINDS.len() as u32) as usize;
        let a = gen(KINDS[i], false);
        let x = ser(&a.exp, false);
        for (j, k) in KINDS.iter().enumerate() {
            if j != i {
                check(!b_eq(&x, &ser(&gen(k, false).exp, false)), "different attributes have the same serialized form");
            }
        }
        cover("kinds");
    }
    fn h_c25_address() {
        let human = choice(2) == 1;
        let a = addr(choice(4));
        let b = addr(choice(4));
        let eq = eaddr_eq(&a, &b);
        compare(eq, &ser(&a, human), &ser(&b, human));
        cover(if human { "text" } else { "binary" });
    }
    fn h_c25_session() {
        // two descriptions that differ in one part or in two
        let p = choice(20);
        let v = choice(4);
        let a = session(p, v);
        let b = if choice(2) == 0 { session(p, choice(4)) } else { session((p + 1 + choice(19)) % 20, 3) };
        compare(session_eq(&a, &b), &ser(&a, true), &ser(&b, true));
    }
    fn h_c25_protocol() {
        let i = choice(11);
        let j = choice(11);
        let p = |i: u32| { let mut m = mlined(9, 0); m.proto = proto(i).1; SdpMedia::new(m) };
        let (a, b) = (p(i), p(j));
        check(b_eq(&ser(&a, true), &ser(&b, true)) == (i == j), "two protocols have the same serialized form");
        cover("protocols");
    }
    fn h_c25_parsed() {
        // a description that was read has the form of the one that was built
        let p = choice(20);
        let v = choice(4);
        // (printing arbitrary large numbers is the matter of C05)
        assume(!matches!((p, v), (2, 1) | (2, 3) | (3, 1) | (3, 3) | (10, 3) | (7, 2) | (7, 3) | (14, 1..=3) | (15, 1..=3)));
        let a = session(p, v);
        let mut t = a.clone();
        t.version = 0;
        if t.timing.is_none() {
            t.set_timing(SdpTiming { start: 1, stop: 1 });
        }
        if t.connection.is_none() {
            t.set_connection(SdpConnection { address: addr2(), ttl: None, amount: None });
        }
        for m in &t.media {
            assume(!match m.get_formats() { SdpFormatList::Integers(x) => p == 16 || x.is_empty(), SdpFormatList::Strings(_) => true });
            assume(!matches!(m.get_type(), SdpMediaValue::Application));
        }
        let text = t.to_string();
        if let Some(s) = ps(&text, true) {
            check(b_eq(&ser(&s, true), &ser(&t, true)), "the parsed description has another serialized form");
            cover("parsed");
        }
    }
    fn h_c25_line() {
        // lines carry their number, their text and their value
        let l = |i: u32| match i {
            0 => format!("a=mid:{}", tchar(&[]) as char),
            1 => format!("b=AS:{}", dig() as char),
            2 => format!("t=0 {}", dig() as char),
            3 => format!("s={}", tchar(&[]) as char),
            4 => "v=0".to_string(),
            5 => format!("o=- {} 1 IN IP4 1.1.1.1", dig() as char),
            6 => format!("c=IN IP4 1.1.1.{}", dig() as char),
            _ => format!("m=audio {} RTP/AVP 0", dig() as char),
        };
        let n = choice(3) as usize;
        let i = choice(8);
        let (a, b) = (l(i), l(i));
        note(a.as_bytes());
        match (parse_sdp_line(&a, 1), parse_sdp_line(&b, n)) {
            (Ok(x), Ok(y)) => {
                check(b_eq(&ser(&x.sdp_type, true), &ser(&y.sdp_type, true)) == s_eq(&a, &b), "the serialized value of a line differs");
                check(b_eq(&ser(&x, true), &ser(&y, true)) == (s_eq(&a, &b) && n == 1), "the serialized form of a line differs");
                check(has(&ser(&x, true), &field("text", &a)), "the text of a line is not serialized");
                cover("line");
            }
            _ => check(false, "a line is rejected"),
        }
    }
    fn h_c25_error() {
        // errors by the names of their fields
        let m = tok(2, b"");
        let line = nonl(2);
        let n = [0usize, 1, 255, 256, 65536, 4294967295, 4294967296][choice(7) as usize];
        let k = choice(3);
        let inner = match choice(4) {
            0 => SdpParserInternalError::Generic(m.clone()),
            1 => SdpParserInternalError::Unsupported(m.clone()),
            2 => SdpParserInternalError::UnknownAddressType(m.clone()),
            _ => SdpParserInternalError::from("x".parse::<u8>().unwrap_err()),
        };
        let t = inner.to_string();
        let e = match k {
            0 => SdpParserError::Line { error: inner, line: line.clone(), line_number: n },
            1 => SdpParserError::Unsupported { error: inner, line: line.clone(), line_number: n },
            _ => SdpParserError::Sequence { message: m.clone(), line_number: n },
        };
        let x = ser(&e, true);
        let mut w = W(vec![], true, vec![], vec![]);
        let _ = w.s(b'=', "line_number");
        let _ = w.n(b'u', n as u64);
        check(has(&x, &w.0), "the line number is not serialized");
        check(has(&x, &field("type", ["Line", "Unsupported", "Sequence"][k as usize])), "the kind is not serialized");
        check(has(&x, &field("message", if k < 2 { &t } else { &m })), "the message is not serialized");
        if k < 2 {
            check(has(&x, &field("line", &line)), "the line is not serialized");
        }
        observe(&x);
        // and as the warning of a description
        let mut s = session(99, 0);
        let none = ser(&s, true);
        s.warnings.push(e.clone());
        let one = ser(&s, true);
        check(has(&one, &x), "the warning of a description is not serialized");
        check(!b_eq(&none, &one), "a warning does not change the serialized form");
        s.warnings.push(e);
        check(!b_eq(&ser(&s, true), &one), "a second warning does not change the serialized form");
        cover("error");
    }
}
