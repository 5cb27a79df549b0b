//! C06: every numeric field accepts exactly the numbers of its range, and keeps them exactly.
use super::sym::*;
use super::util::*;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

type Get = fn(&SdpType) -> Option<u64>;
/// (text before, text after, the values allowed, where the value ends up)
type Field = (&'static str, &'static str, fn(u64) -> bool, Get);

fn u8r(x: u64) -> bool { x <= 255 }
fn u16r(x: u64) -> bool { x <= 65535 }
fn u32r(x: u64) -> bool { x <= 4294967295 }
fn u64r(_: u64) -> bool { true }
fn pt7r(x: u64) -> bool { x <= 127 }
fn avr(x: u64) -> bool {
    ((x == 0) | ((x >= 3) & (x <= 18))) | (((x >= 20) & (x <= 63)) | ((x >= 96) & (x <= 127)))
}
macro_rules! at {
    ($v:ident($x:ident) => $e:expr) => {
        |t| match t {
            SdpType::Attribute(SdpAttribute::$v($x)) => $e,
            _ => None,
        }
    };
}
macro_rules! attr {
    ($($p:pat => $e:expr),*) => { |t| match t { $(SdpType::Attribute($p) => $e,)* _ => None } };
}
use webrtc_sdp::attribute_type::SdpAttribute as A;
fn fm(t: &SdpType) -> Option<&SdpAttributeFmtpParameters> {
    match t { SdpType::Attribute(A::Fmtp(f)) => Some(&f.parameters), _ => None }
}
fn rp(t: &SdpType) -> Option<&SdpAttributeRidParameters> {
    match t { SdpType::Attribute(A::Rid(f)) => Some(&f.params), _ => None }
}
fn ptv(p: &SdpAttributePayloadType) -> Option<u64> {
    match p { SdpAttributePayloadType::PayloadType(x) => Some(*x as u64), _ => None }
}
fn xyv(r: &SdpAttributeImageAttrXyRange, i: usize) -> Option<u64> {
    use SdpAttributeImageAttrXyRange::*;
    match r {
        DiscreteValues(v) => v.get(i).map(|x| *x as u64),
        Range(a, b, c) => match i { 0 => Some(*a as u64), 1 => Some(*b as u64), _ => c.map(|x| x as u64) },
    }
}
fn set(t: &SdpType) -> Option<&SdpAttributeImageAttrSet> {
    match t {
        SdpType::Attribute(A::ImageAttr(i)) => match &i.send { SdpAttributeImageAttrSetList::Sets(v) => v.first(), _ => None },
        _ => None,
    }
}
const FIELDS: &[Field] = &[
    ("v=", "", |x| x == 0, |t| match t { SdpType::Version(x) => Some(*x), _ => None }),
    ("o=- ", " 1 IN IP4 1.2.3.4", u64r, |t| match t { SdpType::Origin(x) => Some(x.session_id), _ => None }),
    ("o=- 1 ", " IN IP4 1.2.3.4", u64r, |t| match t { SdpType::Origin(x) => Some(x.session_version), _ => None }),
    ("t=", " 0", u64r, |t| match t { SdpType::Timing(x) => Some(x.start), _ => None }),
    ("t=0 ", "", u64r, |t| match t { SdpType::Timing(x) => Some(x.stop), _ => None }),
    ("c=IN IP4 1.2.3.4/", "", u8r, |t| match t { SdpType::Connection(x) => x.ttl.map(|v| v as u64), _ => None }),
    ("c=IN IP4 1.2.3.4/1/", "", u32r, |t| match t { SdpType::Connection(x) => x.amount.map(|v| v as u64), _ => None }),
    ("b=AS:", "", u32r, |t| match t { SdpType::Bandwidth(SdpBandwidth::As(x)) => Some(*x as u64), _ => None }),
    ("b=CT:", "", u32r, |t| match t { SdpType::Bandwidth(SdpBandwidth::Ct(x)) => Some(*x as u64), _ => None }),
    ("b=TIAS:", "", u32r, |t| match t { SdpType::Bandwidth(SdpBandwidth::Tias(x)) => Some(*x as u64), _ => None }),
    ("b=foo:", "", u32r, |t| match t { SdpType::Bandwidth(SdpBandwidth::Unknown(_, x)) => Some(*x as u64), _ => None }),
    ("m=audio ", " RTP/AVP 0", u16r, |t| match t { SdpType::Media(x) => Some(x.port as u64), _ => None }),
    ("m=application ", " DTLS/SCTP 5000", u16r, |t| match t { SdpType::Media(x) => Some(x.port as u64), _ => None }),
    ("m=audio 9/", " RTP/AVP 0", u32r, |t| match t { SdpType::Media(x) => Some(x.port_count as u64), _ => None }),
    ("m=audio 9 RTP/AVP ", "", avr, |t| match t { SdpType::Media(SdpMediaLine { formats: SdpFormatList::Integers(v), .. }) if v.len() == 1 => Some(v[0] as u64), _ => None }),
    ("m=video 9 RTP/AVP 96 ", " 97", avr, |t| match t { SdpType::Media(SdpMediaLine { formats: SdpFormatList::Integers(v), .. }) if v.len() == 3 && v[0] == 96 && v[2] == 97 => Some(v[1] as u64), _ => None }),
    ("a=candidate:0 ", " UDP 1 1.2.3.4 9 typ host", u32r, at!(Candidate(c) => Some(c.component as u64))),
    ("a=candidate:0 1 UDP ", " 1.2.3.4 9 typ host", u64r, at!(Candidate(c) => Some(c.priority))),
    ("a=candidate:0 1 UDP 1 1.2.3.4 ", " typ host", u16r, at!(Candidate(c) => Some(c.port as u64))),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ srflx raddr 1.1.1.1 rport ", "", u16r, at!(Candidate(c) => c.rport.map(|x| x as u64))),
    ("a=candidate:0 1 TCP 1 1.2.3.4 9 typ host generation ", "", u32r, at!(Candidate(c) => c.generation.map(|x| x as u64))),
    ("a=candidate:0 1 UDP 1 1.2.3.4 9 typ host network-cost ", "", u32r, at!(Candidate(c) => c.networkcost.map(|x| x as u64))),
    ("a=extmap:", " uri", u16r, at!(Extmap(c) => Some(c.id as u64))),
    ("a=extmap:", "/sendonly uri", u16r, at!(Extmap(c) => Some(c.id as u64))),
    ("a=fmtp:", " x=1", u8r, at!(Fmtp(c) => Some(c.payload_type as u64))),
    ("a=fmtp:96 packetization-mode=", "", |x| x <= 2, |t| fm(t).map(|p| p.packetization_mode as u64)),
    ("a=fmtp:96 max-fs=", "", u32r, |t| fm(t).map(|p| p.max_fs as u64)),
    ("a=fmtp:96 max-cpb=", "", u32r, |t| fm(t).map(|p| p.max_cpb as u64)),
    ("a=fmtp:96 max-dpb=", "", u32r, |t| fm(t).map(|p| p.max_dpb as u64)),
    ("a=fmtp:96 max-br=", "", u32r, |t| fm(t).map(|p| p.max_br as u64)),
    ("a=fmtp:96 max-mbps=", "", u32r, |t| fm(t).map(|p| p.max_mbps as u64)),
    ("a=fmtp:96 max-fr=", "", u32r, |t| fm(t).map(|p| p.max_fr as u64)),
    ("a=fmtp:96 profile=", "", |x| x <= 2, |t| fm(t).and_then(|p| p.profile.map(|x| x as u64))),
    ("a=fmtp:96 level-idx=", "", |x| x <= 31, |t| fm(t).and_then(|p| p.level_idx.map(|x| x as u64))),
    ("a=fmtp:96 tier=", "", |x| x <= 1, |t| fm(t).and_then(|p| p.tier.map(|x| x as u64))),
    ("a=fmtp:96 maxplaybackrate=", "", u32r, |t| fm(t).map(|p| p.maxplaybackrate as u64)),
    ("a=fmtp:96 maxaveragebitrate=", "", u32r, |t| fm(t).map(|p| p.maxaveragebitrate as u64)),
    ("a=fmtp:96 ptime=", "", u32r, |t| fm(t).map(|p| p.ptime as u64)),
    ("a=fmtp:96 minptime=", "", u32r, |t| fm(t).map(|p| p.minptime as u64)),
    ("a=fmtp:96 maxptime=", "", u32r, |t| fm(t).map(|p| p.maxptime as u64)),
    ("a=fmtp:96 usedtx=", "", |x| x <= 1, |t| fm(t).map(|p| p.usedtx as u64)),
    ("a=fmtp:96 stereo=", "", |x| x <= 1, |t| fm(t).map(|p| p.stereo as u64)),
    ("a=fmtp:96 useinbandfec=", "", |x| x <= 1, |t| fm(t).map(|p| p.useinbandfec as u64)),
    ("a=fmtp:96 cbr=", "", |x| x <= 1, |t| fm(t).map(|p| p.cbr as u64)),
    ("a=fmtp:96 level-asymmetry-allowed=", "", |x| x <= 1, |t| fm(t).map(|p| p.level_asymmetry_allowed as u64)),
    ("a=fmtp:96 apt=", "", u8r, |t| fm(t).and_then(|p| p.rtx.map(|x| x.apt as u64))),
    ("a=fmtp:96 apt=1;rtx-time=", "", u32r, |t| fm(t).and_then(|p| p.rtx.and_then(|x| x.rtx_time.map(|y| y as u64)))),
    ("a=fmtp:96 5/", "/7", |x| x <= 128, |t| fm(t).and_then(|p| if p.encodings.len() == 3 && p.encodings[0] == 5 && p.encodings[2] == 7 { Some(p.encodings[1] as u64) } else { None })),
    ("a=ice-pacing:", "", |x| x <= 9999999999, at!(IcePacing(x) => Some(*x))),
    ("a=imageattr:", " send *", u8r, at!(ImageAttr(i) => ptv(&i.pt))),
    ("a=imageattr:96 send [x=", ",y=5]", u32r, |t| set(t).and_then(|s| xyv(&s.x, 0))),
    ("a=imageattr:96 send [x=5,y=", "]", u32r, |t| set(t).and_then(|s| xyv(&s.y, 0))),
    ("a=imageattr:96 send [x=[", ":5],y=5]", u32r, |t| set(t).and_then(|s| xyv(&s.x, 0))),
    ("a=imageattr:96 send [x=5,y=[1:2:", "]]", u32r, |t| set(t).and_then(|s| xyv(&s.y, 1))),
    ("a=imageattr:96 send [x=[1:", ":9],y=5]", u32r, |t| set(t).and_then(|s| xyv(&s.x, 2))),
    ("a=imageattr:96 send [x=[1,", ",9],y=5]", u32r, |t| set(t).and_then(|s| xyv(&s.x, 1))),
    ("a=max-message-size:", "", u64r, at!(MaxMessageSize(x) => Some(*x))),
    ("a=maxptime:", "", u64r, at!(MaxPtime(x) => Some(*x))),
    ("a=ptime:", "", u64r, at!(Ptime(x) => Some(*x))),
    ("a=rid:1 send pt=", "", u16r, at!(Rid(r) => if r.formats.len() == 1 { Some(r.formats[0] as u64) } else { None })),
    ("a=rid:1 send pt=4,", ";max-fs=1", u16r, at!(Rid(r) => if r.formats.len() == 2 { Some(r.formats[1] as u64) } else { None })),
    ("a=rid:1 send max-width=", "", u32r, |t| rp(t).map(|p| p.max_width as u64)),
    ("a=rid:1 send max-height=", "", u32r, |t| rp(t).map(|p| p.max_height as u64)),
    ("a=rid:1 recv max-fps=", "", u32r, |t| rp(t).map(|p| p.max_fps as u64)),
    ("a=rid:1 recv max-fs=", "", u32r, |t| rp(t).map(|p| p.max_fs as u64)),
    ("a=rid:1 send max-br=", "", u32r, |t| rp(t).map(|p| p.max_br as u64)),
    ("a=rid:1 send max-pps=", "", u32r, |t| rp(t).map(|p| p.max_pps as u64)),
    ("a=remote-candidates:", " 1.2.3.4 5", u32r, at!(RemoteCandidate(r) => Some(r.component as u64))),
    ("a=remote-candidates:1 1.2.3.4 ", "", u16r, at!(RemoteCandidate(r) => Some(r.port as u64))),
    ("a=rtpmap:", " opus/48000", pt7r, at!(Rtpmap(r) => Some(r.payload_type as u64))),
    ("a=rtpmap:96 opus/", "", u32r, at!(Rtpmap(r) => Some(r.frequency as u64))),
    ("a=rtpmap:96 opus/48000/", "", u32r, at!(Rtpmap(r) => r.channels.map(|x| x as u64))),
    ("a=rtcp:", "", u16r, at!(Rtcp(r) => Some(r.port as u64))),
    ("a=rtcp:", " IN IP6 ::1", u16r, at!(Rtcp(r) => Some(r.port as u64))),
    ("a=rtcp-fb:", " nack", u8r, at!(Rtcpfb(r) => ptv(&r.payload_type))),
    ("a=rtcp-fb:96 trr-int ", "", u32r, at!(Rtcpfb(r) => r.parameter.parse::<u64>().ok())),
    ("a=sctpmap:", " webrtc-datachannel 256", u16r, at!(Sctpmap(r) => Some(r.port as u64))),
    ("a=sctpmap:5000 webrtc-datachannel ", "", u32r, at!(Sctpmap(r) => Some(r.channels as u64))),
    ("a=sctp-port:", "", u16r, at!(SctpPort(r) => Some(*r))),
    ("a=ssrc:", " cname:x", u32r, at!(Ssrc(r) => Some(r.id as u64))),
    ("a=ssrc:", "", u32r, at!(Ssrc(r) => Some(r.id as u64))),
    ("a=ssrc-group:FID ", "", u32r, attr!(A::SsrcGroup(_, v) => if v.len() == 1 { Some(v[0].id as u64) } else { None })),
    ("a=ssrc-group:SIM 1 ", " 3", u32r, attr!(A::SsrcGroup(_, v) => if v.len() == 3 { Some(v[1].id as u64) } else { None })),
];

fn run(f: &Field, digits: &[u8], x: Option<u64>) {
    let t = T::of(f.0).b(digits).l(f.1).s();
    note(t.as_bytes());
    match parse_sdp_line(&t, 0) {
        Ok(l) => {
            let v = (f.3)(&l.sdp_type);
            check(x.is_some() && v == x, "an accepted number differs from its text");
            if let Some(x) = x {
                check((f.2)(x), "a number out of its range is accepted");
            }
            observe(b"ok");
        }
        Err(_) => {
            if let Some(x) = x {
                check(!(f.2)(x), "a number within its range is rejected");
            }
            observe(b"error");
        }
    }
}
fn field() -> &'static Field {
    &FIELDS[choice(FIELDS.len() as u32) as usize]
}
harnesses! {
    fn h_c06_short() {
        let f = field();
        let n = 1 + choice(if cfg!(feature = "deep") { 8 } else { 6 }) as usize;
        let (v, x) = num(n);
        run(f, &v, x);
        cover(f.0);
    }
    fn h_c06_long() {
        let f = field();
        let n = [9usize, 10, 11, 16, 18, 19, 20, 21][choice(8) as usize];
        let (v, x) = num(n);
        run(f, &v, x);
        cover(f.0);
    }
    fn h_c06_zeros() {
        // leading zeros do not change the number
        let f = field();
        let (v, x) = digs(2);
        let mut w = vec![b'0'; [1, 2, 3, 4, 5, 8, 10, 18, 20, 40][choice(10) as usize]];
        w.extend(v);
        run(f, &w, Some(x));
    }
    fn h_c06_nondigit() {
        // a number is made of digits only
        let f = field();
        let mut v = vec![dig()];
        let b = byte(127);
        assume((b < b'0') | (b > b'9'));
        // separators of the surrounding syntax and blanks may end the number
        assume(b > 32);
        assume((b != b'/') & (b != b',') & (b != b';') & (b != b':') & (b != b'-'));
        assume((b != b'[') & (b != b']') & (b != b'+') & (b != b'='));
        // hexadecimal digits are never numbers here either
        let first = choice(3);
        if first == 0 { v.insert(0, b) } else { v.push(b) }
        if first == 2 { v.push(dig()) }
        let t = T::of(f.0).b(&v).l(f.1).s();
        note(t.as_bytes());
        check(parse_sdp_line(&t, 0).is_err(), "a number with other characters is accepted");
    }
    fn h_c06_negative() {
        let f = field();
        let n = 1 + choice(2) as usize;
        let (d, _) = digs(n);
        let t = T::of(f.0).l("-").b(&d).l(f.1).s();
        note(t.as_bytes());
        check(parse_sdp_line(&t, 0).is_err(), "a negative number is accepted");
    }
    fn h_c06_missing() {
        let f = field();
        let t = T::of(f.0).l(f.1).s();
        note(t.as_bytes());
        if let Ok(l) = parse_sdp_line(&t, 0) {
            check((f.3)(&l.sdp_type) != Some(0) || t.len() < 2, "a missing number is read as 0");
        }
    }
    fn h_c06_profile_level_id() {
        let n = 1 + choice(9) as usize;
        let mut v = vec![];
        let mut x = 0u64;
        for _ in 0..n {
            let b = byte(127);
            assume(((b >= b'0') & (b <= b'9')) | (((b | 32) >= b'a') & ((b | 32) <= b'f')));
            let d = if b <= b'9' { b - b'0' } else { (b | 32) - b'a' + 10 };
            x = x * 16 + d as u64;
            v.push(b);
        }
        let t = T::of("a=fmtp:96 profile-level-id=").b(&v).s();
        note(t.as_bytes());
        match parse_sdp_line(&t, 0) {
            Ok(l) => {
                let p = fm(&l.sdp_type).map(|p| p.profile_level_id as u64);
                check(p == Some(x), "the profile-level-id differs");
                check(x <= 0xffffff, "a profile-level-id out of range is accepted");
                cover("profile-level-id");
            }
            Err(_) => check(x > 0xffffff, "a profile-level-id within range is rejected"),
        }
    }
    fn h_c06_dtmf() {
        // events up to 100; an ascending range; anything else falls back to 0-15
        let (a, x) = num(1 + choice(3) as usize);
        let k = choice(3);
        let (b, y) = num(1 + choice(3) as usize);
        let (x, y) = (x.unwrap_or(0), y.unwrap_or(0));
        let (t, ok) = match k {
            0 => (st(a), x <= 100),
            1 => (format!("{}-{}", st(a), st(b)), (x < y) & (y <= 100)),
            _ => (format!("{},{}", st(a), st(b)), (x <= 100) & (y <= 100)),
        };
        let l = format!("a=fmtp:101 {}", t);
        note(l.as_bytes());
        match parse_sdp_line(&l, 0) {
            Ok(l) => {
                let d = &fm(&l.sdp_type).unwrap().dtmf_tones;
                if s_eq(d, &t) { check(ok || s_eq(&t, "0-15"), "events out of range are kept"); cover("kept"); }
                else { check(!ok && s_eq(d, "0-15"), "events within range are not kept"); cover("fallback"); }
            }
            Err(_) => check(false, "telephone events are rejected"),
        }
    }
}
#[allow(unused)]
fn unused(_: Address) {}
