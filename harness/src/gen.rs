//! Generators: the text of an attribute together with the value it stands for, both built from
//! the same symbolic pieces. `canon` is the text the value must print as.
use super::sym::*;
use super::util::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;

pub struct G {
    pub name: &'static str,
    pub val: String,
    pub canon: String,
    pub exp: SdpAttribute,
}
/// one of n fields gets its full range of shapes, the others a plain one
pub struct F {
    n: u32,
    k: u32,
}
impl F {
    pub fn new(n: u32) -> F {
        F { n: 0, k: choice(n) }
    }
    /// every field plain
    pub fn plain() -> F {
        F { n: 0, k: u32::MAX }
    }
    pub fn on(&mut self) -> bool {
        self.n += 1;
        self.n - 1 == self.k
    }
}
pub fn deep() -> bool {
    cfg!(feature = "deep")
}
thread_local! { static SHARED: std::cell::Cell<(u8, u8)> = std::cell::Cell::new((0, 0)); }
/// the digit and the character that every number and token consists of, if they all coincide
fn shared() -> Option<(u8, u8)> {
    let (d, c) = SHARED.with(|s| s.get());
    if d == 0 { None } else { Some((d, c)) }
}
/// a value whose numbers are all the same one and whose tokens are all the same one (or that number)
pub fn coincide(f: impl FnOnce() -> G) -> G {
    let d = rng(b'1', b'9');
    let c = if choice(2) == 0 { d } else { tchar(b"=;:/,~*-[]\"") };
    SHARED.with(|s| s.set((d, c)));
    let g = f();
    SHARED.with(|s| s.set((0, 0)));
    g
}
/// tokens that mean something elsewhere
pub const WORDS: &[&str] = &[
    "*", "-", "0", "00", "1", "255", "65536", "4294967296", "18446744073709551616", "null", "none", "default", "send", "recv", "typ",
    "host", "raddr", "IN", "IP4", "cname", "rtpmap", "127.0.0.1", "::1", "x.local", "\"x\"", "'x'", "%20", "\\n", "#", "$1", "{}", "{0}", "<x>",
    "~", "~x", "x~", "_", "x-", "+1", "-1", "1.5", "NaN", "inf", "0x1F", "a/b", "a=b", "a;b", "a,b", "a:b", "a:b:c", "(x)", "[x]", "@", "x@y", "é", "ß", "İ",
    "\u{feff}x", "e\u{301}", "\u{200b}",
];
fn sized(k: usize, max: u64) -> (String, u64) {
    if let Some((d, _)) = shared() {
        return (st(vec![d]), (d - b'0') as u64);
    }
    if brief() {
        // the last digit is arbitrary
        let d = dig();
        let x = (0..k - 1).fold(0, |x, _| 10 * x + 1) * 10 + (d - b'0') as u64;
        assume(x <= max);
        return ("1".repeat(k - 1) + &st(vec![d]), x);
    }
    let (v, x) = num(k);
    let x = match x {
        Some(x) => x,
        None => {
            assume(false);
            0
        }
    };
    assume(x <= max);
    (st(v), x)
}
/// few shapes, for properties of pairs of values
pub fn brief() -> bool {
    cfg!(feature = "c25")
}
fn number(f: bool, plain: usize, sizes: &[usize], max: u64) -> (String, u64) {
    if !f || shared().is_some() {
        sized(plain, max)
    } else if brief() {
        sized(if choice(2) == 0 { 1 } else { sizes[sizes.len() - 1] }, max)
    } else {
        sized(pick_n(sizes), max)
    }
}
pub fn u8v(f: bool) -> (String, u8) {
    let (s, x) = number(f, 2, &[1, 2, 3], 255);
    (s, x as u8)
}
pub fn pt7(f: bool) -> (String, u8) {
    let (s, x) = number(f, 2, &[1, 2, 3], 127);
    (s, x as u8)
}
pub fn u16v(f: bool) -> (String, u16) {
    let (s, x) = number(f, 3, &[1, 2, 4, 5], 65535);
    (s, x as u16)
}
pub fn u32v(f: bool) -> (String, u32) {
    let (s, x) = number(f, 2, &[1, 3, 5, 8, 10], u32::MAX as u64);
    (s, x as u32)
}
pub fn u64v(f: bool) -> (String, u64) {
    number(f, 2, &[1, 4, 8, 10, 19, 20], u64::MAX)
}
/// a token of printable characters outside `bad`
pub fn strv(f: bool, bad: &[u8]) -> String {
    if let Some((_, c)) = shared() {
        return st(vec![c]);
    }
    if !f {
        return tok(2, bad);
    }
    if brief() {
        return tok(1 + choice(2) as usize, bad);
    }
    match choice(5) {
        0 => tok(1, bad),
        4 => {
            let w = WORDS[choice(WORDS.len() as u32) as usize];
            if w.bytes().any(|b| bad.contains(&b)) { tok(1, bad) } else { w.to_string() }
        }
        1 => tok(3, bad),
        2 => long(pick_n(&[31, 32, 33, 63, 64, 65]), bad),
        _ => long(pick_n(&[127, 128, 255, 256, 257, 300]), bad),
    }
}
pub fn pick_n(v: &[usize]) -> usize {
    v[choice(v.len() as u32) as usize]
}
/// a text of n characters, the first and the last arbitrary
pub fn long(n: usize, bad: &[u8]) -> String {
    let mut v = vec![tchar(bad)];
    for i in 1..n - 1 {
        v.push(b"0aZ7k9Qx"[i % 8]);
    }
    v.push(tchar(bad));
    st(v)
}
pub fn hexl() -> (u8, u16) {
    let b = byte(127);
    assume(((b >= b'0') & (b <= b'9')) | ((b >= b'a') & (b <= b'f')));
    (b, ((b & 15) + (b >> 6) * 9) as u16)
}
pub fn v4(f: bool) -> (String, Ipv4Addr) {
    if let Some((d, _)) = shared() {
        let (t, x) = (st(vec![d]), d - b'0');
        return (format!("{0}.{0}.{0}.{0}", t), Ipv4Addr::new(x, x, x, x));
    }
    if f {
        match choice(2) {
            0 => {
                let (a, x) = sized(3, 255);
                let (b, y) = sized(1, 255);
                (format!("{}.0.0.{}", a, b), Ipv4Addr::new(x as u8, 0, 0, y as u8))
            }
            _ => {
                let (a, x) = sized(2, 255);
                let (b, y) = sized(3, 255);
                (format!("192.{}.{}.255", a, b), Ipv4Addr::new(192, x as u8, y as u8, 255))
            }
        }
    } else {
        let (b, y) = sized(2, 255);
        (format!("10.0.1.{}", b), Ipv4Addr::new(10, 0, 1, y as u8))
    }
}
pub fn v6(f: bool) -> (String, Ipv6Addr) {
    if let Some((d, _)) = shared() {
        let (t, x) = (st(vec![d]), (d - b'0') as u16);
        return (format!("{0}::{0}", t), Ipv6Addr::new(x, 0, 0, 0, 0, 0, 0, x));
    }
    let (a, x) = hexl();
    assume(a != b'0');
    let (b, y) = hexl();
    let t = st(vec![a, b]);
    let w = x * 16 + y;
    if f {
        match choice(4) {
            3 => {
                let (d, y) = sized(2, 255);
                (format!("::ffff:10.0.1.{}", d), Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0x0a00, 0x100 + y as u16))
            }
            0 => (format!("fe80::{}:0:1", t), Ipv6Addr::new(0xfe80, 0, 0, 0, 0, w, 0, 1)),
            1 => (format!("{}::1", t), Ipv6Addr::new(w, 0, 0, 0, 0, 0, 0, 1)),
            _ => (format!("1:2:3:4:5:6:7:{}", t), Ipv6Addr::new(1, 2, 3, 4, 5, 6, 7, w)),
        }
    } else {
        (format!("2001:db8::{}", t), Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, w))
    }
}
pub fn lower(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        v.push(rng(b'a', b'z'));
    }
    st(v)
}
/// names with a meaning of their own
pub const NAMES: &[&str] = &[
    "localhost", "local", "localhost.localdomain", "ip6-localhost", "broadcasthost", "any", "example.com", "anonymous.invalid", "invalid", "x.onion",
    "1.0.0.127.in-addr.arpa", "test", "a", "wpad.home.arpa", "stun.l.google.com", "_x._udp.local",
];
pub fn host(f: bool) -> String {
    if f {
        match choice(5) {
            4 => NAMES[choice(NAMES.len() as u32) as usize].to_string(),
            3 => lower(1) + "9-host",
            0 => lower(1) + ".local",
            1 => String::from("my-host-") + &lower(2) + ".example.com",
            _ => String::from("3f2504e0-4f89-11d3-9a0c-0305e82c33") + &lower(1) + "1.local",
        }
    } else {
        lower(1) + ".example"
    }
}
/// literals with a meaning of their own
pub fn special(k: u32) -> (&'static str, IpAddr) {
    let six = |a: u16, b: u16| IpAddr::V6(Ipv6Addr::new(0, 0, 0, 0, 0, 0, a, b));
    match k {
        0 => ("0.0.0.0", IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0))),
        1 => ("127.0.0.1", IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1))),
        2 => ("255.255.255.255", IpAddr::V4(Ipv4Addr::new(255, 255, 255, 255))),
        3 => ("224.2.17.12", IpAddr::V4(Ipv4Addr::new(224, 2, 17, 12))),
        4 => ("::", six(0, 0)),
        5 => ("::1", six(0, 1)),
        6 => ("ff02::1", IpAddr::V6(Ipv6Addr::new(0xff02, 0, 0, 0, 0, 0, 0, 1))),
        _ => ("::ffff:127.0.0.1", IpAddr::V6(Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0x7f00, 1))),
    }
}
pub fn addr(f: bool) -> (String, Address) {
    let k = if f { choice(4) } else { 0 };
    match k {
        3 => {
            let (s, a) = special(choice(8));
            (s.to_string(), Address::Ip(a))
        }
        0 => {
            let (s, a) = v4(f);
            (s, Address::Ip(IpAddr::V4(a)))
        }
        1 => {
            let (s, a) = v6(f);
            (s, Address::Ip(IpAddr::V6(a)))
        }
        _ => {
            let s = host(f);
            (s.clone(), Address::Fqdn(s))
        }
    }
}
/// "IN IP4 ..." text with its value
pub fn eaddr(f: bool) -> (String, ExplicitlyTypedAddress) {
    let k = if f { choice(5) } else { 0 };
    match k {
        4 => {
            let (s, a) = special(choice(8));
            (format!("IN {} {}", if a.is_ipv4() { "IP4" } else { "IP6" }, s), ExplicitlyTypedAddress::Ip(a))
        }
        0 => {
            let (s, a) = v4(f);
            (format!("IN IP4 {}", s), ExplicitlyTypedAddress::Ip(IpAddr::V4(a)))
        }
        1 => {
            let (s, a) = v6(f);
            (format!("IN IP6 {}", s), ExplicitlyTypedAddress::Ip(IpAddr::V6(a)))
        }
        2 => {
            let s = host(f);
            (format!("IN IP4 {}", s), ExplicitlyTypedAddress::Fqdn { address_type: AddressType::IpV4, domain: s })
        }
        _ => {
            let s = host(f);
            (format!("IN IP6 {}", s), ExplicitlyTypedAddress::Fqdn { address_type: AddressType::IpV6, domain: s })
        }
    }
}
fn g(name: &'static str, val: String, exp: SdpAttribute) -> G {
    let canon = if val.is_empty() { name.to_string() } else { format!("{}:{}", name, val) };
    G { name, val, canon, exp }
}
pub const KINDS: &[&str] = &[
    "bundle-only", "candidate", "dtls-message", "end-of-candidates", "extmap", "extmap-allow-mixed", "fingerprint", "fmtp",
    "framerate", "group", "ice-lite", "ice-mismatch", "ice-options", "ice-pacing", "ice-pwd", "ice-ufrag", "identity",
    "imageattr", "inactive", "label", "max-message-size", "maxptime", "mid", "msid", "msid-semantic", "ptime", "rid",
    "recvonly", "remote-candidates", "rtpmap", "rtcp", "rtcp-fb", "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "sctpmap",
    "sctp-port", "sendonly", "sendrecv", "setup", "simulcast", "ssrc", "ssrc-group",
];
/// levels at which the attribute may stand: (session, media)
pub fn levels(name: &str) -> (bool, bool) {
    match name {
        "dtls-message" | "group" | "ice-lite" | "ice-pacing" | "identity" | "msid-semantic" => (true, false),
        "end-of-candidates" | "extmap" | "extmap-allow-mixed" | "fingerprint" | "ice-options" | "ice-pwd" | "ice-ufrag"
        | "inactive" | "recvonly" | "sendonly" | "sendrecv" | "setup" => (true, true),
        _ => (false, true),
    }
}
pub fn type_of(name: &str) -> SdpAttributeType {
    use SdpAttributeType::*;
    match name {
        "bundle-only" => BundleOnly,
        "candidate" => Candidate,
        "dtls-message" => DtlsMessage,
        "end-of-candidates" => EndOfCandidates,
        "extmap" => Extmap,
        "extmap-allow-mixed" => ExtmapAllowMixed,
        "fingerprint" => Fingerprint,
        "fmtp" => Fmtp,
        "framerate" => FrameRate,
        "group" => Group,
        "ice-lite" => IceLite,
        "ice-mismatch" => IceMismatch,
        "ice-options" => IceOptions,
        "ice-pacing" => IcePacing,
        "ice-pwd" => IcePwd,
        "ice-ufrag" => IceUfrag,
        "identity" => Identity,
        "imageattr" => ImageAttr,
        "inactive" => Inactive,
        "label" => Label,
        "max-message-size" => MaxMessageSize,
        "maxptime" => MaxPtime,
        "mid" => Mid,
        "msid" => Msid,
        "msid-semantic" => MsidSemantic,
        "ptime" => Ptime,
        "rid" => Rid,
        "recvonly" => Recvonly,
        "remote-candidates" => RemoteCandidate,
        "rtpmap" => Rtpmap,
        "rtcp" => Rtcp,
        "rtcp-fb" => Rtcpfb,
        "rtcp-mux" => RtcpMux,
        "rtcp-mux-only" => RtcpMuxOnly,
        "rtcp-rsize" => RtcpRsize,
        "sctpmap" => Sctpmap,
        "sctp-port" => SctpPort,
        "sendonly" => Sendonly,
        "sendrecv" => Sendrecv,
        "setup" => Setup,
        "simulcast" => Simulcast,
        "ssrc" => Ssrc,
        _ => SsrcGroup,
    }
}
/// full: shapes are varied too; otherwise one plain shape with symbolic content
pub fn gen(name: &'static str, full: bool) -> G {
    use SdpAttribute::*;
    let foc = |n: u32| if full { F::new(n) } else { F::plain() };
    match name {
        "bundle-only" => g(name, String::new(), BundleOnly),
        "end-of-candidates" => g(name, String::new(), EndOfCandidates),
        "extmap-allow-mixed" => g(name, String::new(), ExtmapAllowMixed),
        "ice-lite" => g(name, String::new(), IceLite),
        "ice-mismatch" => g(name, String::new(), IceMismatch),
        "inactive" => g(name, String::new(), Inactive),
        "recvonly" => g(name, String::new(), Recvonly),
        "rtcp-mux" => g(name, String::new(), RtcpMux),
        "rtcp-mux-only" => g(name, String::new(), RtcpMuxOnly),
        "rtcp-rsize" => g(name, String::new(), RtcpRsize),
        "sendonly" => g(name, String::new(), Sendonly),
        "sendrecv" => g(name, String::new(), Sendrecv),
        "candidate" => candidate(foc(15)),
        "dtls-message" => {
            let m = strv(full, &[]);
            if !full || choice(2) == 0 {
                g(name, format!("client {}", m), DtlsMessage(SdpAttributeDtlsMessage::Client(m)))
            } else {
                g(name, format!("server {}", m), DtlsMessage(SdpAttributeDtlsMessage::Server(m)))
            }
        }
        "extmap" => extmap(foc(4)),
        "fingerprint" => fingerprint(full),
        "fmtp" => {
            if full {
                fmtp()
            } else {
                let (s, pt) = u8v(false);
                let (b, v) = u32v(false);
                assume(v != 0);
                let mut p = default_params();
                p.max_fs = v;
                g(name, format!("{} max-fs={}", s, b), Fmtp(SdpAttributeFmtp { payload_type: pt, parameters: p }))
            }
        }
        "framerate" => {
            let (t, v) = FR[if full { choice(FR.len() as u32) as usize } else { 0 }];
            g(name, t.to_string(), FrameRate(v))
        }
        "group" => {
            use SdpAttributeGroupSemantic::*;
            let (s, e) = match if full { choice(7) } else { 0 } {
                0 => ("BUNDLE", Bundle),
                1 => ("LS", LipSynchronization),
                2 => ("FID", FlowIdentification),
                3 => ("SRF", SingleReservationFlow),
                4 => ("ANAT", AlternateNetworkAddressType),
                5 => ("FEC", ForwardErrorCorrection),
                _ => ("DDP", DecodingDependency),
            };
            let tags = strs(if full { count() } else { 1 }, &[]);
            let v = if tags.is_empty() { s.to_string() } else { format!("{} {}", s, tags.join(" ")) };
            g(name, v, Group(SdpAttributeGroup { semantics: e, tags }))
        }
        "ice-options" => {
            let tags = strs(if full { count1() } else { 1 }, &[]);
            g(name, tags.join(" "), IceOptions(tags))
        }
        "ice-pacing" => {
            let k = if full { [1, 2, 5, 8, 10][choice(5) as usize] } else { 2 };
            let (s, v) = sized(k, 9999999999);
            g(name, s, IcePacing(v))
        }
        "ice-pwd" => {
            let s = strv(full, &[]);
            g(name, s.clone(), IcePwd(s))
        }
        "ice-ufrag" => {
            let s = strv(full, &[]);
            g(name, s.clone(), IceUfrag(s))
        }
        "identity" => {
            let s = strv(full, &[]);
            g(name, s.clone(), Identity(s))
        }
        "label" => {
            let s = strv(full, &[]);
            g(name, s.clone(), Label(s))
        }
        "mid" => {
            let s = strv(full, &[]);
            g(name, s.clone(), Mid(s))
        }
        "imageattr" => imageattr(full),
        "max-message-size" => {
            let (s, v) = u64v(full);
            g(name, s, MaxMessageSize(v))
        }
        "maxptime" => {
            let (s, v) = u64v(full);
            g(name, s, MaxPtime(v))
        }
        "ptime" => {
            let (s, v) = u64v(full);
            g(name, s, Ptime(v))
        }
        "msid" => {
            let mut f = foc(3);
            let id = strv(f.on(), &[]);
            let a = strv(f.on(), &[]);
            if f.on() {
                g(name, id.clone(), Msid(SdpAttributeMsid { id, appdata: None }))
            } else {
                g(name, format!("{} {}", id, a), Msid(SdpAttributeMsid { id, appdata: Some(a) }))
            }
        }
        "msid-semantic" => {
            let mut f = foc(2);
            let s = strv(f.on(), &[]);
            let msids = strs(if f.on() { count1() } else { 1 }, &[]);
            g(name, format!("{} {}", s, msids.join(" ")), MsidSemantic(SdpAttributeMsidSemantic { semantic: s, msids }))
        }
        "rid" => rid(foc(7)),
        "remote-candidates" => {
            let mut f = foc(3);
            let (a, component) = u32v(f.on());
            let (b, address) = addr(f.on());
            let (c, port) = u16v(f.on());
            g(name, format!("{} {} {}", a, b, c), RemoteCandidate(SdpAttributeRemoteCandidate { component, address, port: port as u32 }))
        }
        "rtpmap" => {
            let mut f = foc(4);
            let (a, payload_type) = pt7(f.on());
            let codec_name = strv(f.on(), b"/");
            let (b, frequency) = u32v(f.on());
            let ch = f.on();
            let with = if ch { true } else { full && choice(2) == 1 };
            let mut v = format!("{} {}/{}", a, codec_name, b);
            let mut channels = None;
            if with {
                let (c, n) = u32v(ch);
                channels = Some(n);
                v = format!("{}/{}", v, c);
            }
            g(name, v, Rtpmap(SdpAttributeRtpmap { payload_type, codec_name, frequency, channels }))
        }
        "rtcp" => {
            let mut f = foc(2);
            let (a, port) = u16v(f.on());
            let on = f.on();
            if on || (full && choice(2) == 1) {
                let (b, ad) = eaddr(on);
                g(name, format!("{} {}", a, b), Rtcp(SdpAttributeRtcp { port, unicast_addr: Some(ad) }))
            } else {
                g(name, a, Rtcp(SdpAttributeRtcp { port, unicast_addr: None }))
            }
        }
        "rtcp-fb" => rtcpfb(full),
        "sctpmap" => {
            let mut f = foc(2);
            let (a, port) = u16v(f.on());
            let (b, channels) = u32v(f.on());
            g(name, format!("{} webrtc-datachannel {}", a, b), Sctpmap(SdpAttributeSctpmap { port, channels }))
        }
        "sctp-port" => {
            let (s, v) = u16v(full);
            g(name, s, SctpPort(v as u64))
        }
        "setup" => {
            let (s, e) = match if full { choice(4) } else { 0 } {
                0 => ("actpass", SdpAttributeSetup::Actpass),
                1 => ("active", SdpAttributeSetup::Active),
                2 => ("passive", SdpAttributeSetup::Passive),
                _ => ("holdconn", SdpAttributeSetup::Holdconn),
            };
            g(name, s.to_string(), Setup(e))
        }
        "simulcast" => simulcast(full),
        "ssrc" => {
            let mut f = foc(4);
            let (a, id) = u32v(f.on());
            let at = strv(f.on(), b":");
            let v = strv(f.on(), b"");
            match if f.on() { choice(3) } else { 0 } {
                0 => g(name, format!("{} {}:{}", a, at, v), Ssrc(SdpAttributeSsrc { id, attribute: Some(at), value: Some(v) })),
                1 => g(name, format!("{} {}", a, at), Ssrc(SdpAttributeSsrc { id, attribute: Some(at), value: None })),
                _ => g(name, a, Ssrc(SdpAttributeSsrc { id, attribute: None, value: None })),
            }
        }
        _ => {
            use SdpSsrcGroupSemantic::*;
            let (s, e) = match if full { choice(5) } else { 0 } {
                0 => ("FID", FlowIdentification),
                1 => ("DUP", Duplication),
                2 => ("FEC", ForwardErrorCorrection),
                3 => ("FEC-FR", ForwardErrorCorrectionFr),
                _ => ("SIM", Sim),
            };
            let n = if full { [1, 2, 3, 4, 6, 17][choice(6) as usize] } else { 2 };
            let mut v = s.to_string();
            let mut ids = vec![];
            for i in 0..n {
                let (t, id) = u32v(full && i == 0);
                v = format!("{} {}", v, t);
                ids.push(SdpAttributeSsrc { id, attribute: None, value: None });
            }
            g("ssrc-group", v, SsrcGroup(e, ids))
        }
    }
}
const FR: &[(&str, f64)] = &[
    ("30", 30.0), ("29.97", 29.97), ("0.1", 0.1), ("60", 60.0), ("59.94005994", 59.94005994), ("1", 1.0), ("-5", -5.0),
    ("0.000001", 0.000001), ("100000000000000000000", 1e20), ("16777217", 16777217.0), ("0.333333333333", 0.333333333333),
];
/// a small number of list elements, now and then a large one
pub fn count() -> usize {
    if brief() { choice(3) as usize } else { [0, 1, 2, 3, 4, 17][choice(6) as usize] }
}
pub fn count1() -> usize {
    if brief() { 1 + choice(2) as usize } else { [1, 2, 3, 4, 6, 17][choice(6) as usize] }
}
pub fn strs(n: usize, bad: &[u8]) -> Vec<String> {
    let mut v = vec![];
    if let Some((_, c)) = shared() {
        return vec![st(vec![c]); n];
    }
    for i in 0..n {
        v.push(if i < 4 { tok(if i % 2 == 0 { 1 } else { 2 }, bad) } else { format!("t{}", i) });
    }
    v
}
pub fn candidate(mut f: F) -> G {
    let foundation = strv(f.on(), &[]);
    let (component_s, component) = u32v(f.on());
    let (transport_s, transport) = if f.on() && choice(2) == 1 {
        ("TCP", SdpAttributeCandidateTransport::Tcp)
    } else {
        ("UDP", SdpAttributeCandidateTransport::Udp)
    };
    let (priority_s, priority) = u64v(f.on());
    let (address_s, address) = addr(f.on());
    let (port_s, port) = u16v(f.on());
    let (c_s, c_type) = match if f.on() { choice(4) } else { 1 } {
        0 => ("host", SdpAttributeCandidateType::Host),
        1 => ("srflx", SdpAttributeCandidateType::Srflx),
        2 => ("prflx", SdpAttributeCandidateType::Prflx),
        _ => ("relay", SdpAttributeCandidateType::Relay),
    };
    let mut c = SdpAttributeCandidate::new(foundation.clone(), component, transport, priority, address, port as u32, c_type);
    let mut ext: Vec<String> = vec![];
    let mut canon = format!("{} {} {} {} {} {} typ {}", foundation, component_s, transport_s, priority_s, address_s, port_s, c_s);
    let head = canon.clone();
    let (raddr, rport, tcp, gen, ufrag, cost, unk, order) =
        (f.on(), f.on(), f.on(), f.on(), f.on(), f.on(), f.on(), f.on());
    // with the order in focus every extension is present
    let (raddr_p, rport_p, tcp_p, gen_p, ufrag_p, cost_p, unk_p) =
        (raddr || order, rport || order, tcp || order, gen || order, ufrag || order, cost || order, unk || order);
    if raddr_p {
        let (s, a) = addr(raddr);
        c.raddr = Some(a);
        ext.push(format!(" raddr {}", s));
    }
    if rport_p {
        let (s, p) = u16v(rport);
        c.rport = Some(p as u32);
        ext.push(format!(" rport {}", s));
    }
    if tcp_p {
        let (s, t) = match if tcp { choice(3) } else { 1 } {
            0 => ("active", SdpAttributeCandidateTcpType::Active),
            1 => ("passive", SdpAttributeCandidateTcpType::Passive),
            _ => ("so", SdpAttributeCandidateTcpType::Simultaneous),
        };
        c.tcp_type = Some(t);
        ext.push(format!(" tcptype {}", s));
    }
    if gen_p {
        let (s, x) = u32v(gen);
        c.generation = Some(x);
        ext.push(format!(" generation {}", s));
    }
    if ufrag_p {
        let s = strv(ufrag, &[]);
        ext.push(format!(" ufrag {}", s));
        c.ufrag = Some(s);
    }
    if cost_p {
        let (s, x) = u32v(cost);
        c.networkcost = Some(x);
        ext.push(format!(" network-cost {}", s));
    }
    if unk_p {
        let n = if unk { [1, 2, 3, 5][choice(4) as usize] } else { 2 };
        for i in 0..n {
            let a = format!("x{}", strv(unk && i == 0, &[]));
            let b = strv(unk && i == 1, &[]);
            ext.push(format!(" {} {}", a, b));
            c.unknown_extensions.push((a, b));
        }
    }
    for e in &ext {
        canon += e;
    }
    // the extensions may come in any order; the unknown ones keep theirs
    let mut val = canon.clone();
    if order {
        val = head;
        let r = choice(ext.len() as u32) as usize;
        let fwd = choice(2) == 0;
        let n = ext.len();
        let known = 6;
        for i in 0..n {
            let j = if fwd { (i + r) % n } else { (n - 1 + r - i) % n };
            // unknown extensions are the last entries: emit them in their own order
            if j >= known {
                let seen: usize = (0..i).filter(|&i2| (if fwd { (i2 + r) % n } else { (n - 1 + r - i2) % n }) >= known).count();
                val += &ext[known + seen];
            } else {
                val += &ext[j];
            }
        }
    }
    G { name: "candidate", val, canon: format!("candidate:{}", canon), exp: SdpAttribute::Candidate(c) }
}
pub fn extmap(mut f: F) -> G {
    let (i, id) = u16v(f.on());
    let (d, direction) = match if f.on() { choice(4) } else { 0 } {
        0 => ("", None),
        1 => ("/recvonly", Some(SdpAttributeDirection::Recvonly)),
        2 => ("/sendonly", Some(SdpAttributeDirection::Sendonly)),
        _ => ("/sendrecv", Some(SdpAttributeDirection::Sendrecv)),
    };
    let url = strv(f.on(), &[]);
    let mut v = format!("{}{} {}", i, d, url);
    let mut extension_attributes = None;
    if f.on() {
        let e = match [1, 2, 3, 4, 5, 6, 17][choice(7) as usize] {
            1 => strv(true, &[]),
            n => strs(n, &[]).join(" "),
        };
        v = format!("{} {}", v, e);
        extension_attributes = Some(e);
    }
    g("extmap", v, SdpAttribute::Extmap(SdpAttributeExtmap { id, direction, url, extension_attributes }))
}
pub fn hexu() -> (u8, u8) {
    let b = byte(127);
    assume(((b >= b'0') & (b <= b'9')) | ((b >= b'A') & (b <= b'F')));
    (b, (b & 15) + (b >> 6) * 9)
}
pub const HASHES: &[(&str, usize, SdpAttributeFingerprintHashType)] = &[
    ("sha-256", 32, SdpAttributeFingerprintHashType::Sha256),
    ("sha-1", 20, SdpAttributeFingerprintHashType::Sha1),
    ("sha-224", 28, SdpAttributeFingerprintHashType::Sha224),
    ("sha-384", 48, SdpAttributeFingerprintHashType::Sha384),
    ("sha-512", 64, SdpAttributeFingerprintHashType::Sha512),
];
pub fn fingerprint(full: bool) -> G {
    let (h, n, t) = HASHES[if full { choice(5) as usize } else { 0 }];
    let mut v = String::from(h) + " ";
    let mut bytes = vec![];
    // symbolic octets at one position of every hash, the rest distinct constants
    let at = if full { [0, 1, n / 2, n - 2, n - 1][choice(5) as usize] } else { 3 };
    for i in 0..n {
        if i > 0 {
            v.push(':');
        }
        if i == at || (full && i == (at + 5) % n) {
            let (a, x) = hexu();
            let (b, y) = hexu();
            v.push_str(&st(vec![a, b]));
            bytes.push(x * 16 + y);
        } else {
            let x = (i * 37 + 11) as u8;
            v.push_str(&format!("{:02X}", x));
            bytes.push(x);
        }
    }
    g("fingerprint", v, SdpAttribute::Fingerprint(SdpAttributeFingerprint { hash_algorithm: t, fingerprint: bytes }))
}
/// fmtp: any pair of parameters (in canonical order), red, telephone-event, unknown
pub fn fmtp() -> G {
    let (s, pt) = u8v(choice(2) == 1);
    let mut p = default_params();
    let v = match choice(4) {
        0 => {
            // two known parameters in printing order
            let i = choice(24) as usize;
            let a = fparam(i, &mut p, true);
            let j = i + 1 + choice(3) as usize;
            if j < 24 {
                format!("{};{}", a, fparam(j, &mut p, false))
            } else {
                a
            }
        }
        1 => {
            // everything at once
            let mut v = vec![];
            for i in 0..24 {
                v.push(fparam(i, &mut p, false));
            }
            v.join(";")
        }
        2 => {
            let n = [2, 3, 4, 5, 9][choice(5) as usize];
            let mut v = vec![];
            for i in 0..n {
                let (t, x) = sized(if i == 0 { 1 } else { 2 }, 128);
                v.push(t);
                p.encodings.push(x as u8);
            }
            v.join("/")
        }
        _ => {
            let (a, x) = sized(1, 9);
            let (b, y) = sized(2, 100);
            let (c, _) = sized(1, 9);
            let v = match choice(4) {
                0 => format!("{}-{}", a, b),
                1 => format!("{},{}", a, b),
                2 => format!("{}-{},{}", a, b, c),
                _ => format!("{},{}-100,{}", c, b, a),
            };
            assume(x < y);
            assume(y < 100);
            p.dtmf_tones = v.clone();
            v
        }
    };
    g("fmtp", format!("{} {}", s, v), SdpAttribute::Fmtp(SdpAttributeFmtp { payload_type: pt, parameters: p }))
}
/// the i-th parameter in printing order with a value that is printed
pub fn fparam(i: usize, p: &mut SdpAttributeFmtpParameters, full: bool) -> String {
    let mut nz = |n: &str, f: &mut u32, d: u32| {
        let (s, x) = u32v(full);
        assume(x != d);
        *f = x;
        format!("{}={}", n, s)
    };
    match i {
        0 => {
            let (s, x) = u8v(full);
            p.rtx = Some(RtxFmtpParameters { apt: x, rtx_time: None });
            if full && choice(2) == 1 {
                let (t, y) = u32v(true);
                p.rtx = Some(RtxFmtpParameters { apt: x, rtx_time: Some(y) });
                format!("apt={};rtx-time={}", s, t)
            } else {
                format!("apt={}", s)
            }
        }
        1 => {
            let (a, x) = hexl();
            let (b, y) = hexl();
            let v = ((x as u32) << 20) | 0x2e00 | y as u32;
            assume(v != 0x42000a);
            p.profile_level_id = v;
            format!("profile-level-id={}02e0{}", st(vec![a]), st(vec![b]))
        }
        2 => {
            p.level_asymmetry_allowed = true;
            "level-asymmetry-allowed=1".to_string()
        }
        3 => {
            let d = rng(b'1', b'2');
            p.packetization_mode = (d - b'0') as u32;
            format!("packetization-mode={}", d as char)
        }
        4 => nz("max-fs", &mut p.max_fs, 0),
        5 => nz("max-cpb", &mut p.max_cpb, 0),
        6 => nz("max-dpb", &mut p.max_dpb, 0),
        7 => nz("max-br", &mut p.max_br, 0),
        8 => nz("max-mbps", &mut p.max_mbps, 0),
        9 => nz("max-fr", &mut p.max_fr, 0),
        10 => {
            let d = rng(b'0', b'2');
            p.profile = Some(d - b'0');
            format!("profile={}", d as char)
        }
        11 => {
            let (s, x) = sized(if full { [1, 2][choice(2) as usize] } else { 2 }, 31);
            p.level_idx = Some(x as u8);
            format!("level-idx={}", s)
        }
        12 => {
            let d = rng(b'0', b'1');
            p.tier = Some(d - b'0');
            format!("tier={}", d as char)
        }
        13 => nz("maxplaybackrate", &mut p.maxplaybackrate, 48000),
        14 => nz("maxaveragebitrate", &mut p.maxaveragebitrate, 0),
        15 => nz("ptime", &mut p.ptime, 0),
        16 => nz("minptime", &mut p.minptime, 0),
        17 => nz("maxptime", &mut p.maxptime, 0),
        18 => {
            p.usedtx = true;
            "usedtx=1".to_string()
        }
        19 => {
            p.stereo = true;
            "stereo=1".to_string()
        }
        20 => {
            p.useinbandfec = true;
            "useinbandfec=1".to_string()
        }
        21 => {
            p.cbr = true;
            "cbr=1".to_string()
        }
        _ => {
            let s = format!("x-{}={}", strv(full && i == 22, b"=;"), strv(full && i == 23, b";"));
            p.unknown_tokens.push(s.clone());
            s
        }
    }
}
fn pt_or_star(full: bool) -> (String, SdpAttributePayloadType) {
    if full && choice(2) == 1 {
        ("*".to_string(), SdpAttributePayloadType::Wildcard)
    } else {
        let (s, x) = u8v(full);
        (s, SdpAttributePayloadType::PayloadType(x))
    }
}
fn xy(full: bool) -> (String, SdpAttributeImageAttrXyRange) {
    use SdpAttributeImageAttrXyRange::*;
    let k = if full { choice(6) } else { 0 };
    let (a, x) = u32v(full && k < 4);
    if k == 0 {
        return (a, DiscreteValues(vec![x]));
    }
    let (b, y) = sized(4, u32::MAX as u64);
    let (c, z) = sized(2, u32::MAX as u64);
    let (y, z) = (y as u32, z as u32);
    match k {
        1 => (format!("[{}:{}]", a, b), Range(x, y, None)),
        2 => (format!("[{}:{}:{}]", a, c, b), Range(x, y, Some(z))),
        3 => (format!("[{},{},{}]", a, b, c), DiscreteValues(vec![x, y, z])),
        4 => (format!("[{},{}]", a, b), DiscreteValues(vec![x, y])),
        _ => (format!("[{},{},7,7,{},9]", a, b, c), DiscreteValues(vec![x, y, 7, 7, z, 9])),
    }
}
fn imageset(full: bool) -> (String, SdpAttributeImageAttrSet) {
    use SdpAttributeImageAttrSRange::*;
    let mut f = if full { F::new(5) } else { F::plain() };
    let (a, x) = xy(f.on());
    let (b, y) = xy(f.on());
    let mut v = format!("[x={},y={}", a, b);
    let mut set = SdpAttributeImageAttrSet { x, y, sar: None, par: None, q: None };
    if f.on() {
        let (s, r) = match choice(4) {
            0 => ("1.1", DiscreteValues(vec![1.1])),
            1 => ("[0.1-0.5]", Range(0.1, 0.5)),
            2 => ("[0.5,0.6]", DiscreteValues(vec![0.5, 0.6])),
            _ => ("[1.1,1.3,9.9999]", DiscreteValues(vec![1.1, 1.3, 9.9999])),
        };
        v = v + ",sar=" + s;
        set.sar = Some(r);
    }
    if f.on() {
        let (s, r) = match choice(3) {
            0 => ("[1.2-1.3]", (1.2, 1.3)),
            1 => ("[0.1-9.9999]", (0.1, 9.9999)),
            _ => ("[1-2]", (1.0, 2.0)),
        };
        v = v + ",par=" + s;
        set.par = Some(SdpAttributeImageAttrPRange { min: r.0, max: r.1 });
    }
    if f.on() {
        let (s, r) = [("0.5", 0.5f32), ("0", 0.0), ("1", 1.0), ("0.25", 0.25), ("0.01", 0.01), ("1.5", 1.5), ("100", 100.0), ("-0.5", -0.5)][choice(8) as usize];
        v = v + ",q=" + s;
        set.q = Some(r);
    }
    (v + "]", set)
}
fn imagesets(k: usize, full: bool) -> (String, SdpAttributeImageAttrSetList) {
    if k == 0 {
        return ("*".to_string(), SdpAttributeImageAttrSetList::Wildcard);
    }
    let mut t = vec![];
    let mut v = vec![];
    for i in 0..k {
        let (a, b) = imageset(full && i == 0);
        t.push(a);
        v.push(b);
    }
    (t.join(" "), SdpAttributeImageAttrSetList::Sets(v))
}
pub fn imageattr(full: bool) -> G {
    let none = || SdpAttributeImageAttrSetList::Sets(vec![]);
    let which = if full { choice(3) } else { 0 };
    let (a, pt) = pt_or_star(full && which == 0);
    let k = if full { [0, 1, 2, 3, 6][choice(if brief() { 3 } else { 5 }) as usize] } else { 1 };
    let (s, l) = imagesets(k, full);
    let order = full && choice(2) == 1;
    let (val, canon, send, recv);
    match which {
        0 => {
            val = format!("{} send {}", a, s);
            canon = val.clone();
            send = l;
            recv = none();
        }
        1 => {
            val = format!("{} recv {}", a, s);
            canon = val.clone();
            send = none();
            recv = l;
        }
        _ => {
            let (t, m) = imagesets(choice(3) as usize, false);
            canon = format!("{} send {} recv {}", a, s, t);
            val = if order { format!("{} recv {} send {}", a, t, s) } else { canon.clone() };
            send = l;
            recv = m;
        }
    }
    G { name: "imageattr", val, canon: format!("imageattr:{}", canon), exp: SdpAttribute::ImageAttr(SdpAttributeImageAttr { pt, send, recv }) }
}
pub fn rid(mut f: F) -> G {
    let id = strv(f.on(), &[]);
    let (d, direction) = if f.on() { ("recv", SdpSingleDirection::Recv) } else { ("send", SdpSingleDirection::Send) };
    let mut p = SdpAttributeRidParameters { max_width: 0, max_height: 0, max_fps: 0, max_fs: 0, max_br: 0, max_pps: 0, unknown: vec![] };
    let mut formats = vec![];
    let mut depends = vec![];
    let mut parts: Vec<String> = vec![];
    let (a, b, c) = (f.on(), f.on(), f.on());
    let all = f.on();
    if a || all {
        let n = if a { count1() } else { 2 };
        let mut v = vec![];
        for i in 0..n {
            let (s, x) = if i < 2 { u16v(a && i == 1 && n <= 3) } else { (format!("{}", 96 + i), 96 + i as u16) };
            v.push(s);
            formats.push(x);
        }
        parts.push(format!("pt={}", v.join(",")));
    }
    {
        let which = if b { choice(6) } else { 6 };
        let mut one = |i: u32, n: &str, f: &mut u32, parts: &mut Vec<String>| {
            if all || which == i {
                let (s, x) = u32v(b);
                assume(x != 0);
                *f = x;
                parts.push(format!("{}={}", n, s));
            }
        };
        one(0, "max-width", &mut p.max_width, &mut parts);
        one(1, "max-height", &mut p.max_height, &mut parts);
        one(2, "max-fps", &mut p.max_fps, &mut parts);
        one(3, "max-fs", &mut p.max_fs, &mut parts);
        one(4, "max-br", &mut p.max_br, &mut parts);
        one(5, "max-pps", &mut p.max_pps, &mut parts);
    }
    if c || all {
        let n = if c { [1, 2, 4][choice(3) as usize] } else { 1 };
        for i in 0..n {
            let s = format!("x-{}={}", strv(c && i == 0, b"=;"), strv(c && i == 1, b";"));
            parts.push(s.clone());
            p.unknown.push(s);
        }
    }
    let dep = f.on();
    if dep || all {
        let n = if dep { count1() } else { 1 };
        depends = strs(n, b",;");
        parts.push(format!("depends={}", depends.join(",")));
    }
    let canon = if parts.is_empty() { format!("{} {}", id, d) } else { format!("{} {} {}", id, d, parts.join(";")) };
    // parameters other than pt may come in any order
    let mut val = canon.clone();
    if all && choice(2) == 1 {
        let first = parts.remove(0);
        parts.reverse();
        val = format!("{} {} {};{}", id, d, first, parts.join(";"));
    }
    G { name: "rid", val, canon: format!("rid:{}", canon), exp: SdpAttribute::Rid(SdpAttributeRid { id, direction, formats, params: p, depends }) }
}
pub fn rtcpfb(full: bool) -> G {
    use SdpAttributeRtcpFbType::*;
    let (a, payload_type) = pt_or_star(full);
    const T: &[(&str, &str)] = &[
        ("nack", ""), ("nack", "pli"), ("nack", "sli"), ("nack", "rpsi"), ("nack", "app"), ("ccm", ""), ("ccm", "fir"), ("ccm", "tmmbr"),
        ("ccm", "tstr"), ("ccm", "vbcm"), ("ack", "rpsi"), ("ack", "app"), ("trr-int", "N"), ("goog-remb", ""), ("transport-cc", ""),
    ];
    let (t, p) = T[if full { choice(15) as usize } else { 1 }];
    let p = if p == "N" { u32v(full).0 } else { p.to_string() };
    let mut v = format!("{} {}", a, t);
    let mut extra = String::new();
    if !p.is_empty() {
        v = format!("{} {}", v, p);
        if full && choice(2) == 1 {
            extra = if choice(2) == 0 { tok(2, &[]) } else { format!("{} {}", tok(1, &[]), tok(1, &[])) };
            v = format!("{} {}", v, extra);
        }
    }
    let feedback_type = match t {
        "nack" => Nack,
        "ccm" => Ccm,
        "ack" => Ack,
        "trr-int" => TrrInt,
        "goog-remb" => Remb,
        _ => TransCc,
    };
    g("rtcp-fb", v, SdpAttribute::Rtcpfb(SdpAttributeRtcpFb { payload_type, feedback_type, parameter: p, extra }))
}
const SIMBAD: &[u8] = b"~,;=";
pub fn simlist(n: usize, m: usize, full: bool) -> (String, Vec<SdpAttributeSimulcastVersion>) {
    let mut t = vec![];
    let mut v = vec![];
    for i in 0..n {
        let mut ids = vec![];
        let mut s = vec![];
        for j in 0..(if i == 0 { m } else { 1 }) {
            let id = strv(full && i == 0 && j == 0, SIMBAD);
            let paused = if full && i + j < 3 { choice(2) == 1 } else { false };
            // only the first tilde marks a paused id
            let id = if paused && full && i + j == 0 && choice(2) == 1 { format!("~{}", id) } else { id };
            s.push(format!("{}{}", if paused { "~" } else { "" }, id));
            ids.push(SdpAttributeSimulcastId { id, paused });
        }
        t.push(s.join(","));
        v.push(SdpAttributeSimulcastVersion { ids });
    }
    (t.join(";"), v)
}
pub fn simulcast(full: bool) -> G {
    let (n, m) = if full { [(1, 1), (1, 2), (2, 1), (3, 1), (2, 3), (6, 1), (1, 5)][choice(7) as usize] } else { (1, 1) };
    let (s, l) = simlist(n, m, full);
    let rid = full && choice(2) == 1;
    let pre = if rid { "rid=" } else { "" };
    let (val, canon, send, receive);
    match if full { choice(4) } else { 0 } {
        0 => {
            val = format!("send {}{}", pre, s);
            canon = format!("send {}", s);
            send = l;
            receive = vec![];
        }
        1 => {
            val = format!("recv {}{}", pre, s);
            canon = format!("recv {}", s);
            send = vec![];
            receive = l;
        }
        k => {
            let (t, r) = simlist(1, 2, false);
            canon = format!("send {} recv {}", s, t);
            val = if k == 2 { format!("send {}{} recv {}", pre, s, t) } else { format!("recv {} send {}{}", t, pre, s) };
            send = l;
            receive = r;
        }
    }
    G { name: "simulcast", val, canon: format!("simulcast:{}", canon), exp: SdpAttribute::Simulcast(SdpAttributeSimulcast { send, receive }) }
}
/// five picks of two: a list in which equal elements stand together, apart, first or last
pub fn picks() -> [usize; 5] {
    let k = choice(16) as usize;
    [0, k & 1, k >> 1 & 1, k >> 2 & 1, k >> 3 & 1]
}
pub fn drawn<X: Clone>(p: &[usize], a: X, b: X) -> Vec<X> {
    p.iter().map(|&i| if i == 0 { a.clone() } else { b.clone() }).collect()
}
fn two(bad: &[u8]) -> (String, String) {
    (tok(1, bad), tok(1, bad))
}
/// digit texts with the value; the two may be equal
fn two_digits() -> ((String, u32), (String, u32)) {
    let (a, b) = (dig(), dig());
    ((st(vec![a]), (a - b'0') as u32), (st(vec![b]), (b - b'0') as u32))
}
pub const PATTERNS: u32 = 17;
/// list-valued attributes with equal elements in every arrangement: all are kept, in order
pub fn pattern(k: u32) -> G {
    list_attr(k, None)
}
/// lengths of long lists: all small ones, and those around powers of two
pub fn many() -> usize {
    let k = choice(if deep() { 70 } else { 44 }) as usize;
    if k < 34 { k + 1 } else { [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 130, 200, 258, 300, 400, 511, 512, 513, 600, 700, 1000, 1023, 1024, 1025, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46][k - 34] }
}
/// the attribute with a list of this many elements: the first and the last arbitrary
pub fn long_list(k: u32, n: usize) -> G {
    list_attr(k, Some(n))
}
fn list_attr(k: u32, len: Option<usize>) -> G {
    use SdpAttribute::*;
    let p = if len.is_some() { [0, choice(2) as usize, 0, 0, 0] } else { picks() };
    let nums = || {
        let (a, b) = two_digits();
        let v = match len {
            None => drawn(&p, a, b),
            Some(n) => (0..n).map(|i| if i == 0 { a.clone() } else if i == n - 1 { b.clone() } else { (format!("{}", i % 99 + 1), (i % 99 + 1) as u32) }).collect(),
        };
        (v.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), v.iter().map(|x| x.1).collect::<Vec<_>>())
    };
    let toks = |bad: &[u8]| {
        let (a, b) = two(bad);
        match len {
            None => drawn(&p, a, b),
            Some(n) => (0..n).map(|i| if i == 0 { a.clone() } else if i == n - 1 { b.clone() } else { format!("t{}", i) }).collect(),
        }
    };
    let rid = |text: String, formats: Vec<u16>, depends: Vec<String>, unknown: Vec<String>| {
        let params = SdpAttributeRidParameters { max_width: 0, max_height: 0, max_fps: 0, max_fs: 0, max_br: 0, max_pps: 0, unknown };
        g("rid", format!("1 send {}", text), Rid(SdpAttributeRid { id: "1".to_string(), direction: SdpSingleDirection::Send, formats, params, depends }))
    };
    let red = |text: String, f: &dyn Fn(&mut SdpAttributeFmtpParameters)| {
        let mut q = default_params();
        f(&mut q);
        g("fmtp", format!("97 {}", text), Fmtp(SdpAttributeFmtp { payload_type: 97, parameters: q }))
    };
    let image = |text: String, v: Vec<SdpAttributeImageAttrSet>| {
        let l = SdpAttributeImageAttrSetList::Sets(v);
        let e = SdpAttributeImageAttrSetList::Sets(vec![]);
        let (w, send, recv) = if p[1] == 0 { ("send", l, e) } else { ("recv", e, l) };
        g("imageattr", format!("* {} {}", w, text), ImageAttr(SdpAttributeImageAttr { pt: SdpAttributePayloadType::Wildcard, send, recv }))
    };
    let set = |x: SdpAttributeImageAttrXyRange, y: SdpAttributeImageAttrXyRange| SdpAttributeImageAttrSet { x, y, sar: None, par: None, q: None };
    let dv = SdpAttributeImageAttrXyRange::DiscreteValues;
    let sim = |l: Vec<SdpAttributeSimulcastVersion>, t: String| {
        let (w, send, receive) = if p[1] == 0 { ("send", l, vec![]) } else { ("recv", vec![], l) };
        g("simulcast", format!("{} {}", w, t), Simulcast(SdpAttributeSimulcast { send, receive }))
    };
    let sid = |s: &String| SdpAttributeSimulcastId { id: s.clone(), paused: false };
    match k {
        0 => {
            let tags = toks(&[]);
            g("group", format!("LS {}", tags.join(" ")), Group(SdpAttributeGroup { semantics: SdpAttributeGroupSemantic::LipSynchronization, tags }))
        }
        1 => {
            let tags = toks(&[]);
            g("ice-options", tags.join(" "), IceOptions(tags))
        }
        2 => {
            let msids = toks(&[]);
            g("msid-semantic", format!("WMS {}", msids.join(" ")), MsidSemantic(SdpAttributeMsidSemantic { semantic: "WMS".to_string(), msids }))
        }
        3 => {
            let (t, v) = nums();
            let ids = v.into_iter().map(|id| SdpAttributeSsrc { id, attribute: None, value: None }).collect();
            g("ssrc-group", format!("SIM {}", t.join(" ")), SsrcGroup(SdpSsrcGroupSemantic::Sim, ids))
        }
        4 => {
            let (t, v) = nums();
            rid(format!("pt={}", t.join(",")), v.into_iter().map(|x| x as u16).collect(), vec![], vec![])
        }
        5 => {
            let d = toks(b",;");
            rid(format!("depends={}", d.join(",")), vec![], d, vec![])
        }
        6 => {
            let u: Vec<String> = toks(b";=").iter().map(|x| format!("x-{}={}", x, x)).collect();
            rid(u.join(";"), vec![], vec![], u)
        }
        7 => {
            let v = toks(SIMBAD);
            sim(v.iter().map(|s| SdpAttributeSimulcastVersion { ids: vec![sid(s)] }).collect(), v.join(";"))
        }
        8 => {
            let v = toks(SIMBAD);
            sim(vec![SdpAttributeSimulcastVersion { ids: v.iter().map(sid).collect() }], v.join(","))
        }
        9 => {
            let (t, v) = nums();
            red(t.join("/"), &|q| q.encodings = v.iter().map(|&x| x as u8).collect())
        }
        10 => {
            let u: Vec<String> = toks(b";=").iter().map(|x| format!("x-{}={}", x, x)).collect();
            red(u.join(";"), &|q| q.unknown_tokens = u.clone())
        }
        11 => {
            let (t, v) = nums();
            image(format!("[x=[{}],y=1]", t.join(",")), vec![set(dv(v), dv(vec![1]))])
        }
        12 => {
            let (t, v) = nums();
            image(format!("[x=2,y=[{}]]", t.join(",")), vec![set(dv(vec![2]), dv(v))])
        }
        13 => {
            let (t, v) = nums();
            let t: Vec<String> = t.iter().map(|x| format!("[x={},y=3]", x)).collect();
            image(t.join(" "), v.into_iter().map(|x| set(dv(vec![x]), dv(vec![3]))).collect())
        }
        14 => {
            // unknown candidate extensions: equal names, equal values, equal pairs
            let (a, b) = two(&[]);
            let (c, d) = two(&[]);
            let q = if len.is_some() { 3 } else { choice(4) as usize };
            let mut x = SdpAttributeCandidate::new(
                "1".to_string(), 1, SdpAttributeCandidateTransport::Udp, 5,
                Address::Ip(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1))), 9, SdpAttributeCandidateType::Host,
            );
            let mut v = "1 1 UDP 5 10.0.0.1 9 typ host".to_string();
            for i in 0..len.unwrap_or(5) {
                let n = format!("x-{}", if p[i % 5] == 0 { &a } else { &b });
                let w = if p[i % 5] == 0 || q >> (i % 2) & 1 == 0 { c.clone() } else { d.clone() };
                v = format!("{} {} {}", v, n, w);
                x.unknown_extensions.push((n, w));
            }
            g("candidate", v, Candidate(x))
        }
        15 => {
            let e = toks(&[]).join(" ");
            g("extmap", format!("3 urn:x {}", e), Extmap(SdpAttributeExtmap { id: 3, direction: None, url: "urn:x".to_string(), extension_attributes: Some(e) }))
        }
        _ => {
            // dtmf events are kept as they are written, in any order
            let a = rng(b'1', b'9');
            let b = rng(b'1', b'9');
            let mut e = drawn(&p, st(vec![a]), st(vec![b]));
            if let Some(n) = len {
                e = (0..n).map(|i| format!("{}", i * 7 % 101)).collect();
                e[n - 1] = st(vec![a]);
            }
            let e = e.join(",");
            red(e.clone(), &|q| q.dtmf_tones = e.clone())
        }
    }
}
/// the text is accepted as exactly this value, which prints as its canonical text
pub fn agrees(g: &G, label: &str) {
    let t = if g.val.is_empty() { g.name.to_string() } else { format!("{}:{}", g.name, g.val) };
    match pa(&t) {
        None => check(false, "a well-formed attribute is rejected"),
        Some(a) => {
            check(attr_eq(&a, &g.exp), "the parsed value differs from the text");
            let p = a.to_string();
            observe(p.as_bytes());
            check(s_eq(&p, &g.canon), "the printed text differs from the value");
            cover(label);
        }
    }
}
