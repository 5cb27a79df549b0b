//! Text building with symbolic holes, and structural equality written independently of the
//! code under test.
use super::sym::*;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

pub struct T(pub Vec<u8>);

/// one arbitrary byte from lo..=hi
pub fn rng(lo: u8, hi: u8) -> u8 {
    let b = byte(hi);
    assume(b >= lo);
    b
}
/// decimal digit
pub fn dig() -> u8 {
    rng(b'0', b'9')
}
pub fn digs(n: usize) -> (Vec<u8>, u64) {
    let mut v = vec![];
    let mut x = 0u64;
    for i in 0..n {
        let d = if i == 0 && n > 1 { rng(b'1', b'9') } else { dig() };
        v.push(d);
        x = x * 10 + (d - b'0') as u64;
    }
    (v, x)
}
/// the interesting prefixes of long numbers: the last two digits stay symbolic
const LONG: &[(usize, &[&str])] = &[
    (9, &["9999999", "1048576", "7000000"]),
    (10, &["42949672", "21474836", "10000000", "99999999", "76543210"]),
    (11, &["429496729", "100000000"]),
    (16, &["90071992547409", "12345678901234"]),
    (18, &["1234567890123456", "9999999999999999"]),
    (19, &["92233720368547758", "99999999999999999", "10000000000000000"]),
    (20, &["184467440737095516", "999999999999999999", "100000000000000000"]),
    (21, &["1844674407370955161", "1000000000000000000"]),
];
/// an n-digit number and its value (None when it does not fit into 64 bits): every digit is
/// arbitrary up to 8 digits, the last two of longer ones, after each of a few prefixes
pub fn num(n: usize) -> (Vec<u8>, Option<u64>) {
    if n <= 8 {
        let (v, x) = digs(n);
        return (v, Some(x));
    }
    for (m, p) in LONG {
        if *m == n {
            let p = pick(p);
            let mut v = p.as_bytes().to_vec();
            let a = dig();
            let b = dig();
            v.push(a);
            v.push(b);
            let two = ((a - b'0') * 10 + (b - b'0')) as u64;
            let x = match p.parse::<u64>() {
                Ok(x) if x < 184467440737095516 => Some(x * 100 + two),
                Ok(x) if x == 184467440737095516 && two <= 15 => Some(x * 100 + two),
                _ => None,
            };
            return (v, x);
        }
    }
    unreachable!()
}
fn is_in(b: u8, s: &[u8]) -> bool {
    // no short circuit, so that the executor does not fork
    let mut r = false;
    for &c in s {
        r |= b == c;
    }
    r
}
/// printable non-blank ASCII byte outside `bad`
pub fn tchar(bad: &[u8]) -> u8 {
    let b = rng(0x21, 0x7e);
    assume(!is_in(b, bad));
    b
}
pub fn tok(n: usize, bad: &[u8]) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(tchar(bad));
    }
    st(v)
}
pub fn st(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// one of the bytes in `set`
pub fn one(set: &[u8]) -> u8 {
    let b = byte(127);
    assume(is_in(b, set));
    b
}
/// arbitrary ASCII bytes
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte(127));
    }
    st(v)
}
/// arbitrary ASCII bytes other than line ends
pub fn nonl(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte(127);
        assume((b != b'\n') & (b != b'\r'));
        v.push(b);
    }
    st(v)
}
/// one of several texts; the executor explores all of them
pub fn pick<'a>(alts: &[&'a str]) -> &'a str {
    alts[choice(alts.len() as u32) as usize]
}
/// `s` with every letter in upper or lower case
pub fn anycase(s: &str) -> String {
    let mut v = vec![];
    for &c in s.as_bytes() {
        if c.is_ascii_alphabetic() {
            v.push(one(&[c.to_ascii_lowercase(), c.to_ascii_uppercase()]));
        } else {
            v.push(c);
        }
    }
    st(v)
}

impl T {
    pub fn new() -> T {
        T(Vec::with_capacity(256))
    }
    pub fn of(s: &str) -> T {
        T::new().l(s)
    }
    pub fn l(mut self, s: &str) -> T {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    pub fn b(mut self, s: &[u8]) -> T {
        self.0.extend_from_slice(s);
        self
    }
    /// n arbitrary ASCII bytes
    pub fn any(self, n: usize) -> T {
        let s = ascii(n);
        self.l(&s)
    }
    pub fn nonl(self, n: usize) -> T {
        let s = nonl(n);
        self.l(&s)
    }
    pub fn tok(self, n: usize) -> T {
        let s = tok(n, &[]);
        self.l(&s)
    }
    pub fn d(self, n: usize) -> T {
        let (v, _) = num(n);
        self.b(&v)
    }
    pub fn pick(self, alts: &[&str]) -> T {
        let s = pick(alts);
        self.l(s)
    }
    pub fn s(self) -> String {
        st(self.0)
    }
}

// ---------------------------------------------------------------------------------------------
// structural equality

pub fn b_eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}
pub fn s_eq(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}
pub fn v_eq<X>(a: &[X], b: &[X], f: impl Fn(&X, &X) -> bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if !f(&a[i], &b[i]) {
            return false;
        }
    }
    true
}
pub fn o_eq<X>(a: &Option<X>, b: &Option<X>, f: impl Fn(&X, &X) -> bool) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => f(a, b),
        _ => false,
    }
}
pub fn str_eq(a: &String, b: &String) -> bool {
    s_eq(a, b)
}
pub fn u32_eq(a: &u32, b: &u32) -> bool {
    a == b
}
pub fn f32_eq(a: &f32, b: &f32) -> bool {
    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
}
pub fn ip_eq(a: &std::net::IpAddr, b: &std::net::IpAddr) -> bool {
    use std::net::IpAddr::*;
    match (a, b) {
        (V4(a), V4(b)) => a.octets() == b.octets(),
        (V6(a), V6(b)) => a.octets() == b.octets(),
        _ => false,
    }
}
pub fn addr_eq(a: &Address, b: &Address) -> bool {
    match (a, b) {
        (Address::Fqdn(a), Address::Fqdn(b)) => s_eq(a, b),
        (Address::Ip(a), Address::Ip(b)) => ip_eq(a, b),
        _ => false,
    }
}
pub fn eaddr_eq(a: &ExplicitlyTypedAddress, b: &ExplicitlyTypedAddress) -> bool {
    use ExplicitlyTypedAddress::*;
    match (a, b) {
        (Fqdn { address_type: t, domain: d }, Fqdn { address_type: u, domain: e }) => {
            (*t as u32) == (*u as u32) && s_eq(d, e)
        }
        (Ip(a), Ip(b)) => ip_eq(a, b),
        _ => false,
    }
}
pub fn conn_eq(a: &SdpConnection, b: &SdpConnection) -> bool {
    eaddr_eq(&a.address, &b.address) && a.ttl == b.ttl && a.amount == b.amount
}
pub fn bw_eq(a: &SdpBandwidth, b: &SdpBandwidth) -> bool {
    use SdpBandwidth::*;
    match (a, b) {
        (As(a), As(b)) | (Ct(a), Ct(b)) | (Tias(a), Tias(b)) => a == b,
        (Unknown(s, a), Unknown(t, b)) => s_eq(s, t) && a == b,
        _ => false,
    }
}
pub fn fmts_eq(a: &SdpFormatList, b: &SdpFormatList) -> bool {
    use SdpFormatList::*;
    match (a, b) {
        (Integers(a), Integers(b)) => v_eq(a, b, u32_eq),
        (Strings(a), Strings(b)) => v_eq(a, b, str_eq),
        _ => false,
    }
}
pub fn pt_eq(a: &SdpAttributePayloadType, b: &SdpAttributePayloadType) -> bool {
    use SdpAttributePayloadType::*;
    match (a, b) {
        (PayloadType(a), PayloadType(b)) => a == b,
        (Wildcard, Wildcard) => true,
        _ => false,
    }
}
pub fn ssrc_eq(a: &SdpAttributeSsrc, b: &SdpAttributeSsrc) -> bool {
    a.id == b.id && o_eq(&a.attribute, &b.attribute, str_eq) && o_eq(&a.value, &b.value, str_eq)
}
pub fn params_eq(a: &SdpAttributeFmtpParameters, b: &SdpAttributeFmtpParameters) -> bool {
    a.packetization_mode == b.packetization_mode
        && a.level_asymmetry_allowed == b.level_asymmetry_allowed
        && a.profile_level_id == b.profile_level_id
        && a.max_fs == b.max_fs
        && a.max_cpb == b.max_cpb
        && a.max_dpb == b.max_dpb
        && a.max_br == b.max_br
        && a.max_mbps == b.max_mbps
        && a.max_fr == b.max_fr
        && a.profile == b.profile
        && a.level_idx == b.level_idx
        && a.tier == b.tier
        && a.maxplaybackrate == b.maxplaybackrate
        && a.maxaveragebitrate == b.maxaveragebitrate
        && a.usedtx == b.usedtx
        && a.stereo == b.stereo
        && a.useinbandfec == b.useinbandfec
        && a.cbr == b.cbr
        && a.ptime == b.ptime
        && a.minptime == b.minptime
        && a.maxptime == b.maxptime
        && b_eq(&a.encodings, &b.encodings)
        && s_eq(&a.dtmf_tones, &b.dtmf_tones)
        && match (&a.rtx, &b.rtx) {
            (None, None) => true,
            (Some(x), Some(y)) => x.apt == y.apt && x.rtx_time == y.rtx_time,
            _ => false,
        }
        && v_eq(&a.unknown_tokens, &b.unknown_tokens, str_eq)
}
pub fn default_params() -> SdpAttributeFmtpParameters {
    SdpAttributeFmtpParameters {
        packetization_mode: 0,
        level_asymmetry_allowed: false,
        profile_level_id: 0x42000a,
        max_fs: 0,
        max_cpb: 0,
        max_dpb: 0,
        max_br: 0,
        max_mbps: 0,
        max_fr: 0,
        profile: None,
        level_idx: None,
        tier: None,
        maxplaybackrate: 48000,
        maxaveragebitrate: 0,
        usedtx: false,
        stereo: false,
        useinbandfec: false,
        cbr: false,
        ptime: 0,
        minptime: 0,
        maxptime: 0,
        encodings: vec![],
        dtmf_tones: String::new(),
        rtx: None,
        unknown_tokens: vec![],
    }
}
/// an fmtp attribute that prints as nothing
pub fn is_default_fmtp(a: &SdpAttribute) -> bool {
    match a {
        SdpAttribute::Fmtp(f) => params_eq(&f.parameters, &default_params()),
        _ => false,
    }
}
pub fn xy_eq(a: &SdpAttributeImageAttrXyRange, b: &SdpAttributeImageAttrXyRange) -> bool {
    use SdpAttributeImageAttrXyRange::*;
    match (a, b) {
        (Range(a, b, c), Range(d, e, f)) => a == d && b == e && c == f,
        (DiscreteValues(a), DiscreteValues(b)) => v_eq(a, b, u32_eq),
        _ => false,
    }
}
pub fn iset_eq(a: &SdpAttributeImageAttrSet, b: &SdpAttributeImageAttrSet) -> bool {
    use SdpAttributeImageAttrSRange::*;
    xy_eq(&a.x, &b.x)
        && xy_eq(&a.y, &b.y)
        && o_eq(&a.sar, &b.sar, |a, b| match (a, b) {
            (Range(a, b), Range(c, d)) => f32_eq(a, c) && f32_eq(b, d),
            (DiscreteValues(a), DiscreteValues(b)) => v_eq(a, b, f32_eq),
            _ => false,
        })
        && o_eq(&a.par, &b.par, |a, b| f32_eq(&a.min, &b.min) && f32_eq(&a.max, &b.max))
        && o_eq(&a.q, &b.q, f32_eq)
}
pub fn isets_eq(a: &SdpAttributeImageAttrSetList, b: &SdpAttributeImageAttrSetList) -> bool {
    use SdpAttributeImageAttrSetList::*;
    match (a, b) {
        (Sets(a), Sets(b)) => v_eq(a, b, iset_eq),
        (Wildcard, Wildcard) => true,
        _ => false,
    }
}
pub fn simv_eq(a: &SdpAttributeSimulcastVersion, b: &SdpAttributeSimulcastVersion) -> bool {
    v_eq(&a.ids, &b.ids, |a, b| s_eq(&a.id, &b.id) && a.paused == b.paused)
}
pub fn msids_eq(a: &[String], b: &[String]) -> bool {
    // no msid at all and "*" mean the same
    let star = |v: &[String]| v.is_empty() || (v.len() == 1 && s_eq(&v[0], "*"));
    (star(a) && star(b)) || v_eq(a, b, str_eq)
}
pub fn single_eq(a: &SdpSingleDirection, b: &SdpSingleDirection) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}
pub fn d_eq<X>(a: &X, b: &X) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}
pub fn attr_eq(a: &SdpAttribute, b: &SdpAttribute) -> bool {
    use SdpAttribute::*;
    match (a, b) {
        (Candidate(a), Candidate(b)) => {
            s_eq(&a.foundation, &b.foundation)
                && a.component == b.component
                && d_eq(&a.transport, &b.transport)
                && a.priority == b.priority
                && addr_eq(&a.address, &b.address)
                && a.port == b.port
                && d_eq(&a.c_type, &b.c_type)
                && o_eq(&a.raddr, &b.raddr, addr_eq)
                && a.rport == b.rport
                && o_eq(&a.tcp_type, &b.tcp_type, |a, b| d_eq(a, b))
                && a.generation == b.generation
                && o_eq(&a.ufrag, &b.ufrag, str_eq)
                && a.networkcost == b.networkcost
                && v_eq(&a.unknown_extensions, &b.unknown_extensions, |a, b| {
                    s_eq(&a.0, &b.0) && s_eq(&a.1, &b.1)
                })
        }
        (DtlsMessage(a), DtlsMessage(b)) => match (a, b) {
            (SdpAttributeDtlsMessage::Client(a), SdpAttributeDtlsMessage::Client(b)) => s_eq(a, b),
            (SdpAttributeDtlsMessage::Server(a), SdpAttributeDtlsMessage::Server(b)) => s_eq(a, b),
            _ => false,
        },
        (Extmap(a), Extmap(b)) => {
            a.id == b.id
                && o_eq(&a.direction, &b.direction, |a, b| d_eq(a, b))
                && s_eq(&a.url, &b.url)
                && o_eq(&a.extension_attributes, &b.extension_attributes, str_eq)
        }
        (Fingerprint(a), Fingerprint(b)) => {
            d_eq(&a.hash_algorithm, &b.hash_algorithm) && b_eq(&a.fingerprint, &b.fingerprint)
        }
        (Fmtp(a), Fmtp(b)) => a.payload_type == b.payload_type && params_eq(&a.parameters, &b.parameters),
        (FrameRate(a), FrameRate(b)) => a.to_bits() == b.to_bits(),
        (Group(a), Group(b)) => d_eq(&a.semantics, &b.semantics) && v_eq(&a.tags, &b.tags, str_eq),
        (IceOptions(a), IceOptions(b)) => v_eq(a, b, str_eq),
        (IcePacing(a), IcePacing(b))
        | (MaxMessageSize(a), MaxMessageSize(b))
        | (MaxPtime(a), MaxPtime(b))
        | (Ptime(a), Ptime(b))
        | (SctpPort(a), SctpPort(b)) => a == b,
        (IcePwd(a), IcePwd(b))
        | (IceUfrag(a), IceUfrag(b))
        | (Identity(a), Identity(b))
        | (Label(a), Label(b))
        | (Mid(a), Mid(b)) => s_eq(a, b),
        (ImageAttr(a), ImageAttr(b)) => {
            pt_eq(&a.pt, &b.pt) && isets_eq(&a.send, &b.send) && isets_eq(&a.recv, &b.recv)
        }
        (Msid(a), Msid(b)) => s_eq(&a.id, &b.id) && o_eq(&a.appdata, &b.appdata, str_eq),
        (MsidSemantic(a), MsidSemantic(b)) => s_eq(&a.semantic, &b.semantic) && msids_eq(&a.msids, &b.msids),
        (Rid(a), Rid(b)) => {
            let (p, q) = (&a.params, &b.params);
            s_eq(&a.id, &b.id)
                && d_eq(&a.direction, &b.direction)
                && v_eq(&a.formats, &b.formats, |a, b| a == b)
                && p.max_width == q.max_width
                && p.max_height == q.max_height
                && p.max_fps == q.max_fps
                && p.max_fs == q.max_fs
                && p.max_br == q.max_br
                && p.max_pps == q.max_pps
                && v_eq(&p.unknown, &q.unknown, str_eq)
                && v_eq(&a.depends, &b.depends, str_eq)
        }
        (RemoteCandidate(a), RemoteCandidate(b)) => {
            a.component == b.component && addr_eq(&a.address, &b.address) && a.port == b.port
        }
        (Rtpmap(a), Rtpmap(b)) => {
            a.payload_type == b.payload_type
                && s_eq(&a.codec_name, &b.codec_name)
                && a.frequency == b.frequency
                && a.channels == b.channels
        }
        (Rtcp(a), Rtcp(b)) => a.port == b.port && o_eq(&a.unicast_addr, &b.unicast_addr, eaddr_eq),
        (Rtcpfb(a), Rtcpfb(b)) => {
            pt_eq(&a.payload_type, &b.payload_type)
                && d_eq(&a.feedback_type, &b.feedback_type)
                && s_eq(&a.parameter, &b.parameter)
                && s_eq(&a.extra, &b.extra)
        }
        (Sctpmap(a), Sctpmap(b)) => a.port == b.port && a.channels == b.channels,
        (Setup(a), Setup(b)) => d_eq(a, b),
        (Simulcast(a), Simulcast(b)) => v_eq(&a.send, &b.send, simv_eq) && v_eq(&a.receive, &b.receive, simv_eq),
        (Ssrc(a), Ssrc(b)) => ssrc_eq(a, b),
        (SsrcGroup(a, v), SsrcGroup(b, w)) => d_eq(a, b) && v_eq(v, w, ssrc_eq),
        _ => d_eq(a, b) && is_flag(a),
    }
}
pub fn is_flag(a: &SdpAttribute) -> bool {
    use SdpAttribute::*;
    matches!(
        a,
        BundleOnly | EndOfCandidates | ExtmapAllowMixed | IceLite | IceMismatch | Inactive | Recvonly | RtcpMux
            | RtcpMuxOnly | RtcpRsize | Sendonly | Sendrecv
    )
}
pub fn origin_eq(a: &SdpOrigin, b: &SdpOrigin) -> bool {
    s_eq(&a.username, &b.username)
        && a.session_id == b.session_id
        && a.session_version == b.session_version
        && eaddr_eq(&a.unicast_addr, &b.unicast_addr)
}
/// attribute lists are compared without the attributes that print as nothing
pub fn attrs_eq(a: &[SdpAttribute], b: &[SdpAttribute]) -> bool {
    let x: Vec<&SdpAttribute> = a.iter().filter(|a| !is_default_fmtp(a)).collect();
    let y: Vec<&SdpAttribute> = b.iter().filter(|a| !is_default_fmtp(a)).collect();
    v_eq(&x, &y, |a, b| attr_eq(a, b))
}
pub fn media_eq(a: &SdpMedia, b: &SdpMedia) -> bool {
    d_eq(a.get_type(), b.get_type())
        && a.get_port() == b.get_port()
        && a.get_port_count() == b.get_port_count()
        && d_eq(a.get_proto(), b.get_proto())
        && fmts_eq(a.get_formats(), b.get_formats())
        && v_eq(a.get_bandwidth(), b.get_bandwidth(), bw_eq)
        && o_eq(a.get_connection(), b.get_connection(), conn_eq)
        && attrs_eq(a.get_attributes(), b.get_attributes())
}
pub fn session_eq(a: &SdpSession, b: &SdpSession) -> bool {
    a.version == b.version
        && origin_eq(&a.origin, &b.origin)
        && o_eq(&a.session, &b.session, str_eq)
        && o_eq(&a.connection, &b.connection, conn_eq)
        && v_eq(&a.bandwidth, &b.bandwidth, bw_eq)
        && o_eq(&a.timing, &b.timing, |a, b| a.start == b.start && a.stop == b.stop)
        && attrs_eq(&a.attribute, &b.attribute)
        && v_eq(&a.media, &b.media, media_eq)
}

// ---------------------------------------------------------------------------------------------

/// parse an attribute text, recording it as the sample of the path
pub fn pa(s: &str) -> Option<SdpAttribute> {
    note(s.as_bytes());
    match s.parse::<SdpAttribute>() {
        Ok(a) => {
            observe(b"ok");
            Some(a)
        }
        Err(e) => {
            observe(match e {
                error::SdpParserInternalError::Unsupported(_) => b"unsupported",
                _ => b"error",
            });
            None
        }
    }
}
/// parse a whole description
pub fn ps(s: &str, w: bool) -> Option<SdpSession> {
    note(s.as_bytes());
    match parse_sdp(s, w) {
        Ok(a) => {
            observe(b"ok");
            Some(a)
        }
        Err(e) => {
            observe(match e {
                error::SdpParserError::Line { .. } => b"line",
                error::SdpParserError::Unsupported { .. } => b"unsupported",
                error::SdpParserError::Sequence { .. } => b"sequence",
            });
            None
        }
    }
}
pub const HEAD: &str = "v=0\r\no=- 4611731400430051336 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n";

#[macro_export]
macro_rules! harnesses {
    ($(fn $n:ident() $b:block)*) => {
        $( #[no_mangle] pub fn $n() $b )*
        pub const TABLE: &[(&str, fn())] = &[ $((stringify!($n), $n as fn())),* ];
    };
}
