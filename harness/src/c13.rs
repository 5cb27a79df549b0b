//! C13: addresses: what text is an address of which family, agreement with the stated address
//! type, equality and printing.
use super::gen::*;
use super::sym::*;
use super::util::*;
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::error::*;
use webrtc_sdp::*;

fn types(a: &IpAddr) -> AddressType {
    match a {
        IpAddr::V4(_) => AddressType::IpV4,
        IpAddr::V6(_) => AddressType::IpV6,
    }
}
fn ty() -> (&'static str, AddressType) {
    if choice(2) == 0 { ("IP4", AddressType::IpV4) } else { ("IP6", AddressType::IpV6) }
}
fn anyip() -> IpAddr {
    match choice(5) {
        0 => IpAddr::V4(Ipv4Addr::new(byte(255), byte(255), 0, 1)),
        1 => IpAddr::V6(Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, byte(255) as u16 * 256 + byte(255) as u16, 1)),
        2 => IpAddr::V6(Ipv6Addr::new(0, 0, 0, 0, 0, 0, byte(255) as u16 * 256 + byte(255) as u16, 1)),
        3 => special(choice(8)).1,
        _ => IpAddr::V6(v6(true).1),
    }
}
/// a name with letters in any case: (text, lower case)
fn name() -> (String, String) {
    let a = byte(127);
    assume(a.is_ascii_alphabetic());
    let b = byte(127);
    assume(b.is_ascii_alphanumeric());
    let s = st(vec![a, b]);
    let l = st(vec![a | 32, if b.is_ascii_alphabetic() { b | 32 } else { b }]);
    match choice(2) {
        0 => (format!("{}.local", s), format!("{}.local", l)),
        _ => (format!("h.{}", s), format!("h.{}", l)),
    }
}
harnesses! {
    fn h_c13_parse() {
        // an address literal is an address of its family, everything else is a name
        let (t, a) = addr(true);
        note(t.as_bytes());
        match Address::from_str(&t) {
            Ok(x) => {
                check(addr_eq(&x, &a), "an address text yields another address");
                let p = x.to_string();
                check(s_eq(&p, &t), "an address prints as another text");
                cover(match x { Address::Fqdn(_) => "name", Address::Ip(IpAddr::V4(_)) => "v4", Address::Ip(_) => "v6" });
            }
            Err(_) => check(false, "an address is rejected"),
        }
        match network::parse_unicast_address(&t) {
            Ok(x) => check(addr_eq(&x, &a), "a unicast address text yields another address"),
            Err(_) => check(false, "a unicast address is rejected"),
        }
    }
    fn h_c13_typed() {
        // the stated type agrees with the family of a literal, and is kept for a name
        let (t, a) = addr(true);
        let (_, ty) = ty();
        note(t.as_bytes());
        match ExplicitlyTypedAddress::try_from((ty, t.as_str())) {
            Ok(x) => {
                check(x.address_type() == ty, "the type of the address is not the stated one");
                match (&x, &a) {
                    (ExplicitlyTypedAddress::Ip(i), Address::Ip(j)) => { check(ip_eq(i, j), "another address"); check(types(j) == ty, "a literal of the other family is accepted"); cover("ip") }
                    (ExplicitlyTypedAddress::Fqdn { domain, .. }, Address::Fqdn(d)) => { check(s_eq(domain, d), "another name"); cover("name") }
                    _ => check(false, "a literal and a name are confused"),
                }
                check(s_eq(&x.to_string(), &format!("IN {} {}", if ty == AddressType::IpV4 { "IP4" } else { "IP6" }, t)), "the typed address prints as another text");
                let back: Address = x.into();
                check(addr_eq(&back, &a), "the typed address stands for another address");
            }
            Err(e) => {
                match &a {
                    Address::Ip(j) => {
                        check(types(j) != ty, "a literal of the right family is rejected");
                        match e {
                            SdpParserInternalError::AddressTypeMismatch { found, expected } => {
                                check(found == types(j) && expected == ty, "the mismatch names other types");
                                cover("mismatch");
                            }
                            _ => check(false, "a mismatch is reported as something else"),
                        }
                    }
                    _ => check(false, "a name is rejected"),
                }
            }
        }
    }
    fn h_c13_lines() {
        // the same in origin, connection and rtcp
        let (t, a) = addr(true);
        let (n, ty) = ty();
        let l = match choice(3) {
            0 => format!("o=- 1 1 IN {} {}", n, t),
            1 => format!("c=IN {} {}", n, t),
            _ => format!("a=rtcp:9 IN {} {}", n, t),
        };
        note(l.as_bytes());
        let ok = match &a { Address::Ip(i) => types(i) == ty, _ => true };
        match parse_sdp_line(&l, 0) {
            Ok(x) => {
                check(ok, "a literal of the other family is accepted");
                let e = match &x.sdp_type {
                    SdpType::Origin(o) => &o.unicast_addr,
                    SdpType::Connection(c) => &c.address,
                    SdpType::Attribute(attribute_type::SdpAttribute::Rtcp(r)) => match &r.unicast_addr { Some(a) => a, None => return check(false, "the address is lost") },
                    _ => return check(false, "another line"),
                };
                check(e.address_type() == ty, "the type of the address is not the stated one");
                match (e, &a) {
                    (ExplicitlyTypedAddress::Ip(i), Address::Ip(j)) => check(ip_eq(i, j), "another address"),
                    (ExplicitlyTypedAddress::Fqdn { domain, .. }, Address::Fqdn(d)) => check(s_eq(domain, d), "another name"),
                    _ => check(false, "a literal and a name are confused"),
                }
                cover("accepted");
            }
            Err(_) => { check(!ok, "a well-formed line is rejected"); cover("rejected") }
        }
    }
    fn h_c13_type_names() {
        let s = match choice(3) { 0 => tok(3, &[]), 1 => String::from("IP") + &tok(1, &[]), _ => anycase("ip") + &tok(1, &[]) };
        let b = s.as_bytes();
        let ip = s.len() == 3 && (b[0] | 32 == b'i') & (b[1] | 32 == b'p');
        note(s.as_bytes());
        let exp = if ip && b[2] == b'4' { Some(AddressType::IpV4) } else if ip && b[2] == b'6' { Some(AddressType::IpV6) } else { None };
        match (AddressType::from_str(&s), &exp) {
            (Ok(a), Some(e)) => { check(a == *e, "an address type name means another type"); cover("known") }
            (Ok(_), None) => check(false, "an unknown address type is accepted"),
            (Err(SdpParserInternalError::UnknownAddressType(t)), None) => { check(s_eq(&t, &s), "the unknown type is reported as another"); cover("unknown") }
            (Err(_), _) => check(false, "a known address type is rejected"),
        }
        match (network::parse_address_type(&s), &exp) {
            (Ok(a), Some(e)) => check(a == *e, "an address type name means another type"),
            (Ok(_), None) => check(false, "an unknown address type is accepted"),
            (Err(_), e) => check(e.is_none(), "a known address type is rejected"),
        }
        let t = tok(2, &[]);
        let c = t.as_bytes();
        check(network::parse_network_type(&t).is_ok() == ((c[0] | 32 == b'i') & (c[1] | 32 == b'n')), "the network type is not exactly IN");
    }
    fn h_c13_equality() {
        // equality: same literal, or same name in any case
        let k = choice(3);
        let (a, b, same) = match k {
            0 => { let (x, lx) = name(); let (y, ly) = name(); (Address::Fqdn(x), Address::Fqdn(y), s_eq(&lx, &ly)) }
            1 => { let (x, y) = (anyip(), anyip()); (Address::Ip(x), Address::Ip(y), ip_eq(&x, &y)) }
            _ => { let (x, _) = name(); (Address::Fqdn(x), Address::Ip(anyip()), false) }
        };
        check((a == b) == same, "equality of addresses differs from its meaning");
        check((b == a) == same, "equality of addresses is not symmetric");
        check(a == a.clone() && b == b.clone(), "equality of addresses is not reflexive");
        check((a != b) == !same, "inequality of addresses is not the opposite of equality");
        cover(if same { "equal" } else { "different" });
    }
    fn h_c13_typed_equality() {
        let k = choice(3);
        let (_, t1) = ty();
        let (_, t2) = ty();
        let f = |t, d| ExplicitlyTypedAddress::Fqdn { address_type: t, domain: d };
        let (a, b, same) = match k {
            0 => { let (x, lx) = name(); let (y, ly) = name(); (f(t1, x), f(t2, y), t1 == t2 && s_eq(&lx, &ly)) }
            1 => { let (x, y) = (anyip(), anyip()); (ExplicitlyTypedAddress::Ip(x), ExplicitlyTypedAddress::Ip(y), ip_eq(&x, &y)) }
            _ => { let (x, _) = name(); (f(t1, x), ExplicitlyTypedAddress::Ip(anyip()), false) }
        };
        check((a == b) == same, "equality of typed addresses differs from its meaning");
        check((b == a) == same, "equality of typed addresses is not symmetric");
        check(a == a.clone() && b == b.clone(), "equality of typed addresses is not reflexive");
        cover(if same { "equal" } else { "different" });
    }
    fn h_c13_from() {
        let (_, a) = v4(true);
        let (_, b) = v6(true);
        let x = ExplicitlyTypedAddress::from(a);
        let y = ExplicitlyTypedAddress::from(b);
        check(eaddr_eq(&x, &ExplicitlyTypedAddress::Ip(IpAddr::V4(a))) && x.address_type() == AddressType::IpV4, "from an IPv4 address");
        check(eaddr_eq(&y, &ExplicitlyTypedAddress::Ip(IpAddr::V6(b))) && y.address_type() == AddressType::IpV6, "from an IPv6 address");
        check(eaddr_eq(&ExplicitlyTypedAddress::from(IpAddr::V4(a)), &x), "from an IP address");
        check(s_eq(&network::ip_address_to_string(IpAddr::V4(a)), &format!("IN IP4 {}", a)), "printing an IPv4 address");
        check(s_eq(&network::ip_address_to_string(IpAddr::V6(b)), &format!("IN IP6 {}", b)), "printing an IPv6 address");
        check(s_eq(&x.to_string(), &network::ip_address_to_string(IpAddr::V4(a))), "printing a typed address");
        check(IpAddr::V4(a).address_type() == AddressType::IpV4 && IpAddr::V6(b).address_type() == AddressType::IpV6, "the type of an address");
        check(s_eq(&AddressType::IpV4.to_string(), "IP4") && s_eq(&AddressType::IpV6.to_string(), "IP6"), "printing an address type");
        cover("done");
    }
    fn h_c13_print_parse_v4() {
        // any literal prints as a text that is the same literal
        let (a, b) = (byte(255), byte(255));
        let v = match choice(3) { 0 => [a, b, 0, 1], 1 => [127, a, b, 0], _ => [255, 0, a, b] };
        let ip = Ipv4Addr::from(v);
        let t = ip.to_string();
        match Address::from_str(&t) {
            Ok(Address::Ip(IpAddr::V4(x))) => { check(x.octets() == ip.octets(), "a printed IPv4 address is another one"); cover("v4") }
            _ => check(false, "a printed IPv4 address is none"),
        }
    }
    fn h_c13_print_parse_v6() {
        let (a, b) = (byte(255) as u16, byte(255) as u16);
        let ip = match choice(5) {
            0 => Ipv6Addr::new(a * 256 + b, 0, 0, 0, 0, 0, 0, 1),
            1 => Ipv6Addr::new(0x2001, 0xdb8, 0, 0, a, 0, 0, b),
            2 => Ipv6Addr::new(0, 0, 0, 0, 0, 0, a, b),
            3 => Ipv6Addr::new(a, 0, 0, b, 0, 0, 0, 0),
            _ => Ipv6Addr::new(1, 2, 3, 4, 5, 6, 7, a * 256 + b),
        };
        let t = ip.to_string();
        match Address::from_str(&t) {
            Ok(Address::Ip(IpAddr::V6(x))) => { check(x.octets() == ip.octets(), "a printed IPv6 address is another one"); cover("v6") }
            _ => check(false, "a printed IPv6 address is none"),
        }
    }
    fn h_c13_invalid() {
        // texts with a colon that are no IPv6 address are no address at all
        let t = match choice(5) {
            0 => format!("{}::{}::1", lower(1), dig() as char),
            1 => format!("1:2:3:4:5:6:7:8:{}", dig() as char),
            2 => format!("1.2.3.{}:9", dig() as char),
            3 => format!("fe80::12345{}", dig() as char),
            _ => format!("g{}::1", lower(1)),
        };
        note(t.as_bytes());
        check(Address::from_str(&t).is_err(), "an invalid IPv6 address is accepted");
        check(parse_sdp_line(&format!("c=IN IP6 {}", t), 0).is_err(), "an invalid IPv6 address is accepted");
        cover("invalid");
    }
    fn h_c13_literals() {
        // a text with a colon is an address exactly when it is an address literal
        let t = pick(&["fe80::1", "::", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "1::a.b", "1.2.3.4:9", "a:b", "fe80::1%eth0"]);
        let t = match choice(3) { 0 => super::mutate::insert(t), 1 => super::mutate::window(t, 1), _ => super::mutate::window(t, 2) };
        note(t.as_bytes());
        let b = t.as_bytes();
        if b.is_empty() || b[0] == b'[' || !t.contains(':') || (t.contains('%') && !deep()) && b.len() > 9 { return }
        match (Address::from_str(&t), IpAddr::from_str(&t)) {
            (Ok(Address::Ip(a)), Ok(x)) => { check(ip_eq(&a, &x), "an address literal yields another address"); cover("literal") }
            (Err(_), Err(_)) => cover("none"),
            (Ok(_), _) => check(false, "a text with a colon that is no literal is an address"),
            (Err(_), Ok(_)) => check(false, "an address literal is rejected"),
        }
    }
    fn h_c13_zones() {
        // what is added to a literal makes it none
        let c = tok(1, &[]);
        let base = pick(&["fe80::1", "::1", "::ffff:1.2.3.4", "1.2.3.4"]);
        let add = match choice(8) { 0 => format!("%{}", c), 1 => format!("%eth{}", c), 2 => format!("%25{}", c), 3 => format!("/{}", c), 4 => format!(":{}", c), 5 => format!("]:{}", c), 6 => format!("#{}", c), _ => format!("@{}", c) };
        let t = if choice(4) == 0 { format!("{}{}", add, base) } else { format!("{}{}", base, add) };
        note(t.as_bytes());
        let is = IpAddr::from_str(&t);
        match Address::from_str(&t) {
            Ok(Address::Ip(a)) if base.contains(':') || !t.contains('%') => match is { Ok(x) => check(ip_eq(&a, &x), "a literal yields another address"), _ => check(false, "a literal with an addition is accepted") },
            Ok(Address::Fqdn(_)) => check(!t.contains(':'), "a text with a colon is a name"),
            Ok(_) => {}
            Err(_) => check(is.is_err(), "a literal is rejected"),
        }
        cover("added");
    }
    fn h_c13_names() {
        // a name is kept as it stands, but for the letter case
        let (a, b) = (lower(1), lower(2));
        let t = match choice(13) {
            11 => pick(NAMES).to_string(),
            0 => format!("{}.", b),
            1 => format!("{}.{}.", a, b),
            2 => format!("{}-{}", a, b),
            3 => format!("q{0}--{0}", b),
            4 => format!("1{}", b),
            5 => format!("_{}._tcp.{}", a, b),
            6 => format!("a.b.c.d.e.f.g.h.{}", b),
            7 => format!("{}{}", "x".repeat(60), b),
            8 => format!("1.2.3.{}", a),
            9 => format!("www.{}.com", b),
            10 => format!("{}.local.", b),
            _ => format!("in-addr.ip4.{}", b),
        };
        note(t.as_bytes());
        match Address::from_str(&t) {
            Ok(Address::Fqdn(d)) => { check(s_eq(&d, &t), "a name yields another name"); cover("name") }
            Ok(_) => check(false, "a name yields an address"),
            Err(_) => check(false, "a name is rejected"),
        }
        match ExplicitlyTypedAddress::try_from((AddressType::IpV6, t.as_str())) {
            Ok(ExplicitlyTypedAddress::Fqdn { address_type, domain }) => check(address_type == AddressType::IpV6 && s_eq(&domain, &t), "a typed name yields another name"),
            _ => check(false, "a typed name is rejected"),
        }
        let (u, w) = (Address::Fqdn(t.to_uppercase()), Address::Fqdn(t.clone()));
        check(u == w && w == u, "a name in another case is not equal");
        check(Address::Fqdn(format!("{}x", t)) != w && Address::Fqdn(format!("x{}", t)) != w, "a longer name is equal");
    }
    fn h_c13_unicode() {
        // names outside of ASCII are compared in any letter case, too
        const PAIRS: &[(&str, &str, bool)] = &[
            ("\u{c4}", "\u{e4}", true), ("x.\u{d6}.de", "X.\u{f6}.DE", true), ("\u{3a9}", "\u{3c9}", true), ("\u{416}a", "\u{436}A", true),
            ("\u{c4}", "a", false), ("\u{e4}", "\u{e5}", false), ("\u{3a9}", "\u{3a9}x", false), ("\u{436}", "\u{437}", false),
            ("\u{1e9e}", "\u{df}", true), ("\u{5d0}", "\u{5d0}", true), ("\u{1f600}", "\u{1f600}", true), ("\u{1f600}", "\u{1f601}", false),
        ];
        let (x, y, same) = PAIRS[choice(PAIRS.len() as u32) as usize];
        let c = lower(1);
        let (x, y) = (format!("{}.{}", x, c), format!("{}.{}", y, c));
        let (a, b) = (Address::Fqdn(x.clone()), Address::Fqdn(y.clone()));
        check((a == b) == same && (b == a) == same, "equality of names differs from its meaning");
        let f = |d: &String| ExplicitlyTypedAddress::Fqdn { address_type: AddressType::IpV4, domain: d.clone() };
        check((f(&x) == f(&y)) == same && (f(&y) == f(&x)) == same, "equality of typed names differs from its meaning");
        cover(if same { "equal" } else { "different" });
    }
}
