//! C14: an anonymizer gives the same mask for the same value, different masks for different
//! values, whatever the order and number of calls, and a mask of the same kind.
use super::gen::*;
use super::sym::*;
use super::util::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use webrtc_sdp::address::*;
use webrtc_sdp::anonymizer::*;

/// calls with n values drawn from a few: every call repeats the mask of its value
fn seq<X: Clone>(vals: &[X], same: impl Fn(&X, &X) -> bool, f: impl Fn(&mut StatefulSdpAnonymizer, &X) -> X, yeq: impl Fn(&X, &X) -> bool, kind: impl Fn(&X, &X) -> bool) {
    let mut an = if choice(2) == 0 { StatefulSdpAnonymizer::new() } else { StatefulSdpAnonymizer::default() };
    let n = if deep() { 5 } else { 4 };
    let mut log: Vec<(X, X)> = vec![];
    for k in 0..n {
        // an earlier mask is a value like any other
        let i = choice(vals.len() as u32 + (k > 0) as u32) as usize;
        let v = if i < vals.len() { vals[i].clone() } else { log[k / 2].1.clone() };
        noise(&mut an);
        let m = f(&mut an, &v);
        check(kind(&v, &m), "the mask is of another kind");
        for (w, o) in &log {
            if same(&v, w) {
                check(yeq(&m, o), "the same value has two masks");
            } else {
                check(!yeq(&m, o), "two values have the same mask");
            }
        }
        log.push((v, m));
    }
    cover("sequence");
}
/// other calls in between must not matter
fn noise(an: &mut StatefulSdpAnonymizer) {
    if choice(2) == 1 {
        an.mask_cname("ab");
        an.mask_host("ab");
        an.mask_ice_user("ab");
        an.mask_ice_password("ab");
        an.mask_origin_user("ab");
        an.mask_port(9);
        an.mask_ip(&IpAddr::V4(Ipv4Addr::new(1, 1, 1, 1)));
        an.mask_ip(&IpAddr::V6(Ipv6Addr::new(1, 0, 0, 0, 0, 0, 0, 1)));
        an.mask_cert_finger_print(&[1, 2, 3]);
    }
}
fn bytes<const N: usize>() -> [u8; N] {
    let mut v = [0; N];
    for b in v.iter_mut() {
        *b = byte(255);
    }
    v
}
/// any 32 bits but the highest ones
fn word() -> u32 {
    u32::from_be_bytes(bytes()) >> 4
}
/// values that differ in one place only are different values, and both keep their masks
fn apart<X, Y: Clone>(x: X, y: X, f: impl Fn(&mut StatefulSdpAnonymizer, &X) -> Y, same: impl Fn(&Y, &Y) -> bool) {
    let mut an = StatefulSdpAnonymizer::new();
    let swap = choice(2) == 1;
    let (x, y) = if swap { (y, x) } else { (x, y) };
    let a = f(&mut an, &x);
    let b = f(&mut an, &y);
    check(!same(&a, &b), "two similar values have the same mask");
    check(same(&f(&mut an, &x), &a) && same(&f(&mut an, &y), &b), "a mask changes after a similar value");
    cover("apart");
}
fn strings() -> Vec<String> {
    vec![tok(2, &[]), tok(2, &[]), String::from("ab"), String::new()]
}
fn text(p: &'static str) -> impl Fn(&String, &String) -> bool {
    move |_x, y| y.starts_with(p) && y.len() >= p.len() + 8
}
/// `n` concrete values
fn many<Y: PartialEq>(n: usize, f: impl Fn(&mut StatefulSdpAnonymizer, usize) -> Y) {
    let mut an = StatefulSdpAnonymizer::new();
    let mut v = vec![];
    for i in 0..n {
        v.push(f(&mut an, i));
    }
    // the positions where a digit, a byte or the length of a counter changes
    let at = [0, 1, 8, 9, 10, 98, 99, 100, 254, 255, 256, 257, 510, 511, n - 1];
    for &i in &at {
        if i < n {
            check(f(&mut an, i) == v[i], "a mask changes after further values");
            for j in 0..n {
                check((v[i] == v[j]) == (i == j), "two of many values have the same mask");
            }
        }
    }
    cover("many");
}
/// the mask of a value of a kind, printed
fn mask(an: &mut StatefulSdpAnonymizer, kind: u32, i: u32) -> String {
    let s = format!("v{}", i);
    match kind {
        0 => an.mask_host(&s),
        1 => an.mask_origin_user(&s),
        2 => an.mask_ice_password(&s),
        3 => an.mask_ice_user(&s),
        4 => an.mask_cname(&s),
        5 => an.mask_port(3000 + i).to_string(),
        6 => an.mask_ip(&IpAddr::V4(Ipv4Addr::from(0x0a000000 + i))).to_string(),
        7 => an.mask_ip(&IpAddr::V6(Ipv6Addr::from(0xfe80u128 << 112 | i as u128))).to_string(),
        _ => an.mask_cert_finger_print(&[1, i as u8]).iter().map(|b| b.to_string() + " ").collect(),
    }
}
harnesses! {
    fn h_c14_across() {
        // values of other kinds, and repeated ones, do not count
        let (kind, other) = (choice(9), choice(10));
        if kind == other { return }
        let own = [0, 1, 9][choice(3) as usize];
        let n = [1, 2, 3, 8, 20][choice(5) as usize];
        let mut a = StatefulSdpAnonymizer::new();
        let mut b = StatefulSdpAnonymizer::new();
        let c = byte(200) as u32;
        for i in 0..own { check(s_eq(&mask(&mut a, kind, i), &mask(&mut b, kind, i)), "the same calls give other masks") }
        for i in 0..n {
            for k in 0..9 {
                if k != kind && (other == 9 || other == k) { mask(&mut a, k, 500 + i); }
            }
            if own > 0 { mask(&mut a, kind, i % own); }
        }
        for i in 0..2 {
            check(s_eq(&mask(&mut a, kind, 300 + i + if kind > 4 && kind < 8 { c } else { 0 }), &mask(&mut b, kind, 300 + i)), "a mask depends on values of other kinds, or on repeated ones");
        }
        cover("across");
    }
    fn h_c14_host() { seq(&strings(), str_eq, |a, x| a.mask_host(x), str_eq, text("fqdn-")) }
    fn h_c14_origin_user() { seq(&strings(), str_eq, |a, x| a.mask_origin_user(x), str_eq, text("origin-user-")) }
    fn h_c14_ice_password() { seq(&strings(), str_eq, |a, x| a.mask_ice_password(x), str_eq, text("ice-password-")) }
    fn h_c14_ice_user() { seq(&strings(), str_eq, |a, x| a.mask_ice_user(x), str_eq, text("ice-user-")) }
    fn h_c14_cname() { seq(&strings(), str_eq, |a, x| a.mask_cname(x), str_eq, text("cname-")) }
    fn h_c14_port() {
        let v: Vec<u32> = vec![byte(255) as u32, 0, 256 + byte(255) as u32, 9];
        seq(&v, |a, b| a == b, |a, x| a.mask_port(*x), |a, b| a == b, |_, y| *y > 0)
    }
    fn h_c14_ip() {
        let x = byte(255);
        let v = vec![
            IpAddr::V4(Ipv4Addr::new(10, 0, byte(255), 1)),
            IpAddr::V4(Ipv4Addr::new(10, 0, byte(255), 1)),
            IpAddr::V6(Ipv6Addr::new(0x2001, 0, 0, 0, 0, 0, 0, x as u16)),
            IpAddr::V6(Ipv6Addr::new(0x2001, 0, 0, 0, 0, 0, 0, 7)),
        ];
        seq(&v, ip_eq, |a, x| a.mask_ip(x), ip_eq, |x, y| x.is_ipv4() == y.is_ipv4())
    }
    fn h_c14_address() {
        let n = tok(2, &[]);
        let v = vec![
            Address::Fqdn(n),
            Address::Fqdn("ab".to_string()),
            Address::Ip(IpAddr::V4(Ipv4Addr::new(10, 0, byte(255), 1))),
            Address::Ip(IpAddr::V6(Ipv6Addr::new(0x2001, 0, 0, 0, 0, 0, 0, 7))),
        ];
        seq(&v, addr_eq, |a, x| a.mask_address(x), addr_eq, |x, y| match (x, y) {
            (Address::Fqdn(_), Address::Fqdn(_)) => true,
            (Address::Ip(x), Address::Ip(y)) => x.is_ipv4() == y.is_ipv4(),
            _ => false,
        })
    }
    fn h_c14_typed_address() {
        let n = tok(2, &[]);
        let f = |t, d: &str| ExplicitlyTypedAddress::Fqdn { address_type: t, domain: d.to_string() };
        let v = vec![
            f(AddressType::IpV4, &n),
            f(AddressType::IpV6, "ab"),
            ExplicitlyTypedAddress::Ip(IpAddr::V4(Ipv4Addr::new(10, 0, byte(255), 1))),
            ExplicitlyTypedAddress::Ip(IpAddr::V6(Ipv6Addr::new(0x2001, 0, 0, 0, 0, 0, 0, 7))),
        ];
        // the same name with two types has one mask, so only names decide
        let dom = |a: &ExplicitlyTypedAddress| match a { ExplicitlyTypedAddress::Fqdn { domain, .. } => Address::Fqdn(domain.clone()), ExplicitlyTypedAddress::Ip(i) => Address::Ip(*i) };
        seq(&v, |a, b| addr_eq(&dom(a), &dom(b)), |a, x| a.mask_typed_address(x), |a, b| addr_eq(&dom(a), &dom(b)),
            |x, y| x.address_type() == y.address_type() && match (x, y) {
                (ExplicitlyTypedAddress::Fqdn { .. }, ExplicitlyTypedAddress::Fqdn { .. }) | (ExplicitlyTypedAddress::Ip(_), ExplicitlyTypedAddress::Ip(_)) => true,
                _ => false,
            })
    }
    fn h_c14_fingerprint() {
        let v: Vec<Vec<u8>> = vec![vec![1, 2, byte(255)], vec![1, byte(255), 3], vec![1, 2, 3, 4], vec![]];
        seq(&v, |a, b| b_eq(a, b), |a, x| a.mask_cert_finger_print(x), |a, b| b_eq(a, b), |_, y| !y.is_empty())
    }
    fn h_c14_shared() {
        // names and literals are masked alike wherever they appear
        let mut an = StatefulSdpAnonymizer::new();
        let n = tok(2, &[]);
        noise(&mut an);
        let a = an.mask_host(&n);
        let ip = IpAddr::V4(Ipv4Addr::new(10, 1, 2, byte(255)));
        let b = an.mask_ip(&ip);
        noise(&mut an);
        check(addr_eq(&an.mask_address(&Address::Fqdn(n.clone())), &Address::Fqdn(a.clone())), "a name has another mask in an address");
        check(addr_eq(&an.mask_address(&Address::Ip(ip)), &Address::Ip(b)), "a literal has another mask in an address");
        for t in [AddressType::IpV4, AddressType::IpV6] {
            let e = ExplicitlyTypedAddress::Fqdn { address_type: t, domain: n.clone() };
            check(eaddr_eq(&an.mask_typed_address(&e), &ExplicitlyTypedAddress::Fqdn { address_type: t, domain: a.clone() }), "a name has another mask in a typed address");
        }
        check(eaddr_eq(&an.mask_typed_address(&ExplicitlyTypedAddress::Ip(ip)), &ExplicitlyTypedAddress::Ip(b)), "a literal has another mask in a typed address");
        cover("shared");
    }
    fn h_c14_not_the_value() {
        // a mask says nothing about the value: it depends only on how many came before
        let mut a = StatefulSdpAnonymizer::new();
        let mut b = StatefulSdpAnonymizer::new();
        let k = choice(3) as usize;
        for i in 0..k { let s = format!("v{}", i); a.mask_host(&s); b.mask_host(&s); a.mask_cname(&s); b.mask_cname(&s); a.mask_ice_user(&s); b.mask_ice_user(&s);
            a.mask_ice_password(&s); b.mask_ice_password(&s); a.mask_origin_user(&s); b.mask_origin_user(&s); a.mask_port(i as u32); b.mask_port(i as u32);
            a.mask_cert_finger_print(s.as_bytes()); b.mask_cert_finger_print(s.as_bytes()); }
        let x = tok(3, &[]);
        let y = "secret-value";
        check(s_eq(&a.mask_host(&x), &b.mask_host(y)), "a host mask depends on the host");
        check(s_eq(&a.mask_cname(&x), &b.mask_cname(y)), "a cname mask depends on the cname");
        check(s_eq(&a.mask_ice_user(&x), &b.mask_ice_user(y)), "a user mask depends on the user");
        check(s_eq(&a.mask_ice_password(&x), &b.mask_ice_password(y)), "a password mask depends on the password");
        check(s_eq(&a.mask_origin_user(&x), &b.mask_origin_user(y)), "an origin user mask depends on the user");
        check(a.mask_port(1000 + word()) == b.mask_port(5000), "a port mask depends on the port");
        check(b_eq(&a.mask_cert_finger_print(&[byte(255), byte(255), 0]), &b.mask_cert_finger_print(&[9, 9, 9, 9])), "a fingerprint mask depends on the fingerprint");
        check(ip_eq(&a.mask_ip(&IpAddr::V4(Ipv4Addr::from(bytes()))), &b.mask_ip(&IpAddr::V4(Ipv4Addr::new(4, 4, 4, 4)))), "an IPv4 mask depends on the address");
        check(ip_eq(&a.mask_ip(&IpAddr::V6(Ipv6Addr::from(bytes()))), &b.mask_ip(&IpAddr::V6(Ipv6Addr::new(4, 4, 4, 4, 0, 0, 0, 0)))), "an IPv6 mask depends on the address");
        cover("independent");
    }
    fn h_c14_many() {
        let n = if deep() { 700 } else { 270 };
        match choice(8) {
            0 => many(n, |a, i| a.mask_port(i as u32 * 3)),
            1 => many(n, |a, i| a.mask_ip(&IpAddr::V4(Ipv4Addr::from(0x0a000000 + i as u32)))),
            2 => many(n, |a, i| a.mask_ip(&IpAddr::V6(Ipv6Addr::from(0xfe80_0000_0000_0000u128 * 0x1_0000_0000 + i as u128)))),
            3 => many(n, |a, i| a.mask_cert_finger_print(&[i as u8, (i >> 8) as u8])),
            4 => many(n, |a, i| a.mask_host(&format!("h{}", i))),
            5 => many(n, |a, i| a.mask_ice_user(&format!("h{}", i))),
            6 => many(n, |a, i| a.mask_ice_password(&format!("h{}", i))),
            _ => many(n, |a, i| a.mask_cname(&format!("h{}", i))),
        }
    }
    fn h_c14_bytes() {
        // the bytes of a number, most significant first
        let mut x = 0u64;
        let mut v = vec![];
        for _ in 0..8 { let b = byte(255); v.push(b); x = (x << 8) | b as u64; }
        check(b_eq(&x.to_byte_vec(), &v), "the bytes of a number differ");
        cover("bytes");
    }
    fn h_c14_similar_ports() {
        let k = choice(32);
        let x = u32::from_be_bytes(bytes());
        apart(x, x ^ (1 << k), |a, x| a.mask_port(*x), |a, b| a == b);
    }
    fn h_c14_similar_ips() {
        match choice(3) {
            0 => {
                let (k, x) = (choice(32), u32::from_be_bytes(bytes()));
                apart(Ipv4Addr::from(x), Ipv4Addr::from(x ^ (1 << k)), |a, x| a.mask_ip(&IpAddr::V4(*x)), ip_eq);
            }
            1 => {
                let (k, mut x) = (choice(128) as usize, [0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]);
                x[k / 8] = byte(255);
                let mut y = x;
                y[k / 8] ^= 1 << (k % 8);
                apart(Ipv6Addr::from(x), Ipv6Addr::from(y), |a, x| a.mask_ip(&IpAddr::V6(*x)), ip_eq);
            }
            _ => {
                // an IPv4 address and the IPv6 address that contains it
                let x = Ipv4Addr::from(bytes());
                let y = if choice(2) == 0 { x.to_ipv6_mapped() } else { x.to_ipv6_compatible() };
                apart(IpAddr::V4(x), IpAddr::V6(y), |a, x| a.mask_ip(x), ip_eq);
            }
        }
    }
    fn h_c14_similar_strings() {
        let n = [1usize, 2, 3, 22, 40][choice(5) as usize];
        let at = [0, n / 2, n - 1][choice(3) as usize];
        let (b, c) = (tchar(&[]), tchar(&[]));
        let x: String = (0..n).map(|i| if i == at { b as char } else { (b'a' + (i % 26) as u8) as char }).collect();
        let y = match choice(5) {
            0 => { assume(b != c); x.chars().enumerate().map(|(i, d)| if i == at { c as char } else { d }).collect() }
            1 => format!("{}{}", x, c as char),
            2 => format!("{}{}", c as char, x),
            3 => format!("{} ", x),
            _ => { assume(b.is_ascii_lowercase()); x.to_ascii_uppercase() }
        };
        match choice(6) {
            0 => apart(x, y, |a, x| a.mask_host(x), str_eq),
            1 => apart(x, y, |a, x| a.mask_origin_user(x), str_eq),
            2 => apart(x, y, |a, x| a.mask_ice_user(x), str_eq),
            3 => apart(x, y, |a, x| a.mask_ice_password(x), str_eq),
            4 => apart(x, y, |a, x| a.mask_cname(x), str_eq),
            _ => apart(x.into_bytes(), y.into_bytes(), |a, x| a.mask_cert_finger_print(x), |a, b| b_eq(a, b)),
        }
    }
    fn h_c14_special_ips() {
        // no address is its own mask, and the special ones are masked like any other
        let (_, ip) = special(choice(8));
        let ip = match choice(9) {
            0 => ip,
            1 => IpAddr::V4(Ipv4Addr::from([169, 254, byte(255), 1])),
            2 => IpAddr::V4(Ipv4Addr::from([192, 168, byte(255), 1])),
            3 => IpAddr::V4(Ipv4Addr::from([172, 16, byte(255), 1])),
            4 => IpAddr::V4(Ipv4Addr::from([224 + byte(31), 0, 0, 1])),
            5 => IpAddr::V4(Ipv4Addr::from([127, 0, 0, byte(255)])),
            6 => IpAddr::V6(Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, byte(255) as u16)),
            7 => IpAddr::V6(Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, byte(255) as u16)),
            _ => IpAddr::V6(Ipv6Addr::new(0xff02, 0, 0, 0, 0, 0, 0, byte(255) as u16)),
        };
        let mut a = StatefulSdpAnonymizer::new();
        let mut b = StatefulSdpAnonymizer::new();
        let plain = if ip.is_ipv4() { IpAddr::V4(Ipv4Addr::new(55, 1, 2, 3)) } else { IpAddr::V6(Ipv6Addr::new(0x2a00, 1, 2, 3, 4, 5, 6, 7)) };
        let m = a.mask_ip(&ip);
        check(ip_eq(&m, &b.mask_ip(&plain)), "a special address has a special mask");
        check(ip_eq(&a.mask_ip(&ip), &m), "a special address has two masks");
        check(!ip_eq(&a.mask_ip(&plain), &m), "a special address shares its mask");
        cover("special");
    }
}
