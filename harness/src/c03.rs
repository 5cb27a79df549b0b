//! C03: print(parse(x)) is accepted again, gives the same value and prints the same text.
use super::gen::*;
use super::mutate::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::SdpAttribute;

pub fn rt(s: &str) {
    if let Some(a) = pa(s) {
        let t = a.to_string();
        observe(t.as_bytes());
        if t.is_empty() {
            check(is_default_fmtp(&a), "only an fmtp with default parameters may print as nothing");
            cover("prints as nothing");
            return;
        }
        match t.parse::<SdpAttribute>() {
            Err(_) => check(false, "the printed attribute is rejected"),
            Ok(b) => {
                check(attr_eq(&a, &b), "the printed attribute parses to another value");
                let u = b.to_string();
                check(s_eq(&t, &u), "the second print differs");
                cover("round trip");
            }
        }
    }
}
/// name, then 1..=n arbitrary bytes
fn free(name: &str, n: u32) {
    let k = 1 + choice(n) as usize;
    rt(&T::of(name).l(":").nonl(k).s())
}
fn ndig(name: &str) {
    let n = [1, 2, 3, 5, 8, 10, 11, 16, 19, 20, 21][choice(11) as usize];
    rt(&T::of(name).l(":").d(n).s())
}
const FP20: &str = "CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:";

harnesses! {
    fn h_c03_coincide() {
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        let g = coincide(|| gen(k, true));
        rt(&g.canon);
    }
    fn h_c03_long_lists() {
        let k = choice(PATTERNS);
        let n = many();
        // lists of one have another form
        if n < 2 && matches!(k, 9 | 11 | 12) { return }
        let g = long_list(k, n);
        rt(&format!("{}:{}", g.name, g.val));
    }
    fn h_c03_repeated() { rt(&pattern(choice(PATTERNS)).canon) }
    fn h_c03_flags() {
        let n = pick(&["bundle-only", "end-of-candidates", "extmap-allow-mixed", "ice-lite", "ice-mismatch",
            "inactive", "recvonly", "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "sendonly", "sendrecv"]);
        let s = match choice(3) { 0 => n.to_string(), 1 => T::of(n).l(":").nonl(1).s(), _ => T::of(n).nonl(1).s() };
        rt(&s)
    }
    fn h_c03_numbers_in_text() { rt(&numbers(attr())) }
    fn h_c03_words_in_text() { rt(&words(attr(), " ,;:=-~/")) }
    fn h_c03_anyname() { rt(&T::new().nonl(5).s()) }
    fn h_c03_strings() {
        let n = pick(&["ice-pwd", "ice-ufrag", "identity", "label", "mid"]);
        free(n, 5)
    }
    fn h_c03_ice_options() { free("ice-options", 6) }
    fn h_c03_numbers() {
        ndig(pick(&["max-message-size", "maxptime", "ptime", "ice-pacing", "sctp-port"]))
    }
    fn h_c03_numbers_free() {
        free(pick(&["max-message-size", "maxptime", "ptime", "ice-pacing", "sctp-port"]), 4)
    }
    fn h_c03_setup() {
        let s = match choice(2) {
            0 => T::of("setup:").l(&anycase(pick(&["active", "passive", "actpass", "holdconn"]))).s(),
            _ => T::of("setup:").nonl(5).s(),
        };
        rt(&s)
    }
    fn h_c03_dtls() {
        let s = match choice(2) {
            0 => T::of("dtls-message:").pick(&["client", "server"]).nonl(5).s(),
            _ => T::of("dtls-message:").nonl(4).s(),
        };
        rt(&s)
    }
    fn h_c03_framerate() {
        rt(&T::of("framerate:").pick(&["0.1", "5", "29.97", "60", "120.5", "1e3", "1e-3", "23.976", ".5", "5.", "+7",
            "-1", "inf", "nan", "NaN", "0", "-0", "0e5", "1e400", "3.4028236e38", "1.7976931348623157e308", "5e-324",
            "0.1000000000000000055511151231257827", "9007199254740993", "abc",
            "4294967295", "4294967296", "9223372036854775807", "18446744073709551616", "1e20", "1e30", "1e300", "123456789.123456789",
            "16777217", "0.30000001192092896", "1e-7", "1e-300", "100000000000000000000000000000000000001", "23.976023976023978", " 30 ", "1_0", "0x10"]).s())
    }
    fn h_c03_rtpmap() { free("rtpmap", 5) }
    fn h_c03_rtpmap_name() {
        let n = 1 + choice(4) as usize;
        let t = T::of("rtpmap:").d(3).l(" ").nonl(n).l("/").d(5);
        let s = match choice(3) { 0 => t.s(), 1 => t.l("/").d(1).s(), _ => t.l("/2/").nonl(1).s() };
        rt(&s)
    }
    fn h_c03_fmtp_free() { rt(&T::of("fmtp:").d(2).l(" ").nonl(4).s()) }
    fn h_c03_fmtp_free2() { free("fmtp", 5) }
    fn h_c03_fmtp_known() {
        // two parameters of any kind, with any digits
        let n = pick(FMTP); let m = pick(FMTP);
        let s = T::of("fmtp:96 ").l(n).l("=").d(1).l(";").l(m).l("=").d(1).s();
        rt(&s)
    }
    fn h_c03_fmtp_val() {
        let n = pick(FMTP);
        let k = [1, 2, 3, 5, 6, 8, 10, 11][choice(8) as usize];
        rt(&T::of("fmtp:96 ").l(n).l("=").d(k).s())
    }
    fn h_c03_fmtp_prof() {
        let k = 1 + choice(7) as usize;
        let mut v = vec![];
        for _ in 0..k { let b = byte(127); assume(b.is_ascii_alphanumeric()); v.push(b); }
        rt(&T::of("fmtp:96 profile-level-id=").b(&v).s())
    }
    fn h_c03_fmtp_unknown() {
        let s = match choice(3) {
            0 => T::of("fmtp:96 ").tok(1).l("=1;x").nonl(1).l("=").nonl(2).l(";usedtx=1").s(),
            1 => T::of("fmtp:96 max-fs=5;a=1;").nonl(3).l(";c=3").s(),
            _ => T::of("fmtp:96 a=").nonl(1).l(";apt=96;").nonl(3).l("=").s(),
        };
        rt(&s)
    }
    fn h_c03_fmtp_red() {
        let k = choice(4) as usize;
        let mut t = T::of("fmtp:96 ").d(2);
        for _ in 0..k { t = t.l("/").d(2); }
        rt(&t.l("/").d(3).s())
    }
    fn h_c03_fmtp_dtmf() {
        let s = match choice(3) {
            0 => T::of("fmtp:101 ").d(1).l("-").d(2).l(",").nonl(2).s(),
            1 => T::of("fmtp:101 ").nonl(3).l("-").d(3).s(),
            _ => T::of("fmtp:101 1,").d(2).l(",5-").d(2).s(),
        };
        rt(&s)
    }
    fn h_c03_fmtp_rtx() {
        let s = match choice(4) {
            0 => T::of("fmtp:97 apt=").d(2).l(";rtx-time=").d(4).s(),
            1 => T::of("fmtp:97 apt=").d(3).l(";").pick(FMTP).l("=").d(1).s(),
            2 => T::of("fmtp:97 rtx-time=").d(2).l(";apt=").d(2).s(),
            _ => T::of("fmtp:97 apt=9;rtx-time=1;apt=").d(1).l(";x=").nonl(2).s(),
        };
        rt(&s)
    }
    fn h_c03_fingerprint() {
        let s = match choice(3) {
            0 => T::of("fingerprint:sha-1 ").l(FP20).nonl(2).s(),
            1 => T::of("fingerprint:sha-1 ").nonl(2).l(":").l(&FP20[3..]).nonl(2).s(),
            _ => T::of("fingerprint:sha-").nonl(1).l(" ").l(FP20).l("a").nonl(1).s(),
        };
        rt(&s)
    }
    fn h_c03_fingerprint_long() {
        let (h, n) = [("sha-1", 20), ("sha-224", 28), ("sha-256", 32), ("sha-384", 48), ("sha-512", 64)][choice(5) as usize];
        let mut t = T::of("fingerprint:").l(h).l(" ");
        let miss = choice(3) as usize;
        for i in 0..(n + 1 - miss) {
            if i > 0 { t = t.l(":"); }
            if i == 3 || i == n - 2 { let b = byte(127); assume(b.is_ascii_hexdigit()); t = t.b(&[b]).l("f"); } else { t = t.l("0A"); }
        }
        rt(&t.s())
    }
    fn h_c03_group() { free("group", 4) }
    fn h_c03_group_tags() {
        let k = choice(5) as usize;
        let mut t = T::of("group:").pick(&["LS", "FID", "SRF", "ANAT", "FEC", "DDP", "BUNDLE", "bundle", "XX"]);
        for _ in 0..k { t = t.l(" ").nonl(1); }
        rt(&t.s())
    }
    fn h_c03_msid() { free("msid", 6) }
    fn h_c03_msid_semantic() { free("msid-semantic", 6) }
    fn h_c03_msid_semantic2() {
        let k = choice(4) as usize;
        let mut t = T::of("msid-semantic: WMS");
        for _ in 0..k { t = t.l(" ").nonl(2); }
        rt(&t.s())
    }
    fn h_c03_rtcp() { free("rtcp", 6) }
    fn h_c03_rtcp_addr() {
        let s = match choice(3) {
            0 => T::of("rtcp:9 ").nonl(2).l(" IP4 10.0.0.").d(2).s(),
            1 => T::of("rtcp:9 IN IP6 2001:db8::").nonl(2).s(),
            _ => T::of("rtcp:").d(5).l(" IN IP").nonl(1).l(" a").nonl(1).l(".b").s(),
        };
        rt(&s)
    }
    fn h_c03_rtcpfb() {
        let t = T::of("rtcp-fb:").pick(&["*", "96", "0", "255", "256", ""]).l(" ")
            .pick(&["ack", "ccm", "nack", "trr-int", "goog-remb", "transport-cc", "app"]);
        let s = match choice(4) {
            0 => t.nonl(2).s(),
            1 => t.l(" ").pick(&["rpsi", "app", "fir", "tmmbr", "tstr", "vbcm", "sli", "pli", "x"]).s(),
            2 => t.l(" ").pick(&["rpsi", "app", "fir", "tmmbr", "tstr", "vbcm", "sli", "pli", "7"]).nonl(4).s(),
            _ => t.l(" ").nonl(3).s(),
        };
        rt(&s)
    }
    fn h_c03_rtcpfb_trr() {
        let k = [1, 2, 5, 9, 10, 11][choice(6) as usize];
        rt(&T::of("rtcp-fb:* trr-int ").d(k).nonl(3).s())
    }
    fn h_c03_sctpmap() {
        let s = match choice(3) {
            0 => T::of("sctpmap:").d(5).l(" webrtc-datachannel ").d(3).s(),
            1 => T::of("sctpmap:5000 ").l(&anycase("webrtc")).l("-datachannel ").nonl(3).s(),
            _ => T::of("sctpmap:").nonl(3).l("webrtc-datachannel").nonl(2).s(),
        };
        rt(&s)
    }
    fn h_c03_ssrc() { free("ssrc", 5) }
    fn h_c03_ssrc_attr() {
        let s = match choice(3) {
            0 => T::of("ssrc:").d(10).l(" cname:").nonl(3).s(),
            1 => T::of("ssrc:1 ").nonl(5).s(),
            _ => T::of("ssrc:12345 msid:").nonl(2).l(" ").nonl(2).s(),
        };
        rt(&s)
    }
    fn h_c03_ssrc_group() {
        let k = choice(4) as usize;
        let mut t = T::of("ssrc-group:").pick(&["DUP", "FID", "FEC", "FEC-FR", "SIM", "sim", "fec-fr", "X"]);
        for i in 0..k { t = t.l(if i == 1 { "  " } else { " " }).d(2); }
        rt(&t.nonl(2).s())
    }
    fn h_c03_extmap() { free("extmap", 5) }
    fn h_c03_extmap2() {
        let s = match choice(3) {
            0 => T::of("extmap:").d(5).l("/").pick(&["sendonly", "recvonly", "sendrecv", "inactive", "SendOnly", ""]).l(" urn:").nonl(2).s(),
            1 => T::of("extmap:3 u").nonl(5).s(),
            _ => T::of("extmap:3/sendonly/x u:").nonl(1).l("  a").nonl(2).l(" b").s(),
        };
        rt(&s)
    }
    fn h_c03_candidate() {
        let s = match choice(6) {
            0 => T::of("candidate:").nonl(3).l(" 1 UDP 2130706431 10.0.0.1 9 typ host").s(),
            1 => T::of("candidate:0 ").d(2).l(" ").l(&anycase("udp")).l(" ").d(4).l(" 10.0.0.1 ").d(5).l(" typ ").pick(&["host", "srflx", "prflx", "relay", "x"]).s(),
            2 => T::of("candidate:0 1 TCP 9 1.2.3.4 9 typ host ").nonl(5).s(),
            3 => T::of("candidate:0 1 TCP 9 ::").nonl(2).l(" 9 typ relay raddr a").nonl(1).l(" rport ").d(5).s(),
            4 => T::of("candidate:0 1 tcp 18446744073709551615 1.2.3.4 9 typ host").pick(EXT).pick(EXT).nonl(1).s(),
            _ => T::of("candidate:0 4294967295 udp ").d(20).l(" 1.2.3.4 9 typ host").pick(EXT).pick(EXT).pick(EXT).s(),
        };
        rt(&s)
    }
    fn h_c03_remote_candidate() {
        let s = match choice(3) {
            0 => T::of("remote-candidates:").d(2).l(" 10.0.0.").d(2).l(" ").d(5).s(),
            1 => T::of("remote-candidates:").nonl(3).l("10.0.0.1 55").nonl(2).s(),
            _ => T::of("remote-candidates:1 ").pick(&["fe80::1", "[fe80::1]", "::", "Host.Example", "1.2.3", "x"]).nonl(1).l(" 4").s(),
        };
        rt(&s)
    }
    fn h_c03_imageattr_free() { rt(&T::of("imageattr:").pick(&["*", "97"]).nonl(4).pick(&["", " *", " recv *", " [x=1,y=2]"]).s()) }
    fn h_c03_imageattr_xy() {
        let s = match choice(5) {
            0 => T::of("imageattr:97 send [x=").d(3).l(",y=").d(2).l("] recv *").s(),
            1 => T::of("imageattr:97 recv [x=[").d(2).l(":").d(2).l("],y=[").d(1).l(":").d(1).l(":").d(2).l("]]").s(),
            2 => T::of("imageattr:97 recv [x=[").d(2).l(",").d(2).l(",").d(1).l("],y=[").nonl(3).l("]] send *").s(),
            3 => T::of("imageattr:97 send [x=1,y=").nonl(4).l("]").s(),
            _ => T::of("imageattr:97 send [x=1,y=2] ").nonl(3).l("x=3,y=4]").s(),
        };
        rt(&s)
    }
    fn h_c03_imageattr_kv() {
        let s = T::of("imageattr:97 ").pick(&["send", "recv"]).l(" [x=1,y=2").pick(KV).pick(KV).l("]").pick(&["", " [x=3,y=4]", " [x=5,y=[6,7],q=0.25] [x=8,y=9]"])
            .pick(&["", " recv *", " send [x=1,y=1]", " send [x=1,y=1,par=[0.5-2.5]]"]).s();
        rt(&s)
    }
    fn h_c03_imageattr_kv2() {
        let s = T::of("imageattr:97 send [x=1,y=2,").pick(&["sar=", "par=", "q=", "foo="]).nonl(2).l("]").s();
        rt(&s)
    }
    fn h_c03_rid_free() { free("rid", 6) }
    fn h_c03_rid_param() {
        let s = match choice(4) {
            0 => T::of("rid:1 send ").nonl(4).l("=").nonl(1).s(),
            1 => T::of("rid:a").nonl(1).l(" recv pt=").nonl(3).l(";max-fs=").d(2).s(),
            2 => T::of("rid:1 send pt=9;depends=").nonl(4).l(";foo=").nonl(1).s(),
            _ => T::of("rid:1 send max-fs=0;").nonl(2).l("=").nonl(2).l(";depends=").nonl(1).s(),
        };
        rt(&s)
    }
    fn h_c03_rid_two() {
        let t = T::of("rid:x ").pick(&["send", "recv"]).l(" ").pick(RID).pick(&["0", "1", ""]).l(";").pick(RID).d(2)
            .pick(&["", ";", "; ", ";depends=1,2", ";pt=5", ";max-fs=7;max-br=8;max-width=1;max-height=2;max-fps=3;max-pps=4"]);
        rt(&t.s())
    }
    fn h_c03_simulcast_free() { rt(&T::of("simulcast:").pick(&["send ", "recv ", "send rid=", "send a", "recv ~"]).nonl(4).s()) }
    fn h_c03_simulcast2() {
        let s = T::of("simulcast: ").pick(&["send", "recv"]).l(" ").nonl(2).l(";~b,").nonl(1).pick(&[" send ", " recv ", " "]).nonl(2).l(",c").s();
        rt(&s)
    }
}
pub const FMTP: &[&str] = &["profile-level-id", "packetization-mode", "level-asymmetry-allowed", "max-mbps", "max-fs", "max-cpb",
    "max-dpb", "max-br", "max-fr", "profile", "level-idx", "tier", "maxplaybackrate", "maxaveragebitrate", "ptime",
    "maxptime", "minptime", "usedtx", "stereo", "useinbandfec", "cbr", "apt", "rtx-time", "x-foo"];
const EXT: &[&str] = &["", " raddr 10.0.0.2", " raddr fe80::2", " rport 65535", " rport 65536", " tcptype active", " tcptype passive",
    " TCPTYPE SO", " generation 4294967295", " ufrag abC", " network-cost 999", " foo bar", " Generation x", " x"];
const KV: &[&str] = &["", ",sar=1.1", ",sar=[0.5-0.7]", ",sar=[1.1,1.3,1.9]", ",sar=[1.3,1.1]", ",sar=[nan-1]", ",sar=[1,nan]", ",sar=nan",
    ",par=[1.2-1.3]", ",par=[1.3-1.2]", ",par=[1-inf]", ",par=1.2", ",q=0.6", ",q=nan", ",q=1e10", ",q=0.1234567", ",foo=[1,2]", ",foo=a b", ",sar=[5]"];
const RID: &[&str] = &["pt=", "max-width=", "max-height=", "max-fps=", "max-fs=", "max-br=", "max-pps=", "depends=", "foo=", "max-bpp=1.", ""];
