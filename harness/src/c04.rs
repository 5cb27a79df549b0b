//! C04: an accepted attribute holds exactly what its text says, and prints in canonical form.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::attribute_type::SdpAttribute;
use webrtc_sdp::{parse_sdp_line, SdpType};

fn go(name: &'static str) {
    let g = gen(name, true);
    judge(&g);
}
pub fn judge(g: &G) {
    let t = if g.val.is_empty() { g.name.to_string() } else { format!("{}:{}", g.name, g.val) };
    match pa(&t) {
        None => check(false, "a well-formed attribute is rejected"),
        Some(a) => {
            check(attr_eq(&a, &g.exp), "the parsed value differs from the text");
            let p = a.to_string();
            observe(p.as_bytes());
            check(s_eq(&p, &g.canon), "the printed text differs from the value");
            cover(g.name);
        }
    }
    let l = format!("a={}", t);
    match parse_sdp_line(&l, 7) {
        Ok(l) => match l.sdp_type {
            SdpType::Attribute(a) => check(attr_eq(&a, &g.exp), "the attribute line yields another value"),
            _ => check(false, "an attribute line is not an attribute"),
        },
        Err(_) => check(false, "a well-formed attribute line is rejected"),
    }
    check(s_eq(&g.exp.to_string(), &g.canon), "a constructed attribute prints another text");
    let _: &SdpAttribute = &g.exp;
}
macro_rules! per_kind { ($($f:ident $n:expr,)*) => { harnesses! {
    $(fn $f() { go($n) })*
    fn h_c04_patterns() { judge(&pattern(choice(PATTERNS))) }
    // every number the same one, every token the same one
    fn h_c04_coincide() {
        let k = KINDS[choice(KINDS.len() as u32) as usize];
        agrees(&coincide(|| gen(k, true)), "coincide")
    }
    fn h_c04_long_lists() {
        let k = choice(PATTERNS);
        let n = many();
        // lists of one have another form
        if n < 2 && matches!(k, 9 | 11 | 12) { return }
        agrees(&long_list(k, n), "long list")
    }
} } }
per_kind! {
    h_c04_bundle_only "bundle-only",
    h_c04_candidate "candidate",
    h_c04_dtls_message "dtls-message",
    h_c04_end_of_candidates "end-of-candidates",
    h_c04_extmap "extmap",
    h_c04_extmap_allow_mixed "extmap-allow-mixed",
    h_c04_fingerprint "fingerprint",
    h_c04_fmtp "fmtp",
    h_c04_framerate "framerate",
    h_c04_group "group",
    h_c04_ice_lite "ice-lite",
    h_c04_ice_mismatch "ice-mismatch",
    h_c04_ice_options "ice-options",
    h_c04_ice_pacing "ice-pacing",
    h_c04_ice_pwd "ice-pwd",
    h_c04_ice_ufrag "ice-ufrag",
    h_c04_identity "identity",
    h_c04_imageattr "imageattr",
    h_c04_inactive "inactive",
    h_c04_label "label",
    h_c04_max_message_size "max-message-size",
    h_c04_maxptime "maxptime",
    h_c04_mid "mid",
    h_c04_msid "msid",
    h_c04_msid_semantic "msid-semantic",
    h_c04_ptime "ptime",
    h_c04_rid "rid",
    h_c04_recvonly "recvonly",
    h_c04_remote_candidates "remote-candidates",
    h_c04_rtpmap "rtpmap",
    h_c04_rtcp "rtcp",
    h_c04_rtcp_fb "rtcp-fb",
    h_c04_rtcp_mux "rtcp-mux",
    h_c04_rtcp_mux_only "rtcp-mux-only",
    h_c04_rtcp_rsize "rtcp-rsize",
    h_c04_sctpmap "sctpmap",
    h_c04_sctp_port "sctp-port",
    h_c04_sendonly "sendonly",
    h_c04_sendrecv "sendrecv",
    h_c04_setup "setup",
    h_c04_simulcast "simulcast",
    h_c04_ssrc "ssrc",
    h_c04_ssrc_group "ssrc-group",
}
