//! Texts covering every construct of the grammar, and ways to damage them at any position.
use super::gen::*;
use super::sym::*;
use super::util::*;

pub const ATTRS: &[&str] = &[
    "bundle-only",
    "candidate:0 1 UDP 2122252543 172.16.156.106 49760 typ host",
    "candidate:foo 1 tcp 1 ::1 9 typ srflx raddr 10.0.0.1 rport 8998 tcptype active generation 5 ufrag +D network-cost 50 x y",
    "dtls-message:client SGVs",
    "extmap:3/sendonly urn:x-y:z some_params",
    "fingerprint:sha-1 CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC",
    "fmtp:97 apt=96;rtx-time=3000",
    "fmtp:126 profile-level-id=42e01f;level-asymmetry-allowed=1;packetization-mode=1;x=y",
    "fmtp:8 0-15,66,70-72",
    "fmtp:121 0/5/97",
    "fmtp:9 maxplaybackrate=1;stereo=1;useinbandfec=1;usedtx=0;cbr=1;ptime=9;maxptime=3;minptime=1",
    "fmtp:9 profile=0;level-idx=5;tier=1;max-fs=1;max-fr=2;max-br=3;max-cpb=4;max-dpb=5;max-mbps=6;maxaveragebitrate=7",
    "framerate:25.5",
    "group:BUNDLE audio video",
    "ice-lite",
    "ice-options:trickle a",
    "ice-pacing:50",
    "ice-pwd:3bab",
    "ice-ufrag:58b9",
    "identity:eyJ",
    "imageattr:120 send * recv [x=9,y=9]",
    "imageattr:* send [x=[1:2:3],y=[4,5],sar=1.1,par=[1-2],q=0.5] [x=7,y=[8:9]]",
    "label:x",
    "max-message-size:9",
    "maxptime:6",
    "mid:sdparta_0",
    "msid:{5a99} {4ae9}",
    "msid-semantic: WMS * {a}",
    "ptime:3",
    "rid:foo send pt=1,2;max-width=1;max-fps=2;x=y;depends=1,2",
    "rid:r recv",
    "remote-candidates:0 10.0.0.1 5555",
    "rtpmap:109 opus/48000/2",
    "rtcp:9 IN IP4 0.0.0.0",
    "rtcp-fb:* ccm fir",
    "rtcp-fb:9 trr-int 5",
    "rtcp-fb:9 ack app x y",
    "sctpmap:5000 webrtc-datachannel 256",
    "sctp-port:5000",
    "sendrecv",
    "setup:actpass",
    "simulcast:send 1,~4;2;3 recv c",
    "simulcast: send rid=foo;bar",
    "ssrc:2655508255 cname:{73}",
    "ssrc:1 a b:c",
    "ssrc-group:FID 3156517279 2673335628",
];
pub const LINES: &[&str] = &[
    "v=0",
    "o=- 4611 2 IN IP4 127.0.0.1",
    "o=u 0 0 in ip6 fe80::1",
    "s=-",
    "s= a b ",
    "t=0 1",
    "b=TIAS:5",
    "b=x:5",
    "c=IN IP4 1.2.3.4/5/6",
    "c=IN IP6 ::1",
    "c=IN IP4 a.b",
    "m=audio 9/2 RTP/SAVPF 0 96",
    "m=application 0 UDP/DTLS/SCTP webrtc-datachannel",
    "a=mid:x",
    "a=sendrecv",
];
/// letters whose case or white space rules differ from ASCII, of 2 to 4 bytes
pub const WIDE: &[&str] = &["é", "İ", "ß", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "ſ", "K", "😀", "٣"];

fn at(s: &str) -> usize {
    choice(s.len() as u32) as usize
}
/// w arbitrary ASCII bytes instead of w characters, anywhere
pub fn window(s: &str, w: usize) -> String {
    let p = at(s);
    let e = (p + w).min(s.len());
    let mut v = s.as_bytes()[..p].to_vec();
    for _ in 0..w {
        let b = byte(127);
        assume((b != b'\n') & (b != b'\r'));
        v.push(b);
    }
    v.extend_from_slice(&s.as_bytes()[e..]);
    st(v)
}
/// one arbitrary ASCII byte added anywhere
pub fn insert(s: &str) -> String {
    let p = choice(s.len() as u32 + 1) as usize;
    let mut v = s.as_bytes()[..p].to_vec();
    let b = byte(127);
    assume((b != b'\n') & (b != b'\r'));
    v.push(b);
    v.extend_from_slice(&s.as_bytes()[p..]);
    st(v)
}
/// a non-ASCII letter put instead of 0, 1 or 2 characters, anywhere
pub fn wide(s: &str) -> String {
    let p = choice(s.len() as u32 + 1) as usize;
    let e = (p + choice(3) as usize).min(s.len());
    format!("{}{}{}", &s[..p], WIDE[choice(WIDE.len() as u32) as usize], &s[e..])
}
/// an arbitrary non-ASCII letter of two bytes, or of three, put instead of a character
pub fn anywide(s: &str) -> String {
    let p = at(s);
    let mut v = s.as_bytes()[..p].to_vec();
    if choice(2) == 0 {
        let a = byte(0xdf);
        assume(a >= 0xc2);
        v.push(a);
    } else {
        let a = byte(0xec);
        assume(a >= 0xe1);
        v.push(a);
        let b = byte(0xbf);
        assume(b >= 0x80);
        v.push(b);
    }
    let b = byte(0xbf);
    assume(b >= 0x80);
    v.push(b);
    v.extend_from_slice(&s.as_bytes()[p + 1..]);
    st(v)
}
/// the text up to anywhere, optionally with one more arbitrary byte
pub fn cut(s: &str) -> String {
    let p = at(s);
    if choice(2) == 0 {
        s[..p].to_string()
    } else {
        format!("{}{}", &s[..p], nonl(1))
    }
}
/// a part of the text missing, or twice
pub fn splice(s: &str) -> String {
    let p = at(s);
    let n = [1, 2, 4, 8][choice(4) as usize];
    let e = (p + n).min(s.len());
    if choice(2) == 0 {
        format!("{}{}", &s[..p], &s[e..])
    } else {
        format!("{}{}{}", &s[..e], &s[p..e], &s[e..])
    }
}
/// one or two neighbouring numbers of the text exchanged for extreme ones
pub fn numbers(s: &str) -> String {
    let b = s.as_bytes();
    let mut runs = vec![];
    let mut i = 0;
    while i < b.len() {
        let j = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i > j {
            runs.push((j, i));
        }
        i += 1;
    }
    if runs.is_empty() {
        return s.to_string();
    }
    let k = choice(runs.len() as u32) as usize;
    let n = 1 + choice(2) as usize;
    let mut t = String::new();
    let mut at = 0;
    for (j, e) in &runs[k..(k + n).min(runs.len())] {
        t.push_str(&s[at..*j]);
        if n == 2 && !deep() {
            t.push_str(pick(&["4294967295", "65535", "255", "18446744073709551615", "0"]));
        } else {
            t.push_str(pick(&["429496729", "6553", "25", "1844674407370955161", "12", ""]));
            t.push(one(b"0567") as char);
        }
        at = *e;
    }
    t.push_str(&s[at..]);
    t
}
/// some of the words of the text missing, or repeated (next to them or at the end), the last
/// character of the repetition arbitrary
pub fn words(s: &str, seps: &str) -> String {
    let mut at = vec![0];
    for (i, c) in s.char_indices() {
        if seps.contains(c) {
            at.push(i);
        }
    }
    at.push(s.len());
    let i = choice(at.len() as u32 - 1) as usize;
    let n = 1 + choice(4) as usize;
    let (a, e) = (at[i], at[(i + n).min(at.len() - 1)]);
    let part = &s[a..e];
    let mut again = part.as_bytes().to_vec();
    match again.len() {
        0 => {}
        n => {
            let b = byte(127);
            assume((b != b'\n') & (b != b'\r'));
            again[n - 1] = b
        }
    }
    let again = st(again);
    match choice(3) {
        0 => format!("{}{}", &s[..a], &s[e..]),
        1 => format!("{}{}{}", &s[..e], again, &s[e..]),
        _ => {
            // an item at the start has no separator of its own
            let sep = if part.starts_with(|c| seps.contains(c)) { "" } else { &seps[..1] };
            format!("{}{}{}", s, sep, again)
        }
    }
}
pub fn attr() -> &'static str {
    ATTRS[choice(ATTRS.len() as u32) as usize]
}
pub fn line() -> &'static str {
    LINES[choice(LINES.len() as u32) as usize]
}
/// one attribute of every kind, arbitrary content
pub fn any_attr(full: bool) -> G {
    gen(KINDS[choice(KINDS.len() as u32) as usize], full)
}
/// a few values of each kind with nothing or the utmost in them
pub const ODD: &[&str] = &[
    "group:BUNDLE", "group:LS", "msid-semantic:WMS", "msid-semantic:*", "msid-semantic:x *", "rtcp-fb:* nack", "rtcp-fb:* ccm fir", "rtcp-fb:0 goog-remb",
    "ssrc:0", "ssrc:4294967295 cname:x", "ssrc-group:FID 0", "rtcp:0", "rtcp:65535 IN IP4 0.0.0.0", "fmtp:0 max-fs=1", "fmtp:127 x", "fmtp:101 0-15",
    "sctp-port:0", "sctp-port:65535", "sctpmap:0 webrtc-datachannel 0", "max-message-size:0", "ptime:0", "maxptime:0", "framerate:-1",
    "extmap:1 x", "extmap:4096/sendrecv x y", "imageattr:* send *", "imageattr:0 recv *", "rtpmap:0 PCMU/0", "rtpmap:127 x/1/0",
    "candidate:0 1 UDP 0 0.0.0.0 0 typ host", "candidate:x 256 TCP 4294967295 x.local 9 typ host tcptype active", "remote-candidates:0 ::1 0",
    "fingerprint:sha-1 00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00", "setup:holdconn", "rid:0 send", "rid:1 recv pt=0",
    "ice-pacing:0", "ice-options:trickle", "ice-ufrag:0", "ice-pwd:0", "identity:0", "label:0", "mid:0", "msid:- -", "msid:-", "dtls-message:client x",
    "ice-lite", "ice-mismatch", "bundle-only", "end-of-candidates", "extmap-allow-mixed", "inactive", "recvonly", "sendonly", "sendrecv", "rtcp-mux", "rtcp-rsize",
];
