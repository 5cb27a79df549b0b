//! C09: an accepted description is consistent, and every consistent one is accepted.
use super::gen::*;
use super::mutate::ODD;
use super::sym::*;
use super::util::*;
use webrtc_sdp::error::*;
use webrtc_sdp::*;

const VOS: &str = "v=0\r\no=- 4611731400430051336 2 IN IP4 127.0.0.1\r\ns=-\r\n";
const C: &str = "c=IN IP4 1.2.3.4\r\n";
/// the description must be accepted exactly if `ok`
fn iff(t: &str, ok: bool, label: &str) -> Option<SdpSession> {
    note(t.as_bytes());
    match parse_sdp(t, true) {
        Ok(s) => {
            observe(b"ok");
            check(ok, "an inconsistent description is accepted");
            cover(label);
            Some(s)
        }
        Err(e) => {
            observe(b"error");
            check(!ok, "a consistent description is rejected");
            check(matches!(e, SdpParserError::Sequence { .. }), "an inconsistency is not a sequence error");
            cover(label);
            None
        }
    }
}
/// one of a few rid names, or an arbitrary one
fn name() -> String {
    match choice(3) {
        0 => "hi".to_string(),
        1 => "lo".to_string(),
        _ => tok(1, b"~,;=*"),
    }
}
harnesses! {
    fn h_c09_many_sections() {
        // a violation in the last, the first or one in the middle of many sections
        let n = many();
        let at = [n / 2, n - 1][choice(2) as usize];
        let k = choice(6);
        let (p, a) = digs(1);
        let mut t = String::from(HEAD);
        if k != 0 {
            t.push_str(C);
        }
        if k == 1 {
            t.push_str("a=extmap:1 u\r\n");
        }
        for i in 0..n {
            t.push_str("m=audio 9 RTP/AVP 0 8\r\n");
            let bad = i == at;
            t.push_str(match k {
                0 => if bad { "a=mid:x\r\n" } else { C },
                1 => if bad { "a=extmap:2 v\r\n" } else { "a=mid:x\r\n" },
                2 => if bad { "a=rtcp-mux-only\r\n" } else { "a=rtcp-mux-only\r\na=rtcp-mux\r\n" },
                3 => if bad { "a=rid:r send pt=" } else { "a=rid:r send pt=8\r\n" },
                4 => if bad { "a=rid:r send\r\na=simulcast:recv r\r\n" } else { "a=rid:r send\r\na=simulcast:send r\r\n" },
                _ => if bad { "a=rid:r send\r\na=simulcast:send r" } else { "a=rid:r send\r\na=simulcast:send r\r\n" },
            });
            if bad && k == 3 {
                t.push_str(&format!("{}\r\n", st(p.clone())));
            }
            if bad && k == 5 {
                t.push_str(&format!("{}\r\n", st(p.clone())));
            }
        }
        let ok = k == 3 && (a == 0 || a == 8);
        iff(&t, ok, if ok { "many ok" } else { "many bad" });
    }
    fn h_c09_many_lines() {
        // the same at the end of a section of many lines, or with many rids
        let n = many();
        let k = choice(5);
        let (p, a) = digs(1);
        let mut t = format!("{}{}m=video 9 RTP/AVP 0 8\r\n", HEAD, C);
        let mut ok = true;
        match k {
            0 => {
                for _ in 0..n { t.push_str("a=rid:r send pt=8\r\n"); }
                t.push_str(&format!("a=rid:s send pt={}\r\n", st(p)));
                ok = a == 0 || a == 8;
            }
            1 => {
                for i in 0..n { t.push_str(&format!("a=rid:r{} send\r\n", i)); }
                t.push_str(&format!("a=simulcast:send r{}\r\n", n - 1));
            }
            2 => {
                for _ in 0..n { t.push_str("a=rid:0 send\r\na=simulcast:send 0\r\n"); }
                t.push_str(&format!("a=simulcast:send {}\r\n", st(p)));
                ok = a == 0;
            }
            3 => {
                t.push_str(&format!("a=rid:0 send\r\na=simulcast:send {}{}\r\n", "0;".repeat(n), st(p)));
                ok = a == 0;
            }
            _ => {
                let f: Vec<String> = (0..n).map(|i| (i % 128).to_string()).collect();
                t = format!("{}{}m=application 9 DTLS/SCTP {}\r\na=rid:r send pt={},{}\r\n", HEAD, C, 
                    f.join(" "), f.join(","), st(p));
                ok = a < n as u64;
            }
        }
        iff(&t, ok, if ok { "many ok" } else { "many bad" });
    }
    fn h_c09_timing() {
        // t= may stand anywhere at session level, but it must stand there
        let at = choice(5);
        let t = "t=0 0\r\n";
        let p = |k| if at == k { t } else { "" };
        let m = if choice(2) == 1 { "m=audio 9 RTP/AVP 0\r\n" } else { "" };
        iff(&format!("{}{}{}{}a=ice-ufrag:{}\r\n{}{}", VOS, p(0), C, p(1), tok(2, &[]), p(2), m), at < 3, "timing");
    }
    fn h_c09_connection() {
        // either the session or every media section has a connection
        let s = choice(2) == 1;
        let n = choice(5) as usize;
        let mut t = String::from(HEAD);
        if s { t.push_str(C); }
        let mut all = true;
        for i in 0..n {
            let c = choice(2) == 1;
            all &= c;
            t.push_str(if i % 2 == 0 { "m=audio 9 RTP/AVP 0\r\n" } else { "m=application 9 DTLS/SCTP 5000\r\n" });
            if choice(2) == 1 { t.push_str("a=sendrecv\r\n"); }
            if c { t.push_str("c=IN IP6 ::1\r\n"); }
        }
        iff(&t, s || all, "connection");
    }
    fn h_c09_extmap() {
        // header extensions are declared at one level only
        let s = choice(3);
        let n = choice(4) as usize;
        let mut t = format!("{}{}", HEAD, C);
        let e = |i: u32| { let (d, _) = digs(1); format!("a=extmap:{}{}\r\n", st(d), [" uri:a", "/sendonly uri:b x=y"][i as usize % 2]) };
        if s > 0 { t.push_str("a=extmap-allow-mixed\r\n"); }
        for i in 0..s { t.push_str(&e(i)); }
        let mut m = false;
        for i in 0..n {
            t.push_str("m=audio 9 RTP/AVP 0\r\n");
            match choice(3) {
                0 => (),
                1 => t.push_str("a=extmap-allow-mixed\r\n"),
                _ => { t.push_str("a=sendrecv\r\n"); t.push_str(&e(i as u32)); m = true; }
            }
        }
        iff(&t, s == 0 || !m, "extmap");
    }
    fn h_c09_rtcp_mux_only() {
        // rtcp-mux-only needs rtcp-mux in the same section
        let n = 1 + choice(3) as usize;
        let mut t = format!("{}{}", HEAD, C);
        let mut ok = true;
        for _ in 0..n {
            t.push_str("m=audio 9 RTP/AVP 0\r\n");
            let k = choice(5);
            t.push_str(["", "a=rtcp-mux\r\n", "a=rtcp-mux-only\r\n", "a=rtcp-mux\r\na=sendrecv\r\na=rtcp-mux-only\r\n", "a=rtcp-mux-only\r\na=rtcp-mux\r\n"][k as usize]);
            ok &= k != 2;
        }
        iff(&t, ok, "rtcp-mux-only");
    }
    fn h_c09_rid_formats() {
        // the payload types of a rid are those of its own media section
        let app = choice(2) == 1;
        let (v, x) = digs(2);
        let (w, y) = digs(2);
        let (p, a) = digs(2);
        let (q, b) = digs(2);
        assume((x >= 96) & (y >= 96));
        let two = choice(2) == 1;
        let m = if app { format!("m=application 9 DTLS/SCTP {} {}\r\n", st(v), st(w)) } else { format!("m=audio 9 RTP/AVP {} {}\r\n", st(v), st(w)) };
        let rid = if two { format!("a=rid:1 send pt={},{}\r\n", st(p), st(q)) } else { format!("a=rid:1 recv pt={}\r\n", st(p)) };
        let extra = pick(&["", "a=rid:2 send\r\n", "a=rid:2 recv max-fs=5\r\n"]);
        let ok = ((a == x) | (a == y)) & (!two | (b == x) | (b == y));
        let other = "m=audio 9 RTP/AVP 98 99\r\n";
        let t = match choice(3) {
            0 => format!("{}{}{}{}{}", HEAD, C, m, extra, rid),
            1 => format!("{}{}{}{}{}{}", HEAD, C, other, m, rid, extra),
            _ => format!("{}{}{}{}{}", HEAD, C, m, rid, other),
        };
        iff(&t, ok, if ok { "rid formats ok" } else { "rid formats bad" });
    }
    fn h_c09_rid_formats_3digits() {
        let (v, x) = digs(3);
        let (p, a) = digs(3);
        assume((x >= 100) & (x <= 127));
        let n = choice(3) as usize;
        let t = format!("{}{}m=video 9 RTP/AVP{} {}\r\na=rid:x send pt={};max-fs=1\r\n", HEAD, C, [" 0", " 96 97", " 0 3 5 7 9 11"][n], st(v), st(p));
        iff(&t, a == x, "rid formats");
    }
    fn h_c09_rid_format_lengths() {
        // numbers of different lengths, one of which may begin or end with the other
        let app = choice(2) == 1;
        let (v, x) = digs(1 + choice(3) as usize);
        let (p, a) = digs(1 + choice(3) as usize);
        if !app { assume((x >= 3) & (x <= 18) | (x >= 96) & (x <= 127)); }
        let n = choice(4) as usize;
        let others = if app { ["", "webrtc-datachannel ", "x 1234567 ", "1234 2345 "][n] } else { ["", "0 ", "96 97 100 ", "63 111 "][n] };
        let known: &[u64] = if app { &[][..] } else { [&[][..], &[0], &[96, 97, 100], &[63, 111]][n] };
        let m = if app { "application 9 DTLS/SCTP" } else { "video 9 RTP/AVP" };
        let t = format!("{}{}m={} {}{}\r\na=rid:x send pt={}\r\n", HEAD, C, m, others, st(v), st(p));
        let mut ok = a == x;
        for k in known { ok |= a == *k; }
        iff(&t, ok, if ok { "rid formats ok" } else { "rid formats bad" });
    }
    fn h_c09_rid_many_formats() {
        // each of many payload types counts
        let k = choice(6) as usize;
        let (p, a) = digs(2);
        let f = [96u64, 97, 0, 63, 8, 99];
        let mut ok = false;
        for x in f { ok |= a == x; }
        let list: Vec<String> = f.iter().enumerate().map(|(i, x)| if i == k { st(p.clone()) } else { x.to_string() }).collect();
        let formats: Vec<String> = f.iter().map(|x| x.to_string()).collect();
        let t = format!("{}{}m=video 9 RTP/AVP {}\r\na=rid:x send pt={}\r\n", HEAD, C, formats.join(" "), list.join(","));
        iff(&t, ok, if ok { "rid formats ok" } else { "rid formats bad" });
    }
    fn h_c09_simulcast_names() {
        // names that begin or end alike are different names
        let (a, b) = (tok(1, b"~,;=*"), tok(1, b"~,;=*"));
        let declared = match choice(4) { 0 => a.clone(), 1 => a.clone() + "x", 2 => String::from("x") + &a, _ => a.clone() + &a };
        let used = match choice(4) { 0 => b.clone(), 1 => b.clone() + "x", 2 => String::from("x") + &b, _ => b.clone() + &b };
        let d = pick(&["send", "recv"]);
        let ok = s_eq(&declared, &used);
        let list = match choice(4) { 0 => used.clone(), 1 => format!("ok;{}", used), 2 => format!("ok,~{}", used), _ => format!("{},ok;ok", used) };
        let t = format!("{}{}m=audio 9 RTP/AVP 0\r\na=rid:ok {}\r\na=rid:{} {}\r\na=simulcast:{} {}\r\n", HEAD, C, d, declared, d, d, list);
        iff(&t, ok | s_eq(&used, "ok"), if ok { "simulcast ok" } else { "simulcast bad" });
    }
    fn h_c09_simulcast() {
        // every rid of a simulcast is declared with the same direction in the same section
        let nr = choice(4) as usize;
        let mut rids = String::new();
        let mut send = vec![];
        let mut recv = vec![];
        for i in 0..nr {
            let d = choice(2);
            let n = if i == 0 { name() } else { ["hi", "lo", "mid"][i].to_string() };
            rids.push_str(&format!("a=rid:{} {}\r\n", n, ["send", "recv"][d as usize]));
            if d == 0 { send.push(n) } else { recv.push(n) }
        }
        let (k, mut ok) = (choice(4), true);
        let mut has = |v: &[String], n: &str| ok &= v.iter().any(|x| s_eq(x, n));
        let a = name();
        let paused = if choice(2) == 1 { "~" } else { "" };
        let sim = match k {
            0 => { has(&send, &a); format!("a=simulcast:send {}{}\r\n", paused, a) }
            1 => { has(&recv, &a); format!("a=simulcast:recv {}{}\r\n", paused, a) }
            2 => { has(&send, &a); has(&recv, "lo"); has(&recv, "mid"); format!("a=simulcast:send {}{} recv lo;mid\r\n", paused, a) }
            _ => { has(&send, "hi"); has(&send, "lo"); has(&send, &a); format!("a=simulcast:send hi;lo,{}{}\r\n", paused, a) }
        };
        let t = if choice(2) == 0 { format!("{}{}m=audio 9 RTP/AVP 0\r\n{}{}", HEAD, C, rids, sim) } else { format!("{}{}m=audio 9 RTP/AVP 0\r\na=rid:foo send\r\nm=audio 9 RTP/AVP 0\r\n{}{}", HEAD, C, sim, rids) };
        iff(&t, ok, if ok { "simulcast ok" } else { "simulcast bad" });
    }
    fn h_c09_simulcast_lists() {
        // any number of alternatives in either direction, one of them perhaps not declared
        let (n, m) = (choice(4) as usize, choice(4) as usize);
        if n + m == 0 { return }
        let bad = choice(4);
        let at = choice((n + m) as u32) as usize;
        let c = st(vec![dig()]);
        let mut rids = String::new();
        let mut lists = [String::new(), String::new()];
        for i in 0..n + m {
            let d = (i >= n) as usize;
            let own = ["send", "recv"];
            let sep = if choice(2) == 0 { ";" } else { "," };
            let id = format!("{}{}", c, i);
            if !lists[d].is_empty() { lists[d].push_str(sep); }
            lists[d].push_str(&id);
            match bad {
                1 if i == at => {}
                2 if i == at => rids.push_str(&format!("a=rid:{} {}\r\n", id, own[1 - d])),
                _ => rids.push_str(&format!("a=rid:{} {}\r\n", id, own[d])),
            }
        }
        let (s, r) = (if n > 0 { format!("send {}", lists[0]) } else { String::new() }, if m > 0 { format!("recv {}", lists[1]) } else { String::new() });
        let (x, y) = if choice(2) == 0 { (s, r) } else { (r, s) };
        let sep = if n > 0 && m > 0 { " " } else { "" };
        iff(&format!("{}{}m=video 9 RTP/AVP 0\r\n{}a=simulcast:{}{}{}\r\n", HEAD, C, rids, x, sep, y), bad == 0 || bad == 3, if bad == 0 || bad == 3 { "lists ok" } else { "lists bad" });
    }
    fn h_c09_simulcast_sections() {
        // rids of other sections do not count, whatever their position; every simulcast counts
        let a = tok(1, b"~,;=*");
        let k = choice(7) as usize;
        let ok = [false, true, false, true, false, false, true][k] ;
        let body = match k {
            0 => format!("m=audio 9 RTP/AVP 0\r\na=rid:{0} send\r\nm=audio 9 RTP/AVP 0\r\na=simulcast:send {0}\r\n", a),
            1 => format!("m=audio 9 RTP/AVP 0\r\na=simulcast:send {0}\r\na=sendrecv\r\na=rid:{0} send\r\nm=audio 9 RTP/AVP 0\r\n", a),
            2 => format!("m=audio 9 RTP/AVP 0\r\na=simulcast:recv {0}\r\nm=audio 9 RTP/AVP 0\r\na=rid:{0} recv\r\n", a),
            3 => format!("m=audio 9 RTP/AVP 0\r\na=rid:{0} recv\r\na=rid:{0} send\r\na=simulcast:recv {0} send {0}\r\n", a),
            4 => format!("m=audio 9 RTP/AVP 0\r\na=rid:{0} send\r\na=simulcast:send {0}\r\na=simulcast:recv {0}\r\n", a),
            5 => format!("m=audio 9 RTP/AVP 0\r\na=rid:{0} send\r\na=simulcast:send {0};{0}x\r\n", a),
            _ => format!("m=audio 9 RTP/AVP 0\r\na=rid:{0} send\r\na=rid:{0}x recv\r\na=simulcast:send {0} recv ~{0}x\r\n", a),
        };
        iff(&format!("{}{}{}", HEAD, C, body), ok, "sections");
    }
    fn h_c09_together() {
        // a violation in any one of several sections is found
        let n = [1usize, 2, 4, 9][choice(4) as usize];
        let at = [n / 2, n - 1][choice(2) as usize];
        let bad = choice(5);
        let mut t = format!("{}{}", HEAD, if bad == 4 { "" } else { C });
        for i in 0..n {
            let w = i == at;
            t.push_str("m=audio 9 RTP/AVP 0 8\r\n");
            if bad == 4 && !w { t.push_str(C); }
            t.push_str("a=rid:a send pt=0");
            if bad == 1 && w { t.push_str(",3"); }
            t.push_str("\r\na=rtcp-mux-only\r\n");
            if !(bad == 2 && w) { t.push_str("a=rtcp-mux\r\n"); }
            t.push_str("a=simulcast:send a");
            if bad == 3 && w { t.push_str(",b"); }
            t.push_str("\r\n");
        }
        iff(&t, bad == 0, "together");
    }
    fn h_c09_context() {
        // the rules hold whatever else the section has and whatever its media line is
        let l = pick(MEDIA);
        let a = pick(ODD);
        let name = a.split(':').next().unwrap_or("");
        if !levels(name).1 || ["extmap", "rtcp-mux", "rtcp-mux-only", "rid", "simulcast"].contains(&name) { return }
        let rule = choice(6);
        let ok = choice(2) == 1;
        let bad = !ok;
        let first = choice(2) == 1;
        let f = match l.rfind(' ') { Some(i) => &l[i + 1..], None => "" };
        let own = match rule {
            0 => if bad { String::new() } else { C.to_string() },
            1 => "a=extmap:1 u\r\n".to_string(),
            2 => format!("a=rtcp-mux-only\r\n{}", if bad { "" } else { "a=rtcp-mux\r\n" }),
            3 => format!("a=rid:r send pt={}\r\n", if bad { "77" } else { f }),
            4 => format!("a=rid:r send\r\na=simulcast:{} r\r\n", if bad { "recv" } else { "send" }),
            _ => format!("a=rid:r recv\r\na=simulcast:recv r{}\r\n", if bad { ";s" } else { "" }),
        };
        let head = match rule {
            0 => String::new(),
            1 => format!("{}{}", C, if bad { "a=extmap:1 u\r\n" } else { "" }),
            _ => C.to_string(),
        };
        let x = format!("a={}\r\n", a);
        let t = format!("{}{}{}\r\n{}{}{}", HEAD, head, l, if first { &x } else { "" }, own, if first { "" } else { &x });
        iff(&t, ok, if ok { "context ok" } else { "context bad" });
    }
    fn h_c09_session_context() {
        // nothing else at session level replaces the timing or the connection
        let a = pick(ODD);
        let name = a.split(':').next().unwrap_or("");
        if !levels(name).0 { return }
        let k = choice(4);
        let bw = pick(&["", "b=AS:0\r\n", "b=CT:1\r\n"]);
        let m = pick(MEDIA);
        let t = format!("{}{}{}{}a={}\r\n{}\r\n", VOS, if k & 1 == 0 { "t=0 0\r\n" } else { "" }, if k & 2 == 0 { C } else { "" }, bw, a, m);
        iff(&t, k == 0, if k == 0 { "session context ok" } else { "session context bad" });
    }
}
const MEDIA: &[&str] = &[
    "m=audio 9 RTP/AVP 0", "m=audio 0 RTP/AVP 8", "m=video 0 UDP/TLS/RTP/SAVPF 96", "m=video 65535/2 RTP/SAVPF 127", "m=application 9 DTLS/SCTP 5",
    "m=application 0 UDP/DTLS/SCTP 5000", "m=application 1 TCP/DTLS/SCTP 0", "m=audio 1/0 TCP/DTLS/RTP/SAVP 0", "m=application 9 RTP/AVP 9",
];
