//! C10: what is reported as an error or a warning, in which order, and for which line.
use super::gen::*;
use super::sym::*;
use super::util::*;
use webrtc_sdp::error::*;
use webrtc_sdp::*;

/// lines that are not understood, but no reason to reject the description
fn unsupported(i: u32) -> String {
    match i {
        0 => format!("a=x{}y:z", tok(1, b":")),
        1 => "a=foobar".to_string(),
        2 => "a=group:NEW 1 2".to_string(),
        3 => "a=ssrc-group:NEW 1 2".to_string(),
        4 => "a=fmtp:96".to_string(),
        5 => "a=rtcp-fb:96 unknown x".to_string(),
        6 => "a=fingerprint:md5 00:11".to_string(),
        7 => "a=candidate:0 1 UDP 1 1.2.3.4 9 typ host ext".to_string(),
        8 => format!("a={}:1", lower(2)),
        10 => "m=text 9 RTP/AVP 0".to_string(),
        11 => format!("m=audio 9 RTP/{} 0", tok(1, &[])),
        _ => "a=rtcp-fb:96 goog-remb x".to_string(),
    }
}
/// lines that make the whole description unacceptable
fn broken(i: u32) -> String {
    match i {
        0 => {
            let t = tok(3, b"=");
            t
        }
        1 => format!("{}=0 0", one(b"eikpruzxydfghjlnqw0?-") as char),
        2 => "a=ptime:x".to_string(),
        3 => format!("a=sctp-port:{}", st(num(6).0)),
        4 => "a=".to_string(),
        5 => "c=IN IP4 1.2.3".to_string() + ".4 5",
        6 => "ab=5".to_string(),
        7 => "=5".to_string(),
        8 => "a=sendrecv:1".to_string(),
        9 => "a=mid:".to_string(),
        10 => "b=AS".to_string(),
        _ => "t=5".to_string(),
    }
}
/// white space belongs to the line that is reported
fn spaced(l: String) -> String {
    match choice(4) {
        0 | 1 => l,
        2 => format!(" {}\t", l),
        _ => format!("\t  {} ", l),
    }
}
fn kindof(e: &SdpParserError) -> (u8, usize, &str) {
    match e {
        SdpParserError::Line { line, line_number, .. } => (0, *line_number, line),
        SdpParserError::Unsupported { line, line_number, .. } => (1, *line_number, line),
        SdpParserError::Sequence { line_number, .. } => (2, *line_number, ""),
    }
}
harnesses! {
    fn h_c10_many() {
        // many warnings, or warnings and errors, each of its own line
        let n = many();
        let k = choice(3);
        let d = digs(1).0;
        let mut t = format!("{}c=IN IP4 1.2.3.4\r\n", HEAD);
        for i in 0..n {
            t.push_str(&format!("a=x{}:y\r\n", i));
            if k == 1 && i == n / 2 {
                t.push_str("a=ptime:x\r\n");
            }
            if k == 2 {
                t.push_str("m=audio 9 RTP/AVP 0\r\n");
            }
        }
        let l = format!("a=z{}:y", st(d));
        t.push_str(&l);
        note(l.as_bytes());
        match parse_sdp(&t, false) {
            Ok(s) => {
                check(k != 1, "a broken line is accepted");
                check(s.warnings.len() == n + 1, "the number of warnings differs");
                let step = if k == 2 { 2 } else { 1 };
                for (i, w) in s.warnings.iter().enumerate() {
                    let x = if i == n { l.clone() } else { format!("a=x{}:y", i) };
                    let (a, b, c) = kindof(w);
                    check(a == 1 && b == 5 + i * step && s_eq(c, &x), "a warning names another line");
                }
                check(s.media.len() == if k == 2 { n } else { 0 } && s.attribute.is_empty(), "lines are lost or added");
                cover("many warnings");
            }
            Err(e) => {
                let (a, b, c) = kindof(&e);
                check(k == 1 && a == 0 && b == 6 + n / 2 && c == "a=ptime:x", "the error is another one");
                cover("error among warnings");
            }
        }
    }
    fn h_c10_mixed() {
        // any mix of good, unsupported and broken lines
        let n = if deep() { 5 } else { 4 };
        let mut t = String::from(HEAD);
        t.push_str("c=IN IP4 1.2.3.4\r\n");
        let mut num = 5;
        let mut warn: Vec<(usize, String)> = vec![];
        let mut err: Vec<(usize, String)> = vec![];
        let mut good = 0;
        let first = choice(12);
        for i in 0..n {
            match choice(4) {
                0 => { t.push_str("a=ice-ufrag:x\r\n"); good += 1; }
                1 => { let l = unsupported((first + i * 3) % 12); t.push_str(&l); t.push_str("\r\n"); warn.push((num, l)); }
                2 => { let l = broken((first + i * 5) % 12); t.push_str(&l); t.push_str("\r\n"); err.push((num, l)); }
                _ => t.push_str(" \r\n"),
            }
            num += 1;
        }
        let fail = choice(2) == 1;
        note(t.as_bytes());
        match parse_sdp(&t, fail) {
            Ok(s) => {
                check(err.is_empty(), "a broken line is accepted");
                check(!fail || warn.is_empty(), "a warning does not fail");
                check(s.attribute.len() == good, "lines are lost or added");
                check(s.warnings.len() == warn.len(), "the number of warnings differs");
                for (a, e) in s.warnings.iter().zip(warn.iter()) {
                    let (k, l, x) = kindof(a);
                    check(k == 1 && l == e.0 && s_eq(x, &e.1), "a warning names another line");
                }
                if warn.is_empty() { cover("clean") } else { cover("warned") }
            }
            Err(e) => {
                let (k, l, x) = kindof(&e);
                if fail && !warn.is_empty() {
                    check(k == 1 && l == warn[0].0 && s_eq(x, &warn[0].1), "the failing warning is not the first one");
                    cover("failed on a warning");
                } else if let Some(b) = err.last() {
                    check(k == 0 && l == b.0 && s_eq(x, &b.1), "the error is not the last one");
                    cover("failed on an error");
                } else {
                    check(false, "an acceptable description is rejected");
                }
            }
        }
    }
    fn h_c10_repeated() {
        // the same line several times is reported as often
        let bad = choice(2) == 1;
        let l = if bad { broken(choice(12)) } else { unsupported(choice(12)) };
        let n = 2 + choice(2);
        let mut t = format!("{}c=IN IP4 1.2.3.4\r\n", HEAD);
        let mut at = vec![];
        let mut num = 5;
        for _ in 0..n {
            for _ in 0..choice(3) {
                t.push_str("a=ice-ufrag:x\r\n");
                num += 1;
            }
            at.push(num);
            t.push_str(&format!("{}\r\n", l));
            num += 1;
        }
        note(t.as_bytes());
        match parse_sdp(&t, false) {
            Ok(s) => {
                check(!bad, "a broken line is accepted");
                check(s.warnings.len() == at.len(), "the number of warnings differs");
                for (w, n) in s.warnings.iter().zip(at.iter()) {
                    check(kindof(w) == (1, *n, &l), "a warning names another line");
                }
                cover("warned");
            }
            Err(e) => {
                check(bad && kindof(&e) == (0, at[at.len() - 1], &l), "the error is not the last one");
                cover("broken");
            }
        }
    }
    fn h_c10_each_unsupported() {
        let l = spaced(unsupported(choice(12)));
        let at = choice(3);
        let nl = pick(&["\r\n", "\n"]);
        let p = |k| if at == k { format!("{}{}", l, nl) } else { String::new() };
        let media = choice(2) == 1;
        let t = format!("{}{}c=IN IP4 1.2.3.4\r\n{}{}{}", HEAD, p(0), p(1), if media { "m=audio 9 RTP/AVP 0\r\na=sendrecv\r\n" } else { "" }, p(2));
        let line = match at { 0 => 4, 1 => 5, _ => if media { 7 } else { 5 } };
        note(t.as_bytes());
        match parse_sdp(&t, false) {
            Ok(s) => {
                check(s.warnings.len() == 1, "no warning is given");
                let (k, n, x) = kindof(&s.warnings[0]);
                check(k == 1 && n == line && s_eq(x, &l), "the warning names another line");
                check(s.attribute.is_empty() && s.media.len() == media as usize, "the line leaves a trace");
                if media { check(s.media[0].get_attributes().len() == 1, "the line leaves a trace"); }
                let d = s.warnings[0].to_string();
                check(d.starts_with("Unsupported: "), "the warning prints as something else");
                check(d.ends_with(&format!(" in line({}): {}", line, l)), "the printed warning does not name its line");
                cover("warned");
            }
            Err(_) => check(false, "an unsupported line is an error"),
        }
        match parse_sdp(&t, true) {
            Ok(_) => check(false, "a warning does not fail"),
            Err(e) => { let (k, n, x) = kindof(&e); check(k == 1 && n == line && s_eq(x, &l), "the failing warning names another line"); }
        }
    }
    fn h_c10_each_broken() {
        let l = spaced(broken(choice(12)));
        let at = choice(3);
        let nl = pick(&["\r\n", "\n"]);
        let p = |k| if at == k { format!("{}{}", l, nl) } else { String::new() };
        let t = format!("{}{}c=IN IP4 1.2.3.4\r\n{}m=audio 9 RTP/AVP 0\r\na=sendrecv\r\n{}", HEAD, p(0), p(1), p(2));
        let line = match at { 0 => 4, 1 => 5, _ => 7 };
        note(t.as_bytes());
        match parse_sdp(&t, choice(2) == 1) {
            Ok(_) => check(false, "a broken line is accepted"),
            Err(e) => {
                let (k, n, x) = kindof(&e);
                check(k == 0 && n == line && s_eq(x, &l), "the error names another line");
                let d = e.to_string();
                check(d.starts_with("Line error: "), "the error prints as something else");
                check(d.ends_with(&format!(" in line({}): {}", line, l)), "the printed error does not name its line");
                cover("broken");
            }
        }
    }
    fn h_c10_media_skipped() {
        // an unknown media type or protocol is a warning; the section is not added
        let l = match choice(4) {
            0 => format!("m={}x 9 RTP/AVP 0", tok(1, &[])),
            1 => "m=text 9 RTP/AVP 0".to_string(),
            2 => format!("m=audio 9 RTP/{} 0", tok(2, &[])),
            _ => "m=audio 9 UDP 0".to_string(),
        };
        // sections before and after it, and lines of its own (an attribute then belongs to the section before)
        let (before, own, after) = (choice(3) as usize, choice(2) as usize, choice(2) as usize);
        let v = "m=video 9 RTP/AVP 0\r\n";
        let t = format!("{}c=IN IP4 1.2.3.4\r\n{}{}\r\n{}{}", HEAD, v.repeat(before), l, "a=sendrecv\r\n".repeat(own), v.repeat(after));
        note(t.as_bytes());
        match parse_sdp(&t, false) {
            Ok(s) => {
                check(s.media.len() == before + after, "an unsupported media section is added");
                check(s.attribute.len() + s.media.iter().map(|m| m.get_attributes().len()).sum::<usize>() == own, "the lines of an unsupported media section are lost");
                check(s.warnings.len() == 1 && kindof(&s.warnings[0]) == (1, 5 + before, &l), "the warning names another line");
                cover("skipped");
            }
            Err(_) => check(false, "an unsupported media section is an error"),
        }
        match parse_sdp(&t, true) {
            Err(e) => check(kindof(&e) == (1, 5 + before, &l), "the failing warning names another line"),
            Ok(_) => check(false, "a warning does not fail"),
        }
    }
    fn h_c10_empty_and_short() {
        let n = [0usize, 1, 3, 20, 49, 50, 51][choice(7) as usize];
        let s = if n < 2 { nonl(n) } else { nonl(1) + &String::from("v=0\r\no=- 1 1 IN IP4 1.1.1.1\r\ns=-\r\nt=0 0\r\nabcdefgh=ijklmno")[..n - 2] + &nonl(1) };
        note(s.as_bytes());
        match parse_sdp(&s, false) {
            Ok(_) => check(n > 50, "a text of less than 51 bytes is accepted"),
            Err(e) => {
                if n < 51 {
                    let (k, l, x) = kindof(&e);
                    check(k == 0 && l == 0 && s_eq(x, &s), "a short text is not reported as a whole");
                    cover("short");
                }
            }
        }
    }
    fn h_c10_line_numbers() {
        // the number of a line counts all lines before it, the blank ones too
        let k = choice(6) as usize;
        let m = choice(4) as usize;
        let mut t = String::new();
        let blank = ["\r\n", "\n", " \r\n", "\t\n"];
        for i in 0..k { t.push_str(blank[i % 4]); }
        t.push_str(HEAD);
        for i in 0..m { t.push_str(blank[(i + 1) % 4]); }
        let kind = choice(3);
        let (l, n) = match kind { 0 => (unsupported(choice(12)), 1), 1 => (broken(choice(12)), 0), _ => ("a=ptime:1".to_string(), 2) };
        t.push_str(&l);
        if choice(2) == 1 { t.push_str("\r\na=sendrecv"); }
        note(t.as_bytes());
        match parse_sdp(&t, true) {
            Ok(_) => check(false, "a broken description is accepted"),
            Err(e) => {
                let (a, b, x) = kindof(&e);
                check(a == n, "the error is of another kind");
                check(b == k + 4 + m, "the line number differs");
                check(n == 2 || s_eq(x, &l), "the line text differs");
                cover(["unsupported", "broken", "misplaced"][kind as usize]);
            }
        }
    }
    fn h_c10_line_only() {
        // one line alone: the same error with the given number
        let n = [0usize, 1, 10, 99999][choice(4) as usize];
        let un = choice(2) == 1;
        let l = spaced(if un { unsupported(choice(12)) } else { broken(choice(12)) });
        note(l.as_bytes());
        match parse_sdp_line(&l, n) {
            Ok(_) => check(false, "a broken line is accepted"),
            Err(e) => {
                let (k, m, x) = kindof(&e);
                check(k == un as u8 && m == n && s_eq(x, &l), "the error names another line");
                let d = e.to_string();
                check(d.ends_with(&format!(" in line({}): {}", n, l)), "the printed error does not name its line");
                check(std::error::Error::source(&e).is_some(), "the error has no source");
                cover(if un { "unsupported" } else { "line" });
            }
        }
    }
    fn h_c10_types() {
        // the types a description may not use are errors whatever their value
        let b = byte(127);
        assume((b != b'=') & (b > 32) & (b < 127));
        let c = b | 32;
        let known = (c == b'a') | (c == b'b') | (c == b'c') | (c == b'm') | (c == b'o') | (c == b's') | (c == b't') | (c == b'v');
        assume(!known);
        let l = format!("{}={}", b as char, tok(2, &[]));
        note(l.as_bytes());
        check(matches!(parse_sdp_line(&l, 3), Err(SdpParserError::Line { line_number: 3, .. })), "a line of an unsupported type is not an error");
    }
    fn h_c10_sequence_display() {
        let n = [0usize, 7, 123][choice(3) as usize];
        let m = tok(3, &[]);
        let e = SdpParserError::Sequence { message: m.clone(), line_number: n };
        check(s_eq(&e.to_string(), &format!("Sequence error in line({}): {}", n, m)), "a sequence error prints another text");
        check(std::error::Error::source(&e).is_none(), "a sequence error has no source");
        let i = SdpParserInternalError::Generic(m.clone());
        check(s_eq(&i.to_string(), &format!("Parsing error: {}", m)), "a generic error prints another text");
        let i = SdpParserInternalError::Unsupported(m.clone());
        check(s_eq(&i.to_string(), &format!("Unsupported parsing error: {}", m)), "an unsupported error prints another text");
        cover("display");
    }
}
