"""The planted bugs: edits of /repo (file, old, new), a demonstration, and what they break."""
BUGS = []
L, A, M, AN, AD, N, E = 'lib.rs', 'attribute_type.rs', 'media_type.rs', 'anonymizer.rs', 'address.rs', 'network.rs', 'error.rs'

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

# ---------------------------------------------------------------- C01
bug('C01-port-range', 'C01', [(M, '''        Some(c) => c.parse::<u32>()?,
    };
    let proto''', '''        Some(c) => c.parse::<u32>()?,
    };
    let last_port = port + port_count;
    trace!("ports: {} to {}", port, last_port);
    let proto''')],
    '''let t = format!("{H}m=audio 9/4294967295 RTP/AVP 0\\r\\n");
    assert!(std::panic::catch_unwind(|| parse_sdp(&t, false).is_ok()).is_ok());''',
    'a port count so large that port + count exceeds 32 bits', 'the parser panics with an arithmetic overflow')
bug('C01-imageattr-x', 'C01', [(A, '''    if !y_token.starts_with("y=") {''', '''    if !y_token.starts_with('y') {''')],
    '''let t = format!("{H}m=video 9 RTP/AVP 0\\r\\na=imageattr:97 send [x=1,y]\\r\\n");
    assert!(std::panic::catch_unwind(|| parse_sdp(&t, false).is_err()).unwrap_or(false));''',
    'an imageattr set whose y token consists of the letter only', 'slicing out of bounds panics')
bug('C01-candidate-hang', 'C01', [(A, '''                    let ufrag = tokens[index + 1];
                    cand.set_ufrag(ufrag.to_string());
                    index += 2;''', '''                    let ufrag = tokens[index + 1];
                    if cand.ufrag.as_deref() != Some(ufrag) {
                        cand.set_ufrag(ufrag.to_string());
                        index += 2;
                    }''')],
    '''std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(10)); std::process::exit(7); });
    let t = format!("{H}m=audio 9 RTP/AVP 0\\r\\na=candidate:1 1 UDP 1 1.2.3.4 1 typ host ufrag x ufrag x\\r\\n");
    p(&t);''',
    'a candidate that repeats its ufrag extension with the same value', 'the parser loops forever')
# ---------------------------------------------------------------- C02
bug('C02-session-dash', 'C02', [(L, '''        } else {
            " "
        }''', '''        } else {
            "-"
        }''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns= \\r\\nt=0 0\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(p(&s.to_string()).session, s.session);''',
    'a description without a session name', 'the printed description gets a session name')
# ---------------------------------------------------------------- C03
bug('C03-ssrc-empty', 'C03', [(A, '''        write_option_string!(f, ":{}", self.value)
''', '''        match self.value {
            Some(ref value) if !value.is_empty() => write!(f, ":{value}"),
            _ => Ok(()),
        }
''')],
    '''if let SdpAttribute::Ssrc(s) = a("ssrc:1 label:") { let t = SdpAttribute::Ssrc(s.clone()).to_string();
    if let SdpAttribute::Ssrc(r) = a(&t) { assert_eq!(r.value, s.value); } }''',
    'an ssrc attribute whose value is empty', 'the empty value is lost when printed')
bug('C03-av1-level', 'C03', [(A, '''                    Some(level_idx) => format!("level-idx={}", level_idx),
                    None => "".to_string(),''', '''                    Some(level_idx) => maybe_print_param("level-idx=", level_idx, 5),
                    None => "".to_string(),''')],
    '''if let SdpAttribute::Fmtp(s) = a("fmtp:96 profile=1;level-idx=5") { let t = SdpAttribute::Fmtp(s.clone()).to_string();
    if let SdpAttribute::Fmtp(r) = a(&t) { assert_eq!(r.parameters.level_idx, s.parameters.level_idx); } }''',
    'a fmtp that states level-idx explicitly with its default value', 'the explicit parameter is lost when printed')
bug('C03-rport-alone', 'C03', [(A, '''            rport = option_to_string!(" rport {}", self.rport),''', '''            rport = option_to_string!(" rport {}", self.raddr.as_ref().and(self.rport)),''')],
    '''if let SdpAttribute::Candidate(s) = a("candidate:1 1 UDP 1 1.2.3.4 1 typ srflx rport 7") { let t = SdpAttribute::Candidate(s.clone()).to_string();
    if let SdpAttribute::Candidate(r) = a(&t) { assert_eq!(r.rport, s.rport); } }''',
    'a candidate with rport but without raddr', 'the related port is lost when printed')
# ---------------------------------------------------------------- C04
bug('C04-fec-fr', 'C04', [(A, '''"FEC-FR" => SdpSsrcGroupSemantic::ForwardErrorCorrectionFr,''', '''"FEC-FR" => SdpSsrcGroupSemantic::ForwardErrorCorrection,''')],
    '''assert_eq!(a("ssrc-group:FEC-FR 1 2").to_string(), "ssrc-group:FEC-FR 1 2");''',
    'a FEC-FR ssrc group', 'the semantics is mixed up with FEC')
bug('C04-simulcast-tilde', 'C04', [(A, '''if let Some(idstr) = idstr.strip_prefix('~') {''', '''if idstr.starts_with('~') {
            let idstr = idstr.trim_start_matches('~');''')],
    '''assert_eq!(SdpAttributeSimulcastId::new("~~1").id, "~1");
    assert_eq!(a("simulcast:send 1,~~2").to_string(), "simulcast:send 1,~~2");''',
    'a paused simulcast id that itself starts with a tilde', 'the id loses a character')
bug('C04-rtpmap-channels', 'C04', [(A, '''    if let Some(x) = parameters.next() {
        rtpmap.set_channels(x.parse::<u32>()?)
    };''', '''    if let Some(x) = parameters.next() {
        // one channel is the default
        let channels = x.parse::<u32>()?;
        if channels != 1 {
            rtpmap.set_channels(channels)
        }
    };''')],
    '''if let SdpAttribute::Rtpmap(r) = a("rtpmap:0 PCMU/8000/1") { assert_eq!(r.channels, Some(1)); }''',
    'an rtpmap that states one channel explicitly', 'the channel count is dropped')
bug('C04-extmap-ext', 'C04', [(A, '''let ext_string: String = tokens[2..].join(" ");''', '''let ext_string: String = tokens[2..tokens.len().min(5)].join(" ");''')],
    '''assert_eq!(a("extmap:1 uri a b c d").to_string(), "extmap:1 uri a b c d");''',
    'an extmap with more than three extension attribute words', 'the rest of the words is dropped')
# ---------------------------------------------------------------- C05
bug('C05-ip6-ttl', 'C05', [(L, '''        ttl = Some(addr_tokens[1].parse::<u8>()?);
''', '''        ttl = match addr_tokens[1].parse::<u8>()? {
            0 => None,
            ttl => Some(ttl),
        };
''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 224.0.0.1/0/3\\r\\n");
    let c = s.connection.unwrap(); assert_eq!((c.ttl, c.amount), (Some(0), Some(3)));''',
    'a connection whose TTL is zero', 'the TTL is dropped, and the amount is printed in its place')
bug('C05-session-version', 'C05', [(L, '''    let session_version = match tokens.next() {
        None => {
            return Err(SdpParserInternalError::Generic(
                "Origin type is missing session version token".to_string(),
            ));
        }
        Some(x) => x.parse::<u64>()?,
    };''', '''    let session_version = match tokens.next() {
        None => {
            return Err(SdpParserInternalError::Generic(
                "Origin type is missing session version token".to_string(),
            ));
        }
        Some(x) => x.parse::<u64>()? & (u64::MAX >> 1),
    };''')],
    '''let s = p("v=0\\r\\no=- 1 18446744073709551615 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(s.origin.session_version, 18446744073709551615);''',
    'a session version of 2^63 or more', 'the top bit is lost')
bug('C05-bandwidth-case', 'C05', [(L, '''    let bw = match bv[0].to_uppercase().as_ref() {
        "AS" => SdpBandwidth::As(bandwidth),
        "CT" => SdpBandwidth::Ct(bandwidth),
        "TIAS" => SdpBandwidth::Tias(bandwidth),
        _ => SdpBandwidth::Unknown(String::from(bv[0]), bandwidth),
    };''', '''    let bw_type = bv[0].to_uppercase();
    let bw = match bw_type.as_ref() {
        "AS" => SdpBandwidth::As(bandwidth),
        "CT" => SdpBandwidth::Ct(bandwidth),
        "TIAS" => SdpBandwidth::Tias(bandwidth),
        _ => SdpBandwidth::Unknown(bw_type.clone(), bandwidth),
    };''')],
    '''let s = p(&format!("{H}b=x-Foo:5\\r\\n"));
    assert_eq!(s.bandwidth[0].to_string(), "x-Foo:5");''',
    'an unknown bandwidth type with lower-case letters', 'the type name is changed')
# ---------------------------------------------------------------- C06
bug('C06-rtcp-only-format', 'C06', [(M, '''matches!(fmt_num, 1 | 2 | 19 | 64..=95 | 128 .. )''', '''matches!(fmt_num, 1 | 2 | 19 | 72..=76 | 128 .. )''')],
    '''assert!(fails(&format!("{H}m=audio 9 RTP/AVP 70\\r\\n")));''',
    'a format number between 64 and 71 or 77 and 95', 'reserved format numbers are accepted')
bug('C06-rport', 'C06', [(A, '''                    let port = tokens[index + 1].parse::<u32>()?;
                    if port > 65535 {''', '''                    let port = tokens[index + 1].parse::<u32>()?;
                    if port > 65536 {''')],
    '''assert!(parse_attribute("candidate:1 1 UDP 1 1.2.3.4 1 typ host rport 65536").is_err());''',
    'a related port of exactly 65536', 'a port out of range is accepted')
# ---------------------------------------------------------------- C07
bug('C07-mid-once', 'C07', [(M, '''                    _ => sdp_media.add_attribute(a),''', '''                    SdpAttribute::Mid(_) => sdp_media.set_attribute(a),
                    _ => sdp_media.add_attribute(a),''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=mid:a\\r\\na=mid:b\\r\\n"));
    assert_eq!(s.media[0].get_attributes().len(), 2);''',
    'a media section with two mid attributes', 'an attribute is dropped while parsing')
# ---------------------------------------------------------------- C08
bug('C08-end-of-candidates', 'C08', [(A, '''            | SdpAttribute::SsrcGroup(..) => false,

            SdpAttribute::DtlsMessage { .. }
            | SdpAttribute::EndOfCandidates
            | SdpAttribute::Extmap(..)''', '''            | SdpAttribute::EndOfCandidates
            | SdpAttribute::SsrcGroup(..) => false,

            SdpAttribute::DtlsMessage { .. }
            | SdpAttribute::Extmap(..)''')],
    '''assert!(parse_sdp(&format!("{H}a=end-of-candidates\\r\\n"), false).is_ok());''',
    'end-of-candidates at session level', 'a session-level attribute is refused')
bug('C08-media-identity', 'C08', [(M, '''                    SdpAttribute::DtlsMessage(_) => {''', '''                    SdpAttribute::DtlsMessage(_) | SdpAttribute::Identity(_) => {''')],
    '''assert!(fails(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=identity:x\\r\\n")));''',
    'an identity attribute in a media section', 'an attribute at a wrong level is ignored instead of refused')
# ---------------------------------------------------------------- C09
bug('C09-any-connection', 'C09', [(L, '''session.media.iter().all(|m| m.get_connection().is_some())''', '''(session.media.is_empty() || session.media.iter().any(|m| m.get_connection().is_some()))''')],
    '''let h = "v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\n";
    assert!(fails(&format!("{h}m=audio 9 RTP/AVP 0\\r\\nc=IN IP4 1.1.1.1\\r\\nm=audio 9 RTP/AVP 0\\r\\n")));''',
    'two media sections of which only one has a connection, and none at session level', 'the missing connection is not found')
bug('C09-rid-format-string', 'C09', [(L, '''if !str_fmt.contains(&rid_format.to_string()) {''', '''if !str_fmt.iter().any(|x| x.starts_with(&rid_format.to_string())) {''')],
    '''assert!(fails(&format!("{H}m=application 9 RTP/AVP 123\\r\\na=rid:1 send pt=12\\r\\n")));''',
    'an application section with a format that starts with the number of the rid format', 'an undeclared format is accepted')
bug('C09-recv-rids', 'C09', [(L, '''            check_defined_rids(&simulcast.receive, &recv_rids)?;
''', '''            if !recv_rids.is_empty() {
                check_defined_rids(&simulcast.receive, &recv_rids)?;
            }
''')],
    '''assert!(fails(&format!("{H}m=video 9 RTP/AVP 0\\r\\na=rid:1 send\\r\\na=simulcast:recv 1\\r\\n")));''',
    'a receive simulcast in a section without any receive rid', 'the wrong direction is not found')
# ---------------------------------------------------------------- C10
bug('C10-last-warning', 'C10', [(L, '''        return Err(warnings.remove(0));''', '''        return Err(warnings.swap_remove(warnings.len() / 2));''')],
    '''match parse_sdp(&format!("{H}a=foo:1\\r\\na=bar:2\\r\\n"), true) { Err(SdpParserError::Unsupported { line_number, .. }) => assert_eq!(line_number, 5), _ => panic!() }''',
    'two warnings and fail-on-warning', 'another warning than the first is reported')
bug('C10-line-number', 'C10', [(L, '''    for (line_number, line) in lines.enumerate() {''', '''    for (line_number, line) in lines.filter(|l| !l.is_empty()).enumerate() {''')],
    '''match parse_sdp(&format!("{H}\\r\\na=rtcp:x\\r\\n"), false) { Err(SdpParserError::Line { line_number, .. }) => assert_eq!(line_number, 6), _ => panic!() }''',
    'a blank line above the broken line', 'the line number is off')
bug('C10-dup-warning', 'C10', [(L, '''                        warnings.push(SdpParserError::Unsupported {
                            error,
                            line,
                            line_number,
                        });''', '''                        let seen = warnings.iter().any(|w| {
                            matches!(w, SdpParserError::Unsupported { line: l, .. } if *l == line)
                        });
                        if !seen {
                            warnings.push(SdpParserError::Unsupported {
                                error,
                                line,
                                line_number,
                            });
                        }''')],
    '''assert_eq!(p(&format!("{H}a=foo\\r\\na=foo\\r\\n")).warnings.len(), 2);''',
    'two identical unsupported lines', 'the second line is not reported')
# ---------------------------------------------------------------- C11
bug('C11-tcptype', 'C11', [(A, '''match tokens[index + 1].to_lowercase().as_ref() {
                        "active"''', '''match tokens[index + 1] {
                        "active"''')],
    '''a("candidate:1 1 TCP 1 1.2.3.4 1 typ host tcptype Active");''',
    'a tcptype with upper-case letters', 'the candidate is refused')
bug('C11-extmap-dir', 'C11', [(A, '''match id_dir[1].to_lowercase().as_ref() {''', '''match id_dir[1] {''')],
    '''a("extmap:1/SendOnly uri");''',
    'an extmap direction with upper-case letters', 'the extmap is refused')
bug('C11-sctpmap', 'C11', [(A, '''    if tokens[1].to_lowercase() != "webrtc-datachannel" {''', '''    if tokens[1] != "webrtc-datachannel" && tokens[1] != "WebRTC-DataChannel" {''')],
    '''a("sctpmap:5000 WEBRTC-DATACHANNEL 16");''',
    'an sctpmap token in upper case', 'the attribute is refused')
# ---------------------------------------------------------------- C12
bug('C12-count', 'C12', [(A, '''            (a, b) if a == b => Ok(Self {''', '''            (a, b) if b != 0 && a % b == 0 => Ok(Self {''')],
    '''assert!(SdpAttributeFingerprint::try_from((SdpAttributeFingerprintHashType::Sha512, vec![0; 32])).is_err());''',
    'building a fingerprint from octets whose count divides the right one', 'a fingerprint of the wrong length is accepted')
bug('C12-hash-case', 'C12', [(A, '''            "sha-224" => Ok(Self::Sha224),''', '''            "sha-224" | "sha-2224" => Ok(Self::Sha224),''')],
    '''let o = vec!["00"; 28].join(":");
    assert!(matches!(parse_attribute(&format!("fingerprint:sha-2224 {o}")), Err(SdpParserInternalError::Unsupported(_))));''',
    'a misspelt hash name', 'an unknown hash is accepted')
# ---------------------------------------------------------------- C13
bug('C13-mapped', 'C13', [(AD, '''            (Address::Ip(a), Address::Ip(b)) => a == b,''', '''            (Address::Ip(a), Address::Ip(b)) => a.to_canonical() == b.to_canonical(),''')],
    '''assert!(Address::from_str("::ffff:1.2.3.4").unwrap() != Address::from_str("1.2.3.4").unwrap());''',
    'an IPv4 address and its IPv4-mapped IPv6 form', 'addresses of different families are equal')
bug('C13-type', 'C13', [(AD, '''            ) => a1 == a2 && d1.to_lowercase() == d2.to_lowercase(),''', '''            ) => (a1 == a2 || d1 == d2) && d1.to_lowercase() == d2.to_lowercase(),''')],
    '''let x = ExplicitlyTypedAddress::try_from((AddressType::IpV4, "a.b")).unwrap();
    let y = ExplicitlyTypedAddress::try_from((AddressType::IpV6, "a.b")).unwrap();
    assert!(x != y);''',
    'the same host name with the two address types', 'addresses of different types are equal')
bug('C13-unspecified', 'C13', [(AD, '''                if ip.address_type() != item.0 {''', '''                if ip.address_type() != item.0 && !ip.is_unspecified() {''')],
    '''assert!(ExplicitlyTypedAddress::try_from((AddressType::IpV6, "0.0.0.0")).is_err());''',
    'the unspecified address with the wrong address type', 'a mismatch is accepted')
# ---------------------------------------------------------------- C14
bug('C14-key-case', 'C14', [(AN, '''        let key = value.to_owned();''', '''        let key = value.to_lowercase();''')],
    '''let mut x = StatefulSdpAnonymizer::new();
    assert!(x.mask_ice_user("aB") != x.mask_ice_user("ab"));''',
    'two values that differ in letter case only', 'different values get the same mask')
bug('C14-fingerprint-prefix', 'C14', [(AN, '''            finger_print.to_vec(),
            self.cert_finger_print_inc.0.to_byte_vec(),
        );''', '''            finger_print.to_vec(),
            self.cert_finger_print_inc.0.to_byte_vec(),
        );
        // masks are values of their own
        self.cert_finger_prints.insert(
            self.cert_finger_print_inc.0.to_byte_vec(),
            self.cert_finger_print_inc.0.to_byte_vec(),
        );''')],
    '''let mut x = StatefulSdpAnonymizer::new();
    let a = x.mask_cert_finger_print(&[9; 20]);
    assert!(x.mask_cert_finger_print(&a) != a);''',
    'a fingerprint that equals an earlier mask', 'different values get the same mask')
# ---------------------------------------------------------------- C15
bug('C15-cname-case', 'C15', [(A, '''match (attribute.to_lowercase().as_str(), &self.value) {''', '''match (attribute.as_str(), &self.value) {''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=ssrc:1 CNAME:secret\\r\\n"));
    assert!(!s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string().contains("secret"));''',
    'a canonical name attribute in upper case', 'an identifying value is kept')
bug('C15-rtcp-host', 'C15', [(AN, '''                domain: self.mask_host(domain),
            },
            ExplicitlyTypedAddress::Ip(ip)''', '''                domain: match domain.contains('.') {
                    true => self.mask_host(domain),
                    false => domain.clone(),
                },
            },
            ExplicitlyTypedAddress::Ip(ip)''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 secret\\r\\n");
    assert!(!s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string().contains("secret"));''',
    'a host name without a dot where an address type is stated', 'an identifying value is kept')
bug('C15-rport', 'C15', [(A, '''        masked.rport = self.rport.map(|port| anonymizer.mask_port(port));''', '''        masked.rport = self.rport.map(|port| {
            if port == self.port {
                port
            } else {
                anonymizer.mask_port(port)
            }
        });''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=candidate:1 1 UDP 1 1.2.3.4 777 typ srflx raddr 1.1.1.1 rport 777\\r\\n"));
    assert!(!s.masked_clone(&mut StatefulSdpAnonymizer::new()).to_string().contains("777"));''',
    'a candidate whose related port equals its port', 'an identifying value is kept')
# ---------------------------------------------------------------- C16
bug('C16-set-in-place', 'C16', [(M, '''        self.remove_attribute(SdpAttributeType::from(&attr));
        self.add_attribute(attr)''', '''        let t = SdpAttributeType::from(&attr);
        match self.attribute.iter().position(|a| SdpAttributeType::from(a) == t) {
            Some(i) if self.get_attributes_of_type(t.clone()).len() == 1 => {
                self.attribute[i] = attr;
                Ok(())
            }
            _ => {
                self.remove_attribute(t);
                self.add_attribute(attr)
            }
        }''')],
    '''let mut s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=mid:1\\r\\na=ptime:20\\r\\n"));
    s.media[0].set_attribute(a("mid:2")).unwrap();
    assert_eq!(s.media[0].get_attributes().iter().map(|x| x.to_string()).collect::<Vec<_>>(), ["ptime:20", "mid:2"]);''',
    'set_attribute for a type that is present once, followed by another attribute', 'the attribute is replaced in place and not put last')
bug('C16-datachannel-size', 'C16', [(M, '''        if msg_size > 0 {''', '''        if msg_size > 0 && self.get_attribute(SdpAttributeType::MaxMessageSize).is_none() {''')],
    '''let mut s = p(&format!("{H}m=application 9 UDP/DTLS/SCTP x\\r\\na=max-message-size:5\\r\\n"));
    s.media[0].add_datachannel("y".to_string(), 1, 2, 7).unwrap();
    assert_eq!(s.media[0].get_attribute(SdpAttributeType::MaxMessageSize).unwrap().to_string(), "max-message-size:7");''',
    'a data channel with a size in a section that states another size', 'the old message size stays')
bug('C16-tcp-datachannel', 'C16', [(M, '''            SdpProtocolValue::UdpDtlsSctp | SdpProtocolValue::TcpDtlsSctp => {''', '''            SdpProtocolValue::UdpDtlsSctp => {''')],
    '''let mut s = p(&format!("{H}m=application 9 TCP/DTLS/SCTP x\\r\\n"));
    s.media[0].add_datachannel("y".to_string(), 1, 2, 7).unwrap();
    assert!(s.media[0].get_attribute(SdpAttributeType::SctpPort).is_some());''',
    'a data channel over TCP/DTLS/SCTP', 'it gets the old sctpmap form')
bug('C16-codec-order', 'C16', [(M, '''            SdpFormatList::Integers(ref mut x) => x.push(u32::from(rtpmap.payload_type)),''', '''            SdpFormatList::Integers(ref mut x) => {
                x.push(u32::from(rtpmap.payload_type));
                if x.len() > 3 {
                    x.dedup();
                }
            }''')],
    '''let mut s = p(&format!("{H}m=audio 9 RTP/AVP 0 3 3\\r\\n"));
    s.media[0].add_codec(SdpAttributeRtpmap::new(8, "x".to_string(), 1)).unwrap();
    assert_eq!(s.media[0].get_formats().to_string(), "0 3 3 8");''',
    'a codec added to a section that lists the same format twice in a row', 'adding a codec drops a format')
bug('C16-extend-front', 'C16', [(L, '''        self.media.extend(v)''', '''        if v.len() > 1 && !self.media.is_empty() {
            self.media.splice(0..0, v);
        } else {
            self.media.extend(v)
        }''')],
    '''let mut s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\n"));
    let v = p(&format!("{H}m=video 9 RTP/AVP 0\\r\\nm=video 9 RTP/AVP 0\\r\\n")).media;
    s.extend_media(v);
    assert_eq!(s.media[0].get_type(), &SdpMediaValue::Audio);''',
    'two or more sections added at once to a session that has some', 'the new sections come first')
# ---------------------------------------------------------------- C17
bug('C17-last', 'C17', [(M, '''    pub fn get_attribute(&self, t: SdpAttributeType) -> Option<&SdpAttribute> {
        self.attribute
            .iter()
            .find(''', '''    pub fn get_attribute(&self, t: SdpAttributeType) -> Option<&SdpAttribute> {
        self.attribute
            .iter()
            .rfind(''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=rtpmap:0 a/1\\r\\na=rtpmap:3 b/1\\r\\n"));
    assert_eq!(s.media[0].get_attribute(SdpAttributeType::Rtpmap).unwrap().to_string(), "rtpmap:0 a/1");''',
    'two attributes of one type in a media section', 'the last one is found')
# ---------------------------------------------------------------- C18
bug('C18-underscore', 'C18', [(A, '''                match parameter_name.to_uppercase().as_str() {''', '''                match parameter_name.to_uppercase().replace('_', "-").as_str() {''')],
    '''match a("fmtp:96 max_fs=5") { SdpAttribute::Fmtp(f) => { assert_eq!(f.parameters.max_fs, 0); assert_eq!(f.parameters.unknown_tokens, ["max_fs=5"]); } _ => panic!() }''',
    'an unknown parameter that differs from a known one by an underscore', 'it sets the known parameter')
bug('C18-dtmf-equal', 'C18', [(A, '''                                    l < u
''', '''                                    l <= u
''')],
    '''match a("fmtp:96 5-5") { SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.dtmf_tones, "0-15"), _ => panic!() }''',
    'a telephone event range from a number to itself', 'the range is kept though it does not ascend')
bug('C18-red-limit', 'C18', [(A, '''                    x @ 0..=128 => parameters.encodings.push(x),''', '''                    x @ 0..=128 if !parameters.encodings.ends_with(&[x, x]) => {
                        parameters.encodings.push(x)
                    }
                    x @ 0..=128 if parameters.encodings.ends_with(&[x, x]) => (),''')],
    '''match a("fmtp:96 5/5/5/5") { SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.encodings, [5, 5, 5, 5]), _ => panic!() }''',
    'a red list with the same encoding three times in a row', 'a repetition is dropped')
bug('C18-apt-keeps', 'C18', [(A, '''                            apt: parameter_val.parse::<u8>()?,
                            rtx_time: None,''', '''                            apt: parameter_val.parse::<u8>()?,
                            rtx_time: parameters.rtx.as_ref().and_then(|r| r.rtx_time),''')],
    '''match a("fmtp:96 apt=1;rtx-time=5;apt=2") { SdpAttribute::Fmtp(f) => assert!(f.parameters.rtx.unwrap().rtx_time.is_none()), _ => panic!() }''',
    'an apt after an apt with an rtx-time', 'the rtx-time of the replaced apt is kept')
bug('C18-fr-16', 'C18', [(A, '''                    "MAX-FR" => parameters.max_fr = parameter_val.parse::<u32>()?,''', '''                    "MAX-FR" => {
                        parameters.max_fr = parameter_val.parse::<u32>()?;
                        if parameters.max_fr > 0xffff_0000 {
                            parameters.max_fr = 0;
                        }
                    }''')],
    '''match a("fmtp:96 max-fr=4294967295") { SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.max_fr, 4294967295), _ => panic!() }''',
    'a max-fr near the largest 32-bit number', 'the value is lost')
# ---------------------------------------------------------------- C19
bug('C19-four-fields', 'C19', [(A, '''            if range_tokens.len() == 3 {''', '''            if range_tokens.len() >= 3 {''')],
    '''assert!(parse_attribute("imageattr:97 send [x=[1:2:3:4],y=1]").is_err());''',
    'a range of four fields', 'it is accepted as one of three')
bug('C19-same-direction', 'C19', [(A, '''        if parse_single_direction(direction_token.as_str())? == first_direction {''', '''        if parse_single_direction(direction_token.as_str())? == first_direction
            && !matches!(first_set_list, SdpAttributeImageAttrSetList::Wildcard)
        {''')],
    '''assert!(parse_attribute("imageattr:97 send * send [x=1,y=1]").is_err());''',
    'the same direction twice, the first with a wildcard', 'it is accepted')
# ---------------------------------------------------------------- C20
bug('C20-min', 'C20', [(A, '''                "max-pps" => params.max_pps = param_value_pair[1].parse::<u32>()?,''', '''                "max-pps" => {
                    params.max_pps = params.max_pps.max(param_value_pair[1].parse::<u32>()?)
                }''')],
    '''match a("rid:1 send max-pps=5;max-pps=3") { SdpAttribute::Rid(r) => assert_eq!(r.params.max_pps, 3), _ => panic!() }''',
    'max-pps twice, the second one smaller', 'the larger one wins')
bug('C20-rid-desc', 'C20', [(A, '''            "rid" => make_version_list''', '''            "rid" | "pt" => make_version_list''')],
    '''assert!(parse_attribute("simulcast:send pt=1").is_err());''',
    'a simulcast list of payload types', 'an unknown descriptor is accepted as rids')
bug('C20-direction-twice', 'C20', [(A, '''        if parse_single_direction(x)? == first_direction {
            return Err(SdpParserInternalError::Generic(
                "Simulcast''', '''        if parse_single_direction(x)? == first_direction && first_version_list.len() > 1 {
            return Err(SdpParserInternalError::Generic(
                "Simulcast''')],
    '''assert!(parse_attribute("simulcast:send 1 send 2").is_err());''',
    'the same direction twice, the first with one alternative', 'it is accepted')
bug('C20-paused', 'C20', [(A, '''                .split(',')
                .map(SdpAttributeSimulcastId::new)
                .collect(),''', '''                .split(',')
                .map(SdpAttributeSimulcastId::new)
                .enumerate()
                .map(|(i, mut id)| {
                    id.paused &= i < 2;
                    id
                })
                .collect(),''')],
    '''match a("simulcast:send 1,2,~3") { SdpAttribute::Simulcast(s) => assert!(s.send[0].ids[2].paused), _ => panic!() }''',
    'a paused id in the third place', 'it counts as active')
# ---------------------------------------------------------------- C21
bug('C21-name', 'C21', [(L, '''            s if !s.is_empty() => Some(s.to_owned()),''', '''            s if !s.is_empty() => Some(session.trim_start().to_owned()),''')],
    '''let o = || p(&format!("{H}")).origin;
    let mut s = SdpSession::new(0, o(), "name  ".to_string());
    s.set_timing(SdpTiming { start: 0, stop: 0 });
    assert!(s.to_string().contains("s=name\\r\\n"));''',
    'a session name with a blank at its end', 'the blank is kept')
bug('C21-bandwidth', 'C21', [(L, '''        self.bandwidth.push(b)''', '''        if !self.bandwidth.iter().any(|x| x.to_string() == b.to_string()) {
            self.bandwidth.push(b)
        }''')],
    '''let mut s = p(H);
    s.add_bandwidth(SdpBandwidth::As(1)); s.add_bandwidth(SdpBandwidth::As(1));
    assert_eq!(s.to_string().matches("b=AS:1").count(), 2);''',
    'the same bandwidth twice', 'the second one is dropped')
bug('C21-port-count', 'C21', [(M, '''        self.media.port = port;''', '''        self.media.port = port;
        if port == 0 {
            self.media.port_count = 0;
        }''')],
    '''let mut s = p(&format!("{H}m=audio 9/2 RTP/AVP 0\\r\\n"));
    s.media[0].set_port(0);
    assert!(s.to_string().contains("m=audio 0/2 RTP"));''',
    'a port set to 0 in a section with a port count', 'the port count is lost')
# ---------------------------------------------------------------- C22
bug('C22-raddr-rport', 'C22', [(A, '''        self.raddr = Some(addr)''', '''        self.raddr = Some(addr);
        self.rport = None''')],
    '''match a("candidate:1 1 udp 1 1.1.1.1 1 typ srflx rport 5 raddr 2.2.2.2") { SdpAttribute::Candidate(c) => assert_eq!(c.rport, Some(5)), _ => panic!() }''',
    'a candidate with rport before raddr', 'the rport is lost')
bug('C22-ext-case', 'C22', [(A, '''                    let name = tokens[index].to_string();''', '''                    let name = tokens[index].to_lowercase();''')],
    '''match a("candidate:1 1 udp 1 1.1.1.1 1 typ host Foo Bar") { SdpAttribute::Candidate(c) => assert_eq!(c.unknown_extensions, [("Foo".to_string(), "Bar".to_string())]), _ => panic!() }''',
    'an unknown extension with a capital letter', 'its name is changed')
bug('C22-cost', 'C22', [(A, '''                    let cost = tokens[index + 1].parse::<u32>()?;''', '''                    let cost = tokens[index + 1].parse::<u16>()?.into();''')],
    '''match a("candidate:1 1 udp 1 1.1.1.1 1 typ host network-cost 65536") { SdpAttribute::Candidate(c) => assert_eq!(c.networkcost, Some(65536)), _ => panic!() }''',
    'a network cost above 65535', 'the candidate is rejected')
bug('C22-ext-raddr', 'C22', [(A, '''                    let value = tokens[index + 1].to_string();
                    cand''', '''                    let value = tokens[index + 1].trim_matches('"').to_string();
                    cand''')],
    '''match a("candidate:1 1 udp 1 1.1.1.1 1 typ host foo \\"bar\\"") { SdpAttribute::Candidate(c) => assert_eq!(c.unknown_extensions[0].1, "\\"bar\\""), _ => panic!() }''',
    'an extension value in quotes', 'the quotes are dropped')
# ---------------------------------------------------------------- C23
bug('C23-sctpmap', 'C23', [(A, '''    if tokens.len() != 3 {
        return Err(SdpParserInternalError::Generic(
            "Sctpmap''', '''    if tokens.len() < 3 {
        return Err(SdpParserInternalError::Generic(
            "Sctpmap''')],
    '''assert!(parse_attribute("sctpmap:5000 webrtc-datachannel 256 7").is_err());''',
    'an sctpmap with a fourth word', 'the word is ignored')
bug('C23-remb', 'C23', [(A, '''            Some(x) => {
                return Err(SdpParserInternalError::Unsupported(format!(
                    "Unknown rtcpfb {feedback_type} parameter: {x:?}"
                )));
            }''', '''            Some(x) if !x.starts_with('0') => {
                return Err(SdpParserInternalError::Unsupported(format!(
                    "Unknown rtcpfb {feedback_type} parameter: {x:?}"
                )));
            }
            Some(_) => "".to_string(),''')],
    '''assert!(parse_attribute("rtcp-fb:96 transport-cc 0").is_err());''',
    'a parameter that starts with 0 behind goog-remb or transport-cc', 'it is ignored')
bug('C23-flag', 'C23', [(A, '''                | "rtcp-rsize" | "sendonly" | "sendrecv" => {''', '''                | "rtcp-rsize" | "sendonly" | "sendrecv" if !val.is_empty() => {''')],
    '''assert!(parse_attribute("sendonly:").is_err());''',
    'a flag with a colon and nothing behind it', 'it is accepted')
bug('C17-media-many', 'C17', [(M, '''            .filter(|a| SdpAttributeType::from(*a) == t)
            .collect()''', '''            .filter(|a| SdpAttributeType::from(*a) == t)
            .take(24)
            .collect()''')],
    '''let mut s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\n"));
    for i in 0..25 { s.media[0].add_attribute(a(&format!("ssrc:{i}"))).unwrap(); }
    assert_eq!(s.media[0].get_attributes_of_type(SdpAttributeType::Ssrc).len(), 25);''',
    'more than 24 attributes of one type in a section', 'the lookup is incomplete')
bug('C17-session', 'C17', [(L, '''    pub fn get_attribute(&self, t: SdpAttributeType) -> Option<&SdpAttribute> {
        self.attribute
            .iter()
''', '''    pub fn get_attribute(&self, t: SdpAttributeType) -> Option<&SdpAttribute> {
        self.attribute
            .iter()
            .rev()
            .skip_while(|a| SdpAttributeType::from(*a) != t)
            .filter(|a| SdpAttributeType::from(*a) == t || t == SdpAttributeType::Group)
''')],
    '''let s = p(&format!("{H}a=fingerprint:sha-1 00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00:00\\r\\na=ice-options:a\\r\\na=ice-options:b\\r\\n"));
    assert_eq!(s.get_attribute(SdpAttributeType::IceOptions).unwrap().to_string(), "ice-options:a");''',
    'two attributes of one type in a session', 'the last one is found')
bug('C19-direction-order', 'C19', [(A, '''        SdpSingleDirection::Recv => SdpAttributeImageAttr {
            pt,
            send: second_set_list,
            recv: first_set_list,''', '''        SdpSingleDirection::Recv if matches!(second_set_list, SdpAttributeImageAttrSetList::Wildcard) => SdpAttributeImageAttr {
            pt,
            send: first_set_list,
            recv: second_set_list,
        },
        SdpSingleDirection::Recv => SdpAttributeImageAttr {
            pt,
            send: second_set_list,
            recv: first_set_list,''')],
    '''match a("imageattr:97 recv [x=1,y=1] send *") { SdpAttribute::ImageAttr(i) => assert!(matches!(i.send, SdpAttributeImageAttrSetList::Wildcard)), _ => panic!() }''',
    'recv first and a wildcard for send', 'the directions are swapped')
bug('C19-sar-first', 'C19', [(A, '''                    let mut last_value = 0.0;''', '''                    let mut last_value = -1.0;''')],
    '''assert!(parse_attribute("imageattr:97 send [x=1,y=1,sar=[0.0,0.5]]").is_err());''',
    'a sar list that starts with zero', 'a value that does not ascend from zero is accepted')
bug('C19-unknown-key', 'C19', [(A, '''    for current_token in tokens {
        if let Some(value_token)''', '''    for current_token in tokens.map(|t| t.trim_start_matches('x').to_string()) {
        if let Some(value_token)''')],
    '''match a("imageattr:97 send [x=1,y=1,xq=0.5]") { SdpAttribute::ImageAttr(i) => match i.send { SdpAttributeImageAttrSetList::Sets(s) => assert_eq!(s[0].q, None), _ => panic!() }, _ => panic!() }''',
    'an unknown key that ends like a known one', 'it counts as the known one')
bug('C23-setup', 'C23', [(A, '''            "active" => SdpAttributeSetup::Active,''', '''            x if x.starts_with("active") => SdpAttributeSetup::Active,''')],
    '''assert!(parse_attribute("setup:activex").is_err());''',
    'a setup value that starts with active', 'it is accepted')
bug('C23-rtcp-address', 'C23', [(A, '''                        None => {
                            return Err(SdpParserInternalError::Generic(
                                "Rtcp attribute is missing ip address token".to_string(),
                            ));
                        }''', '''                        None if addrtype == AddressType::IpV4 => {
                            return Err(SdpParserInternalError::Generic(
                                "Rtcp attribute is missing ip address token".to_string(),
                            ));
                        }
                        None => return Ok(SdpAttribute::Rtcp(rtcp)),''')],
    '''assert!(parse_attribute("rtcp:9 IN IP6").is_err());''',
    'an rtcp attribute with IP6 and no address', 'it is accepted')
bug('C21-media-port-count', 'C21', [(L, '''            port_count: 1,''', '''            port_count: 0,''')],
    '''let mut s = p(H);
    s.add_media(SdpMediaValue::Audio, SdpAttribute::Sendrecv, 9, SdpProtocolValue::RtpAvp, s.origin.unicast_addr.clone()).unwrap();
    assert_eq!(s.media[0].get_port_count(), 1);
    assert!(s.to_string().contains("m=audio 9/1 RTP/AVP"));''',
    'a section added with add_media', 'its port count is not 1')
bug('C21-attribute-sep', 'C21', [(M, '''            attributes = maybe_vector_to_string!("a={}\\r\\n", self.attribute, "\\r\\na=")''', '''            attributes = maybe_vector_to_string!(
                "a={}\\r\\n",
                self.attribute,
                if self.attribute.len() > 20 { "\\na=" } else { "\\r\\na=" }
            )''')],
    '''let mut s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\n"));
    for i in 0..25 { s.media[0].add_attribute(a(&format!("ssrc:{i}"))).unwrap(); }
    let t = s.to_string();
    assert_eq!(t.matches('\\n').count(), t.matches("\\r\\n").count());''',
    'more than 20 attributes in a section', 'lines end with a line feed only')
E = 'error.rs'
AD = 'address.rs'
bug('C24-long-line', 'C24', [(E, '''write!(f, "Line error: {error} in line({line_number}): {line}"),''', '''write!(f, "Line error: {error} in line({line_number}): {line:.250}"),''')],
    '''let l = format!("a=ptime:{}", "x".repeat(300));
    let e = parse_sdp_line(&l, 3).unwrap_err();
    assert!(e.to_string().ends_with(&l));''',
    'a refused line of more than 250 characters', 'the printed error cuts it off')
bug('C24-trimmed', 'C24', [(L, '''        | SdpParserInternalError::IpAddress(..) => SdpParserError::Line {
            error: e,
            line: line.to_string(),''', '''        | SdpParserInternalError::IpAddress(..) => SdpParserError::Line {
            error: e,
            line: line.trim_end().to_string(),''')],
    '''match parse_sdp_line("a=ptime:x ", 3).unwrap_err() { SdpParserError::Line { line, .. } => assert_eq!(line, "a=ptime:x "), _ => panic!() }''',
    'a refused line that ends with a blank', 'the error holds another text than the line')
bug('C24-number-16', 'C24', [(E, '''            } => write!(f, "Unsupported: {error} in line({line_number}): {line}",),''', '''            } => write!(f, "Unsupported: {error} in line({}): {line}", *line_number as u16),''')],
    '''let e = parse_sdp_line("a=foo:x", 65541).unwrap_err();
    assert!(e.to_string().contains("65541"));''',
    'a warning for a line number of 65536 or more', 'it prints another number')
bug('C24-mismatch', 'C24', [(AD, '''                        found: ip.address_type(),
                        expected: item.0,''', '''                        found: item.0,
                        expected: ip.address_type(),''')],
    '''match ExplicitlyTypedAddress::try_from((AddressType::IpV4, "::1")) { Err(SdpParserInternalError::AddressTypeMismatch { found, expected }) => { assert!(found == AddressType::IpV6); assert!(expected == AddressType::IpV4); } _ => panic!() }''',
    'an address of another family than stated', 'found and expected families are exchanged')
bug('C24-host-cause', 'C24', [(AD, '''            .map_err(|err| e.unwrap_or_else(|| err.into()))''', '''            .map_err(|err| match e {
                Some(_) | None if s.starts_with('[') || s.contains(':') => err.into(),
                _ => e.unwrap_or_else(|| err.into()),
            })''')],
    '''match Address::from_str("1::2::3") { Err(SdpParserInternalError::IpAddress(_)) => (), _ => panic!() }''',
    'a malformed IPv6 address', 'the cause is a host name error')
bug('C24-upper', 'C24', [(AD, '''        match s.to_uppercase().as_str() {
            "IP4" => Ok(AddressType::IpV4),
            "IP6" => Ok(AddressType::IpV6),
            _ => Err(SdpParserInternalError::UnknownAddressType(s.to_owned())),''', '''        let s = s.to_uppercase();
        match s.as_str() {
            "IP4" => Ok(AddressType::IpV4),
            "IP6" => Ok(AddressType::IpV6),
            _ => Err(SdpParserInternalError::UnknownAddressType(s)),''')],
    '''match AddressType::from_str("ip5") { Err(SdpParserInternalError::UnknownAddressType(x)) => assert_eq!(x, "ip5"), _ => panic!() }''',
    'an unknown family in lower case', 'the error names it in upper case')
bug('C24-source', 'C24', [(E, '''            SdpParserInternalError::Domain(ref error) => Some(error),''', '''            SdpParserInternalError::Domain(url::ParseError::IdnaError) => None,
            SdpParserInternalError::Domain(ref error) => Some(error),''')],
    '''use std::error::Error;
    let e = Address::from_str("xn--a\\u{80}").unwrap_err();
    let f = SdpParserInternalError::from(match e { SdpParserInternalError::Domain(d) => d, _ => panic!() });
    assert!(f.source().is_some());''',
    'a host name that is refused by the name rules', 'the error has no source')
def skip(s): return '#[cfg_attr(feature = "serialize", serde(%s))]\n' % s
bug('C25-depends', 'C25', [(A, '''    pub formats: Vec<u16>,
    pub params: SdpAttributeRidParameters,
''', '''    pub formats: Vec<u16>,
    pub params: SdpAttributeRidParameters,
    ''' + skip('skip'))],
    '''let s = |t: &str| serde_json::to_string(&a(t)).unwrap();
    assert_ne!(s("rid:1 send depends=a"), s("rid:1 send depends=b"));''',
    'rids that differ in what they depend on', 'their serialized forms are the same')
bug('C25-amount', 'C25', [(L, '''    pub ttl: Option<u8>,
    pub amount: Option<u32>,
''', '''    pub ttl: Option<u8>,
    ''' + skip('skip') + '''    pub amount: Option<u32>,
''')],
    '''let s = |t: &str| serde_json::to_string(&p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\nc=IN IP4 224.0.0.1/1/{t}\\r\\n"))).unwrap();
    assert_ne!(s("2"), s("3"));''',
    'connections that differ in the number of addresses', 'their serialized forms are the same')
bug('C25-fec-fr', 'C25', [(A, '''    ForwardErrorCorrectionFr, // RFC5956''', '''    ''' + skip('rename = "ForwardErrorCorrection"') + '''    ForwardErrorCorrectionFr, // RFC5956''')],
    '''let s = |t: &str| serde_json::to_string(&a(t)).unwrap();
    assert_ne!(s("ssrc-group:FEC 1 2"), s("ssrc-group:FEC-FR 1 2"));''',
    'groups of sources with FEC and FEC-FR', 'their serialized forms are the same')
bug('C25-warning-line', 'C25', [(E, '''                state.serialize_field("type", "Unsupported")?;
                state.serialize_field("message", &format!("{error}"))?;
                state.serialize_field("line", line)?''', '''                state.serialize_field("type", "Unsupported")?;
                state.serialize_field("message", &format!("{error}"))?;
                state.serialize_field("line", line.trim_end())?''')],
    '''let e = parse_sdp_line("a=foo:x ", 3).unwrap_err();
    assert_eq!(serde_json::to_value(&e).unwrap()["line"], "a=foo:x ");''',
    'a warning for a line that ends with a blank', 'its serialized form holds another line')
bug('C25-domain', 'C25', [(AD, '''    Fqdn {
        address_type: AddressType,''', '''    Fqdn {
        ''' + skip('skip') + '''        address_type: AddressType,''')],
    '''let s = |t: &str| serde_json::to_string(&a(t)).unwrap();
    assert_ne!(s("rtcp:9 IN IP4 a.b"), s("rtcp:9 IN IP6 a.b"));''',
    'host names that differ in the stated family', 'their serialized forms are the same')
bug('C25-media-bandwidth', 'C25', [(M, '''    bandwidth: Vec<SdpBandwidth>,
    attribute: Vec<SdpAttribute>,''', '''    ''' + skip('skip') + '''    bandwidth: Vec<SdpBandwidth>,
    attribute: Vec<SdpAttribute>,''')],
    '''let s = |t: &str| serde_json::to_string(&p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\nb=AS:{t}\\r\\n"))).unwrap();
    assert_ne!(s("2"), s("3"));''',
    'sections that differ in their bandwidth', 'their serialized forms are the same')
bug('C25-sar', 'C25', [(A, '''    pub sar: Option<SdpAttributeImageAttrSRange>,''', '''    ''' + skip('skip') + '''    pub sar: Option<SdpAttributeImageAttrSRange>,''')],
    '''let s = |t: &str| serde_json::to_string(&a(t)).unwrap();
    assert_ne!(s("imageattr:1 send [x=1,y=1,sar=1.1]"), s("imageattr:1 send [x=1,y=1]"));''',
    'image attributes that differ in sar', 'their serialized forms are the same')
# ---------------------------------------------------------------- second round
bug('C01-head', 'C01', [(L, '''    let lines = sdp.lines();
    let mut errors''', '''    let head = &sdp[..51];
    trace!("parsing {}...", head);
    let lines = sdp.lines();
    let mut errors''')],
    '''for n in 10..30 {
        let t = format!("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns={}\\u{e9}\\r\\nt=0 0\\r\\nc=IN IP4 0.0.0.0\\r\\n", "a".repeat(n));
        assert!(std::panic::catch_unwind(|| parse_sdp(&t, false).is_ok()).unwrap_or(false));
    }''',
    'a character of several bytes across the 51st byte of the text', 'the parser panics')
bug('C01-type-slice', 'C01', [(L, '''                    error: SdpParserInternalError::Generic("type too long".to_string()),''',
    '''                    error: SdpParserInternalError::Generic(format!("type too long: {}..", &trimmed[..2])),''')],
    '''assert!(std::panic::catch_unwind(|| parse_sdp_line("a\\u{e9}=x", 0).is_err()).unwrap_or(false));
    assert!(std::panic::catch_unwind(|| parse_sdp_line("\\u{20ac}=x", 0).is_err()).unwrap_or(false));''',
    'a type of several characters, the second of which takes several bytes', 'the parser panics')
bug('C01-bitset', 'C01', [(L, '''        for rid_format in rids.iter().flat_map(|rid| &rid.formats) {
            match *msection.get_formats() {
                SdpFormatList::Integers(ref int_fmt) => {
                    if !int_fmt.contains(&(u32::from(*rid_format))) {''', '''        let declared: u128 = match *msection.get_formats() {
            SdpFormatList::Integers(ref int_fmt) => int_fmt.iter().fold(0, |s, f| s | 1 << f),
            SdpFormatList::Strings(_) => 0,
        };
        for rid_format in rids.iter().flat_map(|rid| &rid.formats) {
            match *msection.get_formats() {
                SdpFormatList::Integers(_) => {
                    if declared & (1 << *rid_format) == 0 {''')],
    '''let t = format!("{H}m=video 9 RTP/AVP 97\\r\\na=rid:1 send pt=200\\r\\n");
    assert!(std::panic::catch_unwind(|| parse_sdp(&t, false).is_err()).unwrap_or(false));''',
    'a rid with a format number above 127', 'the consistency check panics with a shift overflow')
bug('C01-component', 'C01', [(A, '''    let transport = match tokens[2].to_lowercase().as_ref() {''', '''    let index = component - 1;
    trace!("candidate for component index {}", index);
    let transport = match tokens[2].to_lowercase().as_ref() {''')],
    '''assert!(std::panic::catch_unwind(|| "candidate:1 0 UDP 1 1.2.3.4 1 typ host".parse::<SdpAttribute>().is_ok()).is_ok());''',
    'a candidate with component 0', 'the parser panics with a subtraction overflow')
bug('C01-many-tokens', 'C01', [(A, '''                    _ => parameters
                        .unknown_tokens
                        .push((*parameter_token).to_string()),''', '''                    _ => {
                        unknown_count += 1;
                        trace!("unknown fmtp parameter number {}", unknown_count);
                        parameters
                            .unknown_tokens
                            .push((*parameter_token).to_string())
                    }'''), (A, '''    let payload_token = tokens[0];
''', '''    let payload_token = tokens[0];
    let mut unknown_count = 0u8;
''')],
    '''let t = format!("fmtp:97 {}", "a=b;".repeat(300));
    assert!(std::panic::catch_unwind(|| t.parse::<SdpAttribute>().is_ok()).is_ok());''',
    'more than 255 unknown format parameters', 'the parser panics with an addition overflow')
bug('C02-name-spaces', 'C05', [(L, '''            s if !s.is_empty() => Some(s.to_owned()),''', '''            s if !s.is_empty() => Some(s.split_whitespace().collect::<Vec<_>>().join(" ")),''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=a  b\\r\\nt=0 0\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(s.session.as_deref(), Some("a  b"));''',
    'a session name with two blanks in a row', 'one of the blanks is lost')
bug('C02-bandwidth-upper', 'C02', [(L, '''        let (tp_string, value) = match *self {
            SdpBandwidth::As(ref x) => ("AS", x),''', '''        if let SdpBandwidth::Unknown(ref tp, ref x) = *self {
            return write!(f, "{}:{x}", tp.to_uppercase());
        }
        let (tp_string, value) = match *self {
            SdpBandwidth::As(ref x) => ("AS", x),''')],
    '''let s = p(&format!("{H}b=x-yz:3\\r\\n")).to_string();
    assert!(s.contains("b=x-yz:3"));''',
    'an unknown bandwidth type in lower case', 'it is printed in upper case')
bug('C05-session-id', 'C05', [(L, '''                "Origin type is missing session ID token".to_string(),
            ));
        }
        Some(x) => x.parse::<u64>()?,''', '''                "Origin type is missing session ID token".to_string(),
            ));
        }
        Some(x) => u64::try_from(x.parse::<i64>()?).unwrap_or_default(),''')],
    '''let s = p("v=0\\r\\no=- 18446744073709551615 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(s.origin.session_id, u64::MAX);''',
    'a session id of 2^63 or more', 'it is refused')
bug('C03-cost-zero', 'C03', [(A, '''            cost = option_to_string!(" network-cost {}", self.networkcost),''', '''            cost = maybe_print_param(" network-cost ", self.networkcost.unwrap_or(0), 0),''')],
    '''assert!(a("candidate:1 1 UDP 1 1.2.3.4 1 typ host network-cost 0").to_string().ends_with("network-cost 0"));''',
    'a candidate with network cost 0', 'the network cost is not printed')
bug('C03-rtx-time', 'C03', [(A, '''        if let Some(rtx_time) = self.rtx_time {''', '''        if let Some(rtx_time) = self.rtx_time.filter(|t| *t > 0) {''')],
    '''assert_eq!(a("fmtp:97 apt=96;rtx-time=0").to_string(), "fmtp:97 apt=96;rtx-time=0");''',
    'an rtx-time of 0', 'it is not printed')
bug('C03-step', 'C03', [(A, '''                if step_opt.is_some() {
                    write!(f, "{}:", step_opt.unwrap())?;
                }''', '''                match step_opt {
                    Some(step) if step != &1 => write!(f, "{step}:")?,
                    _ => (),
                }''')],
    '''assert_eq!(a("imageattr:97 send [x=[1:1:9],y=2]").to_string(), "imageattr:97 send [x=[1:1:9],y=2]");''',
    'a range with a step of 1', 'the step is not printed')
bug('C04-group-dup', 'C04', [(A, '''        tags: tokens.map(ToString::to_string).collect(),
''', '''        tags: tokens.fold(Vec::new(), |mut tags: Vec<String>, t| {
            if tags.last().map(String::as_str) != Some(t) {
                tags.push(t.to_string());
            }
            tags
        }),''')],
    '''match a("group:LS 1 1 2") { SdpAttribute::Group(g) => assert_eq!(g.tags.len(), 3), _ => panic!() }''',
    'a group that names the same tag twice in a row', 'one of them is lost')
bug('C04-ssrc-value', 'C04', [(A, '''            let v: Vec<&str> = a.splitn(2, ':').collect();
            self.attribute = Some(v[0].to_string());
            self.value = Some(v[1].to_string());''', '''            let v: Vec<&str> = a.split(':').collect();
            self.attribute = Some(v[0].to_string());
            self.value = Some(v[1].to_string());''')],
    '''assert_eq!(a("ssrc:1 msid:a:b").to_string(), "ssrc:1 msid:a:b");''',
    'a source attribute whose value holds a colon', 'the rest of the value is lost')
bug('C04-recv-wildcard', 'C04', [(A, '''        SdpSingleDirection::Recv => SdpAttributeImageAttr {
            pt,
            send: second_set_list,
            recv: first_set_list,
        },''', '''        SdpSingleDirection::Recv => match second_set_list {
            SdpAttributeImageAttrSetList::Wildcard => SdpAttributeImageAttr {
                pt,
                send: first_set_list,
                recv: second_set_list,
            },
            _ => SdpAttributeImageAttr {
                pt,
                send: second_set_list,
                recv: first_set_list,
            },
        },''')],
    '''assert_eq!(a("imageattr:97 recv [x=1,y=2] send *").to_string(), "imageattr:97 send * recv [x=1,y=2]");''',
    'recv first with a set, then send with *', 'the two directions are swapped')
bug('C05-stop', 'C05', [(L, '''    let stop = tv[1].parse::<u64>()?;''', '''    let stop = tv[1].parse::<u64>()?.min(i64::MAX as u64);''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 18446744073709551615\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(s.timing.unwrap().stop, u64::MAX);''',
    'a stop time of 2^63 or more', 'it becomes 2^63-1')
bug('C05-format-case', 'C05', [(M, '''                fmt_vec.push(String::from(*token));''', '''                fmt_vec.push(token.to_lowercase());''')],
    '''let s = p(&format!("{H}m=application 9 UDP/DTLS/SCTP Chat\\r\\n"));
    match s.media[0].get_formats() { SdpFormatList::Strings(v) => assert_eq!(v[0], "Chat"), _ => panic!() }''',
    'an application format in upper case', 'it becomes lower case')
bug('C06-format-64', 'C06', [(M, '''1 | 2 | 19 | 64..=95 | 128 ..''', '''1 | 2 | 19 | 65..=95 | 128 ..''')],
    '''assert!(fails(&format!("{H}m=audio 9 RTP/AVP 64\\r\\n")));''',
    'the format number 64', 'it is accepted')
bug('C06-level-idx', 'C06', [(A, '''                            x @ 0..=31 => Some(x),''', '''                            x @ 0..=0x31 => Some(x),''')],
    '''assert!("fmtp:97 level-idx=32".parse::<SdpAttribute>().is_err());
    assert!("fmtp:97 level-idx=31".parse::<SdpAttribute>().is_ok());''',
    'a level-idx from 32 to 49', 'it is accepted')
bug('C06-leading-zeros', 'C06', [(A, '''    let id: u16;
    let mut direction''', '''    if tokens[0].len() > 5 && tokens[0].bytes().all(|b| b.is_ascii_digit()) {
        return Err(SdpParserInternalError::Generic(
            "Extmap id has too many digits".to_string(),
        ));
    }
    let id: u16;
    let mut direction''')],
    '''assert!("extmap:000001 u".parse::<SdpAttribute>().is_ok());''',
    'an extmap id with five leading zeros', 'it is refused')
bug('C07-late-session-bandwidth', 'C07', [(M, '''            SdpType::Bandwidth(b) => sdp_media.add_bandwidth(b),
            SdpType::Attribute(a) => {''', '''            SdpType::Bandwidth(b) => match media_sections.last_mut() {
                Some(previous)
                    if sdp_media.get_attributes().is_empty()
                        && sdp_media.get_port() == 0
                        && previous.get_port() == 0 =>
                {
                    previous.add_bandwidth(b)
                }
                _ => sdp_media.add_bandwidth(b),
            },
            SdpType::Attribute(a) => {''')],
    '''let s = p(&format!("{H}m=audio 0 RTP/AVP 0\\r\\nm=audio 0 RTP/AVP 0\\r\\nb=AS:1\\r\\n"));
    assert_eq!(s.media[1].get_bandwidth().len(), 1);''',
    'two sections with port 0, the second with a bandwidth before its attributes', 'the bandwidth goes to the section before')
bug('C08-group-empty', 'C08', [(A, '''    pub fn allowed_at_media_level(&self) -> bool {
        match *self {''', '''    pub fn allowed_at_media_level(&self) -> bool {
        match *self {
            SdpAttribute::MsidSemantic(ref s) if s.msids.is_empty() => true,''')],
    '''assert!(fails(&format!("{H}m=audio 0 RTP/AVP 0\\r\\na=msid-semantic:WMS\\r\\n")));''',
    'an msid-semantic without msids in a media section', 'it is accepted')
bug('C09-port-zero', 'C09', [(L, '''    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)''', '''    for msection in session.media.iter().filter(|m| m.get_port() != 0) {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)''')],
    '''assert!(fails(&format!("{H}m=audio 0 RTP/AVP 0\\r\\na=rtcp-mux-only\\r\\n")));''',
    'an inconsistent section with port 0', 'it is accepted')
bug('C09-extmap-first', 'C09', [(L, '''        for msection in &session.media {
            if msection.get_attribute(SdpAttributeType::Extmap).is_some() {''', '''        for msection in session.media.iter().take(2) {
            if msection.get_attribute(SdpAttributeType::Extmap).is_some() {''')],
    '''let m = "m=audio 9 RTP/AVP 0\\r\\n";
    assert!(fails(&format!("{H}a=extmap:1 u\\r\\n{m}{m}{m}a=extmap:2 u\\r\\n")));''',
    'header extensions at session level and in the third section', 'it is accepted')
bug('C09-prefix', 'C09', [(L, '''                        if !rid_ids.contains(&simulcast_rid.id.as_str()) {''', '''                        if !rid_ids.iter().any(|id| id.starts_with(simulcast_rid.id.as_str())) {''')],
    '''assert!(fails(&format!("{H}m=video 9 RTP/AVP 97\\r\\na=rid:ab send\\r\\na=simulcast:send a\\r\\n")));''',
    'a simulcast stream that names the beginning of a rid', 'it is accepted')
bug('C09-inactive', 'C09', [(L, '''    let media_cons = &session.media.iter().all(|m| m.get_connection().is_some());''', '''    let media_cons = &session.media.iter().all(|m| {
        m.get_connection().is_some() || m.get_attribute(SdpAttributeType::BundleOnly).is_some()
    });''')],
    '''assert!(fails("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nm=audio 9 RTP/AVP 0\\r\\na=bundle-only\\r\\n"));''',
    'no connection anywhere, but bundle-only', 'it is accepted')
bug('C10-cap', 'C10', [(L, '''                        warnings.push(SdpParserError::Unsupported {
                            error,
                            line,
                            line_number,
                        });''', '''                        if warnings.len() < 64 {
                            warnings.push(SdpParserError::Unsupported {
                                error,
                                line,
                                line_number,
                            });
                        }''')],
    '''assert_eq!(p(&format!("{H}{}", "a=foo\\r\\n".repeat(70))).warnings.len(), 70);''',
    'more than 64 unsupported lines', 'the rest is not reported')
bug('C10-trim-line', 'C10', [(L, '''        match parse_sdp_line(line, line_number) {''', '''        match parse_sdp_line(line.trim_start(), line_number) {''')],
    '''match parse_sdp(&format!("{H}  x=1\\r\\n"), false).unwrap_err() { SdpParserError::Line { line, .. } => assert_eq!(line, "  x=1"), _ => panic!() }''',
    'a broken line with white space before it', 'the error holds another line')
bug('C11-tab', 'C11', [(A, '''        Some(x) => x.trim(),
            None => "",''', '''        Some(x) => x.trim_start_matches(' ').trim_end(),
            None => "",''')],
    '''assert_eq!(a("mid:\\tx").to_string(), "mid:x");
    assert_eq!(a("ptime:\\t20").to_string(), "ptime:20");''',
    'a tab between the colon and the value of an attribute', 'it becomes part of the value')
bug('C13-unicode-case', 'C13', [(AD, '''            (Address::Fqdn(a), Address::Fqdn(b)) => a.to_lowercase() == b.to_lowercase(),''', '''            (Address::Fqdn(a), Address::Fqdn(b)) => a.eq_ignore_ascii_case(b),''')],
    '''assert!(Address::Fqdn("\\u{c4}".into()) == Address::Fqdn("\\u{e4}".into()));''',
    'host names built with letters outside of ASCII', 'names that differ in letter case only are not equal')
bug('C13-dot', 'C13', [(AD, '''                Host::Domain(s) => Address::Fqdn(s),''', '''                Host::Domain(s) => Address::Fqdn(s.trim_end_matches('.').to_string()),''')],
    '''match Address::from_str("a.b.").unwrap() { Address::Fqdn(s) => assert_eq!(s, "a.b."), _ => panic!() }''',
    'a host name that ends with a dot', 'the dot is lost')
bug('C14-idempotent', 'C14', [(AN, '''        let key = value.to_owned();
        if let''', '''        if value.starts_with(self.prefix) && value.len() == self.prefix.len() + self.padding {
            return value.to_owned();
        }
        let key = value.to_owned();
        if let''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    let x = n.mask_host("fqdn-00000001");
    assert_ne!(n.mask_host("a"), x);''',
    'a value that looks like a mask', 'it is returned as it is, and another value gets the same mask')
bug('C14-port-16', 'C14', [(AN, '''    pub fn mask_port(&mut self, port: u32) -> u32 {
''', '''    pub fn mask_port(&mut self, port: u32) -> u32 {
        let port = port & 0xffff;
''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    let x = n.mask_port(1);
    assert_ne!(n.mask_port(65537), x);''',
    'ports that differ above the 16th bit', 'they get the same mask')
bug('C14-flush', 'C14', [(AN, '''        self.counter += Wrapping(1);
        let store''', '''        if self.map.len() == 256 {
            self.map.clear();
        }
        self.counter += Wrapping(1);
        let store''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    let x = n.mask_cname("0");
    for i in 1..300 { n.mask_cname(&i.to_string()); }
    assert_eq!(n.mask_cname("0"), x);''',
    'more than 256 values of a kind', 'the masks given before are forgotten')
bug('C15-discard-port', 'C15', [(A, '''            port: anon.mask_port(self.port),
            component: self.component,''', '''            port: match self.port {
                9 => 9,
                p => anon.mask_port(p),
            },
            component: self.component,''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    assert_eq!(a("remote-candidates:1 1.2.3.4 9").masked_clone(&mut n).to_string(), "remote-candidates:1 0.0.0.1 1");''',
    'a remote candidate with port 9', 'the port is not masked')
bug('C15-same-as-session', 'C15', [(L, '''        for i in &self.attribute {
            masked.attribute.push(i.masked_clone(anon));
        }''', '''        for i in &self.attribute {
            masked.attribute.push(match i {
                SdpAttribute::Identity(_) => continue,
                _ => i.masked_clone(anon),
            });
        }''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    assert_eq!(p(&format!("{H}a=identity:x\\r\\n")).masked_clone(&mut n).attribute.len(), 1);''',
    'a session with an identity', 'the masked clone has none')
bug('C16-codec-once', 'C16', [(M, '''            SdpFormatList::Integers(ref mut x) => x.push(u32::from(rtpmap.payload_type)),''', '''            SdpFormatList::Integers(ref mut x) => {
                if !x.contains(&u32::from(rtpmap.payload_type)) {
                    x.push(u32::from(rtpmap.payload_type))
                }
            }''')],
    '''let mut s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\n"));
    s.media[0].add_codec(SdpAttributeRtpmap::new(0, "x".into(), 1)).unwrap();
    match s.media[0].get_formats() { SdpFormatList::Integers(v) => assert_eq!(v.len(), 2), _ => panic!() }''',
    'adding a codec whose format is there', 'the format is not added')
bug('C16-streams', 'C16', [(M, '''                    channels: u32::from(streams),''', '''                    channels: u32::from(streams).min(1024),''')],
    '''let mut s = p(&format!("{H}m=application 9 DTLS/SCTP 0\\r\\n"));
    s.media[0].add_datachannel("n".into(), 5000, 2000, 0).unwrap();
    assert!(s.to_string().contains("webrtc-datachannel 2000"));''',
    'a data channel with more than 1024 streams', 'the number of streams is cut')
bug('C17-run', 'C17', [(M, '''        self.attribute
            .iter()
            .filter(|a| SdpAttributeType::from(*a) == t)
            .collect()''', '''        self.attribute
            .iter()
            .skip_while(|a| SdpAttributeType::from(*a) != t)
            .take_while(|a| SdpAttributeType::from(*a) == t || SdpAttributeType::from(*a) != SdpAttributeType::Mid)
            .filter(|a| SdpAttributeType::from(*a) == t)
            .collect()''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=candidate:1 1 UDP 1 1.2.3.4 1 typ host\\r\\na=mid:1\\r\\na=candidate:2 1 UDP 1 1.2.3.4 1 typ host\\r\\n"));
    assert_eq!(s.media[0].get_attributes_of_type(SdpAttributeType::Candidate).len(), 2);''',
    'a mid between two attributes of the type asked for', 'the ones after it are not found')
bug('C18-unknown-once', 'C18', [(A, '''                    _ => parameters
                        .unknown_tokens
                        .push((*parameter_token).to_string()),''', '''                    _ => {
                        let token = (*parameter_token).to_string();
                        if !parameters.unknown_tokens.contains(&token) {
                            parameters.unknown_tokens.push(token)
                        }
                    }''')],
    '''match a("fmtp:97 a=1;b=2;a=1") { SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.unknown_tokens.len(), 3), _ => panic!() }''',
    'an unknown parameter that stands twice', 'one is lost')
bug('C18-dtmf-255', 'C18', [(A, '''                        0..=100 => Some(x),
                        _ => None,''', '''                        0..=199 => Some(x),
                        _ => None,''')],
    '''match a("fmtp:97 101") { SdpAttribute::Fmtp(f) => assert_eq!(f.parameters.dtmf_tones, "0-15"), _ => panic!() }''',
    'a telephone event from 101 to 199', 'it is kept')
bug('C19-equal-range', 'C19', [(A, '''            } else if range_tokens.len() == 2 {
                Ok(SdpAttributeImageAttrXyRange::Range(''', '''            } else if range_tokens.len() == 2 && range_tokens[0] == range_tokens[1] {
                Ok(SdpAttributeImageAttrXyRange::DiscreteValues(vec![
                    range_tokens[0].parse::<u32>()?,
                ]))
            } else if range_tokens.len() == 2 {
                Ok(SdpAttributeImageAttrXyRange::Range(''')],
    '''assert_eq!(a("imageattr:97 send [x=[2:2],y=2]").to_string(), "imageattr:97 send [x=[2:2],y=2]");''',
    'a range with two equal ends', 'it becomes a number')
bug('C19-q-clamp', 'C04', [(A, '''            q = Some(qval.parse::<f32>()?);''', '''            q = Some(qval.parse::<f32>()?.min(1.0));''')],
    '''assert_eq!(a("imageattr:97 send [x=2,y=2,q=1.5]").to_string(), "imageattr:97 send [x=2,y=2,q=1.5]");''',
    'a q above 1', 'it becomes 1')
bug('C20-tildes', 'C20', [(A, '''        if let Some(idstr) = idstr.strip_prefix('~') {
            SdpAttributeSimulcastId {
                id: idstr.to_string(),''', '''        if idstr.starts_with('~') {
            SdpAttributeSimulcastId {
                id: idstr.trim_matches('~').to_string(),''')],
    '''match a("simulcast:send ~a~") { SdpAttribute::Simulcast(s) => assert_eq!(s.send[0].ids[0].id, "a~"), _ => panic!() }''',
    "a paused stream whose id ends with '~'", 'that character is lost')
bug('C20-merge', 'C20', [(A, '''        SdpSingleDirection::Recv => SdpAttributeSimulcast {
            send: second_version_list,
            receive: first_version_list,
        },''', '''        SdpSingleDirection::Recv => SdpAttributeSimulcast {
            send: second_version_list.into_iter().rev().collect(),
            receive: first_version_list,
        },''')],
    '''assert_eq!(a("simulcast:recv a send b;c").to_string(), "simulcast:send b;c recv a");''',
    'recv first, then send with two streams', 'the order of the streams is turned round')
bug('C21-zero-bandwidth', 'C21', [(M, '''    pub fn add_bandwidth(&mut self, bw: SdpBandwidth) {
        self.bandwidth.push(bw)
    }''', '''    pub fn add_bandwidth(&mut self, bw: SdpBandwidth) {
        if let (SdpBandwidth::As(_), Some(SdpBandwidth::As(_))) = (&bw, self.bandwidth.last()) {
            self.bandwidth.pop();
        }
        self.bandwidth.push(bw)
    }''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\nb=AS:1\\r\\nb=AS:2\\r\\n"));
    assert_eq!(s.media[0].get_bandwidth().len(), 2);''',
    'two AS bandwidths one after the other', 'the first is replaced')
bug('C22-priority', 'C22', [(A, '''    let priority = tokens[3].parse::<u64>()?;''', '''    let priority = u64::from(tokens[3].parse::<u32>()?);''')],
    '''assert!("candidate:1 1 UDP 4294967296 1.2.3.4 1 typ host".parse::<SdpAttribute>().is_ok());''',
    'a priority of 2^32', 'it is refused')
bug('C22-tcptype-udp', 'C22', [(A, '''                    cand.set_tcp_type(match''', '''                    let tcp_type = match'''), (A, '''                                "Unknown tcptype value in candidate line".to_string(),
                            ));
                        }
                    });
                    index += 2;''', '''                                "Unknown tcptype value in candidate line".to_string(),
                            ));
                        }
                    };
                    if cand.transport == SdpAttributeCandidateTransport::Tcp {
                        cand.set_tcp_type(tcp_type);
                    }
                    index += 2;''')],
    '''assert!(a("candidate:1 1 UDP 1 1.2.3.4 1 typ host tcptype so").to_string().contains("tcptype so"));''',
    'a UDP candidate with a tcptype', 'the tcptype is dropped')
bug('C22-dup-ext', 'C22', [(A, '''        self.unknown_extensions.push((name, value));''', '''        match self.unknown_extensions.iter_mut().find(|e| e.0 == name) {
            Some(e) => e.1 = value,
            None => self.unknown_extensions.push((name, value)),
        }''')],
    '''match a("candidate:1 1 UDP 1 1.2.3.4 1 typ host x 1 x 2") { SdpAttribute::Candidate(c) => assert_eq!(c.unknown_extensions.len(), 2), _ => panic!() }''',
    'an unknown extension that stands twice', 'the first is lost')
bug('C23-flag-empty', 'C23', [(A, '''        if tokens.len() > 1 {
            match name.as_str() {''', '''        if !val.is_empty() {
            match name.as_str() {''')],
    '''assert!("sendrecv:".parse::<SdpAttribute>().is_err());
    assert!("sendrecv: ".parse::<SdpAttribute>().is_err());''',
    'a flag with a colon and nothing behind it', 'it is accepted')
bug('C23-dtls', 'C23', [(A, '''    let tokens: Vec<&str> = to_parse.split(' ').collect();

    if tokens.len() != 2 {''', '''    let tokens: Vec<&str> = to_parse.splitn(3, ' ').collect();

    if tokens.len() < 2 {''')],
    '''assert!("dtls-message:client a b".parse::<SdpAttribute>().is_err());''',
    'a dtls-message with a third word', 'it is accepted')
bug('C24-sequence', 'C24', [(E, '''            } => write!(f, "Sequence error in line({line_number}): {message}"),''', '''            } => match line_number {
                0 => write!(f, "Sequence error: {message}"),
                _ => write!(f, "Sequence error in line({line_number}): {message}"),
            },''')],
    '''let e = SdpParserError::Sequence { message: "x".into(), line_number: 0 };
    assert_eq!(e.to_string(), "Sequence error in line(0): x");''',
    'a sequence error about line 0', 'the number is not printed')
bug('C25-paused', 'C25', [(A, '''pub struct SdpAttributeSimulcastId {
    pub id: String,
    pub paused: bool,''', '''pub struct SdpAttributeSimulcastId {
    pub id: String,
    ''' + skip('skip') + '''    pub paused: bool,''')],
    '''let s = |t: &str| serde_json::to_string(&a(t)).unwrap();
    assert_ne!(s("simulcast:send ~a"), s("simulcast:send a"));''',
    'streams that differ in being paused', 'their serialized forms are the same')
bug('C25-ext', 'C25', [(A, '''    pub unknown_extensions: Vec<(String, String)>,''', '''    ''' + skip('skip') + '''    pub unknown_extensions: Vec<(String, String)>,''')],
    '''let s = |t: &str| serde_json::to_string(&a(t)).unwrap();
    assert_ne!(s("candidate:1 1 UDP 1 1.2.3.4 1 typ host x 1"), s("candidate:1 1 UDP 1 1.2.3.4 1 typ host"));''',
    'candidates that differ in their unknown extensions', 'their serialized forms are the same')
bug('C02-ttl-zero', 'C02', [(L, '''        write_option_string!(f, "/{}", self.ttl)?;
        write_option_string!(f, "/{}", self.amount)''', '''        write_option_string!(f, "/{}", self.ttl.filter(|t| *t > 0 || self.amount.is_some()))?;
        write_option_string!(f, "/{}", self.amount)''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 224.0.0.1/0\\r\\n").to_string();
    assert!(s.contains("224.0.0.1/0"));''',
    'a connection with a time to live of 0', 'the time to live is not printed')
bug('C03-framerate-huge', 'C03', [(A, '''            SdpAttribute::FrameRate(ref a) => attr_to_string(a.to_string()),''', '''            SdpAttribute::FrameRate(ref a) if a.fract() == 0.0 => {
                attr_to_string((*a as i64).to_string())
            }
            SdpAttribute::FrameRate(ref a) => attr_to_string(a.to_string()),''')],
    '''assert_eq!(a("framerate:1e20").to_string(), "framerate:100000000000000000000");''',
    'a frame rate above 2^63', 'it is printed as another number')
bug('C05-amount-one', 'C05', [(L, '''            amount = Some(addr_tokens[2].parse::<u32>()?);''', '''            amount = Some(addr_tokens[2].parse::<u32>()?).filter(|n| *n > 0);''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\nc=IN IP4 224.0.0.1/5/0\\r\\n"));
    assert_eq!(s.media[0].get_connection().as_ref().unwrap().amount, Some(0));''',
    'a connection with a number of addresses of 0', 'the number is dropped')
bug('C06-sctpmap-16', 'C06', [(A, '''        channels: tokens[2].parse::<u32>()?,''', '''        channels: u32::from(tokens[2].parse::<u16>()?),''')],
    '''assert!("sctpmap:5000 webrtc-datachannel 65536".parse::<SdpAttribute>().is_ok());''',
    'a number of channels above 65535', 'it is refused')
bug('C08-fmtp-session', 'C08', [(A, '''    pub fn allowed_at_session_level(&self) -> bool {
        match *self {''', '''    pub fn allowed_at_session_level(&self) -> bool {
        match *self {
            SdpAttribute::Rtcpfb(ref fb) if fb.payload_type == SdpAttributePayloadType::Wildcard => true,''')],
    '''assert!(fails(&format!("{H}a=rtcp-fb:* nack\\r\\nm=audio 0 RTP/AVP 0\\r\\n")));''',
    'feedback for all formats at session level', 'it is accepted')
bug('C12-last-colon', 'C12', [(A, '''        let bytes = octets_string
            .split(':')''', '''        let bytes = octets_string
            .trim_end_matches(':')
            .split(':')''')],
    '''let t = format!("fingerprint:sha-1 {}", vec!["0A"; 20].join(":"));
    assert!(format!("{t}:").parse::<SdpAttribute>().is_err());''',
    'a colon after the last octet', 'it is accepted')
bug('C14-private', 'C14', [(AN, '''        if let Some(address) = self.ips.get(addr) {''', '''        if let IpAddr::V4(ip) = addr {
            if ip.is_link_local() {
                return *addr;
            }
        }
        if let Some(address) = self.ips.get(addr) {''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    let l: std::net::IpAddr = "169.254.0.1".parse().unwrap();
    assert_ne!(n.mask_ip(&l), l);''',
    'a link-local address', 'it is its own mask')
bug('C16-nack-app', 'C16', [(M, '''                        | SdpAttribute::Fmtp(_)
''', ''''''), (M, '''        self.attribute.retain({
            |x| {
                !matches!(''', '''        self.attribute.retain({
            |x| match x {
                SdpAttribute::Fmtp(f) => !f.parameters.dtmf_tones.is_empty(),
                _ => !matches!(''')],
    '''let mut s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=fmtp:101 0-15\\r\\n"));
    s.media[0].remove_codecs();
    assert!(s.media[0].get_attributes().is_empty());''',
    'format parameters with telephone events', 'removing the codecs keeps them')
bug('C24-float-empty', 'C24', [(E, '''            SdpParserInternalError::Float(ref error) => Some(error),
            SdpParserInternalError::Domain''', '''            SdpParserInternalError::Float(ref error) if error.to_string().starts_with("invalid") => Some(error),
            SdpParserInternalError::Domain''')],
    '''use std::error::Error;
    assert!("framerate:".parse::<SdpAttribute>().unwrap_err().source().is_some());''',
    'an empty float', 'the error has no source')
bug('C07-connection-flag', 'C07', [(M, '''                if sdp_media.connection.is_some() {''', '''                if sdp_media.connection.is_some() && sdp_media.get_bandwidth().is_empty() {''')],
    '''assert!(fails(&format!("{H}m=audio 9 RTP/AVP 0\\r\\nc=IN IP4 1.1.1.1\\r\\nb=AS:1\\r\\nc=IN IP4 1.1.1.1\\r\\n")));''',
    'a second connection line in a media section that has a bandwidth', 'it is accepted')
# ---------------------------------------------------------------- a further round
bug('C01-print-range', 'C01', [(A, '''        match *self {
            SdpAttributeImageAttrXyRange::Range(ref min, ref max, ref step_opt) => {''', '''        match *self {
            SdpAttributeImageAttrXyRange::Range(ref min, ref max, ref step_opt) => {
                debug_assert!(max - min > 0);''')],
    '''let t = a("imageattr:97 send [x=[480:320],y=1]");
    assert!(std::panic::catch_unwind(|| t.to_string()).is_ok());''',
    'an image size range whose upper bound is the smaller one', 'printing the accepted attribute panics')
bug('C01-digest-length', 'C01', [(A, '''        let bytes = octets_string
            .split(':')''', '''        debug_assert!(octets_string.len() / 3 <= self.octet_count());
        let bytes = octets_string
            .split(':')''')],
    '''assert!(std::panic::catch_unwind(|| format!("fingerprint:sha-1 {}", vec!["0A"; 90].join(":")).parse::<SdpAttribute>().is_err()).unwrap_or(false));''',
    'a fingerprint with too many octets', 'the parser panics')
bug('C07-session-vector', 'C07', [(L, '''    match _media_pos {
        Some(p) => {
            let mut media: Vec<_> = lines.drain(p..).collect();''', '''    match _media_pos {
        Some(p) => {
            let mut media: Vec<_> = lines.drain(p.max(1)..).collect();''')],
    '''let t = format!("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nm=audio 9 RTP/AVP 0\\r\\nt=0 0\\r\\n");
    let e = match parse_sdp(&t, false) { Err(e) => e.to_string(), Ok(_) => panic!() };
    assert!(e.contains("media section"), "{e}");''',
    'a media line directly after the session name', 'the media line is taken for a session line')
bug('C02-timing-sign', 'C02', [(L, '''        write!(f, "{start} {stop}", start = self.start, stop = self.stop)''', '''        write!(f, "{start} {stop}", start = self.start, stop = self.stop as i64)''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 18446744073709551615\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(p(&s.to_string()).timing.unwrap().stop, s.timing.unwrap().stop);''',
    'a stop time of 2^63 or more', 'it is printed with a sign')
bug('C02-recvonly-rid', 'C02', [(M, '''            attributes = maybe_vector_to_string!("a={}\\r\\n", self.attribute, "\\r\\na=")''', '''            attributes = maybe_vector_to_string!(
                "a={}\\r\\n",
                self.attribute
                    .iter()
                    .filter(|a| !matches!(a, SdpAttribute::EndOfCandidates)
                        || self.get_attribute(SdpAttributeType::Candidate).is_some())
                    .collect::<Vec<_>>(),
                "\\r\\na="
            )''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=end-of-candidates\\r\\n"));
    assert!(p(&s.to_string()).media[0].get_attribute(SdpAttributeType::EndOfCandidates).is_some());''',
    'end-of-candidates in a section without candidates', 'it is not printed')
bug('C03-priority-32', 'C03', [(A, '''            priority = self.priority,''', '''            priority = self.priority as u32,''')],
    '''if let SdpAttribute::Candidate(c) = a("candidate:1 1 UDP 4294967296 1.2.3.4 1 typ host") { let t = SdpAttribute::Candidate(c.clone()).to_string();
    if let SdpAttribute::Candidate(r) = a(&t) { assert_eq!(r.priority, c.priority); } else { panic!() } } else { panic!() }''',
    'a candidate priority of more than 32 bits', 'it is printed cut off')
bug('C03-pps-fps', 'C03', [(A, '''            maybe_print_param("max-pps=", self.max_pps, 0),''', '''            maybe_print_param("max-pps=", self.max_pps, self.max_fps),''')],
    '''let t = a("rid:1 send max-fps=30;max-pps=30").to_string();
    assert!(t.contains("max-pps=30"), "{t}");''',
    'a rid whose max-pps equals its max-fps', 'max-pps is not printed')
bug('C04-rtcp-port-fqdn', 'C04', [(A, '''                        Some(x) => ExplicitlyTypedAddress::try_from((addrtype, x))?,
                    };
                    rtcp.set_addr(addr);''', '''                        Some(x) => ExplicitlyTypedAddress::try_from((addrtype, x.trim_end_matches(".local")))?,
                    };
                    rtcp.set_addr(addr);''')],
    '''if let SdpAttribute::Rtcp(r) = a("rtcp:9 IN IP4 host.local") { assert!(r.to_string().contains("host.local")); } else { panic!() }''',
    'a host name in the .local domain', 'the domain is lost')
bug('C04-msid-app', 'C04', [(A, '''    let appdata = tokens.next().map(|x| x.to_string());''', '''    let appdata = tokens.next().filter(|x| *x != id).map(|x| x.to_string());''')],
    '''if let SdpAttribute::Msid(r) = a("msid:a a") { assert_eq!(r.appdata.as_deref(), Some("a")); } else { panic!() }''',
    'an msid whose application data equals its identifier', 'the application data is dropped')
bug('C05-origin-user', 'C05', [(L, '''        username: String::from(username),
        session_id,''', '''        username: String::from(username.trim_matches('"')),
        session_id,''')],
    '''let s = p("v=0\\r\\no=\\"me\\" 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(s.origin.username, "\\"me\\"");''',
    'a user name in quotes', 'the quotes are lost')
bug('C05-format-dup', 'C05', [(M, '''                fmt_vec.push(String::from(*token));''', '''                if fmt_vec.last().map(String::as_str) != Some(*token) {
                    fmt_vec.push(String::from(*token));
                }''')],
    '''let s = p(&format!("{H}m=application 9 DTLS/SCTP a a\\r\\n"));
    assert_eq!(s.media[0].get_formats().to_string(), "a a");''',
    'the same format twice in a row', 'only one is kept')
bug('C06-trr-16', 'C06', [(A, '''                _ if x.parse::<u32>().is_ok() => (*x).to_string(),''', '''                _ if x.parse::<u16>().is_ok() => (*x).to_string(),''')],
    '''a("rtcp-fb:96 trr-int 65536");''', 'a trr-int value above 65535', 'it is rejected')
bug('C06-rid-signed', 'C06', [(A, '''                "max-br" => params.max_br = param_value_pair[1].parse::<u32>()?,''', '''                "max-br" => params.max_br = param_value_pair[1].parse::<i32>()? as u32,''')],
    '''a("rid:1 send max-br=2147483648");''', 'a bit rate of 2^31 or more', 'it is rejected, and negative ones are accepted')
bug('C07-last-section', 'C07', [(M, '''            SdpType::Media(v) => {
                media_sections.push(sdp_media);
                sdp_media = SdpMedia::new(v);
            }
''', '''            SdpType::Media(v) => {
                let connection = sdp_media.connection.clone().filter(|c| c.ttl.is_some());
                media_sections.push(sdp_media);
                sdp_media = SdpMedia::new(v);
                sdp_media.connection = connection;
            }
''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\nc=IN IP4 224.0.0.1/3\\r\\nm=audio 9 RTP/AVP 0\\r\\n"));
    assert!(s.media[1].get_connection().is_none());''',
    'a connection with a ttl in an earlier section', 'the next section inherits it')
bug('C07-sorted', 'C07', [(L, '''            sdp_session.extend_media(parse_media_vector(&mut media)?);''', '''            let mut sections = parse_media_vector(&mut media)?;
            sections.sort_by_key(|m| m.get_port() == 0 && m.get_attributes().is_empty());
            sdp_session.extend_media(sections);''')],
    '''let s = p(&format!("{H}m=audio 0 RTP/AVP 0\\r\\nm=video 9 RTP/AVP 0\\r\\n"));
    assert_eq!(s.media[0].get_port(), 0);''',
    'a rejected section before an accepted one', 'the sections change places')
bug('C08-setup-holdconn', 'C08', [(A, '''            | SdpAttribute::Simulcast(..)
            | SdpAttribute::Ssrc(..)
            | SdpAttribute::SsrcGroup(..) => false,''', '''            | SdpAttribute::Setup(SdpAttributeSetup::Holdconn)
            | SdpAttribute::Simulcast(..)
            | SdpAttribute::Ssrc(..)
            | SdpAttribute::SsrcGroup(..) => false,''')],
    '''p(&format!("{H}a=setup:holdconn\\r\\nm=audio 0 RTP/AVP 0\\r\\n"));''',
    'setup:holdconn at session level', 'it is rejected')
bug('C09-bundle-only', 'C09', [(L, '''            && msection.get_attribute(SdpAttributeType::RtcpMux).is_none()
        {''', '''            && msection.get_attribute(SdpAttributeType::RtcpMux).is_none()
            && msection.get_attribute(SdpAttributeType::BundleOnly).is_none()
        {''')],
    '''assert!(fails(&format!("{H}m=audio 0 RTP/AVP 0\\r\\na=bundle-only\\r\\na=rtcp-mux-only\\r\\n")));''',
    'rtcp-mux-only without rtcp-mux in a bundle-only section', 'it is accepted')
bug('C09-first-simulcast', 'C09', [(L, '''                    for simulcast_rid in simulcast_version_list.iter().flat_map(|x| &x.ids) {''', '''                    for simulcast_rid in simulcast_version_list
                        .iter()
                        .flat_map(|x| &x.ids)
                        .filter(|x| !x.paused)
                    {''')],
    '''assert!(fails(&format!("{H}m=video 0 RTP/AVP 0\\r\\na=rid:1 send\\r\\na=simulcast:send 1;~2\\r\\n")));''',
    'a paused simulcast rid without a rid attribute', 'it is accepted')
bug('C09-rid-u8', 'C09', [(L, '''                    if !int_fmt.contains(&(u32::from(*rid_format))) {''', '''                    if !int_fmt.contains(&(u32::from(*rid_format as u8))) {''')],
    '''assert!(fails(&format!("{H}m=video 0 RTP/AVP 96\\r\\na=rid:1 send pt=352\\r\\n")));''',
    'a rid format that equals a declared one modulo 256', 'it is accepted')
bug('C10-unsupported-first', 'C10', [(L, '''    // We just return the last of the errors here
    if let Some(e) = errors.pop() {''', '''    // We just return the last of the errors here
    errors.sort_by_key(|e| matches!(e, SdpParserError::Line { error: SdpParserInternalError::Integer(_), .. }));
    if let Some(e) = errors.pop() {''')],
    '''let t = "v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 x\\r\\nc=IN IP4\\r\\nm=audio 0 RTP/AVP 0\\r\\n";
    match parse_sdp(t, false) { Err(SdpParserError::Line { line_number, .. }) => assert_eq!(line_number, 4), _ => panic!() }''',
    'an integer error before another error', 'the earlier one is reported')
bug('C10-comment', 'C10', [(L, '''        if stripped_line.is_empty() {
            continue;
        }''', '''        if stripped_line.is_empty() || stripped_line.starts_with("a=x-") {
            continue;
        }''')],
    '''assert_eq!(p(&format!("{H}a=x-foo:1\\r\\n")).warnings.len(), 1);''',
    'an unknown attribute whose name starts with x-', 'no warning is kept')
bug('C11-candidate-typ', 'C11', [(A, '''    match tokens[6].to_lowercase().as_ref() {
        "typ" => (),''', '''    match tokens[6] {
        "typ" | "TYP" => (),''')],
    '''a("candidate:1 1 UDP 1 1.2.3.4 1 Typ host");''', 'the keyword typ in mixed case', 'the candidate is rejected')
bug('C11-value-trim', 'C11', [(A, '''    Ok(SdpType::Attribute(value.trim().parse()?))''', '''    Ok(SdpType::Attribute(value.trim_matches(|c| c == ' ' || c == '\\t').parse()?))'''),
    (L, '''            let trimmed = v.trim();
            // For''', '''            let trimmed = v.trim_end_matches(['\\r', '\\n', ' ', '\\t']).trim_start();
            // For''')],
    '''let s = p(&format!("{H}a=ice-lite\\u{b}\\r\\n")); assert!(s.warnings.is_empty());''',
    'a vertical tab at the end of a line', 'the attribute is not recognised')
bug('C13-bracket', 'C13', [(AD, '''        if s.find(':').is_some() {
            match IpAddr::from_str(s) {''', '''        if s.find(':').is_some() {
            let s = s.split('%').next().unwrap_or(s);
            match IpAddr::from_str(s) {''')],
    '''use std::str::FromStr;
    assert!(webrtc_sdp::address::Address::from_str("fe80::1%eth0").is_err());''',
    'an IPv6 address with a zone', 'the zone is dropped silently')
bug('C13-eq-type', 'C13', [(AD, '''            ) => a1 == a2 && d1.to_lowercase() == d2.to_lowercase(),''', '''            ) => (a1 == a2 || d1 == d2) && d1.to_lowercase() == d2.to_lowercase(),''')],
    '''use std::convert::TryFrom; use webrtc_sdp::address::{AddressType, ExplicitlyTypedAddress as X};
    assert!(X::try_from((AddressType::IpV4, "a.b")).unwrap() != X::try_from((AddressType::IpV6, "a.b")).unwrap());''',
    'the same host name with different address types', 'the addresses compare equal')
bug('C14-fp-256', 'C14', [(AN, '''        self.cert_finger_print_inc += Wrapping(1);
''', '''        self.cert_finger_print_inc = (self.cert_finger_print_inc + Wrapping(1)) & Wrapping(0xff);
''')],
    '''let mut n = StatefulSdpAnonymizer::new(); let mut all = std::collections::HashSet::new();
    for i in 0..300u16 { assert!(all.insert(n.mask_cert_finger_print(&i.to_be_bytes()))); }''',
    'more than 255 fingerprints', 'different ones are masked alike')
bug('C14-user-host', 'C14', [(AN, '''        match address {
            Address::Fqdn(host) => Address::Fqdn(self.mask_host(host)),''', '''        match address {
            Address::Fqdn(host) => Address::Fqdn(self.mask_host(&host.to_uppercase())),''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    let m = n.mask_host("abc");
    assert_eq!(n.mask_address(&webrtc_sdp::address::Address::Fqdn("abc".to_string())).to_string(), m);''',
    'the same host once as a name and once in an address', 'the two are masked differently')
bug('C15-tcptype', 'C15', [(A, '''        masked.rport = self.rport.map(|port| anonymizer.mask_port(port));''', '''        masked.rport = match (&masked.raddr, self.rport) {
            (Some(_), Some(port)) => Some(anonymizer.mask_port(port)),
            (_, port) => port,
        };''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    let c = a("candidate:1 1 UDP 1 1.2.3.4 1 typ srflx rport 77").masked_clone(&mut n).to_string();
    assert!(!c.contains("rport 77"), "{c}");''',
    'a candidate with a related port but no related address', 'the port is not masked')
bug('C15-media-connection', 'C15', [(M, '''            connection: self.connection.as_ref().map(|c| c.masked_clone(anon)),''', '''            connection: self.connection.as_ref().map(|c| {
                if self.media.port == 0 { c.clone() } else { c.masked_clone(anon) }
            }),''')],
    '''let mut n = StatefulSdpAnonymizer::new();
    let s = p(&format!("{H}m=audio 0 RTP/AVP 0\\r\\nc=IN IP4 1.2.3.4\\r\\n")).masked_clone(&mut n).to_string();
    assert!(!s.contains("1.2.3.4"));''',
    'a connection in a section with port zero', 'its address is not masked')
bug('C16-set-disallowed', 'C16', [(M, '''    pub fn add_attribute(&mut self, attr: SdpAttribute) -> Result<(), SdpParserInternalError> {
        if !attr''', '''    pub fn add_attribute(&mut self, attr: SdpAttribute) -> Result<(), SdpParserInternalError> {
        if let (SdpAttribute::Mid(_), true) = (&attr, self.media.port == 0) {
            self.remove_attribute(SdpAttributeType::Mid);
        }
        if !attr''')],
    '''let mut s = p(&format!("{H}m=audio 0 RTP/AVP 0\\r\\na=mid:1\\r\\n"));
    s.media[0].add_attribute(SdpAttribute::Mid("2".to_string())).unwrap();
    assert_eq!(s.media[0].get_attributes().len(), 2);''',
    'a second mid added to a rejected section', 'the first one is removed')
bug('C16-add-media-order', 'C16', [(L, '''        media.add_attribute(direction)?;

        media.set_connection(SdpConnection {
            address: addr,
            ttl: None,
            amount: None,
        });

        self.media.push(media);

        Ok(())''', '''        media.set_connection(SdpConnection {
            address: addr,
            ttl: None,
            amount: None,
        });

        self.media.push(media);

        match self.media.last_mut() {
            Some(media) => media.add_attribute(direction),
            None => Ok(()),
        }''')],
    '''let mut s = p(H);
    let r = s.add_media(media_type::SdpMediaValue::Audio, SdpAttribute::IceLite, 9, media_type::SdpProtocolValue::RtpAvp, std::net::Ipv4Addr::LOCALHOST.into());
    assert!(r.is_err()); assert!(s.media.is_empty());''',
    'add_media with an attribute that is not allowed there', 'the failed call leaves a section behind')
bug('C16-message-size', 'C16', [(M, '''        if msg_size > 0 {
            self.set_attribute(''', '''        if msg_size > 0 && self.get_attribute(SdpAttributeType::MaxMessageSize).is_none() {
            self.set_attribute(''')],
    '''let mut s = p(&format!("{H}m=application 9 UDP/DTLS/SCTP x\\r\\na=max-message-size:5\\r\\n"));
    s.media[0].add_datachannel("x".to_string(), 1, 1, 7).unwrap();
    assert!(s.media[0].to_string().contains("max-message-size:7"));''',
    'a data channel added where a message size is present', 'the old size stays')
bug('C17-first-empty', 'C17', [(L, '''        self.attribute
            .iter()
            .find(|a| SdpAttributeType::from(*a) == t)
    }

    pub fn add_media(''', '''        self.attribute
            .iter()
            .skip_while(|a| matches!(a, SdpAttribute::Group(g) if g.tags.is_empty()))
            .find(|a| SdpAttributeType::from(*a) == t)
    }

    pub fn add_media(''')],
    '''assert!(p(&format!("{H}a=group:BUNDLE\\r\\n")).get_attribute(SdpAttributeType::Group).is_some());''',
    'a group without tags as the first attribute', 'it is not found')
bug('C18-dtmf-last', 'C18', [(A, '''                if !dtmf_tone_is_ok {
                    break;
                }''', '''                if !dtmf_tone_is_ok && dtmf_tone_range.len() < 2 {
                    break;
                }''')],
    '''if let SdpAttribute::Fmtp(f) = a("fmtp:101 9-3,5") { assert_eq!(f.parameters.dtmf_tones, "0-15"); } else { panic!() }''',
    'a descending range before a valid tone', 'the tones are kept instead of the default')
bug('C18-red-dup', 'C18', [(A, '''                    x @ 0..=128 => parameters.encodings.push(x),''', '''                    x @ 0..=128 if parameters.encodings.len() < 32 => parameters.encodings.push(x),
                    0..=128 => (),''')],
    '''if let SdpAttribute::Fmtp(f) = a(&format!("fmtp:1 {}", vec!["1"; 40].join("/"))) { assert_eq!(f.parameters.encodings.len(), 40); } else { panic!() }''',
    'more than 32 redundant encodings', 'the rest is dropped')
bug('C18-inner-blank', 'C18', [(A, '''                let parameter_name = name_value_pair[0];
                let parameter_val = name_value_pair[1];
''', '''                let parameter_name = name_value_pair[0].trim_end_matches(['-', '_']);
                let parameter_val = name_value_pair[1];
''')],
    '''if let SdpAttribute::Fmtp(f) = a("fmtp:1 max-fs-=7") { assert_eq!(f.parameters.max_fs, 0); } else { panic!() }''',
    'an unknown name that is a known one with a dash after it', 'it is taken for the known one')
bug('C19-par-first', 'C19', [(A, '''            let range = parse_ps_range(par_values)?;
            par = Some(''', '''            let range = parse_ps_range(par_values)?;
            par = par.or(Some('''), (A, '''                min: range.0,
                max: range.1,
            })
''', '''                min: range.0,
                max: range.1,
            }))
''')],
    '''if let SdpAttribute::ImageAttr(i) = a("imageattr:97 send [x=1,y=1,par=[1.0-2.0],par=[3.0-4.0]]") { assert!(i.to_string().contains("par=[3-4]"), "{}", i); } else { panic!() }''',
    'a set with two par values', 'the first one is kept')
bug('C19-discrete-dup', 'C19', [(A, '''                .map(str::parse::<u32>)
                .collect::<Result<Vec<u32>, _>>()?;

            if values.len() < 2 {''', '''                .map(str::parse::<u32>)
                .collect::<Result<Vec<u32>, _>>()?;
            let values: Vec<u32> = values.iter().copied().enumerate().filter(|(i, v)| *i == 0 || values[i - 1] != *v || values.len() < 3).map(|(_, v)| v).collect();

            if values.len() < 2 {''')],
    '''if let SdpAttribute::ImageAttr(i) = a("imageattr:97 send [x=[1,2,2],y=1]") { assert!(i.to_string().contains("[1,2,2]"), "{}", i); } else { panic!() }''',
    'three or more discrete values with the same one twice in a row', 'one of them is dropped')
bug('C20-pt-space', 'C20', [(A, '''                        param_value_pair[1]
                            .split(',')''', '''                        param_value_pair[1]
                            .trim_end_matches(';')
                            .splitn(16, ',')''')],
    '''if let SdpAttribute::Rid(r) = a(&format!("rid:x send depends={}", vec!["y"; 20].join(","))) { assert_eq!(r.depends.len(), 20); } else { panic!() }''',
    'a rid that depends on more than 16 others', 'the last ones are run together')
bug('C20-id-paused', 'C20', [(A, '''        id: tokens[0].to_string(),
        direction: parse_single_direction(tokens[1])?,''', '''        id: tokens[0].trim_start_matches('~').to_string(),
        direction: parse_single_direction(tokens[1])?,''')],
    '''if let SdpAttribute::Rid(r) = a("rid:~1 send") { assert_eq!(r.id, "~1"); } else { panic!() }''',
    'a rid whose name starts with a tilde', 'the tilde is lost')
bug('C21-ttl-only-multi', 'C21', [(L, '''        write_option_string!(f, "/{}", self.amount)''', '''        write_option_string!(f, "/{}", self.amount.filter(|a| *a != u32::MAX))''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 224.0.0.1/3/4294967295\\r\\n");
    assert!(s.to_string().contains("/3/4294967295"));''',
    'the largest amount of addresses', 'it is not printed')
bug('C22-ext-limit', 'C22', [(A, '''        while tokens.len() > index + 1 {''', '''        while tokens.len() > index + 1 && index < 72 {'''), (A, '''        if tokens.len() > index {
            return Err(SdpParserInternalError::Unsupported(''', '''        if tokens.len() == index + 1 {
            return Err(SdpParserInternalError::Unsupported(''')],
    '''if let SdpAttribute::Candidate(c) = a(&format!("candidate:1 1 UDP 1 1.2.3.4 1 typ host {}", vec!["x y"; 40].join(" "))) { assert_eq!(c.unknown_extensions.len(), 40); } else { panic!() }''',
    'a candidate with more than 32 extensions', 'the rest is dropped')
bug('C22-foundation', 'C22', [(A, '''    let mut cand = SdpAttributeCandidate::new(
        tokens[0].to_string(),''', '''    let mut cand = SdpAttributeCandidate::new(
        tokens[0].chars().take(32).collect(),''')],
    '''if let SdpAttribute::Candidate(c) = a(&format!("candidate:{} 1 UDP 1 1.2.3.4 1 typ host", "f".repeat(40))) { assert_eq!(c.foundation.len(), 40); } else { panic!() }''',
    'a foundation of more than 32 characters', 'it is cut off')
bug('C23-ssrc-group-first', 'C23', [(A, '''            Err(err) => {
                return Err(err);
            }
            _ => unreachable!(),''', '''            Err(_) if !ssrcs.is_empty() => break,
            Err(err) => {
                return Err(err);
            }
            _ => unreachable!(),''')],
    '''assert!("ssrc-group:FID 1 x".parse::<SdpAttribute>().is_err());''', 'an ssrc-group with a wrong id after a good one', 'it is accepted')
bug('C24-int-overflow', 'C24', [(E, '''        SdpParserInternalError::Integer(err)
    }''', '''        match err.kind() {
            std::num::IntErrorKind::PosOverflow => SdpParserInternalError::Generic(err.to_string()),
            _ => SdpParserInternalError::Integer(err),
        }
    }''')],
    '''use std::error::Error;
    assert!("ptime:99999999999999999999999".parse::<SdpAttribute>().unwrap_err().source().is_some());''',
    'a number too large for its type', 'the error has no source')
bug('C25-zero-port', 'C25', [(M, '''    pub port_count: u32,
    pub proto''', '''    #[cfg_attr(feature = "serialize", serde(skip_serializing_if = "is_default_count"))]
    pub port_count: u32,
    pub proto'''), (M, '''impl fmt::Display for SdpMediaLine {''', '''#[cfg(feature = "serialize")]
fn is_default_count(count: &u32) -> bool {
    *count == 1
}

impl fmt::Display for SdpMediaLine {''')],
    '''let s = serde_json::to_string(&p(&format!("{H}m=audio 9/1 RTP/AVP 0\\r\\n"))).unwrap();
    assert!(s.contains("port_count"), "{s}");''',
    'a port count of one', 'it is missing in the serialized form')
bug('C01-first-char', 'C01', [(L, '''        if stripped_line.is_empty() {
            continue;
        }''', '''        if stripped_line.is_empty() || &stripped_line[..1] == "\\u{0}" {
            continue;
        }''')],
    '''let t = format!("{H}\\u{e9}=x\\r\\n");
    assert!(std::panic::catch_unwind(|| parse_sdp(&t, false).is_err()).unwrap_or(false));''',
    'a line that starts with a character of more than one byte', 'slicing inside of the character panics')
bug('C02-empty-warn', 'C02', [(L, '''            timing = option_to_string!("t={}\\r\\n", self.timing),
''', '''            timing = option_to_string!("t={}\\r\\n", self.timing.as_ref().filter(|t| t.start <= t.stop || t.stop == 0).or(Some(&SdpTiming { start: 0, stop: 0 }))),
''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=5 3\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(p(&s.to_string()).timing.unwrap().start, 5);''',
    'a description that stops before it starts', 'the times are printed as 0 0')
bug('C04-msid-dash', 'C04', [(A, """    let appdata = tokens.next().map(|x| x.to_string());
    Ok(SdpAttribute::Msid(""", """    let appdata = tokens.next().filter(|x| *x != id).map(|x| x.to_string());
    Ok(SdpAttribute::Msid(""")],
    '''if let SdpAttribute::Msid(m) = a("msid:x x") { assert_eq!(m.appdata.unwrap(), "x"); } else { panic!() }''',
    'an msid whose two parts are the same', 'the second one is dropped')
bug('C05-bandwidth-x', 'C05', [(L, '''        _ => SdpBandwidth::Unknown(String::from(bv[0]), bandwidth),
    };
    trace!("bandwidth''', '''        name if name.starts_with("X-") && name.len() > 2 && name[2..].chars().all(|c| c.is_ascii_digit()) => {
            SdpBandwidth::Unknown(String::from(&bv[0][2..]), bandwidth)
        }
        _ => SdpBandwidth::Unknown(String::from(bv[0]), bandwidth),
    };
    trace!("bandwidth''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nb=X-7:3\\r\\nc=IN IP4 0.0.0.0\\r\\n");
    assert_eq!(s.bandwidth[0].to_string(), "X-7:3");''',
    'a bandwidth type X- followed by digits', 'the X- is lost')
bug('C05-format-zero', 'C05', [(M, '''            for token in fmt_slice {
                fmt_vec.push(String::from(*token));
            }''', '''            for token in fmt_slice {
                match token.parse::<u16>() {
                    Ok(number) => fmt_vec.push(number.to_string()),
                    Err(_) => fmt_vec.push(String::from(*token)),
                }
            }''')],
    '''let s = p(&format!("{H}m=application 9 DTLS/SCTP 05\\r\\n"));
    assert_eq!(s.media[0].get_formats().to_string(), "05");''',
    'an application format that is a number with a leading zero', 'the zero is lost')
bug('C06-generation-16', 'C06', [(A, '''                    let generation = tokens[index + 1].parse::<u32>()?;
                    cand.set_generation(generation);''', '''                    let generation = tokens[index + 1].parse::<u32>()?;
                    if generation < u32::MAX {
                        cand.set_generation(generation);
                    }''')],
    '''if let SdpAttribute::Candidate(c) = a("candidate:1 1 UDP 1 1.2.3.4 1 typ host generation 4294967295") { assert_eq!(c.generation, Some(u32::MAX)); } else { panic!() }''',
    'the largest generation', 'it is dropped')
bug('C06-ptime-plus', 'C06', [(A, '''                    "MINPTIME" => parameters.minptime = parameter_val.parse::<u32>()?,''', '''                    "MINPTIME" => parameters.minptime = parameter_val.parse::<i64>()? as u32,''')],
    '''assert!("fmtp:111 minptime=-1".parse::<SdpAttribute>().is_err()); assert!("fmtp:111 minptime=4294967296".parse::<SdpAttribute>().is_err());''',
    'a minptime that is negative or too large', 'it wraps around')
bug('C07-late-attr', 'C07', [(M, '''                sdp_media.set_connection(c);
            }
            SdpType::Bandwidth(b) => sdp_media.add_bandwidth(b),''', '''                sdp_media.set_connection(c);
            }
            SdpType::Bandwidth(b) => match media_sections.last_mut() {
                Some(last) if lines.is_empty() && sdp_media.attribute.is_empty() && sdp_media.connection.is_none() => {
                    last.add_bandwidth(b)
                }
                _ => sdp_media.add_bandwidth(b),
            },''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\nm=video 9 RTP/AVP 0\\r\\nb=AS:1\\r\\n"));
    assert_eq!(s.media[1].get_bandwidth().len(), 1);''',
    'a second section whose only and last line is a bandwidth', 'it goes to the section before')
bug('C09-rid-zero', 'C09', [(L, '''        for rid_format in rids.iter().flat_map(|rid| &rid.formats) {''', '''        for rid_format in rids.iter().flat_map(|rid| &rid.formats).filter(|f| **f != 0) {''')],
    '''assert!(parse_sdp(&format!("{H}m=video 9 RTP/AVP 96\\r\\na=rid:x send pt=0\\r\\n"), false).is_err());''',
    'a rid restricted to format 0', 'it is accepted without being declared')
bug('C09-mux-first', 'C09', [(L, '''    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)
            .is_some()
            && msection.get_attribute(SdpAttributeType::RtcpMux).is_none()''', '''    for msection in &session.media {
        if msection
            .get_attribute(SdpAttributeType::RtcpMuxOnly)
            .is_some()
            && !session.media.iter().any(|m| m.get_attribute(SdpAttributeType::RtcpMux).is_some())''')],
    '''assert!(parse_sdp(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=rtcp-mux\\r\\nm=video 9 RTP/AVP 0\\r\\na=rtcp-mux-only\\r\\n"), false).is_err());''',
    'rtcp-mux in another section than rtcp-mux-only', 'the description is accepted')
bug('C09-both-dirs', 'C09', [(L, '''            check_defined_rids(&simulcast.receive, &recv_rids)?;
            check_defined_rids(&simulcast.send, &send_rids)?;''', '''            check_defined_rids(&simulcast.receive, &recv_rids)?;
            if simulcast.receive.is_empty() || simulcast.send.len() != simulcast.receive.len() {
                check_defined_rids(&simulcast.send, &send_rids)?;
            }''')],
    '''assert!(parse_sdp(&format!("{H}m=video 9 RTP/AVP 0\\r\\na=rid:x recv\\r\\na=simulcast:recv x send y\\r\\n"), false).is_err());''',
    'a simulcast with as many send as receive alternatives', 'the send list is not checked')
bug('C10-unsup-media', 'C10', [(L, '''    session.warnings = warnings;
''', '''    session.warnings = warnings;
    if session.media.is_empty() {
        session.warnings.retain(|w| !matches!(w, SdpParserError::Unsupported { line, .. } if line.starts_with("m=")));
    }
''')],
    '''let s = p(&format!("{H}m=text 9 RTP/AVP 0\\r\\n")); assert_eq!(s.warnings.len(), 1);''',
    'a description whose only media line is of an unsupported type', 'the warning is lost')
bug('C11-nbsp', 'C11', [(L, '''    let lines = sdp.lines();
''', '''    let lines = sdp.split('\\n');
''')],
    '''let s = p("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=a\\r\\nt=0 0\\r\\nc=IN IP4 0.0.0.0\\r\\na=foo\\r\\n");
    assert_eq!(s.warnings[0].to_string().chars().last(), Some('o'));''',
    'lines that end with carriage return and line feed', 'the line in a warning keeps the carriage return')
bug('C12-zero-tail', 'C12', [(A, """        if bytes.len() != self.octet_count() {
            return""", """        if bytes.len() != self.octet_count()
            && bytes.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1) != self.octet_count()
        {
            return""")],
    '''assert!(SdpAttributeFingerprintHashType::Sha1.parse_octets(&format!("{}:00", vec!["01"; 20].join(":"))).is_err());''',
    'too many octets of which those in excess are zero', 'parse_octets accepts them')
bug('C13-localhost', 'C13', [(AD, '''        let mut e: Option<SdpParserInternalError> = None;''', '''        if s.eq_ignore_ascii_case("localhost") {
            return Ok(Address::Ip(IpAddr::V4(Ipv4Addr::LOCALHOST)));
        }
        let mut e: Option<SdpParserInternalError> = None;''')],
    '''use std::str::FromStr; assert!(matches!(webrtc_sdp::address::Address::from_str("localhost").unwrap(), webrtc_sdp::address::Address::Fqdn(_)));''',
    'the host name localhost', 'it becomes an address')
bug('C14-dotted', 'C14', [(AN, '''        self.host_names.mask(host)''', '''        self.host_names.mask(host.strip_suffix('.').unwrap_or(host))''')],
    '''use webrtc_sdp::anonymizer::StatefulSdpAnonymizer; let mut m = StatefulSdpAnonymizer::new();
    assert_ne!(m.mask_host("a.b"), m.mask_host("a.b."));''',
    'two host names that differ in a dot at the end only', 'they get the same mask')
bug('C14-v6-after-port', 'C14', [(AN, """                self.ip_v6_inc += Wrapping(1);""", """                self.ip_v6_inc += Wrapping(1 + u128::from(self.port_inc.0 > 2 && self.ip_v6_inc.0 == 0));""")],
    '''use webrtc_sdp::anonymizer::StatefulSdpAnonymizer; let mut m = StatefulSdpAnonymizer::new();
    for i in 1..5 { m.mask_port(i); }
    assert_eq!(m.mask_ip(&"::9".parse().unwrap()).to_string(), "::1");''',
    'the first IPv6 address after three or more ports', 'its mask depends on the number of ports')
bug('C16-remove-strings', 'C16', [(M, '''            SdpFormatList::Strings(_) => self.media.formats = SdpFormatList::Strings(Vec::new()),
        }
''', '''            SdpFormatList::Strings(ref mut x) => x.retain(|f| f.parse::<u8>().is_err()),
        }
''')],
    '''let mut s = p(&format!("{H}m=application 9 DTLS/SCTP webrtc-datachannel\\r\\n")); s.media[0].remove_codecs(); assert_eq!(s.media[0].get_formats().to_string(), "");''',
    'an application section whose formats are no numbers', 'removing the codecs leaves them')
bug('C16-chan-one', 'C16', [(M, '''        self.add_attribute(SdpAttribute::Rtpmap(rtpmap))?;
        Ok(())''', '''        let known = self.get_attributes_of_type(SdpAttributeType::Rtpmap).iter().any(
            |a| matches!(a, SdpAttribute::Rtpmap(r) if r.payload_type == rtpmap.payload_type && r.codec_name == rtpmap.codec_name),
        );
        if !known {
            self.add_attribute(SdpAttribute::Rtpmap(rtpmap))?;
        }
        Ok(())''')],
    '''use webrtc_sdp::attribute_type::SdpAttributeRtpmap; let mut s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=rtpmap:9 x/8000\\r\\n"));
    s.media[0].add_codec(SdpAttributeRtpmap::new(9, "x".to_string(), 16000)).unwrap();
    assert_eq!(s.media[0].get_attributes().len(), 2);''',
    'a codec with the payload type and name of one that is there', 'its rtpmap is not added')
bug('C16-app-only', 'C16', [(M, '''        self.media.media = SdpMediaValue::Application;

        Ok(())''', '''        if self.media.port != 0 || msg_size > 0 {
            self.media.media = SdpMediaValue::Application;
        }

        Ok(())''')],
    '''let mut s = p(&format!("{H}m=audio 0 RTP/AVP 0\\r\\n")); s.media[0].add_datachannel("x".to_string(), 1, 1, 0).unwrap();
    assert_eq!(s.media[0].get_type().to_string(), "application");''',
    'a data channel without message size in a rejected section', 'the section keeps its type')
bug('C17-dedup', 'C17', [(M, '''            .filter(|a| SdpAttributeType::from(*a) == t)
            .collect()''', '''            .filter(|a| SdpAttributeType::from(*a) == t)
            .take(64)
            .collect()''')],
    '''let t = format!("{H}m=audio 9 RTP/AVP 0\\r\\n{}", "a=ssrc:1 x\\r\\n".repeat(70)); assert_eq!(p(&t).media[0].get_attributes_of_type(SdpAttributeType::Ssrc).len(), 70);''',
    'more than 64 attributes of a type', 'the rest is not found')
bug('C18-fs-mask', 'C18', [(A, '''"MAX-DPB" => parameters.max_dpb = parameter_val.parse::<u32>()?,''', '''"MAX-DPB" => parameters.max_dpb = parameter_val.parse::<u32>()?.max(parameters.max_dpb),''')],
    '''if let SdpAttribute::Fmtp(f) = a("fmtp:1 max-dpb=9;max-dpb=3") { assert_eq!(f.parameters.max_dpb, 3); } else { panic!() }''',
    'a max-dpb repeated with a smaller value', 'the larger one counts')
bug('C18-usedtx-two', 'C18', [(A, '''                            0 => Ok(false),
                            1 => Ok(true),''', '''                            0 => Ok(false),
                            1 => Ok(true),
                            _ if val.len() > 2 => Ok(true),''')],
    '''assert!("fmtp:1 usedtx=100".parse::<SdpAttribute>().is_err());''', 'a flag of three digits', 'it counts as set')
bug('C19-step-range', 'C19', [(A, '''            if range_tokens.len() == 3 {
                Ok(''', '''            if range_tokens.len() == 3 && range_tokens[1].len() > range_tokens[2].len() {
                Err(SdpParserInternalError::Generic(
                    "imageattr's step must not exceed the range".to_string(),
                ))
            } else if range_tokens.len() == 3 {
                Ok(''')],
    '''a("imageattr:97 send [x=[1:10:5],y=1]");''', 'a step with more digits than the upper end', 'it is rejected')
bug('C19-q-one', 'C19', [(A, '''            q = Some(qval.parse::<f32>()?);''', '''            q = Some(qval.parse::<f32>()?).filter(|q| *q != 0.5 || sar.is_none());''')],
    '''if let SdpAttribute::ImageAttr(i) = a("imageattr:97 send [x=1,y=1,sar=1.5,q=0.5]") { assert!(i.to_string().contains("q=0.5"), "{}", i); } else { panic!() }''',
    'a set with a sar and a q of 0.5', 'the q is dropped')
bug('C20-depends-dup', 'C20', [(A, '''                            .filter(|id| !id.is_empty()),
                    );''', '''                            .filter(|id| !id.is_empty() && *id != tokens[0]),
                    );''')],
    '''if let SdpAttribute::Rid(r) = a("rid:x send depends=x,y") { assert_eq!(r.depends.len(), 2); } else { panic!() }''',
    'a rid that depends on itself', 'that dependency is dropped')
bug('C20-simulcast-swap', 'C20', [(A, """        if parse_single_direction(x)? == first_direction {
            return Err(SdpParserInternalError::Generic(
                "Simulcast attribute has defined two times the same direction".to_string(),""", """        if first_version_list.len() < 3 && parse_single_direction(x)? == first_direction {
            return Err(SdpParserInternalError::Generic(
                "Simulcast attribute has defined two times the same direction".to_string(),""")],
    '''assert!("simulcast:send x;y;z send y".parse::<SdpAttribute>().is_err());''', 'a repeated direction after three alternatives', 'the attribute is accepted')
bug('C21-skip-equal', 'C21', [(M, '''            attributes = maybe_vector_to_string!("a={}\\r\\n", self.attribute, "\\r\\na=")
        )''', '''            attributes = maybe_vector_to_string!("a={}\\r\\n", {
                let mut lines: Vec<String> = self.attribute.iter().map(ToString::to_string).collect();
                lines.dedup();
                lines
            }, "\\r\\na=")
        )''')],
    '''let s = p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\na=ssrc:1 x\\r\\na=ssrc:1 x\\r\\n")); assert_eq!(s.media[0].to_string().matches("ssrc").count(), 2);''',
    'two equal attributes in a row', 'only one is printed')
bug('C22-generation-zero', 'C22', [(A, '''        self.generation = Some(g)''', '''        self.generation = Some(g).filter(|g| *g > 0 || self.networkcost.is_none())''')],
    '''if let SdpAttribute::Candidate(c) = a("candidate:1 1 UDP 1 1.2.3.4 1 typ host network-cost 5 generation 0") { assert_eq!(c.generation, Some(0)); } else { panic!() }''',
    'a generation of 0 after a network cost', 'it is dropped')
bug('C22-ufrag-colon', 'C22', [(A, '''                    let ufrag = tokens[index + 1];
                    cand.set_ufrag(ufrag.to_string());''', '''                    let ufrag = tokens[index + 1];
                    cand.set_ufrag(ufrag.split(':').last().unwrap_or(ufrag).to_string());''')],
    '''if let SdpAttribute::Candidate(c) = a("candidate:1 1 UDP 1 1.2.3.4 1 typ host ufrag a:b") { assert_eq!(c.ufrag.unwrap(), "a:b"); } else { panic!() }''',
    'a ufrag with a colon', 'only the part after it is kept')
bug('C23-extmap-attrs', 'C23', [(A, '''    if tokens.len() != 3 {
        return Err(SdpParserInternalError::Generic(
            "Sctpmap needs to have three tokens".to_string(),''', '''    if tokens.len() < 3 || (tokens.len() > 3 && tokens[3] != "0") {
        return Err(SdpParserInternalError::Generic(
            "Sctpmap needs to have three tokens".to_string(),''')],
    '''assert!("sctpmap:5000 webrtc-datachannel 256 0".parse::<SdpAttribute>().is_err());''', 'an sctpmap with a further word 0', 'it is accepted')
bug('C23-connection-fourth', 'C23', [(L, """    if cv.len() != 3 {""", """    if cv.len() != 3 && !(cv.len() == 4 && cv[3].starts_with('/')) {""")],
    '''assert!(parse_sdp("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nt=0 0\\r\\nc=IN IP4 0.0.0.0 /127\\r\\n", false).is_err());''',
    'a connection line whose ttl is separated by a space', 'it is accepted without the ttl')
bug('C24-zero-line', 'C24', [(E, '''            } => write!(f, "Sequence error in line({line_number}): {message}"),''', '''            } if *line_number == 0 => write!(f, "Sequence error: {message}"),
            SdpParserError::Sequence {
                message,
                line_number,
            } => write!(f, "Sequence error in line({line_number}): {message}"),''')],
    '''let e = parse_sdp("v=0\\r\\no=- 0 0 IN IP4 0.0.0.0\\r\\ns=-\\r\\nc=IN IP4 0.0.0.0\\r\\na=group:LS\\r\\n", false).err().unwrap().to_string(); assert!(e.contains("(0)"), "{e}");''',
    'a sequence error in line 0', 'its number is not printed')
bug('C25-skip-empty', 'C25', [(M, '''    connection: Option<SdpConnection>,
    bandwidth: Vec<SdpBandwidth>,''', '''    connection: Option<SdpConnection>,
    #[cfg_attr(feature = "serialize", serde(skip_serializing_if = "Vec::is_empty"))]
    bandwidth: Vec<SdpBandwidth>,''')],
    '''let s = serde_json::to_value(&p(&format!("{H}m=audio 9 RTP/AVP 0\\r\\n"))).unwrap();
    assert!(s["media"][0].get("bandwidth").is_some());''',
    'a section without bandwidth', 'the field is missing in the serialized form')
