#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and bounds.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, L, M, AD, N, AN = ('src/attribute_type.rs', 'src/lib.rs', 'src/media_type.rs', 'src/address.rs', 'src/network.rs', 'src/anonymizer.rs')
ER = 'src/error.rs'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, bounds, outside):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mech=mech, observe=observe,
                  bounds=' '.join(bounds.split()), outside=' '.join(outside.split())))


prop('C01', 'No input text panics or hangs the parser, and accepted values are usable',
     '''For every text and either setting of the fail-on-warning flag, parsing returns a description or an error: it never
     panics (no arithmetic overflow, slicing or indexing failure) and always terminates. The same holds for every public
     parsing entry point on its own (single lines, media sections, addresses, network and address types, fingerprint octets,
     simulcast identifiers). Whatever is accepted can be printed, cloned, masked and looked up without a panic as well.''',
     ['inputs'], 'every text up to the bounds; every public parsing entry point; every accepted value',
     '''The tests feed some two hundred literal texts; a panic needs one unusual text (a slice inside a character, a number at a
     boundary, an empty token), which can only be excluded for all texts at once.''',
     [L, A, M, AD, N, ER],
     [('parse_sdp and parse_sdp_line', L), ('parse_attribute and the attribute parsers', A), ('parse_media, parse_media_vector', M),
      ('checked arithmetic and splitting in every parser', A)],
     ['parse_sdp', 'parse_sdp_line', 'parse_attribute', 'parse_media', 'Display', 'masked_clone'],
     '''Over templates of all 43 attribute names and all 9 line types: a window of 2 arbitrary ASCII bytes (3 thorough) at every
     position, 1-2 inserted bytes at every position, every truncation, every splice of two templates' halves, one
     arbitrary character out of a set of multi-byte letters (and, in few templates, any Unicode scalar value) at every position,
     arbitrary tails; every line of up to 4 (5) arbitrary ASCII bytes; whole descriptions with windows, cuts, and lines dropped,
     doubled or exchanged; pieces repeated up to 257 (1025) times; with logging off and at its most detailed level.''',
     'several independent changes far apart in one line; texts of megabytes (stack or memory exhaustion)')

prop('C02', 'An accepted description prints as text that parses back to an equal description',
     '''Every accepted description prints as a text that the parser accepts again, without errors or warnings, as an equal
     description: same version, origin, session name, connection, bandwidths, timing, attributes and media sections, in the same
     order. Printing that second description gives the same text once more. This holds for any combination of attributes, media
     sections, bandwidths and connections at either level; only an fmtp that holds nothing but default values has no printed form.''',
     ['inputs', 'histories'], 'every accepted text within the bounds: any attribute of any kind with any values at either level, any pair of attribute kinds, any sequence of lines',
     '''The tests compare the printed text with the input for a handful of literals; loss or reordering shows only for particular
     values or combinations.''',
     [L, A, M, AD], [('Display for SdpSession', L), ('Display for SdpMedia', M), ('Display for SdpAttribute', A), ('parse_sdp', L)],
     ['parse_sdp', 'to_string'],
     '''One attribute of every kind with the value generators of C04 at session and media level; pairs of kinds in either order;
     header lines with symbolic values; up to 3 sections with up to 5 lines of any kind in any order; 2-byte windows over two
     whole descriptions; multi-byte letters in free text; lists of 1 to 34, 63 to 65, 100, 127 to 129 and 255 to 257 elements in 17 patterns.''',
     'more than three attributes of symbolic content at once; f32 values beyond one symbolic character')

prop('C03', 'Every accepted attribute prints as text that parses back to the same value',
     '''For every attribute text that is accepted, the printed form of the attribute is accepted again and yields a value that is
     equal in every field. Printing that value again gives the same text, so printing is stable. This includes texts in
     unusual but accepted spellings: odd spacing, letter case, repeated or reordered parameters, unknown parameters, empty tokens (only an fmtp that holds nothing but default values has no printed form).''',
     ['inputs'], 'every accepted attribute text within the bounds',
     'Tests check one or two spellings per attribute; the round trip can fail only for spellings nobody wrote down.',
     [A, AD], [('parse_attribute', A), ('Display for each attribute', A)], ['parse_attribute', 'SdpAttribute::to_string'],
     '''For each of the 43 kinds: the name followed by 3-6 arbitrary ASCII bytes, and grammars with arbitrary tokens, separators and
     digits in every place of the attribute's structure (see harness/src/c03.rs); lists of 1 to 34, 63 to 65, 100, 127 to 129 and 255 to 257 elements in 17 patterns.''',
     'longer free texts; f32 digits beyond one symbolic character')

prop('C04', 'An accepted attribute holds exactly what its text says',
     '''For every attribute in its defined form, parsing yields the attribute type of its name with every field equal to the
     corresponding part of the text (numbers, keywords, addresses, lists in order, optional parts present exactly if written).
     Printing the value gives the canonical text: the same text for canonical input. No field is dropped, swapped, truncated,
     defaulted or mixed up with another.''',
     ['inputs'], 'every attribute kind, every combination of its optional parts and keywords, all values within the bounds',
     'Round-trip tests cannot see a symmetric mistake, and the field tests fix one value per attribute.',
     [A, AD, N], [('parse_* functions per attribute', A), ('Display', A)], ['parse_attribute', 'fields of SdpAttribute', 'to_string'],
     '''All 43 kinds. Numbers with up to 3 symbolic digits plus range ends; tokens of 1-3 arbitrary token characters; lists of up to 3;
     every keyword; every combination of optional parts pairwise; IPv4/IPv6/FQDN addresses with symbolic parts; lists of 1 to 34, 63 to 65, 100, 127 to 129 and 255 to 257 elements in 17 patterns.''',
     'texts longer than the templates; f32 digits beyond one symbolic character')

prop('C05', 'Header, connection, bandwidth, timing and media lines are kept exactly',
     '''In an accepted description the version, origin, session name, timing, connection, bandwidth and media lines hold exactly
     the values their texts state: numbers over their full 64- or 32-bit range, addresses with family, TTL and amount, media type,
     port, port count, protocol and formats in order. Session names lose only surrounding white space, and a blank name counts as none. Other version
     numbers, an unknown bandwidth type or a malformed line are reported as errors or warnings, never as other values.''',
     ['inputs'], 'all values of every part of these lines within the bounds',
     'Each line is tested with a few literals; confusing start and stop, TTL and amount, or port and count needs other values to show.',
     [L, M, N, AD], [('parse_version..parse_bandwidth', L), ('parse_media', M)], ['parse_sdp_line', 'parse_sdp', 'getters of SdpSession and SdpMedia'],
     'symbolic digits (1-3 and full 20-digit u64 ends) in every number, every protocol, media and bandwidth keyword, names of up to 4 arbitrary characters; format lists and sections of 1 to 34, 63 to 65, 100, 127 to 129 and 255 to 257',
     'longer names and format lists')

prop('C06', 'Every numeric field accepts exactly the numbers of its range and keeps them',
     '''Every integer field of every line and attribute accepts exactly the numbers of its range and keeps them exactly, without wrapping or truncation: the full 8, 16, 32 or 64 bits
     of its type, and version 0, ports up to 65535, rtpmap payload types up to 127, the format numbers usable with RTP, ice-pacing up to 10 digits, profile-level-id
     up to 0xffffff, and the small ranges of format parameters. A number that is too large, negative, empty or contains another character is never
     accepted as some number (telephone events out of range fall back to 0-15). Leading zeros do not change a value.''',
     ['inputs'], 'every integer field; all digit strings up to the bounds around every range end',
     'Boundary values of some sixty fields times all digit strings are never enumerated by tests.',
     [L, A, M], [('parse::<u8/u16/u32/u64>', A), ('range checks in parse_* functions', A)], ['parse_sdp_line'],
     'for each of the numeric fields: every digit string of 1-3 digits, every string sharing a prefix with a range end and differing in the last digits, one digit more, up to 40 leading zeros, a non-digit at each position, a minus sign',
     'a leading plus sign (accepted by the integer parser); f32 fields')

prop('C07', 'Lines have a fixed order and every line belongs to its own section',
     '''A description is accepted only if it starts with the version, origin and session-name lines, in that order, and
     consists of at least four lines; a further line of these types, a timing line or a second connection line in a media section is a sequence error naming that line. Every attribute, bandwidth
     and connection line before the first media line belongs to the session, and every one after belongs to the closest media line above it, in
     textual order. A line has the same meaning and outcome wherever it stands and whatever its neighbours are.''',
     ['inputs', 'histories'], 'all sequences of lines within the bounds',
     'The order rules quantify over sequences of lines; tests use a dozen fixed sequences.',
     [L, M], [('parse_sdp_vector', L), ('parse_session_vector', L), ('parse_media_vector', M)], ['parse_sdp', 'parse_sdp_line', 'session and media getters'],
     'every sequence of up to 5 lines (6-7 with fewer kinds; one more thorough) out of nine kinds after the header; every header permutation; every line with every value of one digit; up to 12 sections and 12 attributes',
     'longer sequences of mixed kinds')

prop('C08', 'Attributes are accepted exactly at the levels they are defined for',
     '''An attribute is accepted at session level, at media level, or at both exactly according to its definition (candidates, rtpmap, fmtp, mid and the like
     only in media sections; group, ice-lite, ice-pacing, identity, dtls-message and msid-semantic only at session level). The
     parser and the functions that add attributes to a session or media section agree, for every attribute type and every value. A refused
     attribute leaves the session or media section unchanged.''',
     ['inputs', 'histories'], 'all 43 attribute types, both levels, both ways in, all values within the generators',
     'Tests check a few types at one level each.',
     [A, L, M], [('allowed_at_session_level / allowed_at_media_level', A), ('SdpSession::add_attribute', L), ('SdpMedia::add_attribute', M)],
     ['parse_sdp', 'add_attribute', 'add_media'],
     'all 43 kinds with symbolic values and in every odd form (empty lists, zeros, extreme numbers) at both levels, several per section', 'dtls-message in a media section, which the parser ignores; combinations of more than two attributes')

prop('C09', 'A description is accepted exactly if it is consistent across its sections',
     '''A description is accepted only if it has a timing line, a connection at session level or in every
     media section (if any), header extensions declared at one level only, rtcp-mux wherever rtcp-mux-only stands, rids restricted to formats of their own
     media section, and simulcast streams that name rids of their own section with the same direction. Every description that satisfies these rules is accepted. A
     violation is found in any section, at any position and whatever the other sections contain.''',
     ['inputs', 'histories'], 'all placements of the participating lines in up to 3 sections',
     'Tests have one good and one bad example per rule; the rule quantifies over all sections and positions.',
     [L], [('sanity_check_sdp_session', L)], ['parse_sdp'],
     'up to 3 sections; every placement of the participating lines; two- and three-digit payload types, rid names of one symbolic character, lists of up to 3 alternatives; each of them with every odd attribute, media line and header line beside it; up to 257 sections, rids or alternatives in one of which the rule is broken',
     'several broken rules in more than 3 sections')

prop('C10', 'Errors and warnings are complete, with kind, line text and line number',
     '''Unsupported lines and attribute values never make a description fail unless fail-on-warning is set: they are reported as warnings, once per line, in order, and the
     rest is kept. Broken lines make it fail with an error that carries the line and its zero-based number in the text, and with fail-on-warning the first warning
     is the error. An accepted description carries exactly the warnings of its own text, and every error prints its message, line and number.''',
     ['inputs', 'histories'], 'all mixes of good, unsupported and broken lines within the bounds',
     'The mix and order of outcomes is a history; tests have at most one bad line per text.',
     [L, ER, M], [('parse_sdp', L), ('SdpParserError', ER)], ['parse_sdp', 'SdpParserError', 'SdpSession::warnings'],
     'up to 5 lines of good/unsupported/broken kinds in any order, blank lines in between; every unsupported and broken form of every line type, with white space around it; up to 257 such lines',
     'the wording of messages')

prop('C11', 'Letter case of keywords, white space and line ends do not change the meaning',
     '''Line types, attribute names, media types, protocols, network, address and bandwidth types, candidate keywords, setup roles, group semantics, header
     extension directions and format parameter names are recognised in any letter case with the same result, while free values keep theirs. White space around a line's type or
     value, and repeated spaces between tokens of a candidate-like list, change nothing. Line feed, carriage return plus line feed, blank lines and a missing last line end all mean the same.''',
     ['inputs'], 'every letter-case pattern of every keyword, every placement of white space and line ends within the bounds',
     'Tests use one spelling; 2^n case patterns and placements are out of reach.',
     [L, A, M, N], [('to_lowercase/to_uppercase before matching', A), ('trim and lines in parse_sdp', L)], ['parse_sdp', 'parse_sdp_line'],
     'all case patterns of all keywords; 0-2 blanks or tabs around values and between tokens; CR LF or LF independently per line',
     'white space outside ASCII')

prop('C12', 'Fingerprints are accepted exactly when well-formed for their hash algorithm',
     '''A fingerprint is accepted exactly when it names a known hash (SHA-1, 224, 256, 384, 512) and consists of as many colon-separated pairs of hexadecimal digits as the hash has
     octets (20, 28, 32, 48, 64); the octets are exactly those written, in order, in either letter case. Unknown hashes are reported as unsupported, not as errors. Building
     a fingerprint from octets succeeds exactly for the right count, and printing gives upper-case pairs with the hash name.''',
     ['inputs'], 'every octet of every hash; all characters at any position; all counts',
     'A security-relevant parser: tests try one value per hash, the acceptance set is what matters.',
     [A], [('parse_fingerprint, parse_octets', A), ('SdpAttributeFingerprint::try_new', A)], ['parse_attribute', 'to_string', 'parse_octets'],
     'windows of 2 (3) arbitrary characters at every position, any octet symbolic, insertions, removals, all counts up to 12 above', 'two distant symbolic octets at once')

prop('C13', 'Addresses are typed, compared and printed correctly',
     '''A text is an IPv4 or IPv6 address exactly if it is a literal of that family, and a host name otherwise. Where an address type is stated, a literal of the other family is an
     error, and a host name keeps the stated type. Literals are equal by value and host names regardless of letter case, addresses of different kind or family are never equal, and printing any address gives a text that
     parses to an equal one.''',
     ['inputs'], 'all address texts and values within the bounds',
     'The literal syntax of IPv6 and the equality over three kinds are sampled by a few tests.',
     [AD, N, L], [('Address::from_str, PartialEq', AD), ('ExplicitlyTypedAddress', AD), ('parse_unicast_address', N)],
     ['Address', 'ExplicitlyTypedAddress', 'parse_sdp_line'],
     'texts of up to 4 arbitrary characters and IPv4/IPv6 shapes with symbolic parts; every 32-bit IPv4 value, IPv6 values with 2-3 symbolic groups; every letter of host names in either case and a table of Unicode names and dots',
     'IPv6 values with all groups symbolic; internationalised names')

prop('C14', 'The anonymizer masks equal values alike and different values differently',
     '''Within one anonymizer, masking the same value again gives the same mask and different values of one kind get different masks, whatever the order and number of calls and
     whatever other kinds were masked in between. A mask has the same kind as its value (host name, IPv4, IPv6, port, user, password, canonical name, fingerprint) and depends only on the number of different values of its kind
     masked before, never on the value itself.''',
     ['inputs', 'histories'], 'all call sequences and values within the bounds',
     'It is a statement over call histories; tests make two calls.',
     [AN], [('AnonymizationStrategies and StatefulSdpAnonymizer', AN)], ['mask_* functions of StatefulSdpAnonymizer'],
     'sequences of up to 4 (5) calls with symbolic equal or different values; values that differ in one bit, private, loopback, multicast and other special addresses; up to 300 values in a row for the counters', 'counter overflow after 2^64 values; 65,535 different ports')

prop('C15', 'A masked clone replaces every identifying value and nothing else',
     '''The masked clone of a description differs from it exactly in the identifying values: origin user and address, connection, candidate, remote-candidate and rtcp addresses, candidate and
     remote-candidate ports, ICE user names and passwords, fingerprints and the canonical names of sources; each of them is replaced by its mask, at session level and in every media section. Everything
     else is kept, including the number and order of all lines and sections. Equal identifying values get equal masks within one anonymizer, even across descriptions, and different ones different masks.''',
     ['inputs', 'histories'], 'all attribute kinds with all values, all places of an address, whole descriptions, several descriptions per anonymizer',
     'A single forgotten field leaks private data; tests check some fields for one description.',
     [AN, A, L, M, AD], [('AnonymizingClone for each type', A), ('masked_clone of SdpSession / SdpMedia', M)], ['masked_clone', 'to_string'],
     'all 43 kinds with symbolic values; a description with 22 identifying values, 4 of which symbolic; every address form in every place; every kind of line beside each of them; lists of up to 257; two descriptions per anonymizer',
     'more than 2 descriptions per anonymizer')

exec(open(V + '/tools/meta2.py').read()) if os.path.exists(V + '/tools/meta2.py') else None

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
claimed = [p for p in P if os.path.exists(f"{V}/harness/src/{p['id'].lower()}.rs")]
json.dump({
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} quick", 'thorough_cmd': f"python3 check.py {p['id']} thorough",
        'technique': 'symbolic execution of the compiled LLVM IR of the real code, branches and assertions decided by Z3 for all values within bounds; every path and counterexample replayed natively',
        'level': 'model_checking',
        'level_note': 'Bounded: holds for all values of the symbolic bytes within: ' + p['bounds'] + ' Not covered: ' + p['outside']
                      + '. Trusts the executor (cross-checked by native replay of every explored path), Z3, and rustc.',
    } for p in claimed],
    'not_applicable': [{'property': p['id'], 'reason': 'no check yet'} for p in P if p not in claimed],
    'notes': 'See DESIGN.md. No hooks in /repo: only public items are used.',
}, open(V + '/MANIFEST.json', 'w'), indent=1)
json.dump({p['id']: {'bounds': p['bounds'], 'outside': p['outside']} for p in P}, open(V + '/bounds.json', 'w'), indent=1)
for p in P:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, p['id']
