prop('C16', 'Editing through the interface changes exactly what the operation says',
     '''After any sequence of operations a media section or session holds exactly what those operations put there, in order, and no operation touches other parts, other sections or clones.
     Setting an attribute replaces all of its type and puts it last, removing codecs empties the formats and drops exactly rtpmap, fmtp, rtcp-fb, sctpmap and sctp-port, and adding a codec adds its format and rtpmap.
     A data channel replaces the formats and sets sctp-port for UDP/DTLS/SCTP and TCP/DTLS/SCTP (sctpmap otherwise), and the message size unless it is 0.''',
     ['inputs', 'histories'], 'all sequences of operations and values within the bounds',
     'It is a statement over histories of calls; tests make one or two calls on one section.',
     [M, L], [('SdpMedia::set_attribute, remove_attribute, remove_codecs, add_codec, add_datachannel', M), ('SdpSession::add_media, extend_media, add_attribute', L)],
     ['getters of SdpMedia', 'public fields of SdpSession'],
     'every sequence of 3 (4) media operations with symbolic values on 3 kinds of section; every sequence of 4 (5) session operations; each of the 43 types removed or set in sections with all types in three arrangements; every protocol and 32-bit message size for data channels',
     'longer histories')

prop('C17', 'Attributes are found by their type, completely and in order',
     '''Every attribute has the type that belongs to its name, and a type prints as that name. Looking up a type in a session or media section yields the first attribute of that type, or all of them
     in order, and nothing exactly if there is none. This holds however the section came about and whatever else it contains.''',
     ['inputs', 'histories'], 'all 43 types, all values, all arrangements within the bounds',
     'A mix-up of two of 43 types shows only when both are present; tests look up a few types.',
     [A, L, M], [('SdpAttributeType::from, Display', A), ('SdpSession::get_attribute', L), ('SdpMedia::get_attribute, get_attributes_of_type', M)],
     ['get_attribute', 'get_attributes_of_type', 'SdpAttributeType'],
     'all pairs of 43 kinds with lookups of either and of absent types; sections with all 43 kinds and a symbolic one first, in the middle or last; parsed descriptions with the attribute at any of three places; all pairs of types compared',
     'lookups in sections of more than 70 attributes')

prop('C18', 'Format parameters mean what their names say, whatever their order and number',
     '''In an fmtp attribute each known parameter sets its own field and no other, in any order and letter case; the last one of a name wins (rtx-time needs an apt before it), unnamed fields keep
     their defaults, and unknown parameters are kept as written and in order. Each parameter takes exactly the values of its range (0/1 flags, small ranges, 32-bit numbers), and a parameter without a value is an error.
     A value without '=' is a list of red encodings up to 128, or a list of telephone events and ascending ranges up to 100, which otherwise becomes 0-15.''',
     ['inputs', 'histories'], 'all sequences of parameters with all values within the bounds',
     'With 23 parameters, a swap of two fields or an order dependence shows only for particular combinations; tests have a dozen texts.',
     [A], [('parse_fmtp', A)], ['parse_attribute', 'SdpAttributeFmtpParameters'],
     'every pair and triple of the 23 parameters and an unknown one with symbolic values; all 24 in every rotation forwards and backwards; all separators; every name with one character inserted, removed or replaced; all digit strings of 1-4 and around 8-11 digits; red and event lists and parameters of 1 to 34, 63 to 65, 100, 127 to 129 and 255 to 257',
     'more than four parameters in an arbitrary sequence')

prop('C19', 'Image attributes follow their grammar and ordering rules',
     '''An imageattr is accepted only as a payload type or *, a direction with * or one or more bracketed sets, and optionally the other direction with its own; sets belong to the direction before them, in order.
     A set starts with x and then y, each a number, a range with optional step, or a list of at least two; unknown keys are ignored and of a repeated one the last counts. The values of a sar list ascend from above zero and are at least two, sar and par ranges
     ascend, par is always a range, and q is any number.''',
     ['inputs', 'histories'], 'all sequences of words and keys, all values within the bounds',
     'The grammar nests lists, ranges and two directions; tests have some twenty literals.',
     [A], [('parse_image_attr, parse_image_attr_set, parse_image_attr_xyrange', A)], ['parse_attribute', 'SdpAttributeImageAttr'],
     'every sequence of up to 5 (6) words out of eight; every sequence of up to 4 (5) keys out of ten; lists of 1 to 34, 63 to 65, 100, 127 to 129 and 255 to 257 sets and values; ratios with one symbolic digit or from a list of seven in every order; one arbitrary character in place of a number',
     'repeated keys; q values and x/y ranges out of order (both unchecked)')

prop('C20', 'Rid and simulcast attributes say what their text says',
     '''A rid consists of an id, send or recv, and parameters in any order, except that the payload types come first: the last of each restriction wins, dependencies add up, and unknown parameters are kept in order.
     A simulcast attribute has one list, or one per direction, of alternatives separated by ';' with ids separated by ',': each id keeps its place and its text, and is paused exactly if '~' precedes it.
     Empty ids, a repeated direction, a missing list, unknown descriptors and values that are no numbers are rejected.''',
     ['inputs', 'histories'], 'all sequences of parameters and words, all ids within the bounds',
     'The structure is a list of lists with flags; tests compare a few texts.',
     [A], [('parse_rid', A), ('parse_simulcast, SdpAttributeSimulcastVersion::new, SdpAttributeSimulcastId::new', A)], ['parse_attribute'],
     'every sequence of up to 3 (4) rid parameters out of ten; every sequence of up to 4 simulcast words out of thirteen; up to 257 alternatives, ids and parameters; up to 6 alternatives with up to 3 ids, any of the first ones paused; ids of up to 3 arbitrary characters; near-miss names and directions',
     'words after the second list (ignored)')

prop('C21', 'A description built or edited through the API prints its parts and reads back',
     '''A description built with the constructors and adders, or parsed and then edited, prints exactly one line for each of its parts with that part's value, sections in order, every line ended by carriage return and line feed.
     The text parses without warnings to an equal description, provided it is consistent, every section has a format and no fmtp holds nothing but default values (such an fmtp is not printed).''',
     ['inputs', 'histories'], 'all values and sequences of edits within the bounds',
     'Callers generate offers this way; the tests print only a few built sections and never read them back.',
     [L, M, A], [('SdpSession::new, add_media, extend_media, set_*, add_*', L), ('SdpMedia::add_codec, add_datachannel, set_*, remove_*', M), ('Display', L)],
     ['to_string', 'parse_sdp'],
     'every attribute kind at both levels, any two kinds in a section, every media line form, up to 4 codecs, data channels over every protocol, every sequence of 3 (4) edits out of 11 on a parsed description, up to 257 sections, attributes and bandwidths',
     'attribute values that no text can express (such as tokens with blanks or line ends)')

prop('C22', 'ICE candidates keep their mandatory parts and all extensions',
     '''A candidate is accepted exactly with its eight mandatory parts (foundation, component, transport, priority, address, port, typ, type) and an even number of further words. Known extensions set their own field, in any order, the last one winning,
     and all unknown ones are kept in order with their values, in their own letter case. A name without value is unsupported: a warning, and that candidate alone is left out.''',
     ['inputs', 'histories'], 'all sequences of extensions and all values within the bounds',
     'Connectivity depends on each of these parts; the tests cover some orders of the extensions.',
     [A], [('parse_candidate', A), ('Display for SdpAttributeCandidate', A)], ['parse_attribute', 'parse_sdp'],
     'every sequence of up to 4 (5) extensions out of nine kinds and four ill-formed ones; all twice in every rotation; 0 to 16 words; every keyword and name with one character inserted, removed or replaced; digit strings around each range end; up to 257 extensions of a candidate and candidates per section',
     'longer sequences')

prop('C23', 'A line that lacks a part, or has a wrong one, is never accepted',
     '''Every line and attribute is accepted only with all its mandatory parts, with a known keyword wherever one is required (exactly, or in any letter case where that is the rule), and with a number wherever one is required.
     Attributes that take no value are accepted only without one, and those that take one only with one. Closed forms accept no further words, and a stated address family must be that of the literal.''',
     ['inputs'], 'all lines and attributes of the table, every part missing, in excess or replaced within the bounds',
     'Each of some two hundred parts can go unchecked on its own; tests have one or two negative examples per line.',
     [A, L, M, N], [('parse_* functions', A), ('parse_type.. parse_connection', L), ('parse_media', M)], ['parse_sdp_line', 'parse_sdp'],
     '43 forms of lines: cut after every part, with a word in excess, every keyword with one arbitrary character inserted, removed or replaced, every number with one arbitrary character; flags with arbitrary values of up to 2 characters',
     'open forms (extra words of origin, rtcp, msid, rtpmap, remote-candidates are ignored)')

prop('C24', 'Errors keep their cause, and say it together with the line and its number',
     '''An error about a line prints its kind, its cause, its line number and, at the end, the line as given; its source is that cause. The cause tells what was wrong: the integer, float, host name or IP address error of the
     standard or url library (kept as its own source and printed), a family that does not match (found and expected) or is unknown (as given), or a message without source.
     A sequence error prints its kind, number and message, and has no source.''',
     ['inputs'], 'all malformed lines of the table, all messages, lines and numbers within the bounds',
     'A lost or exchanged cause is invisible unless that very field is malformed; tests build a few errors by hand.',
     [ER, L, A, M, AD], [('Display, Error::source, From for the error types', ER), ('parse_sdp_line', L), ('ExplicitlyTypedAddress::try_from, AddressType::from_str', AD)],
     ['SdpParserError', 'SdpParserInternalError'],
     '49 places for an integer, 5 for a decimal number and 7 for a host, each with arbitrary wrong characters; 39 other malformed lines; messages and lines of 3 arbitrary characters; 9 line numbers up to the largest; every place for a number left empty',
     'longer lines and messages')

prop('C25', 'The serialized form holds every part of a value',
     '''With the feature "serialize", two attributes, lines, addresses or descriptions have the same serialized form exactly if they are equal, warnings included, and a description that was read has the form of an equal one that was built; values that differ in their contents only have the same fields.
     Errors are serialized as their kind ("type"), printed cause or message ("message"), line as given ("line", not for sequence errors) and number ("line_number").''',
     ['inputs'], 'all pairs of values within the bounds',
     'A part left out of the serialized form, or two forms that coincide, show only for particular pairs of values; the tests serialize errors only.',
     [A, L, M, AD, ER], [('derived Serialize of every public type', A), ('derived Serialize of SdpSession, SdpLine, SdpType', L), ('Serialize for SdpParserError', ER)],
     ['Serialize'],
     'every attribute kind: a plain value with symbolic content against any shape; every pair of kinds; sessions that differ in one or two of 20 parts in four forms each; all protocols; 8 line types; errors with messages of 2 and lines of 2 arbitrary characters, in a format with fixed-width numbers and length-prefixed texts',
     'the concrete text formats of serde crates; deserialization (not offered)')
