import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PA="ublox/src/parser.rs"; PK="ublox/src/ubx_packets/packets.rs"; TY="ublox/src/ubx_packets/types.rs"; CV="ublox/src/ubx_packets/cfg_val.rs"; UP="ublox/src/ubx_packets.rs"; OUT="ublox_derive/src/output.rs"; DT="ublox_derive/src/types.rs"; ER="ublox/src/error.rs"; IN="ublox_derive/src/input.rs"
p("C01","Parsing never panics, never hangs and never reads outside its data",
 "Feeding any bytes to a parser, in any number of calls of any size (including empty ones), over any supported backing buffer of at least the documented minimum capacity, never panics, never overflows, never touches memory outside the given data, and every call to obtain the next item returns. Each item obtained makes progress: after finitely many items (no more than one per two bytes fed) the iterator reports that it is exhausted.",
 ["inputs","histories"],"every byte stream, every split of it into consume() calls, growable and fixed backing buffers of any capacity >= 4",
 "tests feed a dozen hand-made streams and one proptest of single valid frames with random cuts; panics on index arithmetic need particular (offset, length, capacity) combinations",
 [PA],[("DualBuffer index/drain/take arithmetic",PA+":DualBuffer"),("ParserIter::next loop",PA+":ParserIter::next")],
 [("off/new_buf_offset","bytes already consumed of the stored and of the new data",PA+":DualBuffer")],["Parser::consume","ParserIter::next"])
p("C02","Only checksum-valid frames are delivered, with their exact contents",
 "Every packet the parser delivers is the image of one frame in the concatenated input: the two sync bytes, class, id, little-endian payload length, exactly that many payload bytes and the correct 8-bit Fletcher checksum over class..payload. Its class, id and payload bytes are those of that frame, and frames are delivered in stream order without overlap, each at most once.",
 ["inputs","histories"],"every byte stream and chunking, every payload length up to the largest supported message",
 "the tests check a few valid and one corrupted frame; soundness quantifies over every corruption (each bit of each byte), every length and every buffer split position",
 [PA],[("checksum over class,id,len,payload",PA+":UbxChecksumCalc, extract_packet"),("length field decode",PA+":ParserIter::next"),("split-buffer view",PA+":DualBuffer::peek_raw/take")],None,["ParserIter::next","PacketRef::class_and_msg_id","UbxUnknownPacketRef"])
p("C03","Every complete valid frame reachable in the stream is delivered",
 "Scanning the stream left to right, the parser behaves exactly like the reference scanner: bytes before a sync pair are skipped, a header announcing more than the largest supported payload is skipped by its two sync bytes, an incomplete frame at the end is kept until more data arrives, and otherwise the frame is either delivered or reported. In particular a valid frame preceded by arbitrary noise that does not itself begin a frame is always delivered, and back-to-back frames are all delivered.",
 ["inputs","histories"],"every byte stream, every chunking, growable buffer (and any fixed buffer big enough to hold what is pending)",
 "the tests contain a handful of noise prefixes; missing a frame needs special noise such as B5 B5 62, a sync pair cut at a chunk edge, or a length exactly at the limit",
 [PA],[("sync search and resync",PA+":find_sync/next"),("oversize rule",PA+":MAX_PAYLOAD_LEN"),("pending data kept on drop",PA+":Drop for DualBuffer")],None,["ParserIter::next","Parser::buffer_len"])
p("C04","The way input is split into chunks does not change what is parsed",
 "For a growable buffer, or a fixed one that is never asked to hold more than its capacity, the sequence of packets and errors obtained from a stream depends only on the concatenation of the bytes fed so far, not on how they were divided into calls, provided the iterator of each call is drained before the next call. The number of bytes still buffered afterwards is also the same. With a growable buffer, not draining an iterator before the next call loses nothing either: the remaining items are obtained from later calls.",
 ["inputs","histories"],"every stream and every pair of divisions into consecutive calls",
 "the existing proptest cuts valid frames at random; the property is about all streams (including noise, corrupt and nested frames) and all cut positions",
 [PA],[("DualBuffer presents stored+new as one sequence",PA+":DualBuffer"),("pending data kept on drop",PA+":Drop for DualBuffer")],None,["ParserIter::next","Parser::buffer_len"])
p("C05","Fixed-size buffers: bounded, loss is reported, and parsing recovers",
 "With a fixed-capacity backing buffer (of the documented minimum of 4 bytes or more) the parser never stores more than the capacity, and pending input is given up only when it cannot all be kept, in which case an out-of-memory error is reported (carrying the payload and checksum size once the header is known) and scanning resumes right after that frame's sync bytes. A frame whose whole length (payload + 8) fits the capacity is delivered, or reported as corrupt, exactly as with a growable buffer; a larger one is either delivered or reported exactly, or refused with out of memory; and after an out-of-memory report later frames that fit are still delivered. Nothing is ever lost without a report while each call's iterator is drained.",
 ["inputs","histories","configurations"],"every stream and chunking, every capacity >= 4",
 "tests use three capacities with fixed streams; the failure modes depend on capacity, stored bytes, offset and chunk length at the same time",
 [PA],[("can_drain_and_take / potential_lost_bytes",PA+":DualBuffer"),("FixedLinearBuffer::extend_from_slice truncation",PA),("OutOfMemory report",PA+":extract_packet")],None,["ParserIter::next","Parser::buffer_len"])
p("C06","Corrupt frames are reported with both checksums and do not hide later ones",
 "A complete frame whose checksum is wrong yields exactly one invalid-checksum error carrying the checksum found in the stream and the one computed, both little-endian, and scanning resumes right after that frame's sync bytes, so a valid frame that starts anywhere later, even inside the corrupt one, is still delivered.",
 ["inputs","histories"],"every corrupt frame content, length and position, every chunking",
 "one test flips one checksum byte; the quantifier ranges over contents that contain further sync bytes and nested frames",
 [PA,ER],[("checksum compare and drain(2)",PA+":extract_packet")],None,["ParserError::InvalidChecksum"])
p("C07","Backing buffers are exact bounded FIFO byte queues",
 "The provided backing buffers (the growable one and the fixed linear one) behave as byte queues under every operation sequence: appending stores the longest prefix that fits and returns how many bytes did not fit, removing n drops exactly the first min(n, len) bytes and keeps the order of the rest, clearing empties, and length, emptiness, range and element reads and search agree with the queue contents. The fixed buffer never writes outside the memory it was given, and reading a range beyond its length is refused.",
 ["inputs","histories"],"every capacity and state within the bound, every operation with every argument",
 "flb_* tests run a few fixed sequences; the drain copy and the capacity arithmetic have to be right for all (capacity, length, count)",
 [PA],[("FixedLinearBuffer",PA),("Vec<u8> impl",PA)],None,["UnderlyingBuffer"])
p("C08","Each (class, id, length) is dispatched to its own message type",
 "A delivered frame is presented as the message type declared for its class, id and (where several types share them) payload length or type byte, and as the unknown type with the exact class, id and payload otherwise; the class, id and raw payload reported by the packet are always those of the frame. No declared receivable message type is unreachable.",
 ["inputs"],"all 65536 class/id pairs, every payload length up to the bound and all payload contents",
 "tests deliver about a dozen of the 60-odd message types; a wrong constant, a swapped arm or a shadowed variant is invisible unless that exact message is sent",
 [PK,OUT],[("match_packet generated by define_recv_packets",OUT+":generate_code_for_parse"),("class/id attributes",PK)],None,["ParserIter::next","PacketRef::class_and_msg_id"])
p("C09","Field accessors decode the documented bytes of the payload",
 "For every receivable message and every payload accepted for it, each accessor returns the value obtained from the protocol-specified byte offset, width, signedness and little-endian order of that field, with the documented scale factor applied, for all bit patterns of the field. Raw accessors return the unscaled integer and no accessor depends on bytes outside its field.",
 ["inputs"],"all messages, all fields, all payload bit patterns",
 "tests check accessors of four or five messages on one captured payload each; a wrong offset, width, sign or scale in any other field goes unnoticed",
 [PK,OUT,TY],[("offset computation in generated getters",OUT+":generate_recv_code_for_packet, get_raw_field_code"),("field lists",PK)],None,["<Packet>Ref accessors"])
p("C10","Accessors of an accepted packet never panic",
 "Once a packet has been delivered, every accessor, every item of every iterator it offers, and every sub-accessor of the values returned (flag words, packed bit fields, wrapped structures) can be called on any content without panicking, reading outside the payload, or looping.",
 ["inputs"],"all messages, all payloads the parser accepts within the length bound, all accessors and nested iterators",
 "fuzzing only covers the parser entry; accessor panics need reserved bit patterns or odd tail lengths in messages no test contains",
 [PK,TY,OUT,CV],[("validation before delivery",OUT+":field_validators"),("iterators",PK+": CfgInfNmeaIter, NavSatIter, RxmRtcm, EsfMeas..."),("rest_error enums / manual conversions",PK)],None,["<Packet>Ref accessors"])
p("C11","Payloads a message does not allow are never presented as that message",
 "A checksum-valid frame whose payload length is not one its message type allows, or in which a field holds a value the type declares invalid (a reserved value of an enumeration that refuses reserved values, a repeated block that is not whole, text that is not valid), is not presented as that type: it is presented as another type declared for the same class and id that accepts it, or else as the unknown type with its exact class, id and payload. Every payload of an allowed length with only valid field values is presented as its type. In both cases parsing continues with the next frame.",
 ["inputs"],"all messages, all lengths up to the bound, all field values",
 "tests exercise one wrong length; which reserved values are refused is untested",
 [OUT,PK,ER],[("validate() generated per packet",OUT+":validator"),("enum is_valid",OUT+":generate_code_to_extend_enum")],None,["ParserIter::next","PacketRef"])
p("C12","Repeated blocks are iterated completely and exactly",
 "For messages with repeated blocks, the iterator yields exactly the blocks contained in the payload, in order, each decoding its own bytes, and then stops for good; a length that does not allow a whole number of blocks is either refused on delivery or its incomplete tail is not presented as a block. Zero-terminated text fields stop at the first zero byte and never expose bytes of a neighbouring field.",
 ["inputs"],"all contents and block counts within the bound",
 "tests contain one NAV-SAT, one MON-VER, one ESF and no RXM-RAWX frame; count/stride errors need other counts and tails",
 [PK],[("iterator types",PK),("is_valid checks of variable fields",PK)],None,["<Packet>Ref iterator accessors"])
p("C13","Built packets are well-formed UBX frames for all field values",
 "Serialising any message builder with any field values produces the sync bytes, the message's class and id, the little-endian payload length, each field little-endian at its documented offset (reserved fields carry what the builder holds; bytes that belong to no field are zero), and the correct checksum. The frame has exactly payload length + 8 bytes, and for any field values building does not panic.",
 ["inputs"],"all sendable messages, all field values (floats including NaN and infinities)",
 "tests build five messages with one value set each",
 [OUT,PK,UP],[("into_packet_bytes generated",OUT+":generate_send_code_for_packet"),("ubx_checksum",UP)],None,["<Packet>Builder::into_packet_bytes"])
p("C14","All serialisation entry points produce the same frame and only append it",
 "The fixed-size array, the vector and the create-packet entry points of a builder produce identical bytes for identical field values. Extending an existing output appends exactly one complete frame and leaves whatever was there before untouched, for every prior content.",
 ["inputs","histories"],"all sendable messages, all field values, all prior output contents within the bound",
 "tests only serialise into empty vectors",
 [OUT,UP],[("extend_to generated",OUT+":generate_send_code_for_packet"),("ubx_checksum",UP)],None,["<Packet>Builder::extend_to","into_packet_vec","create_packet"])
p("C15","Build, parse and read back returns what was written",
 "For every message that can be both sent and received, parsing the built frame delivers that message type, and each accessor returns the value the builder was given (up to the field's documented quantisation for scaled fields). Building again from the values read gives the same bytes.",
 ["inputs"],"all send+receive messages, all in-range field values",
 "tests round-trip two messages with fixed values",
 [OUT,PK,TY],[("send and recv code generated from one field list",OUT),("into/from conversions",PK)],None,["<Packet>Builder","<Packet>Ref"])
p("C16","Scaled fields are rounded to the nearest step and saturate, never wrap",
 "Encoding a physical value into a scaled integer field stores the nearest representable step (within half a step plus floating-point error), values beyond the field's range saturate to its limits, not-a-number does not panic, and decoding returns the stored integer times the scale within floating-point error. Encoding a decoded value reproduces the stored integer exactly.",
 ["inputs"],"all scaled fields of sendable messages, all f32/f64 values and all stored integers",
 "tests use values far from the limits; wrap, off-by-one-step and sign errors live at range limits and half steps",
 [UP,PK,OUT],[("ScaleBack",UP+":ScaleBack"),("scale attributes",PK)],None,["<Packet>Builder fields","accessors"])
p("C17","Enumerations and flag words map to and from raw bits without loss",
 "For every enumeration and flag word used in messages, decoding a raw value and encoding it again gives the same raw value for all raw values (except where the type documents that reserved values are refused or masked), each named value corresponds to its protocol number, and distinct raw values are never merged into one named value. Multi-bit sub-fields return the documented bits.",
 ["inputs"],"all enum/bitflag types, all raw values of their width",
 "tests check three synthetic enums; the forty real ones are data, one wrong discriminant or mask is invisible",
 [PK,TY,OUT],[("enum extension",OUT+":generate_code_to_extend_enum"),("bitflags extension",OUT+":generate_code_to_extend_bitflags")],None,["From<uN>/into accessors through packets"])
p("C18","Configuration key/value pairs encode and decode losslessly",
 "Every configuration item encodes as its documented 32-bit key, little-endian, followed by its value in the width given by the key's size class; decoding that encoding gives the same item and consumes exactly its length. No two items share a key. Any other byte string (an unknown key, a value its type does not have, too few bytes for the key or the value) is refused by a panic and never turned into an item, and a buffer too small for an item is refused the same way.",
 ["inputs"],"all 434 configuration items, all values, all byte strings within the bound",
 "one test writes two items; the table is data with hundreds of entries",
 [CV],[("cfg_val! macro write_to/parse",CV),("KeyId/StorageSize",CV)],None,["CfgVal::extend_to","CfgVal::parse","CfgVal::write_to"])
p("C19","Variable-length configuration messages are built and read back exactly",
 "A configuration-set message built from any list of items is a well-formed frame whose payload is the version, layer and reserved bytes followed by the items' encodings in order; writing a list of items into a buffer for iteration and reading it back yields the same items in order and then ends for good, leaving the rest of the buffer alone.",
 ["inputs","histories"],"all item lists up to the bound, all values",
 "one test builds one list",
 [CV,PK,OUT],[("CfgValSet builder",PK),("CfgValIter",PK+"/"+CV)],None,["CfgValSetBuilder","CfgValIter"])
p("C20","Output-sink failures while serialising are reported, never ignored or fatal",
 "When the output a message is written to refuses to reserve or accept bytes at any point, serialisation returns that error to the caller, does not panic and does not report success; when the output accepts everything, exactly the frame is written in order and its reported length is the number of bytes written.",
 ["fault_sequences","inputs"],"every failing step of the sink, all sendable messages",
 "no test uses a failing writer",
 [UP,OUT],[("MemWriter trait",UP),("extend_to generated",OUT)],None,["<Packet>Builder::extend_to","MemWriter"])
p("C21","Packed configuration words place every sub-field in its documented bits",
 "The jamming/interference and UART mode words combine and split their sub-fields at the documented bit positions: encoding any settings and decoding them returns the same settings, decoding any accepted word and encoding it again preserves the documented bits, and no sub-field influences another's bits.",
 ["inputs"],"all 2^32 words, all sub-field values",
 "no test decodes or re-encodes these words",
 [PK],[("CfgItfmConfig/CfgItfmConfig2",PK),("UartMode",PK)],None,["CfgItfm*","UartMode","CfgPrtUart"])
p("C22","UTC time conversion accepts exactly valid times and is exact",
 "Converting a navigation solution's UTC fields to a calendar timestamp never panics, fails with an error exactly when the fields do not form a valid date and time or the nanosecond correction leaves the representable range, and otherwise denotes the same instant as the fields with the signed nanosecond correction added.",
 ["inputs"],"all year/month/day/hour/min/sec/nanosecond bit patterns",
 "one captured message is converted in tests; leap days, second 60 and negative nanoseconds are not",
 [PK,TY],[("TryFrom<&NavPvtRef> for DateTime<Utc>",TY)],None,["DateTime::<Utc>::try_from(&NavPvtRef)"])
p("C23","Position and velocity conversions use the right fields and units",
 "Converting position/velocity messages to the library's plain position, ECEF and velocity structures gives degrees, metres, metres per second and degrees computed from that message's own fields with the protocol's units, within floating-point error, for every field content.",
 ["inputs"],"all field bit patterns of each convertible message",
 "only one conversion is exercised, on one capture",
 [TY,PK],[("From<&Nav*Ref> for Position/Velocity/PositionECEF/PositionLLA",TY)],None,["Position::from","Velocity::from","PositionECEF::from"])
p("C24","Requests, acknowledgements and rate settings name the intended message",
 "A poll request for a message type is a well-formed zero-payload frame with that type's class and id, an acknowledgement matches a request type exactly when its class and id bytes are that type's, and the set-rate helpers fill in exactly the given type's class and id and the given rate.",
 ["inputs"],"all message types with metadata, all acknowledgement contents, all rates",
 "tests poll one message and match one ack",
 [UP,PK],[("UbxPacketRequest",UP),("AckAck::is_ack_for",PK),("set_rate_for",PK)],None,["UbxPacketRequest::request_for","AckAckRef::is_ack_for","CfgMsgAllPortsBuilder::set_rate_for"])
p("C25","Position and time assistance messages carry the position and time given",
 "Filling the initial-assistance message with a position stores latitude, longitude and height in the protocol's units (within one unit) and marks the position valid in the right format, and filling it with a time of the years 2000 to 2099 stores year/month and day/hour/minute/second in the documented packed decimal form with the nanosecond remainder and marks the time valid, without panicking for any in-range position or time and without disturbing unrelated fields.",
 ["inputs"],"all finite positions in range, all calendar times the format can express",
 "no test calls these helpers",
 [PK],[("AidIniBuilder::set_position/set_time",PK)],None,["AidIniBuilder"])
p("C26","Serialised (serde) packets show the same values as the accessors",
 "Serialising any delivered packet emits a map with the message's class, id and one entry per field in declaration order, whose value equals what the accessor of that field returns, and repeated blocks appear as sequences with every block; it never panics.",
 ["inputs"],"all messages, all accepted payloads within the length bound",
 "tests compare the JSON of one captured packet of a few types",
 [OUT,UP,TY],[("generate_serialize_impl",OUT),("FieldIter",UP)],None,["serde::Serialize for PacketRef"])
p("C27","Malformed packet definitions are rejected at compile time",
 "The packet description macros accept a definition only if its attributes, field sizes and declared payload length are consistent, and refuse everything else with a compile error instead of generating wrong accessors.",
 ["programs"],"every packet, enum or bitflags definition written with the macros",
 "the macro tests compare token streams for a handful of definitions",
 [IN,DT,"ublox_derive/src/lib.rs"],[("attribute parsing and consistency checks",IN)],None,["#[ubx_packet_recv]","#[ubx_packet_send]"])
p("C28","Debug output of a packet names it and shows every field",
 "Formatting any delivered packet for debugging prints the message name and each field with its accessor's value and does not panic.",
 ["inputs"],"all messages, all payloads",
 "no test checks the text",
 [OUT],[("generate_debug_impl",OUT)],None,["Debug for PacketRef"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
