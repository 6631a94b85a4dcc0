import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

LZ="src/lzhuf.rs"; FBB="src/fbb.rs"; V="src/modem/vara.rs"; K="src/rig/elecraft/kx3.rs"; M="src/main.rs"; T="src/types.rs"; PA="src/parser.rs"; CR="src/crc16.rs"
HK="the codec is private: cfg(verif_hooks) exposes encode and decode over byte slices"
p("C01","Compression loses nothing",
  "Compressing any sequence of bytes with the LZHUF encoder and decompressing the result, declaring the original length, gives back exactly the original bytes. This holds for every length including zero, for every content, and for texts long enough that the adaptive code is rebuilt or grows codes of more than 16 bits; neither direction panics.",
  ["inputs"],"all byte strings, of any length","The unit tests round-trip nothing: they compare eight fixed encodings and decodings of at most a few hundred bytes, so no far repeat, no rebuild and no long code is ever reached.",
  [LZ],[("Encoder, LzHufState::update, reconstruct",LZ),("Decoder",LZ)],["bytes in, bytes out"],HK)
p("C02","Compressed output is readable by any standard LZHUF decoder",
  "The encoder's output for any text is a conforming LZHUF stream (2048-byte window preset to blanks, 60-byte lookahead, adaptive Huffman codes, position codes as in FBB/Winlink): an independent decoder recovers exactly the text from it. The stream ends with the byte that holds the last code's last bit, padded with zero bits.",
  ["inputs"],"all byte strings, judged by an independent decoder","Two mistakes that cancel in a round trip, and every stream a few hundred bytes long, are all the tests can see.",
  [LZ],[("Encoder::encode_char, encode_position, Bitbuffer",LZ)],["the encoder's output bytes"],HK)
p("C03","Any conforming LZHUF stream is decompressed exactly",
  "For every conforming LZHUF stream, whichever legal choice of literals and copies (any length 3..60 at any distance within the window) its encoder made, decompression with the declared size yields exactly the bytes it stands for. Declaring a smaller size yields exactly that many leading bytes.",
  ["inputs"],"all conforming streams and all declared sizes up to the content's","The tests decode a handful of fixed streams; other encoders' choices, distances beyond 255 and long streams are not among them.",
  [LZ],[("Decoder::decode, decode_char, decode_position",LZ)],["decoded bytes"],HK)
p("C04","Decompression is safe on hostile data",
  "For any input bytes and any declared size, decompression terminates without panicking and writes only inside the declared size. It succeeds exactly when the input's codes yield at least that many bytes, and then with the bytes the format prescribes; otherwise it reports the end-of-data error.",
  ["inputs"],"all byte strings and all declared sizes","Only intact streams are tested; truncated, corrupted and random data, and sizes that do not match, never are.",
  [LZ],[("Decoder::decode, UnexpectedEof, Biterator",LZ)],["result, buffer and its surroundings"],HK)
p("C05","Compression exploits every repeat within reach",
  "At every step the compressor emits the longest copy available: if the upcoming bytes (at most 60) repeat content of the last 1988 bytes, or of the 60 blanks before the text, for three bytes or more, one copy of the full length of the longest such repeat is emitted, and otherwise a literal.",
  ["inputs"],"all texts, at each position","A compressor that misses repeats still round-trips; only exhaustive comparison with the window at each position shows it.",
  [LZ],[("insert_node, delete_node",LZ)],["the codes of the output, read by an independent decoder"],HK)
p("C06","The checksum is CRC-16/XMODEM",
  "The 16-bit checksum of any byte sequence equals CRC-16/XMODEM (polynomial 0x1021, initial value 0, most significant bit first) over the bytes in order. In particular any error burst of up to 16 bits changes it.",
  ["inputs"],"all byte sequences; the per-byte step is covered completely","One fixed 225-byte sequence is tested, which touches at most 225 of 256 table entries and 225 of 65536 register values.",
  [CR],[("Crc16::update, CRC_TABLE",CR)],["checksum of given bytes"],"the checksum is private: cfg(verif_hooks) exposes it over a byte slice")
p("C07","No corrupted or malformed message is accepted",
  "A received message is accepted only if its header is well-formed (SOH, length of at most 88, printable ASCII title, NUL, decimal offset below 2^32, NUL), its data consists of complete STX blocks, the first holding at least the six bytes of CRC and size, and both the final checksum and the CRC-16 over size and payload match. Title, offset, CRC, size, payload, block boundaries and the number of bytes consumed are then reported exactly as they stand in the data.",
  ["inputs","fault_sequences"],"all byte sequences, in particular all damaged messages","Two captured messages and two prefixes of one are tested; none is corrupted.",
  [FBB,CR],[("b2_message_block: checksum and CRC verification",FBB),("header, data_blocks",FBB)],["accept/reject and reported fields"],"parsers are private: cfg(verif_hooks) exposes their outcome")
p("C08","Every well-formed message is accepted with its exact content",
  "Every well-formed message is accepted and its title, offset, size and payload are delivered exactly, for any title and offset that fit the header, any payload, any division into blocks of 1 to 256 bytes, and whatever bytes follow it, none of which are consumed. Decompressing it gives the original text, or the end-of-data error when the payload holds less than the declared size.",
  ["inputs"],"all well-formed messages","Two captured messages are tested, and one of their contents is only printed.",
  [FBB,LZ],[("b2_message_block, CompressedMessage::decompress",FBB)],["reported fields, decompressed bytes"],"as C07")
p("C09","Reading in pieces is sound: ask for more only, and exactly, when needed",
  "For messages, proposals, selections and the bare control lines alike: given any proper prefix of a well-formed input the reader asks for more, for at least one byte and never for more than are missing. Complete malformed input is rejected rather than waited on, and once given, acceptance or rejection does not change with the bytes that follow.",
  ["inputs","schedules"],"all inputs, cut at every position","Two cuts of one message are tested.",
  [FBB],[("streaming combinators; header parsed only once complete",FBB)],["outcome at each prefix length"],"as C07")
p("C10","No input crashes or hangs the protocol readers",
  "Whatever bytes arrive, reading them as a message, proposal, selection or control line, and decompressing an accepted message, returns without panicking, in time proportionate to the input. Turning logging on, at any level, changes neither this nor any result.",
  ["inputs","configurations"],"all byte sequences, every parser, logging off and on","Tests feed well-formed captures only, with the default logging.",
  [FBB,LZ,PA],[("nom parsers; checksum mismatch warnings",FBB)],["outcome with and without a subscriber"],"as C07")
p("C11","FA/FB proposals are read exactly",
  "A line `FA|FB <P|B|T> <sender> <mailbox> <recipient> <id> <size>` ended by CR is accepted exactly when every field is present, separated by single blanks, non-empty valid UTF-8 within its limit (6, 40, 6 and 12 bytes), and the size is one to six decimal digits; every value from 0 to 999999 is. The fields are then reported exactly, and precisely the line including its CR is consumed.",
  ["inputs"],"all byte sequences","No proposal is parsed by any test.",
  [FBB],[("fbb_proposal and its field parsers",FBB)],["outcome and fields"],"as C07")
p("C12","FC (Winlink) proposals are read exactly",
  "A line `FC EM <id> <uncompressed size> <compressed size>`, optionally followed by `<sender> <mailbox> <recipient>`, and ended by CR is accepted exactly when all fields are well-formed as in FA/FB proposals. Each field is reported as itself, the two sizes not exchanged and the address fields present only if the line has them, and precisely the line including its CR is consumed.",
  ["inputs"],"all byte sequences","No proposal is parsed by any test.",
  [FBB],[("winlink_proposal, BqpProposalExtension",FBB)],["outcome and fields"],"as C07")
p("C13","Selections and bare control lines are read exactly",
  "For any number of proposals, `FS ` followed by that many answers is read in order as: `+`, `Y`, `H` accept from the start; `!` or `A` with one to six digits accept from that offset; `=`, `L` defer; `-`, `N`, `R`, `E` reject; anything else is rejected, and nothing beyond the last answer is consumed. `FF`, `FQ` and `F>` are each recognised as themselves and nothing else.",
  ["inputs"],"all byte sequences; all offsets 0..999999","No selection is parsed by any test.",
  [FBB],[("selection, selection_element",FBB)],["outcome and choices"],"as C07")
p("C14","A station id is a call sign in normal form, and nothing else",
  "A text becomes a station id exactly when all of it is a call sign: at most one leading digit, one or more ASCII letters, one or more digits, a letter, then any letters or digits. The id's text is the upper-case form, normalising is idempotent, ids differing only in case are equal with equal hashes, and all ways of making an id agree.",
  ["inputs"],"all texts","Two texts are tested, both valid; a text merely containing a call sign (a second command after a CR, say) is not.",
  [T],[("StationId normalizer",T)],["construction result and text"])
p("C15","Every modem command is written as exactly one unambiguous line",
  "Each command's text is exactly its documented form (`MYCALL` with all call signs in order, `CONNECT origin target` with `via` and the relays in order, `LISTEN`, `COMPRESSION`, `BW`, `DISCONNECT`, `ABORT`). Different commands never have the same text, and no text contains a control character or line end.",
  ["inputs"],"all commands","No command is written by any test.",
  [V],[("Display for Command and its parts",V)],["command text"])
p("C16","Making a parse error printable preserves what it says",
  "Converting the result of parsing bytes or text for display keeps the number, order and kinds of an error's entries (parser, context or expected character), and whether it is recoverable or final; valid UTF-8 input becomes that text, any other input stays those bytes, and both can be read off the rendering exactly. Successes and requests for more input pass through unchanged.",
  ["inputs"],"all errors over all inputs","Not tested at all.",
  [PA],[("MappableParserInputError, StrOrByteSlice",PA)],["converted entries and renderings"],"the conversion is private: cfg(verif_hooks) exposes it")
ST=[("outstanding replies","who waits for which reply","manage_modem_thread")]
p("C17","Every command gets its own reply",
  "However many tasks issue commands through one modem handle, and however the modem's replies are timed, batched, cut into segments or interleaved with status reports, each call completes with the reply to its own command: success for OK and an error for WRONG. Each command reaches the modem as one intact line exactly once, in the order each task issued them; a command abandoned by its caller reaches it at most once and never shifts the replies of others, and a reply nobody waits for is ignored.",
  ["schedules","histories","fault_sequences"],"all interleavings of clients, cancellations and reply timings","No test opens a connection.",
  [V],[("response_queue in manage_modem_thread",V),("do_a_thing: line splitting",V)],["lines at the modem, results of calls"],None,ST)
p("C18","Reported status is what the modem last said",
  "At rest, buffer level, busy state, registered call signs, heartbeat time and requested transmit state equal what the modem's reports so far imply: the latest value of each, and for registrations all that were reported. This holds for any order, batching and segmentation of the reports, for every buffer level up to 2^64-1, and values observed meanwhile never go back to an earlier report.",
  ["inputs","schedules","histories"],"all report sequences and all segmentations of the byte stream","No test parses a report or opens a connection.",
  [V],[("do_a_thing: retained incomplete parts",V),("TncStatusSender, TncStatusReceiver",V)],["public status accessors"])
p("C19","Losing or misunderstanding the modem fails everything promptly",
  "When the control connection ends, is reset or carries a line that is no known report, every outstanding call and every later one returns an error, replies that had arrived before stay valid, an attempt to connect ends in an error, and the control connection is closed without anything further being sent on it. Nothing panics, hangs or keeps running.",
  ["fault_sequences","schedules"],"all fault kinds at all points of a session, any number of outstanding calls","No test opens a connection, let alone breaks one.",
  [V],[("manage_modem_thread exit drops the reply senders",V)],["results of calls, control socket, processor use"])
p("C20","A connection attempt ends as the modem reports it",
  "Connecting sends `CONNECT` with the two ids and stays pending, whatever reports of other kinds come in, until the modem refuses the command (error), reports connected (a usable stream) or reports another state of the connection (error). Only what is reported after the request counts, so any number of attempts on one handle, whatever the fate of the ones before, are each judged by their own reports.",
  ["histories","schedules"],"all histories of attempts, outcomes and terminations","No test connects.",
  [V],[("VaraTnc::connect: borrow_and_update, changed",V)],["result of connect, control lines"])
p("C21","A stream carries bytes unchanged in both directions",
  "Between establishment and end of a connection, every byte written through the stream (plain, vectored, in any sizes, against any back-pressure) appears on the modem's data connection once and in order, and every byte the modem sends there is read once and in order, whatever the buffer sizes, and concurrently with control traffic. When the modem closes the data connection all bytes before are delivered and then the end of the stream.",
  ["inputs","schedules"],"all byte sequences, chunkings and interleavings with control traffic","No test opens a stream.",
  [V],[("AsyncRead, AsyncWrite for VaraStream",V)],["bytes on both ends"])
p("C22","A remote disconnect is seen by reader and writer, without losing data",
  "After the modem reports disconnected, or its control connection is lost, everything received before is still readable and then every read, however often repeated, reports the end of the stream, while every write, vectored write, flush and shutdown fails with connection-aborted. Readers and writers already waiting, in the same or in different tasks, are woken; nothing panics.",
  ["schedules","histories"],"all timings of the report relative to data, reads and writes, in one or two tasks","No test opens a stream.",
  [V],[("RemoteDisconnect, the watcher task",V)],["results of reads and writes"])
p("C23","Ending a stream tells the modem exactly once",
  "Dropping a stream of a live connection sends exactly one DISCONNECT; ending it with an accepted disconnect or abort sends exactly that one command and no other; after the remote end has disconnected nothing is sent. The command is sent even if the handle is dropped right away, and always before anything a later connection attempt sends, and the handle stays usable.",
  ["histories","schedules"],"all ways and timings of ending a stream, followed by any further use","No test opens a stream.",
  [V],[("PinnedDrop for VaraStream, force_disconnect",V)],["control lines at the modem"])
p("C24","Dropping the handle winds everything down",
  "After the modem handle is dropped, commands already handed over still reach the modem and their replies are awaited; then both connections are closed. In that state, after any failure, and whenever there is nothing to do, no task keeps using the processor.",
  ["schedules","fault_sequences"],"drops with any number of commands outstanding, with and without replies or modem loss","Nothing of it is tested.",
  [V],[("manage_modem_thread: drain loop",V)],["sockets at the modem, processor use"])
p("C25","The builder connects where it is told",
  "Control and data connections are made to the configured host and ports, by default 127.0.0.1:8300, and the data port by default one above the control port; commands travel on the control connection and data on the data connection. If the data port cannot be derived, or either connection cannot be made, building fails with an error and leaves no connection open.",
  ["configurations","fault_sequences"],"all hosts and ports, either connection refused","No test builds a handle.",
  [V],[("VaraTncBuilder::build",V)],["accepted connections, build result"])
p("C26","Rig commands are relayed exactly and in order",
  "Every command given to the rig loop is written to the rig exactly once, complete and in order (`TX;` to transmit, `RX;` to receive), including all those queued when the command side closes, after which the loop ends normally. This holds whatever the rig sends, in whatever pieces, and however few bytes it accepts at a time.",
  ["inputs","schedules"],"all command sequences, rig outputs and partial writes","No test runs the rig loop.",
  [K],[("manage_rig_thread",K)],["bytes written to the rig"])
p("C27","A dead or broken rig ends the rig loop",
  "When the rig hangs up, or reading from or writing to it fails, the loop returns an error after a bounded number of further operations and later commands are refused rather than swallowed. While the rig is silent and no command is given, the loop does nothing.",
  ["fault_sequences","schedules"],"every fault at every operation","No test runs the rig loop.",
  [K],[("manage_rig_thread",K)],["result, number of operations on the rig"])
p("C28","A terminal session follows its script",
  "The program sets call sign, TEXT compression and 2300 Hz bandwidth in this order, each after the reply to the one before, then connects to the target; it prints every CR-ended line it receives once and in order up to the prompt (a line ending in `>`), and after a line of input sends its identification and `FF`, then prints every further line up to the disconnect, those received along with the prompt included, and after one more line of input ends successfully. Invalid ids, refusals, failed connections and a lost connection before the prompt end it with a failure status; it never crashes or hangs on received bytes, at any log level.",
  ["inputs","histories","fault_sequences"],"all received bytes and segmentations, refusals and losses at each step","No test runs the program.",
  [M,V],[("main",M)],["control and data bytes, standard output, exit status"])
p("C29","The transmitter follows the modem's requests",
  "In a terminal session each transmit or receive request of the modem that is not overtaken by a newer one is relayed to the rig once, requests are never relayed out of order, and the last one relayed is always the last one made. This holds whatever the rig itself sends.",
  ["histories","schedules"],"all request sequences and rig outputs","No test runs the program.",
  [M,V,K],[("the relay task in main",M),("subscribe_rig_command",V)],["bytes at the rig's end of the line"])
p("C30","Logging never changes behaviour",
  "For the same modem or rig behaviour, including bytes that are not valid UTF-8, the results of all calls and everything sent are the same with logging off and at the most verbose level, and what is logged is valid text.",
  ["configurations","inputs"],"all sessions, with logging off and at every level","Tests only run with the test logger on well-formed captures.",
  [V,K,LZ,FBB],[("tracing calls",V),("tracing calls",K)],["transcripts with and without a subscriber"])
p("C31","No undefined behaviour, and every text is valid UTF-8",
  "Whatever is received and in whatever interleaving, no code of the library touches memory outside its buffers, reads uninitialised memory, races on data or otherwise has undefined behaviour, and every text it hands out or logs is valid UTF-8.",
  ["inputs","schedules"],"all inputs to the codec, the readers, the modem and the rig loop","The tests run without any checker, on well-formed input.",
  [LZ,FBB,T,V,K],[("from_utf8_unchecked behind ASCII filters",FBB),("from_str_unchecked behind an ASCII filter",T)],["interpreter and sanitizer reports, texts handed out"],"as C01 and C07")
p("C32","The program acts on exactly the configuration it is given",
  "The program connects to the modem at the given address and control port and no other (127.0.0.1 and 8300 unless given), and for data to the given data port or else the one above the control port; it uses the call signs as given, in upper case. It opens the given rig line for itself alone, at the given speed (4800, 9600, 19200 or 38400), 8 bits without parity, one stop bit and no flow control, with no echo or translation of bytes, whatever state the line was left in, before it requests a connection; if it cannot, it ends with an error and requests none. It logs as far as --log says, else RUST_LOG from the environment or a .env file, else info. With a required option missing, or an invalid, unknown or repeated one, it ends with an error, not a crash, before it contacts the modem or touches the rig.",
  ["configurations"],"all options, in every order and form, valid or not","No test runs the program.",
  [M,V],[("Opt, main",M),("VaraTncBuilder::build",V)],["where connections arrive, commands, terminal settings, exit status, log levels"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
