#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Lines do not depend on how the transport chunks the stream",
"For every byte stream and every way the connection splits it into reads, the line reader returns the same sequence of lines: each ends with the delimiter and contains it nowhere else, and the lines joined are exactly the bytes sent up to the last delimiter. A stream that ends, or a transport that fails, gives that error exactly once all complete lines were delivered; an unfinished line is never returned as a success.",
["inputs","schedules"],"all streams and all splits into reads (including empty reads and data delivered together with the end of the stream)",
"Tests read a few fixed streams from in-memory buffers with one or two chunk shapes; the property quantifies over every position of a delimiter relative to every buffer boundary.",
["lineproto/reader.go"],[("line assembly across buffer refills","lineproto/reader.go Reader.ReadLine / bufReader.Scan"),("buffer refill","lineproto/reader.go bufReader.peek")],
["Reader.ReadLine results","Reader.Read results"])
p("C02","A peer can never make the reader return or buffer an over-long line",
"A line longer than the configured maximum is rejected with an error and never handed to the caller or to its line hooks, whatever the chunking, and every line within the maximum is accepted.",
["inputs","configurations","schedules"],"all limits, all lines around the limit, all chunkings",
"The existing tests never reach the limit with a line that is split over several reads.",
["lineproto/reader.go"],[("limit check","lineproto/reader.go Reader.ReadLine"),("limit setting","lineproto/reader.go Reader.SetMaxLine")],["Reader.ReadLine result and error"])
p("C03","Line hooks see every line once, in order, and decide what is delivered",
"Every registered line hook is called exactly once per line with the full line, in registration order, until one of them drops the line or fails; a dropped line is never delivered and the next line is unaffected, and a failing hook's error is what the caller gets.",
["inputs","histories"],"all streams and all hook verdict sequences",
"Tests register at most one hook and never exercise drop/err combinations over several lines.",
["lineproto/reader.go"],[("hook dispatch","lineproto/reader.go Reader.ReadLine")],["hook call log","Reader.ReadLine result"])
p("C04","Switching compression on and off preserves the byte stream",
"For every sequence of writes, flushes and compression switches made by the writer, and a reader that enables decompression at the same points, the reader gets exactly the bytes written, in order, and none is lost or duplicated at the boundary between plain and compressed sections, however the transport chunks the data. A compressed section that is cut short or damaged is reported as an error and never silently ends the stream.",
["histories","inputs","schedules"],"all operation histories up to the bound, all contents, all chunkings",
"Existing tests use two fixed scripts; the boundary bugs need a particular amount of buffered data at the switch.",
["lineproto/reader.go","lineproto/writer.go"],[("decompression switch","lineproto/reader.go Reader.EnableZlib, ReadLine, Read"),("compression switch","lineproto/writer.go Writer.EnableZlibLevel, DisableZlib, Flush")],["bytes obtained by Reader.ReadLine and Reader.Read"])
p("C05","A binary section yields exactly its bytes and no others",
"A binary section of a given size yields exactly the next that many bytes of the stream, whatever was already buffered; lines read afterwards start right behind it even if the caller consumed only part of the section and closed it. If the stream ends early, the section yields just the bytes that are left and then the end of the stream, never bytes from elsewhere.",
["inputs","histories","schedules"],"all sizes, all partial-consumption histories, all chunkings",
"Tests read one section of one size completely.",
["lineproto/reader.go"],[("binary section","lineproto/reader.go Reader.Binary")],["bytes read from the section","next line after it"])
p("C06","Written data reaches the transport complete and in order",
"For every sequence of line and raw writes interleaved with flushes, the transport receives exactly the accepted data in call order, everything written before a successful flush has arrived when the flush returns, and a line vetoed by a line hook is not sent at all.",
["histories","inputs"],"all operation histories up to the bound, all contents",
"Tests check a handful of scripts that fit into the buffer.",
["lineproto/writer.go"],[("buffering and flush","lineproto/writer.go Writer.WriteLine, Write, Flush"),("hooks","lineproto/writer.go Writer.OnLine")],["bytes at the underlying io.Writer"])
p("C07","Write failures are reported and sticky",
"When the transport fails at any point, the data delivered so far is a prefix of what was written, the failure is reported no later than the next flush or close, and every later write, flush and error query reports it; nothing more is sent.",
["fault_sequences","histories"],"all fault positions and short writes in all operation histories up to the bound",
"Tests never inject a transport failure.",
["lineproto/writer.go"],[("sticky error","lineproto/writer.go Writer.Err and every writing method"),("timeouts","lineproto/writer.go Writer.Timeout")],["results of the writing methods","bytes at the underlying io.Writer"])
p("C08","NMDC escaping is reversible and wire-safe",
"Any text and any legal nick, once encoded for NMDC, contains none of the protocol's control characters ('$' and '|') unescaped and decodes to the original; received text is unescaped exactly once, every HTML reference and legacy /%DCNnnn%/ form becoming its character and everything else staying as it is; a nick containing a forbidden character is refused by the encoder, and by the decoder when it appears on the wire.",
["inputs"],"all texts and nicks (valid UTF-8, without pre-escaped entities)",
"Tests cover a dozen strings; escape handling depends on every combination of adjacent special characters and entity prefixes.",
["nmdc/types.go","nmdc/utils.go"],[("text escape/unescape","nmdc/types.go String.MarshalNMDC, UnmarshalNMDC"),("name checks","nmdc/types.go Name")],["encoded bytes","decoded value"])
p("C09","NMDC chat-family messages round-trip and cannot inject commands",
"Every chat, private, main-chat-to, topic and user-command message, under the command name the protocol defines, that the library agrees to encode decodes to the same message; its encoding has no unescaped command terminator, so a peer sees exactly one command.",
["inputs"],"all field values in the documented domain",
"Tests check one or two samples per message.",
["nmdc/msg_chat.go","nmdc/msg_hub.go"],[("chat codec","nmdc/msg_chat.go"),("topic codec","nmdc/msg_hub.go")],["nmdc.Marshal output","Unmarshal result"])
p("C10","NMDC user information and user lists round-trip",
"Every user-info record (nick, description, client tag with versions, hub counts, slots, mode and extra fields, connection, flags, mail, share size) and every user, operator, bot and address list survives encode and decode unchanged, and the flags mean what the protocol says. The one-letter fields of the client tag mean the same in either case; a field that is not a letter keeps its name.",
["inputs"],"all field values in the documented domain",
"Tests check a handful of samples; the tag parser is positional and depends on lengths, digits and separators.",
["nmdc/msg_user.go","nmdc/msg_user_list.go"],[("MyINFO codec","nmdc/msg_user.go"),("lists","nmdc/msg_user_list.go")],["Marshal/Unmarshal"])
p("C11","NMDC search requests and results round-trip",
"Every active or passive search, hashed search and search result (file, directory, hash) decodes to the message that was encoded, with patterns, sizes, slots and paths preserved exactly.",
["inputs"],"all field values in the documented domain",
"Tests check samples without special characters in paths and patterns.",
["nmdc/msg_search.go"],[("search codec","nmdc/msg_search.go Search, TTHSearchActive, TTHSearchPassive"),("result codec","nmdc/msg_search.go SR")],["Marshal/Unmarshal"])
p("C12","NMDC transfer commands round-trip with exact offsets",
"Every download request, reply, direction and slot message decodes to the message that was encoded; start offsets and lengths are exact over the whole representable range, including the 'whole file' marker, and an unrepresentable number is refused rather than altered. The flags of a request are found in any order and among flags that are not known.",
["inputs"],"all field values",
"Tests check a few small numbers; wrap-around needs a number near 2^63.",
["nmdc/msg_files.go","nmdc/utils.go"],[("ADCGET/ADCSND/Direction/MaxedOut codecs","nmdc/msg_files.go")],["Marshal/Unmarshal"])
p("C13","NMDC connection, handshake and hub messages round-trip",
"Every connection request, reverse request, lock, key, feature list, nick validation, password, redirect, hub-info, bot-info, fail-over, hub-name and version message, under the command name the protocol defines, decodes to the message that was encoded.",
["inputs"],"all field values in the documented domain",
"Tests check one or two samples each.",
["nmdc/msg_ctm.go","nmdc/msg_lock.go","nmdc/msg_ping.go","nmdc/msg_hub.go","nmdc/msg_other.go","nmdc/msg_pass.go","nmdc/msg_errors.go","nmdc/extensions.go"],[("message codecs","nmdc/msg_*.go")],["Marshal/Unmarshal"])
p("C14","No NMDC command can crash or hang the decoder",
"For every command of the protocol and every payload, decoding either fails with an error or produces a message that can be encoded again without crashing; it always terminates and never crashes.",
["inputs"],"all payload bytes up to the bound for every registered command, and unknown ones",
"Tests feed well-formed payloads only; a crash in the decoder is remotely triggerable.",
["nmdc/message.go","nmdc/msg_chat.go","nmdc/msg_ctm.go","nmdc/msg_files.go","nmdc/msg_lock.go","nmdc/msg_ping.go","nmdc/msg_search.go","nmdc/msg_user.go","nmdc/msg_user_list.go","nmdc/reader.go"],[("message decoders","nmdc/msg_*.go UnmarshalNMDC"),("registry","nmdc/message.go")],["absence of panics; termination"])
p("C15","NMDC numbers are decoded exactly or rejected",
"Every decimal number in an NMDC command is decoded to exactly the value written, or the command is rejected; it is never truncated, wrapped or taken from part of the digits. The leniencies are fixed: an unreadable share size counts as zero, the context of a user command ends at the first other byte, an empty hub count is one, and a negative search size means unrestricted.",
["inputs"],"all digit strings around and beyond the integer ranges",
"Tests use small numbers; the parser has a fast path by length and overflow cut-offs.",
["nmdc/utils.go","nmdc/msg_user.go","nmdc/msg_search.go","nmdc/msg_files.go"],[("number parsing","nmdc/utils.go")],["decoded fields"])
p("C16","The NMDC stream reader classifies and delivers every command once",
"For every stream, the message reader delivers each command exactly once and in order with its own name and contents: empty commands are keep-alives, commands that do not start with '$' are chat, unknown names come out raw with their payload, and hooks can drop a message without affecting any later one. A message already delivered does not change when later ones are read, and a message read into a value that held an earlier one is exactly what its own bytes say. Over-long or malformed command names are an error. A typed read accepts exactly the requested commands (a raw message among several accepts any) and otherwise reports the unexpected command.",
["inputs","histories"],"all streams up to the bound and all hook verdicts",
"Tests read single well-formed messages.",
["nmdc/reader.go"],[("classification","nmdc/reader.go Reader.readMsgTo"),("hooks","nmdc/reader.go")],["Reader.ReadMsg / ReadMsgTo / ReadMsgToAny"])
p("C17","The lock answer is the one the protocol defines and is wire-safe",
"For every lock a peer can send, the computed key is the one the protocol specification defines, it contains none of the reserved byte values unescaped, and computing it never crashes.",
["inputs"],"all locks up to the bound",
"Tests check a few known locks; reserved bytes arise from particular lock bytes and positions.",
["nmdc/msg_lock.go"],[("key derivation","nmdc/msg_lock.go Lock.Key, CustomKey")],["Lock.Key result"])
p("C18","NMDC text in the hub's encoding is converted without loss or mix-up",
"With a configured text encoding, text fields are converted exactly once on the way out and back on the way in; text that is not valid in the expected encoding is handed to the fallback callback before it is rejected, and its decision is honoured for this and later commands. A decoder or encoder set by a hook is used from the next message on.",
["inputs","configurations","histories"],"all texts, all callback decisions",
"Tests use one encoding and one string.",
["nmdc/types.go","nmdc/reader.go","nmdc/writer.go"],[("encoding fallback","nmdc/reader.go OnUnknownEncoding"),("text codec","nmdc/types.go")],["decoded message; later messages"])
p("C19","The NMDC writer puts exactly one well-formed command on the wire",
"Each message handed to the NMDC writer appears on the wire as its name, one space and its payload, terminated by exactly one '|', unless a hook vetoes it or its encoding fails, in which case nothing of it is sent; keep-alives are a lone '|'. The compression command goes out plain and everything after it compressed.",
["inputs","histories"],"all messages and hook verdicts up to the bound",
"Tests compare a few encodings, never after a failing or vetoed message.",
["nmdc/writer.go","nmdc/message.go"],[("message framing","nmdc/writer.go Writer.WriteMsg; nmdc/message.go MarshalTo")],["bytes at the underlying io.Writer"])
p("C20","ADC escaping is reversible and wire-safe",
"Any text encoded for ADC contains no raw space or newline and decodes to the original, and text decoded from the wire re-encodes to an equivalent command.",
["inputs"],"all texts up to the bound",
"Tests check a handful of strings; adjacent backslashes are the difficult case.",
["adc/types.go","adc/marshal.go"],[("escape tables","adc/types.go"),("field codec","adc/marshal.go")],["encoded bytes","decoded value"])
p("C21","ADC messages round-trip",
"Every ADC message (user and hub information, search and result, connection, chat, status, feature negotiation, transfer, password, commands) decodes to the message that was encoded, with every present field preserved and every absent field left at its default, each field being carried under the two-letter name the protocol defines, in a command of the name the protocol defines. Decoded over an earlier value, present fields take their new value and absent named fields keep the old one (an incremental update); messages without named fields, and lists, are replaced.",
["inputs"],"all field values in the documented domain",
"Tests check one or two samples per message.",
["adc/marshal.go","adc/messages.go","adc/user.go","adc/search.go","adc/chat.go","adc/connect.go","adc/files.go","adc/hub.go"],[("generic codec","adc/marshal.go"),("custom codecs","adc/messages.go, adc/files.go, adc/types.go")],["Marshal/Unmarshal"])
p("C22","ADC packets keep their kind, addressing and payload",
"For every packet kind, decoding an encoded packet gives back the same kind, command name, source, target, feature conditions and payload, and the encoding is exactly one line; a line whose addressing is malformed or truncated is rejected rather than mis-addressed.",
["inputs"],"all packets and all lines up to the bound",
"Tests check one sample per kind; off-by-one errors need truncated addresses.",
["adc/packets.go"],[("packet codecs","adc/packets.go")],["DecodePacket and MarshalPacketADC results"])
p("C23","No ADC line can crash or hang the decoder",
"For every line, packet decoding and message decoding either fail with an error or give a message that can be encoded again without crashing; decoding always terminates and never crashes.",
["inputs"],"all lines up to the bound, all registered commands",
"Tests feed well-formed lines only; a crash in the decoder is remotely triggerable.",
["adc/packets.go","adc/marshal.go","adc/messages.go","adc/types.go","adc/files.go","adc/search.go","adc/user.go","adc/types/types.go","tiger/tiger.go"],[("packet decoding","adc/packets.go DecodePacket"),("message decoding","adc/marshal.go Unmarshal")],["absence of panics; termination"])
p("C24","Identifiers have one exact text form",
"Session and client identifiers convert to text and back without loss; every identifier text that is accepted denotes exactly one value, and a session identifier that is not 4 bytes, or a client identifier that is not 39 base32 digits, is refused without crashing. The base32 salt of a password request, too, is decoded to the bytes its digits denote or refused, and a new private identifier is taken whole from the random source.",
["inputs"],"all identifier values and all texts up to the bound",
"Tests convert a few samples; 2^20 session ids and 2^192 client ids exist.",
["adc/types/types.go","adc/hub.go"],[("SID codec","adc/types/types.go"),("CID codec","adc/types/types.go"),("salt codec","adc/hub.go GetPassword")],["String, MarshalADC, UnmarshalADC, FromString results"])
p("C25","Feature sets behave as sets",
"Adding, removing, intersecting, merging and cloning feature sets of both protocols follow set algebra, independently of order and without modifying their inputs; the textual form lists exactly the members and reads back as the same set.",
["inputs","histories"],"all feature sets over a small alphabet of names",
"Tests check a few literals.",
["adc/extensions.go","adc/types.go","nmdc/extensions.go"],[("NMDC extension set","nmdc/extensions.go"),("ADC features","adc/types.go, adc/extensions.go")],["set operations; Marshal/Unmarshal"])
p("C26","The ADC stream reader delivers each packet once and detects keep-alives",
"For every stream, the ADC reader delivers every packet line exactly once, in order and unchanged, reports empty lines as keep-alives or skips them as configured, and hands typed reads only messages of the requested kind. A packet already delivered does not change when later ones are read.",
["inputs","histories"],"all streams up to the bound",
"No test drives the ADC reader.",
["adc/reader.go"],[("packet reader","adc/reader.go")],["Reader.ReadPacket and typed reads"])
p("C27","The ADC writer puts exactly one line per packet on the wire",
"Each message sent through the ADC writer appears on the wire as exactly one well-formed line carrying the requested kind and addresses and decoding to the same message; a keep-alive is an empty line.",
["inputs","histories"],"all messages and addresses up to the bound",
"No test drives the ADC writer.",
["adc/writer.go","adc/packets.go"],[("packet writer","adc/writer.go")],["bytes at the underlying io.Writer"])
p("C28","ADC booleans, numbers and status codes are decoded exactly",
"Numbers and flags in ADC fields are decoded to exactly the value written or the field is rejected: '0' is false and '1' is true, fractions and out-of-range numbers are never silently rounded or wrapped (a decimal text whose value is integral is exact), and a status line keeps its severity and its code, which mean what the protocol says (success, recoverable, fatal; 51 is a missing file).",
["inputs"],"all numeric texts up to the bound",
"Tests use small positive integers.",
["adc/marshal.go","adc/messages.go","adc/types.go"],[("number decoding","adc/marshal.go"),("status","adc/messages.go Status")],["decoded fields"])
p("C29","Tree hashes equal the standard Merkle construction on every input",
"The tree hash of any data is the standard 1024-byte-leaf Merkle construction (leaf and node prefixes, odd nodes promoted, empty input one empty leaf), whether computed from the stream or from its leaves, and does not depend on how the source delivers the bytes; computing the root leaves the stored leaves unchanged and a read failure is reported.",
["inputs","schedules"],"all data sizes around block boundaries, all chunkings of the source",
"Tests check fixed data from in-memory readers, which never return short reads.",
["tiger/tth.go"],[("leaf hashing","tiger/tth.go TreeLeaves"),("reduction","tiger/tth.go Leaves.TreeHash, TreeHash")],["TreeHash, Leaves.TreeHash results"])
p("C30","Hash values convert to text and back exactly",
"Every hash value survives conversion to its base32 text and back, in plain, JSON-style and wire form, and any text that is not 39 base32 digits is refused without crashing.",
["inputs"],"all hash values, all texts up to the bound",
"Tests convert a few samples; wrong-length text is never tried.",
["tiger/tiger.go"],[("text codec","tiger/tiger.go")],["Hash conversions"])
p("C31","Key prints accept exactly the matching certificate",
"A key print computed from a certificate verifies against a connection exactly when the peer presented that certificate; unknown print kinds, malformed prints and missing certificates are never accepted.",
["inputs","configurations"],"all certificates and expected prints (hash abstracted)",
"Tests verify no connection.",
["keyprint/keyprint.go","keyprint/tlskp/tlskp.go"],[("fingerprint","keyprint/keyprint.go FromBytes"),("verification","keyprint/tlskp/tlskp.go VerifyKeyPrint")],["FromBytes, GetKeyPrints, VerifyKeyPrint"])
p("C32","Addresses normalise to one stable form",
"Parsing an address either fails or yields a known scheme; normalising also requires a host, is idempotent and keeps host, port and parameters; an address without a port is accepted exactly where the protocol defines a default port, and the generic entry point agrees with the protocol-specific one.",
["inputs"],"all address texts up to the bound",
"Tests check a table of addresses.",
["conn.go","adc/conn.go","nmdc/conn.go"],[("dispatch","conn.go"),("protocol parsers","adc/conn.go, nmdc/conn.go")],["ParseAddr, NormalizeAddr"])
p("C33","Search filters match exactly the file names the groups define",
"A file-extension group matches a file name exactly when its extension belongs to the group, and the set of groups in a search request is preserved on the wire.",
["inputs"],"all group masks and extension texts up to the bound",
"Tests check nothing of this.",
["adc/search.go"],[("group matching","adc/search.go ExtGroup")],["Matches; Marshal/Unmarshal"])
p("C34","A whole session arrives as it was sent",
"For every history of messages, keep-alives, vetoed or refused messages, flushes, announced binary data and compression switches on the writing side of a connection, a peer that follows the announcements reads exactly the messages that were accepted, with their contents, and exactly the binary data, in the same order, followed by the end of the stream, with and without text conversion and however the transport chunks the data.",
["histories","inputs","schedules"],"all histories up to the bound of the writing side, over both protocols, with arbitrary characters in texts and data",
"Tests exercise one layer at a time; the layers (encoding, hooks, buffering, compression, binary sections, decoding) share one buffer and its bugs arise from their combination.",
["nmdc/reader.go","nmdc/writer.go","adc/reader.go","adc/writer.go","lineproto/reader.go","lineproto/writer.go"],[("NMDC connection","nmdc/reader.go, nmdc/writer.go"),("ADC connection","adc/reader.go, adc/writer.go"),("line layer","lineproto")],["messages and data obtained by the reading side"])
p("C35","Decoded messages own their data and encoding leaves no trace",
"A decoded message or packet, and a message carried by an error, does not change when the input it was decoded from is overwritten (the readers reuse their buffer for the next command), decoding does not modify an ADC line nor anything behind its input, and encoding neither changes the message nor data already in the output buffer: encoding twice gives the same bytes twice (up to the order of the entries of a feature set or of extra tag fields, which is open).",
["inputs","histories"],"every command of both protocols, with an arbitrary byte at any position of a complete payload",
"Tests compare a message right after decoding it, when the buffer still has the old contents.",
["nmdc/types.go","nmdc/message.go","nmdc/msg_search.go","nmdc/msg_lock.go","adc/packets.go","adc/marshal.go","adc/types.go"],[("NMDC decoders","nmdc/msg_*.go"),("packets","adc/packets.go"),("ADC fields","adc/marshal.go, adc/types.go")],["encodings of a message before and after its input was overwritten"])
p("C36","A closed reader or writer stays closed",
"Closing a writer sends everything it accepted; afterwards every operation of a closed reader or writer reports an error (never the end of the stream), delivers or sends nothing, calls no hook and does not crash, whatever the state at the time of the close, also when it was closed by one of its own hooks.",
["histories","inputs"],"all states (pending data, compression on or off or switched, open binary section) and all following operations up to the bound",
"Tests never use a reader or writer after closing it.",
["lineproto/reader.go","lineproto/writer.go","nmdc/reader.go","nmdc/writer.go","adc/reader.go","adc/writer.go"],[("close","lineproto/reader.go Reader.Close; lineproto/writer.go Writer.Close")],["results after Close"])
p("C37","Nothing that has arrived is held back",
"Everything that was flushed to the transport - lines, commands, packets and binary data, compressed or not, before and after switching - can be read on the other side without waiting for any data that has not been sent yet: the reader never asks the transport for more while what it was asked for has already arrived, and a flush leaves nothing behind in the writer.",
["histories","schedules","inputs"],"all histories of lines, binary sections, flushes and compression switches up to the bound, with transports that deliver any number of bytes at a time",
"Unit tests run against complete buffers that end with EOF, where waiting for more data is never noticed; a session of two live peers deadlocks on it.",
["lineproto/reader.go","lineproto/writer.go","nmdc/reader.go","nmdc/writer.go","adc/reader.go","adc/writer.go"],[("line reader","lineproto/reader.go Reader.peek, ReadLine, Read"),("flush","lineproto/writer.go Writer.Flush")],["messages readable after a flush without further transport reads"])
p("C38","Data is only sent while the write timeout is armed",
"When a write timeout callback is set, it is armed before any byte goes to the transport - for lines, raw data, flushes, compression switches and closing - and disarmed when the call returns; when it cannot be armed nothing is transferred, the error is reported and stays.",
["histories","inputs"],"all histories of the writer's operations up to the bound, with arming that fails at any point",
"Tests do not set a timeout; a peer that stops reading then blocks the writer for ever.",
["lineproto/writer.go"],[("timeout","lineproto/writer.go Writer.Timeout, Write, Flush, Close, EnableZlib, DisableZlib")],["order of the callbacks and transport writes"])
p("C39","Every command name maps to its own message type",
"The commands of both protocols, and those a user registers, decode to their own message type and no other name does; any other command decodes to a raw message with its name and payload unchanged, which decodes later to the same; the lookups of registered names agree with each other and with the list, a new message is independent of other new ones, and a name cannot be registered twice.",
["inputs","configurations"],"all command names up to the bound, with arbitrary payload bytes, before and after a user registers a type",
"Tests decode one sample per command and never register a type of their own or ask for names that differ in one character.",
["nmdc/message.go","adc/messages.go","adc/packets.go"],[("registry","nmdc/message.go RegisterMessage, IsRegistered, NewMessage; adc/messages.go RegisterMessage, UnmarshalMessage"),("raw messages","nmdc RawMessage, adc RawMessage.Decode")],["message types decoded by the readers"])
p("C40","Connections do not influence each other",
"What one connection reads or writes, and the messages and values it got before, do not depend on other connections: whatever operations another reader, writer, text conversion or hash computation performs between two operations of the first, or while the first is inside of a transport, hook, text-encoding or custom-field call, each gives exactly the results it gives alone.",
["schedules","histories","inputs"],"all interleavings of one operation (thorough: two) of a second connection with every call that leaves the library, for 12 kinds of connections and every message",
"Tests run one connection at a time; a scratch buffer, cache or pooled object shared by two connections is only wrong when they alternate.",
["nmdc/reader.go","nmdc/writer.go","adc/reader.go","adc/writer.go","lineproto/reader.go","lineproto/writer.go","tiger/tth.go","nmdc/types.go","adc/marshal.go"],[("package-level state","message registries, escape tables, nmdc/types.go, adc/types.go"),("per-connection state","Reader and Writer of nmdc, adc and lineproto")],["results of every operation and of the values kept from earlier ones"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
