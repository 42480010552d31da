import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":["pyogp/lib/base/"+f for f in files],"mechanism":[{"name":n,"where":"pyogp/lib/base/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"pyogp/lib/base/"+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="message/udpdispatcher.py"; C="message/circuit.py"
p("C01","Outgoing sequence numbers count 1, 2, 3, … per remote host",
 "For every remote host (ip and port), the datagrams sent to it carry the sequence numbers 1, 2, 3, … in sending order, whatever mix of plain, reliable and acknowledgement messages is sent and whatever is received in between. A send that is refused may skip a number, but no number is ever given to two different messages to a host (only a message sent again keeps its number), and traffic with one host never influences another host's numbering. A send to a host that has no address or no port transmits nothing.",
 ["histories","inputs"],"all interleavings of sends, reliable sends, receptions and acknowledgement flushes over several hosts",
 "The stable tests call the number generator twice on one circuit; no test sends to two hosts, and the dispatcher's tests cannot even be imported.",
 [C,D],[("per-circuit counter","message/circuit.py:Circuit.next_packet_id"),("circuit lookup by (ip, port)","message/circuit.py:CircuitManager.get_circuit")],
 [("last_packet_out_id","number of the last datagram sent on a circuit","message/circuit.py"),("circuit_map","(ip, port) to circuit","message/circuit.py")],
 ["datagrams handed to the UDP client"])
p("C02","Reliable messages stay outstanding until their own host acknowledges them",
 "A message sent reliably goes out flagged reliable and is recorded as outstanding for its host from then on, until an acknowledgement of exactly its sequence number arrives from exactly that host, either as an entry of an acknowledgement message or appended to any other well-formed message, handled or not. Plain messages are never outstanding, acknowledgements of unknown or already acknowledged numbers change nothing, and the outstanding count always equals the number of outstanding messages.",
 ["histories","inputs"],"all histories of reliable and plain sends and of arriving acknowledgements (explicit, appended, duplicate, unknown, from another host)",
 "The only stable test adds one packet to a fresh circuit; no test delivers an acknowledgement.",
 [C,D,"message/udpdeserializer.py"],[("outstanding map","message/circuit.py:Circuit.add_reliable_packet"),("release","message/circuit.py:Circuit.ack_reliable_packet, handle_packet")],
 [("unacked_packets","outstanding reliable messages by number","message/circuit.py"),("unack_packet_count","their count","message/circuit.py")],
 ["circuit's outstanding map and counter","flags byte of datagrams"])
p("C03","Every reliable datagram received is acknowledged to its sender",
 "Every well-formed reliable datagram received from a host is acknowledged to that same host, by its own sequence number, no later than the next acknowledgement flush, whether or not anybody handles its message (one refused by a trusted circuit need not be). Datagrams not flagged reliable, and numbers never received from that host, are never acknowledged to it. As long as any acknowledgement is due has_unacked says so, after a flush nothing is left to acknowledge, and no acknowledgement message holds more than 255 entries.",
 ["histories","inputs"],"all histories of reliable and unreliable receptions (handled, unhandled, refused over UDP, duplicated) from several hosts, with flushes at any point, including several hundred receptions before a flush",
 "Dispatcher tests cannot be imported here, and they acknowledge one datagram of one host.",
 [D,C,"network/net.py","message/udpdeserializer.py"],[("collect on receive","message/circuit.py:Circuit.handle_packet"),("collect for messages that are not parsed","message/udpdispatcher.py:UDPDispatcher.receive_check"),("batching flush","message/udpdispatcher.py:UDPDispatcher.process_acks"),("identity of the sender","network/net.py:NetUDPClient.receive_packet")],
 [("acks","numbers still to be acknowledged","message/circuit.py")],["datagrams handed to the UDP client after a flush"])
p("C04","Appended acknowledgements survive the wire in both directions",
 "When acknowledgements are pending for a host, another message sent to it carries them appended to its body (as many as fit, at most 255), with the acknowledgement flag set exactly when such a trailer is present, and a receiver reads back exactly those numbers and an unchanged message. Numbers appended to a datagram are only ever numbers that were received from the host it goes to.",
 ["histories","inputs"],"all pending sets (none, one, many, more than 255), all messages, message objects sent again or to another host",
 "No test sends a message while acknowledgements are pending.",
 [C,"message/udpserializer.py","message/udpdeserializer.py"],[("attach acknowledgements","message/circuit.py:Circuit.prepare_packet"),("write the trailer","message/udpserializer.py:UDPMessageSerializer.serialize"),("read the trailer","message/udpdeserializer.py:UDPMessageDeserializer.deserialize")],
 None,["datagrams handed to the UDP client","decoded message's acks"])
p("C05","A trusted circuit lets no untrusted message through",
 "On a circuit marked trusted, a received message that has not itself been marked trusted (the template's word for it does not mark it) never reaches a message handler, is not returned to the caller, and releases no outstanding message. On other circuits the same datagram is delivered. Trust of one host's circuit has no effect on another's.",
 ["histories","inputs"],"all orders of receptions and trust changes over several hosts",
 "No test sets a circuit to trusted.",[D,C],[("gate before handling","message/udpdispatcher.py:UDPDispatcher.receive_check")],
 [("is_trusted","trust of a circuit","message/circuit.py")],["handler invocations","return value of a reception"])
p("C06","Two endpoints over a lossy network never acknowledge what was not received",
 "When two endpoints of this library talk over a network that drops, duplicates and reorders datagrams, an endpoint ceases to hold a reliable message outstanding only if the other endpoint has received it. If from some point the network delivers everything and both sides keep flushing, everything received from then on becomes acknowledged, and acknowledgement traffic dies out instead of the two sides acknowledging each other's acknowledgements for ever.",
 ["schedules","fault_sequences","histories"],"all interleavings of sends, deliveries, losses, duplications, reorderings and flushes between two endpoints",
 "No test connects two endpoints.",[D,C,"message/udpserializer.py","message/udpdeserializer.py"],[("acknowledgement protocol","message/udpdispatcher.py"),("circuit bookkeeping","message/circuit.py")],None,["both endpoints' outstanding maps","datagrams in flight"])
p("C07","Received messages reach the handlers of their name exactly once",
 "Every well-formed datagram accepted from the network is delivered exactly once, in order of arrival, to each subscriber registered for its message name and to no other. When nobody has registered for a name the message may be left unparsed, but turning deferred parsing off, or registering a name, makes every such message parsed and returned; with packet handling off nothing is delivered to handlers. A message once delivered stays as it was, whatever is received or sent after it.",
 ["histories","configurations"],"all orders of registrations and receptions, for every combination of deferred parsing and packet handling",
 "No runnable test receives a datagram.",[D,"message/udpdeserializer.py","message/message_handler.py"],[("deferred parsing","message/udpdeserializer.py:UDPMessageDeserializer.deserialize"),("hand over","message/udpdispatcher.py:UDPDispatcher.receive_check")],
 None,["handler invocations","return value of a reception"])
p("C08","Firing an event calls every subscriber exactly once, in order",
 "Firing an event calls every current subscription exactly once, in subscription order, with the fired value followed by the arguments given at subscription. A subscriber that subscribes or unsubscribes handlers while the event fires never causes a subscription that was and stays subscribed to be skipped or called twice. Unsubscribing removes exactly one matching subscription and raises an error if there is none, clearing removes all, and the length is the number of subscriptions.",
 ["histories","inputs"],"all sequences of subscribe, unsubscribe, clear and fire, including those performed by a subscriber during a firing",
 "The only test constructs an event.",["events.py"],[("ordered subscriber list","events.py:Event.subscribe, unsubscribe, notify, clearSubscribers")],[("subscribers","subscriptions in order","events.py")],["subscriber invocations"])
p("C09","The message handler routes by name and hides no handler error",
 "Registering a name any number of times yields one shared notifier that keeps its subscribers; a name counts as handled exactly from its first registration on. Handling a message calls the subscribers of exactly its name, and messages of unregistered names are ignored without error. Any error a subscriber raises, of whatever type, reaches the caller instead of being swallowed.",
 ["histories","inputs"],"all sequences of register, subscribe, unsubscribe, handle over several names, with subscribers that raise errors of any type",
 "The message handler has only a doctest that cannot run.",["message/message_handler.py","events.py"],[("name to notifier map","message/message_handler.py:MessageHandler")],[("handlers","registered notifiers by name","message/message_handler.py")],["subscriber invocations","errors seen by the caller"])
p("C10","Encoding then decoding returns the message, for every template",
 "For every message of the template that may travel over UDP and every value its fields can hold, decoding the encoded message returns the same name, sequence number, flags, blocks in the same number and order, and field values. Variable-length fields may gain or lose only trailing zero bytes, and rotations come back as the same rotation.",
 ["inputs","configurations"],"all templates of the embedded file and of generated template files, block repetition counts from 1 to 255 (and 0 where the message has another block), boundary and random field values of all types",
 "Two messages out of some 480 are encoded by tests that cannot run here.",
 ["message/udpserializer.py","message/udpdeserializer.py","message/data_packer.py","message/data_unpacker.py","message/msgtypes.py"],[("template driven encoder","message/udpserializer.py:UDPMessageSerializer.build_block"),("template driven decoder","message/udpdeserializer.py")],None,["encoded bytes","decoded message"])
p("C11","Encoded datagrams follow the documented wire layout byte for byte",
 "An encoded message is the flags byte, the sequence number as four big-endian bytes, a zero offset byte, the message number in one, two or four bytes according to its frequency, and then every block and field in template order: a count byte before repeated blocks, a length of the declared width before variable fields, integers and floats little-endian, ports big-endian, identifiers, addresses and fixed fields as their raw bytes. A message that lacks a block or field of the template, holds the wrong number of a non-repeating or fixed-count block, more blocks than the count byte can tell, or a variable value too long for its declared length, is refused with an error rather than encoded.",
 ["inputs","configurations"],"all templates, repetition counts and boundary or random field values; messages with missing or miscounted blocks and missing fields",
 "Round trips cannot see an error made on both sides; the few byte-exact tests cannot run here.",
 ["message/udpserializer.py","message/data_packer.py","message/msgtypes.py","message/template_dict.py"],[("layout","message/udpserializer.py:UDPMessageSerializer.serialize, build_block"),("field encoders","message/data_packer.py:DataPacker")],None,["encoded bytes"])
p("C12","Any datagram is decoded exactly as its bytes say, or not at all",
 "For every byte string received, decoding either yields exactly the message that the wire layout assigns to it (after removing appended acknowledgements, expanding run-length coded zeros and skipping the extra header), or yields no message. A message is never made up from bytes outside its body: truncated bodies, lengths or counts that point past the end, and unknown message numbers produce no message. What was decoded before, and whatever its receiver did to it, neither changes nor is changed.",
 ["inputs"],"all byte strings: valid, zero-coded, with extra header, with appended acknowledgements, truncated, extended, bit-flipped, random",
 "Tests decode a handful of recorded packets and cannot run here.",
 ["message/udpdeserializer.py","message/data_unpacker.py","message/msgtypes.py"],[("header and zero decoding","message/udpdeserializer.py:UDPMessageDeserializer.deserialize, zero_code_expand"),("bounds checks","message/udpdeserializer.py"),("field decoders","message/data_unpacker.py")],None,["decoded message or its absence"])
p("C13","Neither a bad datagram nor a failing handler stops the network loop",
 "While it has not been told to stop, the UDP loop keeps receiving, acknowledging and sending whatever datagrams arrive, however malformed, and whatever errors message handlers raise. A datagram that is rejected changes no numbering, releases no outstanding message, and adds or removes no pending acknowledgement of any host, except that its own number may be acknowledged if it was flagged reliable.",
 ["inputs","fault_sequences","histories"],"all arrival sequences mixing valid and malformed datagrams and handlers that raise at any point",
 "The loop is started by one test, without traffic, that cannot run here.",
 ["message_manager.py",D,"message/udpdeserializer.py"],[("loop body","message_manager.py:MessageManager._udp_dispatcher"),("rejection","message/udpdispatcher.py:UDPDispatcher.receive_check")],None,["datagrams sent after the fault","loop liveness"])
p("C14","Message templates are read and looked up faithfully",
 "Every message, block and field of a template file in the documented format, laid out line by line as the embedded one is (no line holds two items or two braces of a kind), is read with its name, frequency, number, trust, encoding, deprecation, block kind and count, and field type and size, in file order, ignoring comments and layout. Looking a template up by name or by the frequency and number found in a datagram header finds the same template. A template file supplied by the application governs both what is sent and what is received.",
 ["inputs","configurations"],"all template files in the format (embedded and generated), all layouts and comments",
 "Parser tests count entries of the embedded file and cannot run here; none uses a custom template for sending.",
 ["message/template_parser.py","message/template_dict.py","message/template.py","message_manager.py",D],[("line state machine","message/template_parser.py:MessageTemplateParser"),("two indexes","message/template_dict.py:TemplateDictionary")],None,["parsed template structure","header bytes"])
p("C15","Messages barred from UDP neither leave nor enter over UDP",
 "A message that the message configuration marks for another transport is never transmitted as a datagram and never delivered when it arrives as one; messages marked for the template transport or not mentioned pass. A configuration supplied by the application replaces the embedded one for everything its message manager sends and receives. A barred datagram that was sent reliably is still acknowledged.",
 ["configurations","inputs","histories"],"all message names under the embedded and supplied configurations, in both directions",
 "Two names are looked up by tests; no test sends or receives a barred message, and none uses a supplied configuration for traffic.",
 ["message/message_dot_xml.py","message/udpserializer.py","message/udpdeserializer.py","message_manager.py",D],[("lookup","message/message_dot_xml.py:MessageDotXML.validate_udp_msg"),("gates","message/udpserializer.py, message/udpdeserializer.py")],None,["datagrams handed to the UDP client","handler invocations"])
p("C16","Queued messages are sent exactly once, in queue order",
 "Every message enqueued on a running message manager before it is stopped is sent exactly once to its host, with the reliability it was enqueued with, under every interleaving of the application's coroutines with the network loop. Messages leave in queue order: first in, first out, except that one enqueued for immediate sending goes ahead of everything then waiting.",
 ["schedules","histories"],"all interleavings of enqueueing coroutines, the network loop and stopping",
 "The test only inspects the queue of a manager that never runs, and cannot run here.",
 ["message_manager.py"],[("queue","message_manager.py:MessageManager.enqueue_message"),("drain","message_manager.py:MessageManager._udp_dispatcher")],[("outgoing_queue","messages waiting","message_manager.py")],["datagrams handed to the UDP client"])
p("C17","The region event queue delivers each event once and acknowledges what it got",
 "Every event in every response of the region event queue is delivered exactly once, in order, to the handlers of its name, tagged with the id of its response; a failed, empty or malformed poll delivers nothing. Each poll acknowledges the id of the latest response received, the first poll acknowledges nothing, and a failed poll does not lose that id. After a stop at most one further poll takes place, followed by one final acknowledgement of the last id if there is one.",
 ["schedules","fault_sequences","histories"],"all sequences of responses, empty responses, errors and malformed results, with a stop at any point of the schedule",
 "The test polls an unreachable address and cannot run here.",
 ["event_queue.py"],[("poll loop","event_queue.py:EventQueueClient._processRegionEventQueue"),("dispatch","event_queue.py:EventQueueClient._parse_result")],[("last_id","id to acknowledge","event_queue.py"),("stopped","stop request","event_queue.py"),("_running","loop alive","event_queue.py")],["payloads posted to the capability","handler invocations"])
p("C18","Event queue events become messages with the same content",
 "Decoding an event yields a message of its name in which, for a name in the message template, every block list and every field value appears unchanged and in order, and for any other name all body fields appear in one single block; nothing is added, dropped or reordered between events. A message of the template exported to its dictionary form and fed back as an event comes back with the same blocks and values. A message once delivered stays as it was, whatever events follow.",
 ["inputs"],"all event names, in and out of the template, all block and field structures including empty ones, all value types",
 "The tests only look at the type and name of decoded events and cannot run here.",
 ["event_queue.py","message/message.py","message/template.py"],[("decoder","event_queue.py:EventQueueClient._decode_eq_result"),("export","message/message.py:Message.to_dict")],None,["decoded messages"])
p("C19","Capability calls return the parsed reply or the matching error",
 "Calling a capability sends exactly one request to its address, with the payload serialized, the right content type and the caller's additional headers, and returns exactly the data the server's reply holds. A 404 raises the resource-not-found error with the address, any other HTTP error raises the resource error with address, method and status, and a reply of unsupported content type or an unsupported payload type raises the no-deserializer error, the latter without any request being made. Payload and headers the caller passed in are left as they were.",
 ["inputs","fault_sequences"],"all payloads, headers, statuses, content types and bodies, for each kind of call, in any order on shared capabilities",
 "Capability tests cannot be imported here, and cover one good answer and three failures.",
 ["caps.py","helpers.py","network/stdlib_client.py","exc.py"],[("calls","caps.py:Capability.GET, POST, POST_CUSTOM"),("reply handling","caps.py:Capability._response_handler"),("HTTP","network/stdlib_client.py:StdLibClient")],None,["requests seen by the server","returned data or raised error"])
p("C20","A seed capability grants exactly the capabilities asked for",
 "Asking a seed capability for a list of names makes one request listing exactly those names, and returns one capability per requested name, bearing that name and the address the server assigned to it, which is called through the same HTTP client. Addresses of names not asked for are not returned, and the caller's list of names is left as it was.",
 ["inputs","histories"],"all lists of names (empty, repeated, many) and server answers, including answers with additional names, over repeated calls",
 "The only test is a doctest that cannot run.",["caps.py"],[("seed request","caps.py:SeedCapability.get")],None,["request payload","returned capabilities"])
p("C21","Identifiers and vectors behave as values",
 "An identifier, vector or rotation built from text, numbers or bytes at any offset gives back those same bytes (a rotation sent as three numbers, also the fourth that makes it a unit rotation), copies are equal and independent, equality and inequality of identifiers are each other's negation and equal identifiers hash alike, and exclusive-or of identifiers is the bytewise one. The squared distance of two vectors is the sum of the squares of their differences. Generating a random identifier replaces only the null identifier and never a stored one.",
 ["inputs"],"all byte patterns, offsets and operand pairs",
 "Tests use one or two constants per type.",["datatypes.py"],[("conversions","datatypes.py:UUID, Vector3, Quaternion")],None,["returned bytes and values"])
p("C22","Messages keep every block and field exactly as they were put in",
 "A message built from blocks, one by one or as lists, holds all of them under their names in the order given, with the field values unchanged and retrievable by name, and its dictionary form, and its LLSD form where the values have one, show the same content. The incremental builder returns, for any sequence of starting messages, starting blocks and adding fields, exactly the blocks and fields of the message begun last.",
 ["inputs","histories"],"all sequences of block and field additions, repeated names, several messages in succession",
 "One builder test and a few constant messages.",["message/message.py","message/template.py","message/llsd_builder.py"],[("containers","message/template.py:MsgData, MsgBlockData"),("message","message/message.py:Message"),("builder","message/llsd_builder.py:LLSDMessageBuilder")],None,["structure read back"])
p("C23","Logging settings never change protocol behaviour",
 "Whatever combination of logging settings is in force, the same history of sends, receptions, flushes, registrations and event queue polls produces the same datagrams, posts, deliveries, return values and errors. Quiet logging turns off every option that logs messages, network traffic or capabilities, even when verbose output is requested as well.",
 ["configurations","histories"],"all combinations of the logging switches, over histories covering every message path",
 "Two constant settings objects are compared with constants.",["settings.py",D,"message/udpdeserializer.py","message/message_handler.py","event_queue.py","caps.py","message_manager.py"],[("switches","settings.py:Settings"),("guarded logging","message/udpdispatcher.py, event_queue.py, caps.py")],None,["datagrams, posts, deliveries"])
p("C24","Starting and stopping the monitors is orderly",
 "Starting a message manager makes its network loop, and its event queue loop if it has an event queue and this is enabled, run until it is stopped. After a stop both loops end within one further round under every schedule, messages queued before the stop are still sent in the last round of a loop that has begun, no poll or datagram follows the end, and stopping works whether or not there is an event queue.",
 ["schedules","configurations","fault_sequences"],"all interleavings of application, network loop and event queue loop, with and without an event queue, with the stop at any point and failing polls",
 "One start and stop on one schedule, in a test that cannot run here.",["message_manager.py","event_queue.py"],[("start and stop","message_manager.py:MessageManager.start_monitors, stop_monitors"),("event queue stop","event_queue.py:EventQueueClient.stop")],[("_is_running","network loop may run","message_manager.py"),("_running","event queue loop alive","event_queue.py")],["loop liveness","posts and datagrams after the stop"])
p("C25","Unacknowledged reliable messages are retransmitted, acknowledged ones never",
 "A reliable message that its host has not acknowledged is transmitted again when outstanding traffic is processed, under its original sequence number and flagged as resent, until it is acknowledged or its retries are used up. A message that has been acknowledged, or that was sent unreliably, is never transmitted again.",
 ["histories","fault_sequences"],"all histories of reliable and plain sends, acknowledgements and processing rounds",
 "No test lets a reliable message go unacknowledged.",[D,C],[("resend","message/udpdispatcher.py:UDPDispatcher.process_acks, send_retry"),("retry bookkeeping","message/circuit.py")],[("unacked_circuits","circuits with outstanding messages","message/circuit.py")],["datagrams handed to the UDP client"])
p("C26","The UDP client attributes each datagram to its sender",
 "Every received datagram is reported with its exact bytes and length and with the address it came from; an address reported earlier, and any circuit opened for it, is unaffected by later datagrams from elsewhere. When nothing can be received the client reports an empty datagram, and sending hands exactly the given bytes to exactly the given address.",
 ["histories","inputs","fault_sequences"],"all sequences of receptions from several addresses, receive errors and sends",
 "No test uses the real UDP client.",["network/net.py",C],[("receive and sender","network/net.py:NetUDPClient")],None,["reported sender and bytes"])
p("C27","Packed fractions unpack to the right number",
 "A 16-bit or 8-bit packed number unpacks to its linear position between the two bounds, within one step of the encoding, the two ends of the code range unpack to the bounds, and values within one step of zero unpack to zero.",
 ["inputs"],"all codes and bounds","No test calls these functions.",["helpers.py"],[("unpackers","helpers.py:Helpers.packed_u16_to_float, packed_u8_to_float")],None,["returned numbers"])
p("C30","The byte conversion helpers lose and invent nothing",
 "For every byte string the hexadecimal rendering is its two-digit upper-case codes separated by single spaces, and the base64 text and (up to 45 bytes) the uuencoded text decode back to the same bytes. Hexadecimal text of even length converts to the bytes it denotes, and any other text is refused with DataParsingError. Every integer converts to the four little-endian bytes of its value modulo 2^32.",
 ["inputs"],"all byte strings, texts and integers","Tests convert two or three strings; every byte value, length and sign has to be right.",["helpers.py"],
 [("conversions","helpers.py:Helpers.bytes_to_hex, bytes_to_ascii, bytes_to_base64, hex_to_ascii, int_to_bytes")],None,["returned strings","raised errors"])
p("C28","Each remote address has one circuit of its own, and forgetting it starts anew",
 "Every remote address (ip and port) that was sent to, received from or looked up has exactly one circuit, the same one for every Host object of that address and shared with no other address, and is_circuit_alive is true of exactly these. After remove_circuit_data for an address its outstanding messages, due acknowledgements, resends and trust are gone and its numbering starts at 1 again as for an address never seen. Nothing changes for any other address, and forgetting an address that has no circuit does nothing.",
 ["histories","inputs"],"all histories of sends, receptions, flushes and removals over several hosts whose addresses and ports resemble each other","Tests look up one circuit of one host; none removes one that is in use.",[C,D],
 [("circuit map","message/circuit.py:CircuitManager.get_circuit, add_circuit, remove_circuit_data, is_circuit_alive"),("creation on first use","message/udpdispatcher.py:UDPDispatcher.find_circuit")],
 [("circuit_map","circuit of each (ip, port)","message/circuit.py")],["datagrams handed to the UDP client","outstanding map","circuit liveness"])
p("C29","A wait lasts its whole seconds, ends then, and keeps nobody else waiting",
 "A Wait, run by its construction or again by run(), does not end before the whole seconds it was given have passed since it began, unless stop() is called meanwhile, and run() returns True. It yields to the other coroutines all the time, ends at its first turn after the time has passed or stop() was called (with no nap of a second beyond it), also when attempts to sleep fail, and a stopped or finished one waits in full when it is run again. Waits of several coroutines do not affect each other.",
 ["schedules","histories","inputs"],"all orders of turns, passing time, failing sleeps, stops and restarts of several waits, and all durations","No test uses it; what matters is where the turns fall.",["helpers.py"],
 [("waiting loop and kill switch","helpers.py:Wait.run, Wait.stop")],[("enabled","switch of a wait","helpers.py")],["when constructor and run() return"])
p("C31","Numbers have their wire type's bytes, in both directions",
 "A number that its wire type has room for packs to exactly the bytes of that type: unsigned or two's complement integer or IEEE float of its width, little-endian except for ports (or in the byte order asked for), and sizeof gives the width. Unpacking at any place of any buffer, in either byte order, gives the number that the bytes standing there denote, whatever surrounds them; when too few are left for a single number it is refused with DataUnpackingError. Strings of bytes are taken from where they stand unchanged.",
 ["inputs"],"all numbers, types, byte orders, buffers and places","Tests pack and unpack one or two numbers of each type; the ends of the ranges, signs, exponents and other byte orders are not sampled.",["message/data_packer.py","message/data_unpacker.py","message/msgtypes.py"],
 [("packing","message/data_packer.py:DataPacker.pack_data"),("unpacking","message/data_unpacker.py:DataUnpacker.unpack_data"),("widths","message/msgtypes.py:sizeof")],None,["packed bytes","unpacked numbers","DataUnpackingError"])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,(x['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
