#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

ADV, AADV = "src/service/advertising.rs", "uwuhi-async/src/service/advertising.rs"
DIS, ADIS = "src/service/discovery.rs", "uwuhi-async/src/service/discovery.rs"
RES, ARES = "src/resolver.rs", "uwuhi-async/src/resolver.rs"
DEC, ENC, REC, NAM, SVC, TAP, PKT = ("src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs",
    "src/name.rs", "src/service.rs", "src/tap.rs", "src/packet.rs")
NOTEST = "No existing test runs an advertiser, discoverer, resolver or tap, and none opens a socket; "

p("C01", "An advertiser answers each query with exactly the matching records",
  "For every well-formed query an advertiser receives, whatever it received before, its answer consists of exactly the records it was configured with (host addresses; for each instance SRV, TXT, the service's PTR and the service-type PTR) whose name equals a question's name (ignoring ASCII case), whose type the question asks for and whose class it covers, each with its registered data (the order of TXT entries is not significant), class IN and a TTL of 120 s, and nothing else. If no configured record matches any question, it sends nothing.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "Every configuration of names, addresses and instances; every sequence of datagrams (multi-question, compressed names, QU bit, ANY type/class, near-miss names, unknown types and classes, lost/duplicated/reordered/corrupted) reaching one or more sync, async or sans-io advertisers.",
  NOTEST + "record selection, record construction and history-independence across packets are never executed.",
  [ADV, AADV, DEC, ENC, REC, PKT, NAM],
  [("record selection by name/type/class", ADV + " Advertiser::handle_packet"), ("record registration", ADV + " add_name/add_instance"), ("QType/QClass matching", PKT)],
  [("record database", "all registered records", ADV + " RecordDb"), ("response buffer", "reused between packets; must not carry state over", ADV + " Advertiser::response_buf")],
  ["UDP datagrams received and sent by the advertiser's socket", "Advertiser::handle_packet result"])

p("C02", "An advertiser speaks only when asked, once, and only to the asker",
  "An advertiser sends at most one datagram per datagram it receives, only in reaction to a message that is a query with the standard opcode and no error code, and only to the address that message came from. The reply repeats the query's ID, is marked as an authoritative response with standard opcode and no error (and no other flag but, if need be, truncation), and a message marked as a response is never replied to, so several advertisers on one network, or spoofed and reflected packets, can never start a packet storm.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "Every datagram (queries, responses, other opcodes, error codes, malformed), every source address including other advertisers and the multicast group, any number of advertisers, any delivery order, duplication and replay.",
  NOTEST + "loops need several responders plus reflected traffic.",
  [ADV, AADV, PKT],
  [("query/opcode/rcode filter", ADV + " Advertiser::handle_packet"), ("reply to the sender", ADV + " listen_blocking; " + AADV + " listen")],
  [], ["datagrams sent by each advertiser socket between two receives"])

p("C03", "No datagram or failing peer can stop or corrupt an advertiser",
  "Whatever bytes arrive, from whatever source address, and however often sending a reply fails, a running advertiser neither panics nor hangs nor returns, and it sends nothing in reaction to a message whose header or questions cannot be decoded. Every well-formed query it receives afterwards is answered exactly as if the hostile traffic had never happened; only a failing receive ends the listen loop.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "Every byte string up to the receive limit (pointer loops, truncated names, reserved label types, lying counts, over-long rdata), spoofed source addresses such as port 0, send failures at any point, interleaved in any order with valid queries.",
  "decoder unit tests try four hand-written malformed names; none of them goes through an advertiser, and none truncates a message in the middle of a compression pointer.",
  [ADV, AADV, DEC],
  [("bounds-checked reads", DEC + " Reader"), ("backward-only name pointers", DEC + " read_domain_name"), ("errors are logged, not propagated", ADV + " listen_blocking")],
  [], ["termination of the listen loop", "replies to valid queries after hostile ones"])

p("C04", "Replies that fit are complete; oversized replies are flagged truncated",
  "An advertiser's reply is never longer than 1500 bytes. If all matching records fit, the reply is a complete well-formed message whose section counts equal the records it carries and whose truncation flag is clear; if they do not fit, the reply is still sent, has the truncation flag set, and carries a correct prefix of the matching records (only the last may be cut short), for any number of records and questions.",
  ["inputs", "configurations", "histories"],
  "Every number and size of registered records and questions, including replies of exactly the limit and one byte around it and more matching records than a 16-bit count can hold, before and after other replies of any size.",
  "The unit tests encode single records into an ample buffer; the truncation path is never executed.",
  [ADV, ENC],
  [("truncating writer", ENC + " Writer::write_slice / write_rr"), ("header counts and TC on finish", ENC + " EncoderInner::drop"), ("truncated replies still sent", ADV + " handle_packet")],
  [("trunc", "set once a write did not fit", ENC + " Writer")], ["reply datagrams"])

p("C05", "A resolver returns only addresses that answer the question it asked",
  "The addresses returned by one resolve call are exactly the class-IN A and AAAA addresses, in message order, found in the answer section of a single well-formed response to that call's query: records owned by the queried name or by a name its CNAME records in that response lead to. Queries, responses with a foreign ID, responses about other names, late responses to earlier calls for other names (timed out, failed or cancelled), and whatever follows the first defect of a malformed message never contribute an address.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "Every sequence of resolve calls on one resolver (sync or async), every mix of on-time, late, duplicated, reordered, corrupted, spoofed and foreign responses from any number of servers.",
  NOTEST + "stale state needs two calls and a response delayed past the first call's timeout.",
  [RES, ARES, DEC, REC],
  [("response filter", RES + " decode of responses"), ("per-call reset of collected addresses", RES + " resolve_domain")],
  [("ip_buf", "addresses collected for the current call", RES + " SyncResolver; " + ARES + " AsyncResolver")],
  ["result of resolve/resolve_domain against the datagrams received during the call"])

p("C06", "A resolver asks every server and ends on the first answer or on silence",
  "Each resolve call sends to every configured server exactly one query, asking for the A and AAAA records of the name in class IN with recursion desired, and then returns as soon as it has received a response that contains at least one address answering it. Messages that do not answer the query are skipped and restart the timeout; if nothing is received for the configured timeout, and not before, the call fails with a timed-out or would-block error; a server of another address family, or one added to a multicast resolver, is refused by panicking, as documented. A name that cannot be asked for (more than 255 bytes encoded, or text with an empty label or one of more than 63 bytes) is refused with an error before anything is sent, never by a panic.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "Every set of one to several servers (IPv4, IPv6, multicast), every timeout, every arrival time of answers and of unrelated traffic, responses of up to the mDNS message size.",
  NOTEST + "timeouts depend on the clock and on arrival order, which tests do not control.",
  [RES, ARES],
  [("fan-out of the query", RES + " resolve_domain"), ("per-receive timeout", RES + " set_timeout; " + ARES + " Timer::after"), ("return on first non-empty result", RES + " resolve_domain")],
  [("servers", "configured servers", RES), ("timeout", "per-receive timeout", ARES)], ["queries sent", "simulated time at which the call returns"])

p("C07", "Hostile datagrams never break a client",
  "Whatever datagrams arrive at a resolver or discoverer during a call, the call does not panic, hang or fail because of them: its result and callbacks are what the matching responses among them determine, as if unrelated datagrams had not arrived; of a malformed response at most the intact records before its first defect count. The object answers later calls correctly.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "Every byte string (random, bit-flipped, truncated at any byte, pointer loops, lying counts, damaged record data) in any interleaving with genuine responses, for sync and async resolvers and discoverers, with and without logging enabled.",
  "Decoder tests use four malformed names and five valid packets; no client code is run on any of them.",
  [RES, ARES, DIS, ADIS, DEC, REC, SVC],
  [("bounds-checked reads", DEC + " Reader"), ("decode errors are logged and skipped", RES + "; " + DIS + " send_query/decode_answer")],
  [], ["call results, callbacks, panics"])

p("C08", "Discovery reports every answered instance or service type exactly once",
  "Within one discovery call the callback is invoked exactly once, in order of first appearance, for each distinct service instance (or service type) named by a PTR record answering the call's query in the responses received before the call ends, no matter how often or by how many responders it is repeated. When the callback asks to stop, it is not invoked again and the call returns successfully without waiting further.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "Every number of responders, responses split over any number of datagrams, duplicated, reordered, delayed up to the deadline, retransmitted queries answered again, any stop point, sync and async.",
  NOTEST + "de-duplication across retransmissions and responders needs a network.",
  [DIS, ADIS, SVC],
  [("seen-set per call", DIS + " discover_instances / discover_service_types"), ("ControlFlow propagation", DIS + " decode_answer / send_query"), ("PTR parsing", SVC + " from_ptr")],
  [("instances / service_types", "already reported in this call", DIS)], ["callback invocations and return of the call"])

p("C09", "Discovery never reports what was not asked for",
  "Every instance reported by an instance browse comes from a PTR record owned by the requested service's name in the discoverer's domain, every service type reported by a type browse from a PTR record owned by the service-type enumeration name, and details returned for an instance only from records owned by that instance's name, always received in a response (not a query) during that very call. Late or unsolicited responses belonging to other services, instances or earlier calls are never reported.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "Every sequence of discovery calls on one discoverer, every late, duplicated, replayed, cross-talking or hostile response, sync and async, including calls cancelled midway.",
  NOTEST + "cross-talk needs a response that outlives the call it belongs to.",
  [DIS, ADIS, SVC],
  [("owner-name filter on answers", DIS + " decode of answers"), ("response flag check", DIS + " decode_answer")],
  [("domain", "browse domain", DIS)], ["callback arguments and returned details against datagrams received during the call"])

p("C10", "Discovery ends on time and retransmits exactly on silence",
  "A discovery call that is not stopped by its callback or by an I/O error ends when the configured discovery timeout has elapsed, neither earlier nor later, whatever traffic arrives. It sends its query (one question per asked type, class IN, for the asked name) at the start and again each time, and only when, nothing was received for the retransmit timeout while the call is still running. A name too long for DNS (more than 255 bytes encoded) is refused with an error before anything is sent, never by a panic.",
  ["schedules", "configurations", "fault_sequences", "histories"],
  "Every pair of discovery and retransmit timeouts (either may be larger), every arrival pattern including floods of junk that never pause, slow nodes, wall-clock jumps; sync and async.",
  NOTEST + "the behaviour is a function of the clock and of arrival times.",
  [DIS, ADIS],
  [("deadline check per receive", DIS + " send_query"), ("retransmit on receive timeout", DIS + " send_query"), ("Timer::after", ADIS + " send_query")],
  [("discovery_timeout, retransmit_timeout", "configured limits", DIS + "; " + ADIS)], ["times of sent queries and of the return, in simulated time"])

p("C11", "Loaded instance details are the ones published for that instance",
  "Loading an instance's details returns the host and port of an SRV record received for exactly that instance, together with the key/value pairs of a TXT record received for that instance (keys compared case-insensitively, first occurrence wins, value up to the end including further '=' signs, entries with an empty key ignored); if both were received, the TXT data is not lost, whatever the order or packet they came in. If no SRV record for the instance arrives before the discovery timeout the call fails with a timed-out error.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "Every SRV/TXT content, both record orders, one or two packets, loss, delay, duplication, responses for other instances in between; sync and async.",
  NOTEST + "the TXT-after-SRV case is marked FIXME in the code and never exercised.",
  [DIS, ADIS, SVC, REC],
  [("record collection until SRV and TXT are known", DIS + " load_instance_details"), ("TXT parsing", SVC + " TxtRecords::from_txt")],
  [("details, txt_records", "records collected so far", DIS)], ["Result<InstanceDetails>"])

p("C12", "Once faults stop, everything advertised can be found and resolved",
  "After losses, partitions, corruption and advertiser crashes with restart have ceased and messages arrive in less than the retransmit timeout, one browse finds every advertised service type, one browse per type finds every advertised instance, loading details yields the advertised host, port and TXT data of every instance, and resolving an advertised host name yields all addresses registered for it, as long as each answer fits one datagram. This holds for any mix of sync and async advertisers, discoverers and resolvers.",
  ["schedules", "crash_points", "fault_sequences", "configurations", "histories"],
  "Every set of advertisers and registered services, every fault history before the quiet period, every crash/restart point of advertisers, every interleaving of clients.",
  NOTEST + "advertiser and client are never run against each other.",
  [ADV, AADV, DIS, ADIS, RES, ARES, SVC, DEC, ENC],
  [("query/response protocol between the library's own components", ADV + " <-> " + DIS + ", " + RES)],
  [], ["results of discover_*/load_instance_details/resolve on the healed network"])

p("C13", "I/O errors reach the caller and leave the object usable",
  "When creating a socket, configuring it, or receiving fails inside a constructor or call, or sending a query fails, that operation returns that error: it does not panic, hang, report success, or return made-up data. The object can be used again and the next call, with the fault gone, behaves normally; no socket is leaked by failed constructors or dropped objects.",
  ["fault_sequences", "histories", "schedules"],
  "A failure (any errno, including EINTR) injected at any socket system call of any constructor, call or listen loop of sync and async resolvers, discoverers, advertisers and the tap.",
  NOTEST + "system-call failures cannot be provoked by ordinary tests.",
  [RES, ARES, DIS, ADIS, ADV, AADV, TAP],
  [("error propagation with ?", RES + "; " + DIS + "; " + ADV + " create_socket; " + TAP), ("only timeouts are retried", DIS + " send_query")],
  [], ["io::Result of each call; number of open sockets"])

p("C14", "Async and sync components behave identically",
  "Driven by the same calls, the same network behaviour and the same timing, an async resolver, discoverer or advertiser sends the same datagrams at the same times, invokes the same callbacks in the same order and returns the same results as its sync counterpart; both refuse a zero timeout with an error.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "Every scenario of calls, timeouts, responders, losses, delays, duplicates and hostile packets; any order in which ready tasks are polled, spurious wake-ups included.",
  "uwuhi-async has no tests at all.",
  [RES, ARES, DIS, ADIS, ADV, AADV],
  [("parallel implementations", "src/* and uwuhi-async/src/*")],
  [], ["datagrams, callbacks, results and their simulated times in paired runs"])

p("C15", "Cancelling an async operation leaves the object usable",
  "Dropping the future of an async resolve, browse, detail load or listen at any suspension point has no lasting effect: the socket stays usable, no further callback runs, and the next operation on the same object behaves exactly like on an object that had only received the same datagrams. Responses that arrive late for the cancelled operation never show up in a later one's result.",
  ["crash_points", "schedules", "histories", "fault_sequences"],
  "Every suspension point (in send, in receive, in the timer), every instant of cancellation, any sequence of cancelled and completed operations, any pending datagrams.",
  "uwuhi-async has no tests; cancellation needs an executor that stops polling at a chosen point.",
  [ARES, ADIS, AADV],
  [("per-call state reset", ARES + " resolve_domain"), ("call-local state", ADIS + " send_query"), ("response filtering", RES + "; " + DIS)],
  [("ip_buf", "collected addresses", ARES), ("adv.response_buf", "encoded reply", AADV)], ["results after a cancelled call"])

p("C16", "The tap logs every packet and outlives malformed ones",
  "A running tap hears all multicast DNS traffic, and for every datagram it receives it logs the packet and, as far as the packet can be decoded, each question and each record of all four sections in order with name, type and data. No datagram makes it panic, hang or return; only an I/O error ends it.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "All traffic between real advertisers and clients plus every malformed, truncated or bit-flipped datagram, in any order.",
  "Formatting is unit-tested on four packets; the tap itself is never run.",
  [TAP, DEC, REC, NAM],
  [("per-packet processing with error logging", TAP + " listen/process"), ("message formatting", DEC + " MessageDecoder::format"), ("socket set-up", TAP + " new")],
  [], ["log records emitted between two receives"])

p("C17", "Advertisers share the mDNS port and hear multicast, also after restart",
  "An advertiser can start on a host where other mDNS responders or taps already hold UDP port 5353, does not prevent further ones from starting, and receives every query sent to the IPv4 mDNS group that reaches its host, as well as unicast queries to port 5353. After a crash and restart with the same configuration it answers the same queries as before, and the socket it provides for sans-I/O use is in blocking mode.",
  ["configurations", "crash_points", "schedules", "histories"],
  "Every number and start order of responders and taps on one host, crash and restart of any of them at any time, sync, async and sans-I/O use.",
  NOTEST + "socket options and multi-process port sharing are never exercised.",
  [ADV, AADV, TAP],
  [("address reuse, bind, group join", ADV + " create_socket; " + TAP + " new"), ("non-blocking wrapper", AADV + " new")],
  [], ["bind results; datagrams received from the multicast group"])

p("C18", "Damaged messages decode to a true prefix followed by one error",
  "Decoding a message that was cut short, bit-flipped or otherwise damaged in transit always terminates without panic and yields, section by section, exactly the questions and records that a byte-exact reading of the DNS format (including backward name compression) finds up to the first defect, then a single error, then nothing more. An undamaged message yields exactly the records its counts announce, with their names, types, classes, cache-flush flags, TTLs and data, and each name occupies exactly its own bytes regardless of where compression pointers lead.",
  ["inputs", "fault_sequences"],
  "Every datagram produced by truncation at any byte, bit flips, splices and hostile construction from valid messages of all record types, with and without name compression.",
  "Unit tests decode five intact packets and four malformed names.",
  [DEC, REC, NAM],
  [("bounds-checked reader", DEC + " Reader"), ("pointer rule", DEC + " read_domain_name"), ("fused error state", DEC + " has_errored"), ("per-type decoding", REC)],
  [("has_errored", "decoding stopped", DEC), ("*_remaining", "records left per section", DEC)], ["items yielded by the message decoder"])

p("C19", "A message built with the encoder arrives intact or is flagged truncated",
  "A message a server builds from any questions and records of all supported types, in buffers of any size from the header size up, is reported complete if the buffer has room for it, and then a receiver decodes exactly the header fields, questions and records that were added, in order and in their sections; and is otherwise reported truncated with the truncation flag set, and then the bytes written decode to a prefix of what was added (only the last item may be cut short). The encoder never panics for lack of space and never writes outside its buffer.",
  ["inputs", "configurations", "fault_sequences"],
  "Every sequence of added questions and records, every buffer size (running out of space at every possible byte), followed by delivery through a duplicating, reordering network.",
  "The unit test round-trips nine single records through an ample buffer; the truncation path and multi-section messages are never executed.",
  [ENC, REC, DEC, PKT],
  [("truncating writer", ENC + " Writer"), ("rdata length back-patch", ENC + " write_rr"), ("counts and TC on drop", ENC + " EncoderInner::drop")],
  [("pos, trunc", "write position and overflow flag", ENC + " Writer")], ["encoder result and the receiver's decoded items"])

p("C20", "Text form of domain names and labels is faithful",
  "Parsing a dotted name yields exactly its labels (optional trailing dot, '.' is the root), rejects empty labels and labels over 63 bytes, and printing gives the dotted form with a trailing dot and escaped non-printable bytes.",
  ["inputs"], "Every string and every label sequence.",
  "Six examples are tested.",
  [NAM], [("FromStr / Display", NAM)], [], ["DomainName::from_str, to_string"])

p("C21", "Header fields and type/class matching are independent and exact",
  "Setting one header field or flag changes only that field and reads back as set, and a query type or class matches exactly the record types or classes it covers (ANY/ALL match everything, MAILB only MB/MG/MR, AXFR and MAILA nothing, others only themselves).",
  ["inputs"], "Every field value and flag combination; every pair of query type/class and record type/class.",
  "The unit test sets two opcodes and two rcodes.",
  [PKT], [("bit fields", PKT + " HeaderFlags/Header"), ("matches", PKT + " QType::matches, QClass::matches")], [], ["Header accessors, QType::matches, QClass::matches"])

p("C22", "Async operations share one thread without holding each other up",
  "Any number of async resolvers, discoverers and advertisers run concurrently on one single-threaded executor as if each had a thread of its own: polling an operation never blocks the thread (no sleeping, no blocking receive, no waiting for another operation), an operation is woken whenever it can proceed, also if it is polled from changing tasks, and while one waits for the network or a timeout all others send, receive, answer, time out and return exactly what they would alone.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "Every mix of async nodes on one or two executors beside blocking nodes on threads of their own; every interleaving of their polls, wake-ups, timers, datagrams, stalls and cancellations; wakers that change from poll to poll.",
  NOTEST + "no test polls a future, let alone several at once.",
  [ARES, ADIS, AADV],
  [("non-blocking sockets in the reactor", ARES + ", " + ADIS + ", " + AADV + " Async<UdpSocket>"), ("timeouts as futures", ARES + " resolve_domain; " + ADIS + " send_query"), ("no state shared between objects", "all of uwuhi-async and uwuhi")],
  [], ["time passing while a future is polled", "datagrams, callbacks and results of every operation on the executor"])

p("C23", "Memory and sockets stay bounded however long a node runs",
  "What a node holds does not grow with the traffic it has seen or the number of calls made on it. An advertiser or tap holds no more between two datagrams after thousands of them, from thousands of senders and about thousands of names, than after the first hundred; a resolver or discoverer holds no more memory or sockets between two calls, whether they succeeded, failed, timed out or were cancelled, than after the first few (beyond a fixed allowance). Handling one datagram or call takes memory in proportion to the datagrams received, not to the counts they claim (well below a megabyte).",
  ["histories", "inputs", "fault_sequences"],
  "Every history of hundreds to thousands of datagrams or calls: hostile and well-formed messages, ever-new senders and names, timeouts, errors and cancellations.",
  NOTEST + "no test runs a node for more than one packet.",
  [ADV, RES, DIS, TAP, ARES, ADIS, AADV],
  [("reused response buffer", ADV + " Advertiser::response_buf"), ("address list cleared per call", RES + " ip_buf"), ("per-call instance sets", DIS + " discover_instances"), ("count-independent decoding", DEC)],
  [("response_buf, db, ip_buf", "all that outlives a datagram or call", ADV + "; " + RES)], ["bytes and sockets held by a node's code between two datagrams or calls", "most bytes held meanwhile"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
