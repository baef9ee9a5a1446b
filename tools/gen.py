#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, I, H, P, C, F = "schedules", "inputs", "histories", "programs", "configurations", "fault_sequences"
CC = "lib/src/client/channel/ClientChannelTcp.cpp"
CN = "lib/src/client/channel/AsioClientTcpConnection.cpp"
CS = "lib/src/client/session/ClientSessionImpl.cpp"
SR = "lib/src/client/session/ScheduledRequest.hpp"
MP = "lib/src/messages/mbap/MbapParser.cpp"
MM = "lib/src/messages/mbap/MbapMessage.cpp"
SC = "lib/src/server/channel/ServerChannelTcp.cpp"
SL = "lib/src/server/channel/ServerConnectionListener.cpp"
AS = "lib/src/server/channel/AsioServer.cpp"
AC = "lib/src/server/channel/AsioServerTcpConnection.cpp"
MG = "lib/src/ModbusManagerImpl.cpp"
DB = "lib/src/server/db/InMemoryDatabase.cpp"
SD = "lib/include/modbus/server/db/SingleTypeDatabase.h"
SDC = "lib/src/server/db/SingleTypeDatabase.cpp"
MSG = "lib/src/messages"

# id: title, statement, over, quantifier, why tests cannot, files, mechanism [(name, where)], state [(name, meaning, where)], observe_at, technique
PROPS = {}


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe,
                     technique=technique, note=note)


TRACE = "TLA+ design model exhaustively checked with TLC; its behaviours replayed into the real code and the recorded traces validated by TLC against the specification"
DET = "The code runs single-threaded under a deterministic executor with virtual time; exe4cpp and ser4cpp are stand-ins (standins/)."
SOCK = "Real asio sockets on loopback, driven single-threaded with virtual time for the library's own timers; exe4cpp and ser4cpp are stand-ins (standins/)."

p("C01", "Every accepted client request completes exactly once",
  "Every valid request accepted by a client channel that is not shut down has its response handler called exactly once: with the response, or with a timeout, connection, exception-response or malformed-response error. "
  "No handler is called twice, none is lost, and no sequence of responses, timeouts, connection failures and new submissions, including submissions made from inside handlers, leaves a request without a completion once its timeout has passed.",
  [S, H, F], "every interleaving of submissions, received bytes, timer expirations, connection errors and handler re-entrancy, and every history of them",
  "The unit tests run one or two requests through a mock connection with one fixed order of events; the double or lost completion needs a particular order of timer expiry, response, error and queued work.",
  [CC, CS, CN], [("current request / pending queue hand-over", CC), ("timer cancelled on completion", CC)],
  [("current request", "the one outstanding request", "ClientChannelTcp::m_current_request"), ("queue", "accepted requests not sent yet", "ClientChannelTcp::m_pending_requests")],
  ["response handlers", "connection writes"], TRACE, DET)
p("C02", "One outstanding request per client channel, sent once, in submission order",
  "A client channel transmits every accepted request at most once, in the order of submission, and never transmits a request before the previous one has completed. "
  "Each transmission carries a transaction identifier that advances from the previous one, modulo 65536, so that no two neighbouring requests share one.",
  [S, H], "every interleaving of submissions with completions, timeouts, errors and re-entrant submissions; identifier wrap-around",
  "Tests check two queued requests in one order; ordering errors appear only when a completion path and a submission meet in an unusual order or after tens of thousands of requests.",
  [CC], [("send only when nothing is outstanding", CC), ("FIFO queue and identifier increment", CC)], observe=["bytes written to the connection"], technique=TRACE, note=DET)
p("C03", "A response completes only the request it answers",
  "A received message completes a request only if that request is outstanding and the message carries its transaction identifier and its unit identifier; the completion delivers exactly the payload of that message. "
  "Any other message (late, duplicated, wrong identifiers, unsolicited) has no effect on any request, present or future.",
  [H, I, F], "every history of responses, late and duplicate responses, mismatched identifiers, and timeouts",
  "Tests send one matching and a few mismatching responses; whether a late or duplicated answer can complete a later request depends on the history.",
  [CC, MP], [("transaction and unit match", CC)], observe=["response handlers"], technique=TRACE, note=DET)
p("C04", "Timeouts fire for their own request, not before its time",
  "A request fails with a timeout error only when the timeout given for it has elapsed since its own transmission without a matching response, and it does fail then. "
  "A timer of one request never fails another one, and unmatched traffic neither extends nor shortens a timeout.",
  [S, H], "every order of timer expiry, response, error and queued work, and every assignment of timeouts",
  "A stale timer is only harmful when its expiry is already queued while the response of its request is handled; no test constructs that schedule.",
  [CC], [("one timer per transmission, cancelled on completion", CC)], [("timer", "timer of the outstanding request", "ClientChannelTcp::m_current_timer")],
  ["response handlers", "virtual time"], TRACE, DET)
p("C05", "A connection failure fails what it affects and leaves no residue",
  "When the connection fails while requests are accepted, the outstanding request and every queued one complete with a connection error. "
  "The channel stays usable: the next request is transmitted, and bytes received before the failure never become part of a message received after it.",
  [F, H, S], "every point of the traffic at which the connection can fail, including inside a partially received message and inside handlers",
  "The tests fail the connection once with a single pending request; residue appears only when the failure falls inside a frame and a new connection delivers another.",
  [CC, CN, MP], [("parser reset and queue flush on error", CC), ("error reporting of the connection", CN)], observe=["response handlers", "connection writes"], technique=TRACE, note=DET)
p("C06", "A shut down client channel is silent",
  "Once the shutdown of a client channel has taken effect, it calls no response handler, transmits nothing, starts no poll and creates no session, whatever data, errors, timers or calls still arrive. "
  "The connection is shut down too.",
  [S, H], "every position of the shutdown among pending submissions, timers, responses and errors",
  "Tests shut an idle channel down; the races are with work that is already queued.",
  [CC, CS, SR, CN], [("shutdown flag checked by every queued action", CC)], [("shutdown flag", "no effect afterwards", "ClientChannelTcp::m_is_shutdown")],
  ["response handlers", "connection writes"], TRACE, DET)
p("C07", "Client API calls only post work; handlers and I/O run on the executor",
  "Submitting, scheduling, starting, stopping and shutting down never call a response handler and never transmit inside the calling function: handlers and transmissions happen only in actions run by the channel's executor. "
  "Consequently an API call made from inside a handler cannot re-enter the channel.",
  [S, P], "every API call, from outside and from inside handlers, valid and invalid requests alike",
  "No test distinguishes a handler called inline from one called by the executor, except by accident of ordering.",
  [CC, CS, SR], [("every entry point posts to the strand", CC)], observe=["handlers and writes relative to API calls"], technique=TRACE, note=DET)
p("C08", "Invalid requests are rejected locally and never reach the wire",
  "A request whose quantity or number of values is outside the protocol limits completes exactly once with a malformed-request error, transmits nothing, and disturbs no other request. "
  "A request within the limits is never rejected locally.",
  [I, H], "all quantities 0..65535 for the four reads, all value counts for the two multiple writes, mixed with valid traffic",
  "Tests try a handful of quantities directly on the message classes.",
  [CC, MSG + "/ReadBitsRequestImpl.cpp", MSG + "/ReadRegistersRequestImpl.cpp", MSG + "/WriteMultipleCoilsRequestImpl.cpp", MSG + "/WriteMultipleRegistersRequestImpl.cpp"],
  [("is_valid limits", MSG)], observe=["response handlers", "connection writes"], technique="TLA+ codec specification evaluated by TLC on the frames and completions the real client produces", note=DET)
p("C09", "Requests are encoded exactly as the protocol specifies",
  "Every valid request of the eight supported functions is transmitted as one frame: header with transaction identifier, zero protocol identifier, exact length and unit identifier, followed by function code and big-endian fields, with coils packed least significant bit first and padded with zeros.",
  [I], "all unit identifiers, addresses, quantities, value vectors of every length up to the limit",
  "Tests compare a few fixed byte strings; padding, byte order and length errors show only at particular sizes or values.",
  [MM, MSG + "/ReadBitsRequestImpl.cpp", MSG + "/ReadRegistersRequestImpl.cpp", MSG + "/WriteSingleCoilRequestImpl.cpp", MSG + "/WriteSingleRegisterRequestImpl.cpp",
   MSG + "/WriteMultipleCoilsRequestImpl.cpp", MSG + "/WriteMultipleRegistersRequestImpl.cpp"],
  [("message serialisation", MSG)], observe=["bytes written to the connection"], technique="TLA+ codec specification (encode/decode functions, inverse properties checked by TLC); every frame of the real code compared with it by TLC", note=DET)
p("C10", "Responses are decoded exactly; anything inconsistent is a malformed response",
  "For every request and every byte string received in answer to it, the completion is: the exact values at the requested addresses if and only if the bytes are a well-formed answer to that request; the exception of the exception code if they are a well-formed exception answer; a malformed-response error otherwise. "
  "No byte string causes out-of-range access or invented values.",
  [I], "all requests and arbitrary response byte strings, including every truncation, extension and byte-count mismatch",
  "Tests feed a few malformed answers; the input space is every byte string against every request.",
  [MSG + "/IMessage.cpp", MSG + "/ReadBitsResponseImpl.cpp", MSG + "/ReadRegistersResponseImpl.cpp", MSG + "/WriteSingleCoilResponseImpl.cpp",
   MSG + "/WriteSingleRegisterResponseImpl.cpp", MSG + "/WriteMultipleCoilsResponseImpl.cpp", MSG + "/WriteMultipleRegistersResponseImpl.cpp", CS],
  [("response parsing against the request", MSG)], observe=["response handlers"], technique="TLA+ codec specification (decode function) evaluated by TLC against the completions of the real client for generated answers", note=DET)
p("P01", "A scheduled request polls in a single loop, one period after each completion",
  "While a scheduled request runs, exactly one polling loop is alive: it has at most one request in progress, and submits the next one exactly one period after that one has completed, whether by a response, an error or a timeout. "
  "It polls immediately when scheduled or restarted and goes on until stopped or shut down; every completion reaches the handler exactly once; a request left over from before a stop completes to the handler but does not start a second loop.",
  [S, H], "every interleaving of start, stop, completions, timer expirations and handler re-entrancy",
  "Tests run two polls in a fixed order; a second loop needs a stop and a start while a request is outstanding or while the timer has already expired.",
  [SR, CS], [("next poll armed by the completion", SR)], [("running flag", "", "ScheduledRequest::m_running")], ["submissions", "handlers", "virtual time"], TRACE, DET)
p("P02", "Stop, start and period changes of polling take effect as documented",
  "After a stop takes effect no further poll is submitted until a start, even if its timer has already expired; an outstanding poll still completes to the handler; a start while running changes nothing. "
  "A new period applies from the next completion on and does not alter the wait in progress, and the running and period queries report a state that has taken effect or has been requested.",
  [S, H], "every order of stop, start and period changes relative to completions and timer expirations, including from inside handlers, and session shutdowns",
  "Tests call stop and start at quiet moments only.",
  [SR, CS], [("start/stop/set_frequency post to the strand", SR)], observe=["submissions", "handlers", "is_running", "get_frequency"], technique=TRACE, note=DET)
p("P03", "Session timers fire once, at their time, unless cancelled",
  "A timer started through a client session, for a duration or a point in time, runs its action exactly once, on the executor, when its time has come and never before; once cancelled before its time it never runs. "
  "It reports its expiry time, and cancelling one timer affects no other timer and no poll.",
  [S, H], "every interleaving of timer starts, cancellations and expirations with polls and with each other, including from inside actions",
  "The tests do not start timers through a session.",
  [CS, "lib/src/TimerWrapper.cpp"], [("wrapping of the executor's timer", "lib/src/TimerWrapper.cpp")], observe=["actions", "virtual time"], technique=TRACE, note=DET)
p("F01", "Frames are recognised independently of how the bytes are split",
  "The messages extracted from a byte stream depend only on the bytes: any segmentation gives the same messages with the same content, each delivered as soon as its last byte has arrived. "
  "Frames with a foreign protocol identifier, and frames with a length of zero, are skipped without disturbing the frames that follow them. "
  "Frames longer than the protocol allows are consumed whole, without reading or writing out of bounds; what is delivered of them, if anything, does not depend on the segmentation.",
  [I, H], "all byte streams and all their segmentations, on client and server connections",
  "Tests try a few splits of a few frames; the parser's state space is every prefix of every stream.",
  [MP, SL, CC], [("header / body state machine", MP)], [("bytes still to read", "", "MbapParser::m_num_bytes_to_read")], ["messages delivered"], TRACE, DET)
p("S01", "A server answers each request at most once, in order, on its own connection",
  "For each well-formed request to a registered unit the server transmits exactly one answer, on the connection the request came from, in the order of the requests, echoing its transaction identifier, unit identifier and function code (with the top bit set for exceptions). "
  "It transmits nothing else.",
  [H, S, I], "all sequences of requests over several connections, pipelined and fragmented",
  "Tests exercise one request on one mocked connection.",
  [SC, SL, MM], [("answer built from the request's own header", SC)], observe=["bytes written per connection"], technique=TRACE, note=DET)
p("S02", "A request reaches exactly the session registered for its unit, once",
  "Each valid request is handed exactly once, with exactly the received fields, to the session most recently registered for its unit identifier when it arrives; a request for an unregistered unit reaches no session and is not answered. "
  "Registering a session for a unit that has one replaces it.",
  [H, I], "all histories of registrations and requests over all unit identifiers",
  "Tests register one session; replacement and several units are not exercised.",
  [SC], [("unit to session map", SC)], [("sessions", "unit to session", "ServerChannelTcp::m_sessions")], ["session callbacks", "answers"], TRACE, DET)
p("S03", "Requests are validated before they reach a session",
  "A request with an unsupported function code is answered with exception 01; one with a quantity, value count or coil value outside the protocol limits with exception 03, and so is one whose byte count contradicts its number of values; one whose total length is wrong is not answered at all (one wrong in both ways may be treated either way). "
  "None of them reaches a session, and every request within the limits does.",
  [I], "all function codes, all quantities, all lengths and byte counts of request bytes",
  "Tests check a few invalid quantities per function.",
  [SC, MSG + "/ReadBitsRequestImpl.cpp", MSG + "/ReadRegistersRequestImpl.cpp", MSG + "/WriteSingleCoilRequestImpl.cpp", MSG + "/WriteMultipleCoilsRequestImpl.cpp", MSG + "/WriteMultipleRegistersRequestImpl.cpp"],
  [("request parsing", MSG)], observe=["session callbacks", "answers"], technique="TLA+ codec specification (request decode/validation function) evaluated by TLC against what the real server does for enumerated and generated request bytes", note=DET)
p("S04", "Server answers and exceptions are encoded exactly",
  "The answer a session returns is transmitted with its exact fields in the protocol's encoding; a Modbus exception it returns is transmitted as the exception answer with that code; any other failure it returns produces no answer. "
  "A request type a session does not implement is answered with exception 01.",
  [I], "all answers of every size up to the limit and all exceptions, for all eight functions",
  "Tests compare a few fixed byte strings.",
  [SC, MSG + "/ExceptionResponse.cpp", MSG + "/ReadBitsResponseImpl.cpp", MSG + "/ReadRegistersResponseImpl.cpp", "lib/include/modbus/server/IServerSession.h"],
  [("answer serialisation", MSG)], observe=["answers"], technique="TLA+ codec specification (answer encode function) evaluated by TLC on the frames the real server transmits", note=DET)
p("S05", "Server channel lifecycle: nothing before start, nothing after shutdown",
  "A server channel starts its listener only when asked to, hands no request to a session and answers nothing once its shutdown has taken effect, and shuts each session that is registered at that moment down once per unit it is registered for at most, and at least once. "
  "Starting or registering after shutdown has no effect.",
  [S, H], "every order of start, registration, requests and shutdown, including work queued when the shutdown is requested",
  "Tests cover start then shutdown with nothing pending.",
  [SC, SL], [("shutdown flag", SC)], observe=["listener start/stop", "session callbacks", "answers"], technique=TRACE, note=DET)
p("T01", "The connection limit evicts exactly the oldest connection",
  "A TCP server never serves more connections than its limit: when one more arrives at the limit, the oldest is closed and the new one served, and no other connection is affected. "
  "Connections that end free their place, in every order of arrivals, departures and failed accepts, and the server keeps accepting.",
  [H, S, F], "all sequences of connects, disconnects, resets and failed accepts for several limits",
  "Tests open two or three connections once; counting errors need a mixture of evictions, closes and accept failures.",
  [AS, AC], [("connection list and count", AS)], [("connections", "open connections, oldest first", "AsioServer::m_connections")], ["which peers are served or closed"],
  TRACE, SOCK)
p("T02", "Bytes on the wire are whole frames, in order, under any back-pressure",
  "Whatever the pacing of the peer (pipelined requests, slow reading, partial writes, full socket buffers), the bytes transmitted on a connection are exactly the frames produced for it, complete, in order and unaltered. "
  "This holds for server answers and for client requests.",
  [S, F, H], "every schedule of partial and delayed writes against several frames in flight",
  "On a fast loopback a write completes at once; corruption needs a second frame while the first is still being written.",
  [AC, CN], [("write buffer per connection", AC)], [("write buffer", "bytes of the write in progress", "m_write_buffer")], ["bytes received by the peer"], TRACE, SOCK)
p("T03", "A client channel recovers from every kind of connection failure",
  "After a failed name resolution, refused connection, reset, orderly close by the peer or write error, the requests affected complete with a connection error and the next request opens a new connection, which works if the peer does. "
  "A request is never sent on a dead connection while a new one could be opened, nor twice.",
  [F, H], "all sequences of these failures, at every point of a request",
  "The tests cover a refused connection and a clean exchange; recovery depends on the state each failure leaves behind.",
  [CN, CC], [("connection status, socket reopen", CN)], [("status", "connected, connecting or not", "AsioClientTcpConnection::m_current_connection_status")],
  ["response handlers", "connections and bytes seen by the peer"], TRACE, SOCK)
p("T04", "Connections of a server do not influence each other",
  "Partial frames, garbage, resets and stalled readers on one connection never change what another connection of the same server receives. "
  "A connection's answers go to that connection only, and closing it leaves the others served.",
  [H, F, I], "all interleavings of traffic and failures over several connections",
  "Tests use a single connection.",
  [AS, AC, SL], [("parser and buffers per connection", SL)], observe=["bytes received by each peer"], technique=TRACE, note=SOCK)
p("T05", "A client channel connects from its adapter, to the endpoint it was given",
  "Every connection attempt of a client channel, the first one and each reconnection, to any of the addresses its endpoint's name resolves to, originates from the adapter the channel was created with; addresses are tried in turn until one accepts. "
  "When the adapter is not usable the requests fail with a connection error and no connection is made from another address.",
  [H, F], "all histories of connections, failures, reconnections, name resolutions and adapters",
  "Tests never give an adapter, and a second attempt takes a different path through the code.",
  [CN, "lib/src/client/channel/ClientChannelTcp.cpp"], [("adapter bind before connect", CN)], observe=["source and destination of the connections the peer accepts", "response handlers"], technique=TRACE, note=SOCK)
p("M01", "Shutting the manager down ends everything",
  "Shutting the manager down (or destroying it) closes every client and server channel and their sessions and connections: afterwards no handler or session callback is called, no byte is transmitted, and no connection is accepted. "
  "It is safe in every state of the channels, may be repeated, and leaves no background work running once the manager is destroyed.",
  [S, H], "every state of channels, connections and pending requests at the moment of the shutdown",
  "Tests never shut a manager down with work in progress.",
  [MG, CC, SC, CN, AS], [("shutdown of all channels", MG)], observe=["handlers", "peers' sockets"], technique=TRACE, note=SOCK)
p("Y01", "A client, a server and a database together behave like the database",
  "A request sent by a client session over TCP to a server that serves an in-memory database completes with exactly what the database operation answers, and has exactly its effect, for all eight functions and any mixture of valid and failing addresses. "
  "Requests of several clients take effect one at a time.",
  [H, I], "all histories of requests from several clients on the four tables, with any fragmentation of the bytes",
  "No test connects the client to the server.",
  [CC, SC, DB, CN, AC], [("the whole stack", "lib/src")], observe=["response handlers", "database contents"], technique=TRACE, note=SOCK)
p("D01", "The in-memory database stores exactly what was written, table by table",
  "Reading an address answers the value last stored there by an add, a write request or a transaction; the four tables are independent, and an operation changes only the addresses it names. "
  "Requests for addresses that were never added answer the illegal-data-address exception and change nothing.",
  [H, I], "all histories of operations over all addresses and values",
  "Tests store and read a few values at a few addresses.",
  [DB, SD, SDC], [("one table per kind of point", DB)], [("tables", "address to value", "InMemoryDatabase::m_*_db")], ["answers of requests", "transactions"], TRACE,
  "Sequential histories; the whole library code of the database runs.")
p("D02", "Range operations on the database are all or nothing",
  "A read or write of several consecutive addresses succeeds if and only if every address of the range exists; on success it covers exactly the range in order, and on failure it changes nothing. "
  "A range that would pass address 65535 fails and never wraps around.",
  [H, I], "all ranges over all contents, at every position of a missing address",
  "Tests use one missing address and never the end of the address space.",
  [DB, SDC], [("range check before the first effect", SDC)], observe=["answers of requests", "contents"], technique=TRACE, note="Sequential histories.")
p("D03", "Adding a point never overwrites an existing one",
  "Adding a point at a new address reports success and makes exactly that address exist with the given value; adding at an existing address reports failure and leaves its current value as it is, however it got there.",
  [H, I], "all histories of adds, writes and transactions",
  "Tests add twice with nothing in between.",
  [DB, SDC], [("insert if absent", SDC)], observe=["return values", "contents"], technique=TRACE, note="Sequential histories.")
p("D04", "Database operations and transactions are atomic",
  "Requests, adds and transactions issued concurrently take effect one at a time, in an order consistent with real time: no operation sees or disturbs the middle of another. "
  "A transaction that ends by throwing releases the database and lets the exception reach its caller.",
  [S, P], "all schedules of concurrent requests, adds and transactions",
  "No test uses two threads.",
  [DB], [("one lock around each operation", DB)], [("lock", "", "InMemoryDatabase::m_mutex")], ["answers of the operations"],
  "TLA+ model of the locked database checked by TLC; real threads run under a controlled scheduler and every recorded history is checked for linearizability by TLC",
  "Schedule points are lock operations and the boundaries between transaction steps; races on plain memory between them are not explored.")
p("D05", "A single-type database validates and stores ranges exactly",
  "A stand-alone point table answers validity, single and range gets and sets and adds exactly like a partial map from addresses to values: range sets are all or nothing, failures change neither the table nor the output they were given, and ranges never wrap around the end of the address space.",
  [H, I], "all histories of its operations over all addresses and lengths",
  "Tests check a few calls on small contents.",
  [SD, SDC], [("range check", SDC)], observe=["return values", "contents"], technique=TRACE, note="Sequential histories.")
p("E01", "An expected result holds either a value or an exception, through every copy",
  "A result object holds exactly one of a value or an exception; queries, accessors and typed exception queries agree with what it was made from, refuse the other kind by throwing, and copies and moves preserve it without affecting the source of a copy. "
  "Every value and every exception it creates is destroyed exactly once, also when copying a value fails.",
  [H, I], "all histories of construction, copy, move, mutation and destruction, for trivial and non-trivial value types and all exception types",
  "Tests construct one or two results and never count lifetimes.",
  ["lib/include/modbus/Expected.h", "lib/include/modbus/exceptions"], [("tagged union", "lib/include/modbus/Expected.h")], observe=["accessors", "object lifetimes"],
  technique=TRACE, note="AddressSanitizer build; moved-from objects are only destroyed.")
p("E02", "Exception codes survive the round trip and are named correctly",
  "Each Modbus exception is transmitted as its protocol code and parsed back to itself; codes the protocol does not define parse as unknown. "
  "Each has its own distinct description, which is also the message of the corresponding exception object.",
  [I], "all 256 codes, all exception kinds, all function codes",
  "Tests check parsing and naming separately, never that what is transmitted is what is parsed.",
  ["lib/include/modbus/messages/ExceptionType.h", MSG + "/ExceptionType.cpp", MSG + "/ExceptionResponse.cpp", "lib/include/modbus/exceptions/ModbusException.h"],
  [("code tables", MSG + "/ExceptionType.cpp")], observe=["bytes", "parse results", "texts"], technique="TLA+ tables and inverse laws checked by TLC; the real functions evaluated on their whole domain and compared by TLC", note="Exhaustive over the domain.")
p("I01", "Identifiers and endpoints compare, hash, print and advance faithfully",
  "Two unit identifiers, transaction identifiers or endpoints are equal exactly when their contents are, equality and inequality are opposites, and equal unit identifiers find each other in hashed containers. "
  "Identifiers print as fixed-width upper-case hexadecimal, and incrementing a transaction identifier adds one modulo 65536 with the usual prefix and postfix results.",
  [I], "all unit identifiers, all transaction identifiers, pairs of endpoints",
  "Tests check two or three values.",
  ["lib/include/modbus/UnitIdentifier.h", "lib/src/UnitIdentifier.cpp", "lib/src/TransactionIdentifier.cpp", "lib/src/Ipv4Endpoint.cpp"],
  [("value comparison", "lib/include/modbus/UnitIdentifier.h")], observe=["operators", "texts"], technique="TLA+ definitions evaluated by TLC against the real functions over their whole domain (pairs of transaction identifiers sampled in the quick tier)", note="Exhaustive over the domain in the thorough tier.")
p("L01", "Loggers filter by their own level and share their parent's output",
  "A logger writes a message exactly once to each of its own destinations (the console, or those it was created with), under its own name and at the given level, if the level reaches its threshold, and nothing otherwise. "
  "A logger derived from another writes to the same destinations under its new name and threshold and never changes the other; the null logger writes nothing.",
  [H, I], "all trees of derived loggers, levels and messages",
  "No test looks at logger output.",
  ["lib/src/logging/Logger.h", "lib/src/logging/LoggerFactory.cpp", "lib/src/logging/LoggingLevelConversion.h"],
  [("level conversion and clone", "lib/src/logging/Logger.h")], observe=["records reaching the sinks", "console output"], technique=TRACE, note="Records are taken at the spdlog sink and from the standard output.")

CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else json.load(open(os.path.join(V, "tools", "claimed.json")))
if len(sys.argv) > 1:
    json.dump(CLAIMED, open(os.path.join(V, "tools", "claimed.json"), "w"))
NA = {}

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for id, x in PROPS.items():
        o = {"id": id, "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
             "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]], "observe_at": list(x["observe"]), "hook_needed": None}}
        assert len(x["title"]) <= 80, id
        f.write(json.dumps(o) + "\n")

man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "hooks": {"guard": "none", "enable": "no hooks in /repo: the harnesses compile lib/src as it is, against the stand-ins of standins/", "source_commits": []},
       "checks": [{"property": id, "quick_cmd": "python3 checks/run.py %s quick" % id, "thorough_cmd": "python3 checks/run.py %s thorough" % id,
                   "technique": x["technique"], "level": "model_checking", "level_note":
                   "The bounded TLA+ model is explored completely by TLC; conformance of the code is checked on the model's behaviours and seeded random ones, each recorded trace being validated by TLC. " + x["note"]}
                  for id, x in PROPS.items() if id in CLAIMED],
       "not_applicable": [{"property": id, "reason": NA.get(id, "machinery not built yet")} for id in PROPS if id not in CLAIMED],
       "notes": "TLA+ specifications in specs/, harnesses in harness/, drivers in checks/; see DESIGN.md"}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid", len(PROPS), "properties,", len(man["checks"]), "checks")
except ImportError:
    print("not validated")
