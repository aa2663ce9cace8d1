#!/usr/bin/env python3
"""Writes properties.jsonl, bounds.json and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

I, H, S, F, C = "inputs", "histories", "schedules", "fault_sequences", "configurations"
P = []


def prop(id, title, statement, over, text, why, files, mech, bounds, assume=(), note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, bounds=bounds, assume=list(assume), note=note))


def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


SER = "the serial port is a scripted device; bytes after the scripted ones never come (the port reports a timeout)"
NET = "the peer is a scripted net.Conn: each read returns scripted bytes (any cut into pieces where stated), an error, or waits in virtual time"
CLK = "time is virtual: it advances only when every goroutine is blocked, so a computation takes no time"
SCH = "interleavings: context switches at synchronisation operations, atomics and environment calls, with the stated number of preemptions; a data race (unordered conflicting accesses) is a violation of its own, which makes switches elsewhere unnecessary"

prop("P01", "RTU requests are framed exactly",
     "For every slave id, function code and payload of up to 252 bytes, the RTU client puts on the line exactly one write: slave id, function code, payload, and the Modbus CRC of those, low byte first. Larger or empty PDUs are refused and nothing is sent. A raw frame is sent unchanged, and what the caller passed stays as it was.",
     [I], "all slave ids, function codes and payload bytes; payload sizes 0..16, 31, around 252 (quick), also 64, 127, 128, 200 (thorough)",
     "The tests frame two or three fixed requests; a wrong byte for some length or value passes them.",
     ["client_rtu.go", "crc.go", "modbus.go"],
     m(("RTU frame encoder", "client_rtu.go encodeRTUFrame"), ("CRC table", "crc.go CRC16")),
     "payload lengths {0..9,13,16,31,251..256,300} (+{64,127,128,200} thorough), all bytes symbolic; SendPdu lengths {0,1,2,3,5,6,9,33,252..256,260}; raw lengths {4,5,8,17,256}; three requests of lengths {0,3,70,252,253} in a row on one or two clients", [SER])
prop("P02", "The RTU client accepts only intact frames for its request",
     "Whatever bytes arrive on the line, a successful RTU request means that a frame of the addressed slave and function with a valid CRC arrived, and the data returned are exactly that frame's. A correct response hit by any error burst of up to 16 bits, or by any two flipped bits, is never accepted.",
     [I, F], "all response byte strings within the bound, all request classes, all burst and double-bit error patterns",
     "The tests feed a handful of responses; CRC properties hold or fail over all error patterns.",
     ["client_rtu.go", "crc.go"],
     m(("CRC check and header comparison", "client_rtu.go decodeRTUFrame, verify"), ("expected length", "client_rtu.go calculateResponseLength")),
     "up to 12 arbitrary received bytes (20 thorough); requests: bit reads of 1..17, register reads of 1..3, writes, mask write, FIFO, unknown functions; bursts and double errors on frames of 1-2 registers, every position; responses of 60 and 125 registers with any change of one byte at ten places", [SER])
prop("P03", "ASCII requests are framed exactly",
     "For every slave id, function code and payload of up to 252 bytes, the ASCII client puts on the line exactly ':' followed by the upper-case hex of slave id, function code, payload and LRC, followed by CR LF. Larger or empty PDUs are refused and nothing is sent. A raw frame is sent unchanged, and what the caller passed stays as it was.",
     [I], "all slave ids, function codes and payload bytes; payload sizes as for RTU",
     "The tests frame two fixed requests.",
     ["client_ascii.go", "lrc.go"], m(("ASCII frame encoder", "client_ascii.go encodeASCIIFrame"), ("LRC", "lrc.go")),
     "payload lengths {0..9,13,16,31,251..256,300} (+{64,127,128,200} thorough), all bytes symbolic; three requests of lengths {0,3,70,252,253} in a row on one or two clients", [SER])
prop("P04", "The ASCII client accepts only intact frames for its request",
     "Whatever characters arrive on the line, a successful ASCII request means that a well-formed frame of the addressed slave and function with a valid LRC arrived, and the data returned are exactly that frame's. A correct response with any one character changed never yields other data.",
     [I, F], "all response character strings within the bound, all requests",
     "The tests feed a few responses; acceptance is a statement about every string.",
     ["client_ascii.go", "lrc.go"], m(("start/end markers, hex decoding, LRC check", "client_ascii.go decodeASCIIFrame")),
     "up to 13 arbitrary received characters (Send; 19 thorough), 7..13 (SendPdu); single-character changes of every character of frames with 1..3 data bytes, and of the longest frames", [SER])
prop("P05", "TCP requests are framed exactly, with distinct transaction ids",
     "For every slave id, function code and payload of up to 252 bytes, the TCP client sends exactly one write: transaction id, protocol 0, length, slave id, function code, payload. Larger or empty PDUs are refused and nothing is sent. Consecutive requests carry distinct transaction ids, however they end, and what the caller passed stays as it was.",
     [I, H], "all slave ids, function codes, payload bytes; histories of four requests each answered or not",
     "The tests encode fixed frames and never look at a sequence of requests.",
     ["client_tcp.go"], m(("MBAP encoder", "client_tcp.go encodeTCPFrame"), ("transaction counter", "client_tcp.go Send, SendPdu")),
     "payload lengths {0..9,13,16,31,64,127,128,200,250..256,300}, all bytes symbolic; 4 consecutive requests, with or without closing and connecting between them; three requests of lengths {0,3,70,252,253} in a row on one or two clients; 8 requests after 65 532 failed ones (the counter wraps)", [NET])
prop("P06", "The TCP client accepts only the response to its own request",
     "Whatever bytes arrive on the connection, a successful TCP request means that a complete frame arrived which repeats the request's transaction id, protocol, unit id and function code, and the data returned are exactly that frame's. This holds for the first and for later requests on a connection.",
     [I, H], "all response byte strings within the bound, all requests, one or two requests per connection",
     "The tests feed a few responses.",
     ["client_tcp.go"], m(("header comparison", "client_tcp.go verifyTCPFrame"), ("length handling", "client_tcp.go SendRawFrame, decodeTCPFrame")),
     "up to 13 arbitrary received bytes (24 thorough), second request 8..11 bytes; frames of up to 253 PDU bytes with any header, complete, cut short or followed by more; three requests after 65532..65534 earlier ones, 10 arbitrary bytes received", [NET])
prop("P07", "Clients never crash, whatever is asked and whatever arrives",
     "No request, well-formed or not, and no byte string, read or write error from the peer makes a client panic or hang; the client can be closed afterwards. This covers all transports, raw frames, prepared PDUs and every method of the high-level client.",
     [I, F], "all small requests against all small responses, on every transport, with every kind of read and write error; sizes around every limit; every method against any response PDU",
     "Tests use valid requests and plausible responses; the crashes live in the combinations.",
     ["client.go", "client_rtu.go", "client_ascii.go", "client_tcp.go"],
     m(("length computations and slicing", "client_rtu.go SendRawFrame, calculateResponseLength; client_tcp.go SendRawFrame; client_ascii.go decodeASCIIFrame"), ("response checks", "client.go")),
     "requests of up to 4 (RTU), 2 (ASCII), 3 (TCP) bytes with 7/9/11 received bytes (thorough 7/3/4 and 11/13/16); sizes {255..257,260,261,512..514,600} with symbolic head; method results of up to 7 PDU bytes", [SER, NET])
prop("P08", "A response may arrive in pieces",
     "A client's result does not depend on how the bytes of a response are cut into pieces by the line or the network, nor on pauses between the pieces, as long as the response is complete within the timeout.",
     [I, F], "all cuts into up to three pieces (and bytewise delivery) of all response shapes, on every transport, with and without pauses",
     "Test devices deliver whole frames.",
     ["client_rtu.go", "client_ascii.go", "client_tcp.go"],
     m(("expected-length reading", "client_rtu.go SendRawFrame"), ("read until CR LF", "client_ascii.go SendRawFrame"), ("header then body", "client_tcp.go SendRawFrame")),
     "responses of all function codes with up to 3 data bytes / 2 registers cut at any two places; bytewise and 2-3 byte chunks; the longest read response and FIFO queues of 16, 30 and 31 registers (RTU, ASCII, TCP) and the largest PDU (ASCII, TCP) cut at any place", [SER, NET])
prop("P09", "Exception responses surface as errors with exactly their code",
     "When the slave answers with an exception, the call returns an error that carries exactly the exception code on the wire, and no data. An error carrying an exception code is returned only for an exception response to the requested function from the addressed slave. The client remains usable afterwards.",
     [I], "all slave ids, functions, exception codes and response contents, on every transport and method",
     "Tests check one or two codes with one function.",
     ["client.go", "modbus.go", "client_rtu.go", "client_tcp.go"],
     m(("exception decoding", "client.go responseError"), ("error type", "modbus.go ExceptionError")),
     "any code byte; responses one byte shorter to one byte longer than an exception frame, all bytes symbolic; seven ways for a request to fail without an exception", [SER, NET])
prop("P10", "Out-of-range arguments are refused before anything is sent",
     "A client call is refused exactly when its slave id, quantity or value buffer is outside the limits of the protocol (and of the configured address range), and in that case nothing is sent. Calls inside the limits are sent.",
     [I, C], "all slave ids, addresses, quantities, buffer sizes within the bound, and address-range options",
     "Tests check a few values on each side of the limits.",
     ["client.go", "modbus.go"], m(("argument checks", "client.go, every method")),
     "every 16-bit quantity and address, every slave id; value buffers around the limits; address ranges by option", [SER, NET])
prop("P11", "Every client method sends exactly the prescribed request",
     "Every method of the client sends exactly the request PDU the protocol prescribes for its arguments: function code, addresses, quantities, byte count and values in network byte order, to the slave asked for. Writes may be broadcast to slave 0, and the values passed stay as they were.",
     [I], "all methods, all arguments, all value bytes within the bound, all transports",
     "Tests compare a few fixed requests.",
     ["client.go"], m(("request builders", "client.go, pduDataBlockSuffix, uint162Bytes")),
     "write sizes of 1..3 bytes/registers with all bytes symbolic, and the largest writes", [SER, NET])
prop("P12", "Reads return exactly what the device sent, or an error",
     "A read succeeds exactly when the response carries the byte count of the quantity asked for and that many bytes, and it returns exactly those bytes, or those bytes as big-endian registers. A FIFO read succeeds exactly when both counts agree with the size and the queue has at most 31 values.",
     [I], "all methods, quantities and response contents within the bound",
     "Tests decode a few fixed responses; disagreeing counts are barely covered.",
     ["client.go"], m(("byte-count checks", "client.go Read*"), ("register decoding", "client.go bytes2Uint16")),
     "response PDUs of up to 8 bytes, all symbolic, against quantities 1..25 bits and 1..4 registers; the largest reads; a fixed response against every quantity; FIFO responses with any counts", [SER, NET])
prop("P13", "Writes succeed exactly when the device confirms them",
     "A write returns success exactly when the device's response repeats the address and the value or quantity that was written; every other response is an error.",
     [I], "all write methods, arguments and response contents within the bound",
     "Tests check a good response and one or two bad ones.",
     ["client.go"], m(("echo checks", "client.go Write*, MaskWriteRegister")),
     "response PDUs of 1..7 bytes, all symbolic; every address and value; quantities 1..9 / 1..3", [SER, NET])
prop("P14", "Results and arguments are never shared with later requests",
     "What a request returned is not changed by later requests on the same or another client. Arguments are not modified, and changing an argument or a result afterwards has no effect on what later requests send or return.",
     [H, I], "pairs of requests through every entry point, on the same or on two clients, all contents",
     "Buffer-pool aliasing shows only in sequences the tests do not run.",
     ["buffer.go", "client_rtu.go", "client_ascii.go", "client_tcp.go", "client.go"],
     m(("pooled buffers", "buffer.go"), ("copies of the result", "client_*.go Send, SendPdu, SendRawFrame")),
     "sequences of three requests with 2-4 symbolic bytes each; the pool is modelled as last-in-first-out (always reuses)", [SER, NET, "sync.Pool always hands back the most recently returned buffer, the worst case for aliasing"])
prop("P15", "A client has one connection at most, and recovers from failures",
     "Over any history of connecting, closing and failing requests, a client has exactly one open connection when it reports being connected and none otherwise, and it never leaks or reuses a closed one. After any failed request the next one works on a healthy device. The late answer to a TCP request that was given up is never taken for the answer to a later one.",
     [H, F], "all histories of operations and outcomes within the bound, on every transport",
     "Tests connect, send and close once.",
     ["client_rtu.go", "client_ascii.go", "client_tcp.go", "serial.go"],
     m(("lazy connect and close on failure", "client_tcp.go SendRawFrame"), ("port handling", "serial.go")),
     "histories of 3 operations (5 thorough) out of connect, close, status, request with five outcomes (seven on TCP: hang-up in mid-response, deadline that cannot be set); closing that reports an error or not; every failing outcome followed by a request; 302 requests in a row answered, failing in turn or throughout, refused throughout, or each on a new opening", [SER, NET, CLK])
prop("P16", "One client can be shared: requests do not mix",
     "When several goroutines use one client, requests and responses do not mix on the wire, each caller gets the response to its own request, and there is no data race. Closing or connecting while a request is under way never yields a wrong response, a crash, a leaked connection or a serial port opened twice at once. Two clients of the same kind do not disturb each other.",
     [S], "all interleavings of two or three callers within the preemption bound, all payload bytes, all transports",
     "Tests are single-threaded; interleavings need exploring.",
     ["client_rtu.go", "client_ascii.go", "client_tcp.go", "serial.go", "buffer.go"],
     m(("client mutex", "client_*.go SendRawFrame, serial.go"), ("buffer pool", "buffer.go")),
     "two goroutines with up to 2 preemptions, connected before or not; three callers on a slow device; 2 symbolic payload bytes per caller; the clients' methods as well as the providers'", [SER, NET, SCH])
prop("P17", "Timeouts and the serial configuration are honoured",
     "With a timeout configured, no step of a request (connecting, sending, receiving) waits longer than it for a silent peer, while a response that arrives in time is accepted however long the connection has been in use. Without one, requests wait as long as it takes; the default timeout is one second. Serial ports are opened with exactly the configuration given.",
     [F, C], "every point at which the peer goes silent, several timeouts and configurations",
     "Real-time tests cannot cover every point of silence.",
     ["client_tcp.go", "client_option.go", "serial.go"],
     m(("deadlines", "client_tcp.go SendRawFrame, connect"), ("options", "client_option.go")),
     "silence after any of 0..13 response bytes; timeouts 0.5 ms to 400 s; three requests on a connection with pauses of 0..90 s between them and responses after 0, 0.45 or 0.99 of the timeout; header and rest of a response each after up to 0.9 of the timeout; serial settings by option, including unset ones, RS485 and no timeout", [SER, NET, CLK])
prop("P18", "The register store behaves like four plain tables",
     "Reading and writing coils, discrete inputs, holding and input registers, singly or in blocks, as bits, bytes or words, does exactly what the same access to a plain table would: it returns exactly the cells addressed, changes exactly the cells addressed, and touches no other cell or table, nor the values passed. A mask write stores (current AND and-mask) OR (or-mask AND NOT and-mask).",
     [I, H], "all table contents, start addresses, addresses, quantities within the bound, and values",
     "Tests use small aligned examples; bit-packing errors appear at particular offsets and lengths.",
     ["register.go"], m(("bit packing", "register.go getBits, setBits"), ("address ranges", "register.go Read*, Write*"), ("mask write", "register.go MaskWriteHolding")),
     "bit tables of 1..20 cells, quantities up to 20 (a selection in quick, all in thorough); register tables of 1..5; any start address, any address, all contents symbolic; tables of up to 2010 bits and 260 registers with 22 and 17 aligned and unaligned ranges around powers of two and the protocol's limits; tables of 65535 cells with concrete contents but for the ends; results and arguments overwritten afterwards; all series of three accesses, single and in blocks, on tables of three cells",
     ["the caller's buffer fits the quantity (the other case is in P19)"])
prop("P19", "Register accesses are range-checked exactly and never crash",
     "For every address and quantity, an access that touches anything outside the table, or whose buffer does not fit its quantity, is refused and changes nothing; no access panics. Refusals carry an exception code.",
     [I], "all addresses, all quantities, all start addresses, small tables, buffers of small sizes and of sizes that wrap",
     "16-bit wraparound shows for a few values out of 2^32.",
     ["register.go"], m(("range checks", "register.go, every method")),
     "tables of 0..9 bits / 0..3 registers at any start; any 16-bit address and quantity; buffers of 0..9 bytes and of 8192..131080 bytes", [])
prop("P21", "The server answers requests exactly as the protocol prescribes",
     "For every well-framed request of any content to a known slave, the server sends exactly one response, with the request's transaction id, protocol and unit id and the PDU the protocol prescribes, and leaves the slave's registers in exactly the prescribed state. This holds for sequences of requests and for the largest ones.",
     [I, H], "all request contents for every built-in function within the bound, all register contents",
     "Tests send fixed requests; contents, quantities and byte counts combine freely.",
     ["function.go", "server_tcp_session.go", "register.go"],
     m(("function handlers", "function.go func*"), ("response framing", "server_tcp_session.go frameHandler")),
     "request data of 0..13 bytes, all symbolic, for all nine functions; tables of 3..11 cells; sequences of 2 (3 thorough); the largest and just too large requests; 40 requests in a row of one kind or mixed on one session", [NET])
prop("P22", "The server refuses bad requests with the right exception",
     "A request for an unknown function is answered with exception 1, a malformed one (size, quantity, value or byte count) with exception 3, and one that leaves the table with exception 2; none of them changes any register. An error returned by a user's handler becomes an exception response with its code, or 4 if it carries none, and the session goes on.",
     [I], "all function codes, all request contents within the bound, all exception codes",
     "Tests check a few malformed requests.",
     ["function.go", "server_tcp_session.go"], m(("request validation", "function.go"), ("exception framing", "server_tcp_session.go frameHandler")),
     "function codes 0..255; request data of 0..9 bytes (13 thorough), all symbolic; 40 refused requests in a row on one session", [NET])
prop("P23", "Request framing does not depend on how the stream is cut",
     "For any byte stream a client sends, in whatever pieces it arrives, the server answers exactly the complete requests in it, in order, and carries out no others. An impossible length ends the session without harming the server.",
     [I, F], "all byte streams of the bound's length; all cuts of pipelined requests; requests up to the longest",
     "Tests send one frame per write.",
     ["server_tcp_session.go"], m(("frame assembly", "server_tcp_session.go running")),
     "any stream of 16 bytes (22 thorough); pipelined requests cut at any two places; chunks of 1..9 bytes; frames up to 260 bytes; 40 pipelined requests on one session", [NET])
prop("P24", "Requests reach only the slave they address",
     "A request to a slave the server does not have, or of another protocol, is not answered and changes nothing, and the session goes on. Every other request is carried out on the slave it addresses and no other.",
     [I], "all unit ids, protocol ids and request contents within the bound",
     "Tests use one slave and the right protocol.",
     ["server_tcp_session.go", "function.go"], m(("slave lookup", "server_tcp_session.go frameHandler, function.go GetNode")),
     "any unit id and protocol id; two slaves with any distinct ids; ten request kinds; 40 ignored requests in a row on one session", [NET])
prop("P25", "Custom function handlers get exact requests and are isolated",
     "A registered handler is called exactly once per request to its function, with the addressed slave and exactly the request's data, and the response carries exactly its result. Registering one leaves all other functions and other servers as they were, and a nil handler changes nothing. A panicking handler takes down neither the server nor the session's resources.",
     [I, F], "all function codes, data within the bound, results and ways of failing",
     "Tests register one handler and never make it fail.",
     ["function.go", "server_tcp_session.go"], m(("handler registry", "function.go RegisterFunctionHandler"), ("recovery", "server_tcp_session.go running")),
     "any function code 0..255; 0..4 symbolic data bytes, results of 0, 1 and 252 bytes; errors with and without code; a handler for each of the 256 function codes at once; two panics before a success", [NET])
prop("P26", "The server starts and stops cleanly",
     "After closing a server, its listener and every session are closed, the serving call has returned, nothing more is answered, and it can serve again. Transient accept errors are survived with pauses of at most a second and permanent ones end the server; a session ends and its connection is closed when the peer ends or breaks it. Closing while a connection arrives or a request is served never leaves a session open.",
     [S, F, H], "up to three sessions in any state, up to ten accept errors, all ways a session can end, all interleavings within the preemption bound",
     "Tests never close a busy server.",
     ["server_tcp.go", "server_tcp_session.go"], m(("shutdown", "server_tcp.go Close, ListenAndServe"), ("session teardown", "server_tcp_session.go running")),
     "0..3 sessions idle, half-way through a request, stuck or sending requests all the time; 0..10 accept errors; 300 sessions in a row, 140 at a time, 600 requests on one, 70 accept errors; up to three calls of Close at once; 2 preemptions", [NET, CLK, SCH])
prop("P27", "The server enforces its session timeouts",
     "A session that receives nothing for the read timeout is closed, at any point of a request, and one that keeps sending requests is not. Every response is sent under the write timeout, counted from the moment of sending, and a client that does not take its responses is dropped after it.",
     [F, C], "every point in a request at which the client goes silent, several timeouts",
     "Real-time tests cannot cover every point of silence.",
     ["server_tcp_session.go", "server_tcp.go"], m(("deadlines", "server_tcp_session.go running, frameHandler")),
     "silence after any of 0..11 request bytes; timeouts of 40 ms to 30 h and the defaults, the two set independently in either order; 0..3 requests before; handlers that take 0, 0.9, 1.8 or 2.7 s with results of 0, 2 or 60 bytes; requests whose header and rest come after pauses of 0, 0.06, 0.5 or 0.99 of the timeout", [NET, CLK])
prop("P28", "Register accesses are atomic under concurrency",
     "Concurrent operations on one slave's registers have the results and the effect of some sequential order of them, without data races or deadlocks. A refused operation leaves the slave usable.",
     [S], "all pairs of operations, a selection of triples, all interleavings within the preemption bound, all contents",
     "Tests are single-threaded.",
     ["register.go"], m(("reader/writer lock", "register.go")),
     "every pair of 17 operations and four triples; 2 preemptions; symbolic values; reads and writes of up to 600 words or 2000 bits at once; neighbouring cells of tables of 24 bits and 4 words", [SCH])
prop("P29", "The slave registry reflects exactly what was added and deleted",
     "After any history of adding and deleting slaves, the server has, per slave id, the slave added last and not deleted since; lookups, listings, iteration and requests all agree with that. Adding a slave again replaces it at once, with no moment without it. Changes take effect for sessions that are already open, and may be made concurrently with anything else.",
     [H, I, S], "all histories within the bound, all ids, equal or distinct",
     "Tests add and delete one or two fixed ids.",
     ["function.go", "register.go"], m(("slave table", "function.go AddNodes, DeleteNode, DeleteAllNode, GetNode, GetNodeList, Range")),
     "histories of 3 (4 thorough) operations on three slaves with any ids; eight registry operations concurrent with each other and with requests, 2 preemptions; nodes given another id after they were added; all 256 ids at once, added one by one or together", [NET, SCH])
prop("P30", "The dialing server keeps one connection until it is closed",
     "A started dialing server connects to the given address with the configured timeout, serves requests like any server, reports a lost connection once, after it stopped reporting to be connected, and replaces it with another, which the connect handler may use, and never has two connections. Failed attempts, including a failing connect handler, are repeated at the configured interval, or given up without auto-reconnect; keep-alives run only while connected. Closed at any moment, it hangs up, stays away and leaves nothing behind.",
     [F, H, S, C], "sequences of refusals, losses and handler failures within the bound, several intervals, all moments of closing, all interleavings within the preemption bound",
     "There are no tests of the dialing server beyond construction.",
     ["server_tcp_special.go"], m(("connection loop", "server_tcp_special.go run"), ("status", "server_tcp_special.go setConnectStatus, Start, Close")),
     "up to 7 refusals, 6 handler failures, 3 losses in four ways; intervals from 0.3 s to 25 h (repeated: to 90 s; keep-alives on a connection in use: to 4000 s), connect timeouts from 50 ms to 2 h; closing at 5 moments in 3 situations, from within each handler, and while the master keeps sending; two rounds of starting and closing at any of nine paces; 300 refusals, handler failures, losses, restarts or keep-alives in a row; handlers and intervals unset or set in vain; four runs on the same settings; 2 preemptions", [NET, CLK, SCH, "the random pause before reconnecting is any value of its range"])
prop("P31", "CRC16 and LRC compute the Modbus checksums",
     "CRC16 is the Modbus CRC (polynomial 0xA001, initial value 0xFFFF) of its input, also when first used by several goroutines at once. LRC is the two's complement of the byte sum of everything pushed since the last reset, in whatever portions.",
     [I, H, S], "all inputs of the bound's lengths; all portionings within the bound; all interleavings of the first use",
     "Tests check single examples.",
     ["crc.go", "lrc.go"], m(("table-driven CRC", "crc.go"), ("running sum", "lrc.go")),
     "CRC: every input of 0..40 bytes (0..128 thorough) and of 256 bytes; LRC: three portions of 0..5 bytes with resets, and 254 bytes at once; both on every length up to 300 with a symbolic last byte", [])
prop("P32", "Client and server together act like direct register access",
     "Through this library's TCP client and server, every client call has exactly the effect and the result of the same access made directly to the slave's registers, or the matching exception when that access is refused.",
     [I], "all methods, addresses, values and register contents, quantities within the bound and the largest",
     "Tests run a few fixed calls end to end.",
     ["client.go", "client_tcp.go", "server_tcp_session.go", "function.go", "register.go"],
     m(("both ends", "client.go, client_tcp.go, server_tcp_session.go, function.go, register.go")),
     "one call (two thorough) out of all methods; quantities up to 11 bits / 5 registers and the largest; tables of 3..11 cells", [NET])
prop("P33", "Logging is off unless enabled and changes nothing",
     "A client logs to its provider exactly while logging is enabled, by option or switch. Logging changes neither what is sent nor what is returned. It can be switched at any moment, for clients and servers, without data races.",
     [I, F], "all transports, four outcomes of a request, any response data",
     "Tests do not compare runs with and without logging.",
     ["log.go", "client_option.go"], m(("gate", "log.go Errorf, Debugf, LogMode")),
     "requests answered, refused, failing to send, timing out; 2 symbolic data bytes; all orders of the logging options; two clients of any kinds next to one that logs; switching while a request is under way or a session starts, with up to 2 preemptions (servers: 1); requests and responses of 20 to 123 registers; 300 requests of a client", [SER, NET, SCH])
prop("P34", "RTU requests are spaced as the line requires",
     "On an RTU line, consecutive requests are at least as far apart as the request and its expected response take at the line's baud rate plus the silent interval of 3.5 characters (1.75 ms above 19200 baud).",
     [C, I], "all usual baud rates, all exchange shapes",
     "Tests do not measure time.",
     ["client_rtu.go"], m(("delay computation", "client_rtu.go calculateDelay, SendRawFrame")),
     "baud rates 300..250000; read (up to the longest), write, FIFO and exception exchanges and raw frames of 4..6 bytes; the first request answered, or failed in five ways", [SER, CLK])
prop("P36", "Sessions of one server do not affect each other",
     "What happens on one session, such as partial or malformed requests, disconnects, and handlers that block or panic, does not affect the answers on another. Requests on two sessions at once are each answered as if they came one after the other, without data races.",
     [S, F], "all kinds of misbehaviour at every cut of a request, all interleavings of two sessions within the preemption bound",
     "Tests use one connection.",
     ["server_tcp_session.go", "server_tcp.go", "register.go"], m(("one goroutine and buffer per session", "server_tcp.go ListenAndServe, server_tcp_session.go running")),
     "seven kinds of misbehaviour, every cut; 36 pairs of requests with symbolic data, and refused requests among them, 2 preemptions; any request repeated literally, with the registers changed by the program or on another session in between", [NET, SCH])
prop("P37", "The dialing server completes remote addresses sensibly",
     "A remote address without host defaults to 127.0.0.1, and one without scheme to plain TCP; the address given is otherwise dialled unchanged, and the one given last counts. A malformed address is refused and leaves the one before. Unknown schemes are never dialled.",
     [I, C], "sixteen forms of address (names, IPv4, IPv6, with and without scheme and path, mixed case) with any port of one to four digits out of a small alphabet",
     "Tests do not look at the address dialled.",
     ["server_tcp_special.go"], m(("address completion", "server_tcp_special.go AddRemoteServer, openConnection")),
     "ports of 1..4 digits over {1,9} and six standard ones; sixteen address forms; four malformed ones, with or without an address set before; three addresses set in a row", [NET])
prop("P38", "The dialing server can dial over TLS",
     "With a secure scheme (ssl, tls, tcps) in its remote address the dialing server dials the address within the connect timeout, makes a TLS client handshake with the configuration given (peer name, verification, versions, authorities and certificates as set; the defaults otherwise), and serves requests over the secured connection only. A peer that refuses or stalls the handshake is hung up on within the connect timeout, nothing it sends is carried out, it is not reported as connected, and the server tries again. With a plain scheme there is no TLS.",
     [C, F], "TLS configurations with symbolic versions; peers that accept, refuse or stall any of the first handshakes; connections that are lost",
     "There are no TLS tests.",
     ["server_tcp_special.go"], m(("TLS dialing", "server_tcp_special.go openConnection, SetTLSConfig, run")),
     "five spellings of the secure schemes; all versions, two names, verification on and off, with and without authorities; up to twelve refused or stalled handshakes and one lost connection; one request with symbolic data; three addresses in a row; dialing that takes 0, 0.5 or 0.9 of the connect timeout; plain addresses with three hosts and the standard ports", [NET, CLK,
      "the TLS record and handshake protocol itself (crypto/tls behind (*Conn).Handshake, Read and Write) is replaced by a scripted peer: what is decided is that the library uses it, with which configuration, and what it does with the outcome"])

NA = {}

TECH = "symbolic execution of the compiled code (go/ssa) with SMT (z3) over all inputs within bounds; counterexamples replayed natively"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    with open(os.path.join(ROOT, "bounds.json"), "w") as f:
        json.dump({p["id"]: {"bounds": p["bounds"], "assumptions": p["assume"]} for p in P if p["id"] not in NA}, f, indent=1)
        f.write("\n")
    checks = []
    for p in P:
        if p["id"] in NA:
            continue
        note = "Holds for every value within the bounds: " + p["bounds"] + ". Outside them nothing is claimed."
        if p["assume"]:
            note += " Assumes: " + "; ".join(p["assume"]) + "."
        note += " Trusts go/ssa, the executor in engine/ (cross-checked by replaying sampled paths against the real build on every run) and z3."
        if p["note"]:
            note += " " + p["note"]
        checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"],
                       "thorough_cmd": "./check %s --thorough" % p["id"],
                       "technique": TECH, "level": "model_checking", "level_note": note})
    man = {"version": 1, "setup_cmd": "./build.sh", "checks": checks,
           "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
           "notes": "No hooks in /repo: the harnesses use the exported API only. The environment is modelled in Go under harness/env; for replay, overlays of net, time, sync and the serial module are generated at run time."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))


main()


def design():
    h = open(os.path.join(ROOT, "tools/design_head.md")).read()
    t = open(os.path.join(ROOT, "tools/design_tail.md")).read()
    out = [h, "## Properties, harnesses and bounds\n"]
    import glob
    for p in P:
        out.append("### %s %s\n" % (p["id"], p["title"]))
        if p["id"] in NA:
            out.append("*Not applicable.* " + NA[p["id"]] + "\n")
            continue
        hs = []
        for f in sorted(glob.glob(os.path.join(ROOT, "harness/props/*.go"))):
            doc = []
            for l in open(f):
                if l.startswith("// "):
                    doc.append(l[3:].strip())
                    continue
                if l.startswith("func " + p["id"] + "_"):
                    n = l[5:l.index("(")]
                    d = " ".join(doc)
                    if d.startswith(n + ": "):
                        d = d[len(n) + 2:]
                    hs.append("* `%s`: %s" % (n, d))
                doc = []
        out.append(p["statement"] + "\n")
        out.append("\n".join(hs) + "\n")
        b = "Bounds: " + p["bounds"] + "."
        if p["assume"]:
            b += " Assumes: " + "; ".join(p["assume"]) + "."
        out.append(b + "\n")
        out.append("Beyond the tests: " + p["why"] + "\n")
    out.append(t)
    sd = sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json")))
    if sd:
        out.append("## Planted bugs\n\nEach was confirmed to build, pass the 302 tests and fail its demonstration; `caught by` is from the last sweep (`tools/sweep.sh`).\n")
        out.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
        try:
            caught = json.load(open(os.path.join(ROOT, "tools/caught.json")))
        except OSError:
            caught = {}
        for f in sd:
            k = os.path.basename(os.path.dirname(f))
            j = json.load(open(f))
            c = lambda s: s.replace("|", "/").replace("\n", " ")
            out.append("| %s | %s | %s | %s | %s |" % (k, j["property"], c(j["what_it_breaks"]), c(j["needs"]), caught.get(k, "?")))
        out.append("")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))


design()
