#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so the entries stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook, **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

prop("C01", "Parsing is independent of how the response bytes arrive",
 "For any byte stream, parsing yields the same outcome (the same error or success, and on success the same value in every field) however the stream is delivered: one byte at a time, in arbitrary pieces, with empty reads, with the last bytes handed over together with end-of-stream, or slowly over time from another thread. Bytes that follow the closing tag of the document never change the outcome.",
 ["inputs", "schedules", "fault_sequences"], "all response documents of every supported version and lexical style, and all ways a reader may segment and delay them",
 "The tests parse whole files or strings through one reader that returns everything at once; segmentation is never varied.",
 ["response.go", "util.go", "types.go"], [("buffered reader and version sniffing", "response.go DecodeResponse/guessVersion"), ("SGML header reader", "response.go readSGMLHeaders"), ("token loop", "util.go nextNonWhitespaceToken")], ["ParseResponse return values", "DecodeResponse return values"])
prop("C02", "A response cut short is never accepted",
 "If the response stream ends, or its reader fails, before the closing tag of the document has been delivered, parsing returns an error and no response, so that a partial statement is never mistaken for a complete one. A failure reported by the reader is not swallowed, and this holds at every byte position, for every version and style.",
 ["fault_sequences", "crash_points", "inputs"], "every cut position of every response document, combined with end-of-stream, unexpected end-of-stream and I/O errors, with or without final data",
 "Tests contain a few malformed documents but never truncate a valid one or inject a reader failure.",
 ["response.go", "util.go", "bank.go", "invstmt.go", "seclist.go", "signup.go", "profile.go", "creditcard.go"], [("token loop until the closing OFX element", "response.go DecodeResponse"), ("per-aggregate custom decoders", "invstmt.go/seclist.go/profile.go UnmarshalXML")], ["ParseResponse return values"])
prop("C03", "Everything the bank sends reaches the caller unchanged",
 "When a complete valid response reaches the client, the request succeeds and the returned response contains exactly the messages, aggregates, list entries and values that were sent, in the order they were sent, including amounts to the last digit, the instants denoted by dates, codes and free text. This holds for every supported message type and version, whether tags are closed or not, and whatever HTTP framing, segmentation and latency carried it.",
 ["inputs", "schedules", "configurations"], "all valid response documents over all supported aggregates, versions, lexical styles, HTTP framings and network timings",
 "Tests parse hand-written examples, mostly one per message type, and never through a client and a network.",
 ["response.go", "types.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "signup.go", "profile.go", "signon.go", "common.go", "constants.go", "leaf_elements.go", "basic_client.go"], [("struct tags and custom unmarshallers", "*.go UnmarshalXML"), ("leaf element table for unclosed tags", "leaf_elements.go"), ("enumeration tables", "constants.go")], ["Client.Request return values", "bytes written by the simulated server"])
prop("C04", "The bank receives exactly the request the caller built",
 "For every valid request the server receives one HTTP POST whose body is a well-formed OFX document with the configured version, application identity and formatting, carrying exactly the caller's sign-on data, messages and values in order, and nothing else. The HTTP headers announce the OFX content type, the correct length and the configured user agent, and sending the same request again transmits the same content apart from the client time.",
 ["inputs", "configurations", "histories", "schedules"], "all valid requests, client configurations (version, application id/version, indentation, line ends, user agent, custom HTTP client) and network segmentations",
 "Tests marshal a few requests in memory for a few versions; nothing checks what arrives at a server.",
 ["request.go", "client.go", "basic_client.go", "signon.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "signup.go", "profile.go", "types.go", "common.go"], [("marshalling", "request.go Marshal"), ("client settings", "request.go SetClientFields"), ("HTTP request construction", "basic_client.go RawRequest")], ["bytes received by the simulated server", "Request.Marshal output"])
prop("C05", "Credentials never travel unencrypted or to an unauthenticated server",
 "No byte containing the user's password, user key or user id is ever sent over a connection that is not TLS with a certificate valid for the requested host and trusted by the client, whichever client type or entry point is used, whatever the URL looks like, and whatever the server answers, including redirects. A request that would require it fails with an error instead.",
 ["inputs", "configurations", "fault_sequences", "histories"], "all URLs, client types, entry points, server certificates, clock settings and redirect sequences",
 "Tests never open a connection; URL and redirect handling, certificate checks and TLS settings are untested.",
 ["basic_client.go", "discovercard_client.go", "vanguard_client.go", "client.go"], [("https prefix check", "RawRequest of each client"), ("TLS configuration", "vanguard_client.go vanguardHttpClient, discovercard_client.go tls.Dial")], ["bytes received by every simulated server", "dial log"])
prop("C06", "A failed exchange is an error, never a response and never a silent resend",
 "If connecting, sending, the HTTP exchange or receiving fails at any point, or the server answers with any status other than 200, the call returns an error and no parsed response; it returns a response only if the server completely sent that response with status 200. One call makes the server process at most one request (two for the documented cookie handshake of one institution), also under resets and retries on reused connections.",
 ["fault_sequences", "schedules", "crash_points"], "all network and server failures at any byte position and time, on fresh and reused connections, for every client type",
 "No test performs an HTTP exchange, let alone a failing one.",
 ["client.go", "basic_client.go", "vanguard_client.go", "discovercard_client.go"], [("error propagation", "client.go clientRequest/clientRequestNoParse"), ("status checks", "RawRequest of each client")], ["Client.Request/RequestNoParse return values", "server request log"])
prop("C07", "Connections and background work are released",
 "After a request call returns, successfully or not, the client holds no network connection other than idle ones that later requests reuse, so repeating requests any number of times, with any mixture of failures, never accumulates open connections or goroutines. The same holds for the raw variants once the caller has closed the returned body.",
 ["histories", "fault_sequences", "schedules"], "all sequences of requests with arbitrary failures, for every client type and entry point",
 "Resource growth only shows over sequences of exchanges with failures; no test performs one.",
 ["client.go", "basic_client.go", "vanguard_client.go", "discovercard_client.go"], [("body close", "client.go clientRequest"), ("HTTP client and transport construction", "vanguard_client.go vanguardHttpClient"), ("raw socket handling", "discovercard_client.go discoverCardHTTPPost")], ["open simulated connections", "live goroutines at quiescence"])
prop("C08", "Concurrent use of clients does not mix up requests or responses",
 "Any number of goroutines may use the same client, or different clients of any type, and parse responses at the same time: every call behaves as if it ran alone, sends exactly its own request and returns exactly its own response, with no data race, under every interleaving.",
 ["schedules", "inputs"], "all interleavings of concurrent requests and parses over shared and separate clients",
 "Tests are sequential; the race detector has nothing to observe.",
 ["client.go", "basic_client.go", "vanguard_client.go", "discovercard_client.go", "response.go", "request.go", "leaf_elements.go"], [("no mutable shared state", "client implementations and decoder tables")], ["Client.Request return values per caller", "server request log", "race detector reports"])
prop("C09", "The client time is the local clock's and only documented fields change",
 "Every transmitted request carries the instant of the local clock at the time of the call, correct to the millisecond in every time zone and after clock jumps in either direction. A call changes in the caller's request object only the documented client-controlled fields, which afterwards hold the values that were sent.",
 ["configurations", "histories", "inputs"], "all clock values and jumps, time zones and call sequences",
 "Tests fix one date in two zones; no test compares the transmitted time with the clock.",
 ["request.go", "types.go", "signon.go", "client.go"], [("client time and settings", "request.go SetClientFields"), ("date formatting", "types.go Date.String")], ["DTCLIENT received by the server", "the caller's Request after the call"])
prop("C10", "A configured timeout bounds every request",
 "When the caller configures an HTTP client with a timeout, every request made through the standard client returns within that time plus a few seconds for closing the connection, whatever the network does: hung dials, stalled handshakes, unread requests, stalled or trickling bodies. Without faults the timeout changes nothing.",
 ["fault_sequences", "schedules"], "all stalls at any point of the exchange and any timeout value",
 "Nothing in the tests blocks or times out.",
 ["basic_client.go", "client.go"], [("use of the supplied HTTP client", "basic_client.go RawRequest")], ["virtual time at which the call returns"])
prop("C11", "The cookie handshake of Vanguard completes exactly once and loses nothing",
 "For Vanguard, when the first answer is empty and sets cookies, the same request is sent exactly once more with exactly those cookies and the second answer is the result; when the first answer carries content or sets no cookies it is the result and nothing is resent. Failures of either exchange are errors, the headers and settings configured by the caller apply to both, and servers offering only the older cipher suites are reachable.",
 ["fault_sequences", "inputs", "configurations", "schedules"], "all first and second answers, cookies, framings, TLS settings and failures",
 "No test exercises this client.",
 ["vanguard_client.go", "client.go"], [("retry decision", "vanguard_client.go RequestNoParse"), ("cookie request", "vanguard_client.go rawRequestCookiesInsecureCiphers"), ("client selection", "client.go GetClient")], ["server request log", "Client.Request return values"])
prop("C12", "The Discover client sends exactly the headers Discover accepts",
 "Requests through the Discover client consist of exactly the request line and the four headers Discover requires in their required order, followed by a body of exactly the announced length, whatever reader supplies the body, whatever the URL path and port, and however the network segments it. Its answer is handled like that of every other client in every HTTP framing.",
 ["inputs", "schedules", "fault_sequences"], "all URLs, bodies, readers, reply framings and segmentations",
 "No test exercises this client.",
 ["discovercard_client.go", "client.go"], [("hand-written HTTP request", "discovercard_client.go discoverCardHTTPPost"), ("client selection", "client.go GetClient")], ["raw bytes received by the server"])
prop("C13", "Generated transaction ids are well-formed and carry full randomness",
 "Every generated transaction id has the canonical 36-character UUID form, is made of 16 bytes newly drawn from the system's secure random source and of nothing else, and so never repeats, also across concurrent callers and when the source delivers its bytes piecemeal. If the source fails, no id is returned.",
 ["schedules", "fault_sequences", "histories"], "all outputs, short reads and failures of the random source and all interleavings of concurrent callers",
 "The one test generates a few ids and checks their length; the random source never fails and its use is unobserved.",
 ["types.go"], [("random id", "types.go RandomUID")], ["RandomUID return values", "bytes drawn from the random source"])
prop("C14", "A download command succeeds only if the file holds the complete answer",
 "A download command exits with status 0 only if the output file contains byte for byte the complete body the server sent with status 200. Any failure of the exchange, a body cut short, a full disk, a failing create, write or close ends with a non-zero exit status and a message.",
 ["fault_sequences", "crash_points", "inputs"], "all network, server and disk failures at any byte, all bodies and framings, for every download command",
 "The command-line program has no tests.",
 ["cmd/ofx/bankdownload.go", "cmd/ofx/ccdownload.go", "cmd/ofx/invdownload.go", "cmd/ofx/profiledownload.go"], [("copy and error checks", "cmd/ofx/*download.go")], ["exit status", "output file", "standard output"])
prop("C15", "The listing commands print everything or fail, and never crash",
 "The account and transaction listing commands never crash on any response the library accepts. With exit status 0 they have printed every account, balance and transaction of the answered statement, in order, with their amounts and descriptions; every failure of the exchange, and a sign-on or request the server answered with an error status, gives a non-zero exit status and a message saying so.",
 ["inputs", "fault_sequences"], "all valid responses, including those with optional parts missing, and all failures of the exchange, for every listing command",
 "The command-line program has no tests.",
 ["cmd/ofx/banktransactions.go", "cmd/ofx/cctransactions.go", "cmd/ofx/invtransactions.go", "cmd/ofx/get_accounts.go"], [("printing", "cmd/ofx/*transactions.go, get_accounts.go")], ["exit status", "standard output"])
prop("C16", "Settings detection reports settings the server accepted, best first",
 "Settings detection tries the candidate settings in its fixed order from best to worst, each with the user's credentials and then anonymously, waits the configured delay between attempts, and stops at and reports exactly the first combination for which the server gave a usable answer, whatever failures the other attempts met. It never reports settings the server did not accept.",
 ["fault_sequences", "histories", "schedules", "configurations"], "all server acceptance rules, failures of individual attempts and delays",
 "The command-line program has no tests.",
 ["cmd/ofx/detect_settings.go"], [("search loop", "cmd/ofx/detect_settings.go detectSettings"), ("one attempt", "cmd/ofx/detect_settings.go tryProfile")], ["server request log with times", "standard output", "exit status"])
prop("C17", "An invalid request is refused before anything is sent",
 "A request that violates the documented requirements (missing or overlong sign-on fields, bad transaction ids or bank or card accounts, elements unavailable in the protocol version, messages in the wrong set, unsupported version) is refused with an error and no connection is made. A valid request is never refused.",
 ["inputs", "configurations"], "all requests obtained from valid ones by one violation, all client types and versions; observation of all network activity",
 "Tests cover a handful of invalid values at marshalling level and never observe the network.",
 ["request.go", "signon.go", "bank.go", "types.go", "client.go", "vanguard_client.go"], [("validation", "Valid methods called by request.go Marshal")], ["Client.Request error", "dial log"])
prop("C18", "Damaged input never crashes or hangs the parser",
 "For any byte stream, including valid documents with bytes corrupted, removed, duplicated or reordered in transit, parsing terminates within time proportional to the input and returns either a response or an error, never a panic, an endless loop or unbounded memory. The same holds when the damaged bytes arrive through a client.",
 ["inputs", "fault_sequences"], "all single and multiple corruptions of valid response streams, delivered in any segmentation",
 "Tests contain a few fixed malformed inputs and no corruption.",
 ["response.go", "types.go", "util.go", "invstmt.go", "seclist.go", "profile.go", "constants.go", "bank.go"], [("error returns of the decoders", "UnmarshalXML methods")], ["ParseResponse termination", "step count of the code under test"])
prop("C19", "A response survives being relayed or stored",
 "A response the library accepted can be marshalled, sent or stored and parsed again, and the result has the same version, messages, order and values, any number of times. Marshalling never emits a document it would itself refuse, and a failing relay (cut or damaged copy) is never accepted as the original.",
 ["inputs", "histories", "fault_sequences"], "all accepted responses, chains of relays and cuts",
 "Tests marshal responses of two or three types only and compare text.",
 ["response.go", "types.go", "common.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "signup.go", "profile.go", "signon.go", "constants.go"], [("response marshalling", "response.go Marshal"), ("value formatting", "types.go MarshalXML methods")], ["Response.Marshal output", "ParseResponse of it"])
prop("C20", "Raw requests and raw answers pass through byte for byte",
 "The raw request entry point sends exactly the bytes its reader yields, whatever the reader's pace and sizes, and the raw answer delivers to the caller exactly the bytes the server sent, or an error at the point of failure. A failing request reader makes the call fail and the server never sees a request that looks complete.",
 ["inputs", "fault_sequences", "schedules"], "all payloads, reader behaviours and failures, reply framings, segmentations and client types",
 "No test performs an HTTP exchange.",
 ["basic_client.go", "discovercard_client.go", "vanguard_client.go", "client.go"], [("raw request", "RawRequest of each client")], ["bytes received by the server", "bytes read from the returned body"])
prop("C21", "A response that breaks the OFX rules is reported as invalid",
 "When a syntactically well-formed response violates a rule the library checks (missing or conflicting transaction fields, wrong balance or account types, bad status severity, elements not in the protocol version, overlong ids, malformed values or values outside an enumeration, a document with another root element, without its sign-on at the start or with elements where only message sets belong, a header without its required entries or with a wrong header number, version, security or compression), parsing reports an error and the request call returns the error and no response. The same document without the violation is accepted.",
 ["inputs", "fault_sequences"], "all valid responses with one rule violated by a faulty server, at any position among other messages",
 "Tests validate a few hand-built values; none sends a rule-breaking document through a client.",
 ["response.go", "bank.go", "common.go", "types.go", "signon.go", "signup.go"], [("validation of parsed responses", "response.go Valid and the messages' Valid methods")], ["ParseResponse error", "Client.Request return values"])
prop("C22", "Command-line settings reach the bank and a dry run sends nothing",
 "The request a command sends is exactly the one its flags describe: URL, credentials, institution, client identity, version, formatting, user agent and account. With the dry-run flag the command makes no connection, leaves files alone and prints the request it would have sent; with missing or wrong flags it makes no connection and exits with a non-zero status.",
 ["configurations", "inputs"], "all commands and flag combinations, observed at the simulated network",
 "The command-line program has no tests.",
 ["cmd/ofx/command.go", "cmd/ofx/util.go", "cmd/ofx/main.go", "cmd/ofx/bankdownload.go", "cmd/ofx/banktransactions.go", "cmd/ofx/ccdownload.go", "cmd/ofx/cctransactions.go", "cmd/ofx/invdownload.go", "cmd/ofx/invtransactions.go", "cmd/ofx/profiledownload.go", "cmd/ofx/get_accounts.go"], [("flag handling", "cmd/ofx/command.go"), ("request construction", "cmd/ofx/util.go newRequest")], ["server request log", "dial log", "exit status", "standard output"])
prop("C23", "After failures stop, the next request succeeds",
 "A client and a request object remain usable after any sequence of failed exchanges: once the network and server behave again, the first request completes successfully within the time the network needs for one exchange, without recreating the client.",
 ["fault_sequences", "histories", "schedules"], "all finite failure sequences on a client followed by a fault-free exchange",
 "No test performs two exchanges or any failing one.",
 ["client.go", "basic_client.go", "vanguard_client.go", "discovercard_client.go", "request.go"], [("no sticky state", "client implementations"), ("connection reuse", "HTTP client use in RawRequest")], ["Client.Request return values", "virtual time of completion"])

prop("C24", "Equality of values and messages is structural",
 "Comparing two dates, amounts, ids, accounts or messages reports equality exactly when they denote the same values.",
 ["inputs"], "all pairs of values", "Tests compare a few pairs.", ["types.go", "common.go"], [("Equal methods", "types.go")], ["Equal return values"])
prop("C25", "Status codes are explained as the specification does",
 "Every status code the specification defines is reported with its own meaning and conditions, and unknown codes are reported as such.",
 ["inputs"], "all status codes", "Tests look up two codes.", ["common.go"], [("status tables", "common.go")], ["CodeMeaning, CodeConditions return values"])
prop("C26", "Enumeration values convert to and from text without loss",
 "Every enumeration value's text form converts back to the same value and every other text is refused.",
 ["inputs"], "all enumeration values and texts", "Generated tests cover the listed values.", ["constants.go"], [("enumeration tables", "constants.go")], ["New*, String return values"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
