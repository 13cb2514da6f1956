#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
PRO = "proactive/proactive.go"; HT = "proactive/apache_httpd.go"; RE = "reactive/reactive.go"
TR = "transparent/transparent.go"; RV = "transparent/rvsa.go"; BA = "representation/base.go"
LI = "representation/list.go"

def p(id, title, st, over, q, why, files, mech, state=None, obs=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

ONE = "The existing tests negotiate one request at a time, each on a fresh negotiator with no fault; "
OBS = ["return value of Negotiate", "calls on http.ResponseWriter (Header, WriteHeader, Write)"]
HOOK = "none in /repo: yields are inserted by a build-time source overlay"

p("C01", "Proactive: concurrent and earlier requests never affect a response",
  "However many requests are negotiated at the same time through a shared proactive negotiator over shared representations, and whatever requests (served, refused, failed, aborted) came before, every request gets exactly the response (status, headers, body, returned error) it would get alone on a freshly started server. In particular a 200 or 406 answer is always computed from that request's own headers and its own offered representations.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent Negotiate calls (statement granularity), every history of earlier requests with faults in them, every negotiator configuration sampled",
  ONE + "none runs two requests on one negotiator, so sharing between requests is never exercised.",
  [PRO, HT, "internal/header/accept.go", "internal/header/accept_language.go", "internal/header/accept_charset.go", "internal/header/accept_encoding.go", LI, BA],
  [("negotiator is passed by value and keeps no per-request state", PRO + " Negotiate"),
   ("header values are parsed afresh per request; in-place sorting touches only that copy", "internal/header/accept.go MediaRanges"),
   ("list representations are built per request", PRO + " jsonList/xmlList/yamlList")],
  [("Default", "package-level negotiator shared by every importer", PRO),
   ("header.DefaultAccept*", "package-level header values, sorted in place when queried", "internal/header")], OBS, HOOK)
p("C02", "Reactive: concurrent and earlier requests never affect a response",
  "However many requests are negotiated at the same time through a shared reactive negotiator over shared representations, and whatever requests (served, failed, aborted) came before, every request gets exactly the response (status, headers, body, returned error) it would get alone on a freshly started server. In particular the 300 list describes exactly the representations offered to that request, once each and in the order offered.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent Negotiate calls, every history of earlier requests with faults in them",
  ONE + "a list that accumulates or leaks between requests passes them.",
  [RE, LI, BA], [("a new list is built per request", RE + " jsonList"), ("negotiator passed by value", RE + " Negotiate"),
                 ("metadata appended to that new list only", LI + " SetRepresentations")], None, OBS, HOOK)
p("C03", "Transparent: concurrent and earlier requests never affect a response",
  "However many requests are negotiated at the same time through a shared transparent negotiator over shared representations, and whatever requests (served, failed, aborted) came before, every request gets exactly the response (list or choice, status, Alternates and TCN headers, body, returned error) it would get alone on a freshly started server. In particular the Alternates header always carries the complete variant list of that very request.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent Negotiate calls, every history of earlier requests with faults in them",
  ONE + "and most replace the selection algorithm with a mock.",
  [TR, RV, "internal/header/alternates.go", "internal/header/accept_features.go", "internal/header/feature_set.go", "internal/header/negotiate.go", "internal/header/tcn.go"],
  [("negotiator and algorithm carry no per-request state", TR + " Negotiate; " + RV + " Choose"),
   ("feature sets are built per request", "internal/header/accept_features.go AsFeatureSets"),
   ("variant descriptions are built per response", "internal/header/alternates.go NewAlternates")], None, OBS, HOOK)
p("C04", "Sharing negotiators and representations across goroutines is race-free",
  "Negotiators, selection algorithms and representations may be shared by any number of goroutines without external locking. No two concurrent negotiations, constructions of negotiators, serializations or deserializations ever make unsynchronised conflicting accesses to the same memory.",
  ["schedules", "histories"],
  "every pair of concurrently running calls under every interleaving; conflicting accesses are found whatever their order",
  ONE + "the race detector is not part of the recorded test run and would have nothing concurrent to look at.",
  [PRO, HT, RE, TR, RV, BA, LI, "internal/header"],
  [("value receivers and per-call locals", PRO + " / " + RE + " / " + TR + " Negotiate"),
   ("package-level tables are only read", BA + " default marshallers and codings")],
  [("defaultMarshallers etc.", "package-level maps, read concurrently", BA)], ["happens-before race monitor over the simulated schedule"], HOOK)
p("C05", "Negotiation never modifies what the caller handed in",
  "After every negotiation, however it ended, the request's headers and URL, the caller's slice of representations (elements, order and spare capacity), each representation's metadata and the values given when the negotiator was built are exactly what they were before. A caller may therefore reuse the same request and the same slice for further negotiations, concurrently or in sequence.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of negotiations over the same caller-owned objects, interrupted by any fault",
  ONE + "and none looks at its inputs afterwards or uses them twice.",
  [PRO, HT, RE, TR, RV, "representation/set.go", LI],
  [("algorithms sort their own set of ranked copies", "representation/set.go Sort"), ("headers are only read", HT + " Choose")],
  None, ["request, slice and metadata snapshots around each call"], HOOK)
p("C06", "A failure before the response starts leaves the response untouched",
  "When negotiation fails before the response has started (a malformed negotiation header, a failing selection algorithm, a representation or list that cannot be serialized, too many variants), Negotiate returns the failure and the response is left untouched: no header added, no status sent, no body byte written. The caller can then still answer with an error response of its own.",
  ["fault_sequences", "schedules"],
  "a fault at any call into a representation, list constructor, algorithm or codec, transient or persistent, in any interleaving",
  "The tests inject one algorithm error and never look at the response afterwards; no test makes serialization fail inside a negotiation.",
  [PRO, HT, RE, TR, RV, "internal/header/alternates.go"],
  [("serialization precedes every use of the response writer", PRO + " acceptable/notAcceptable; " + RE + " Negotiate; " + TR + " listResponse/choiceResponse")],
  None, OBS, HOOK)
p("C07", "A response is committed once and a failing client write is reported",
  "A negotiation sends at most one status line, sets all of its headers before that status, writes body bytes only after it, and writes nothing more once a write has failed. When the client connection fails at any byte of the body, Negotiate returns that failure and never reports success; an abort (panic) raised by the connection reaches the caller unchanged.",
  ["fault_sequences", "crash_points", "schedules"],
  "a write error, short write or abort at every byte offset of every kind of response",
  "The tests use httptest.ResponseRecorder, which never fails, and do not record the order of calls.",
  [PRO, RE, TR],
  [("headers, then WriteHeader, then one Write whose error is returned", PRO + " acceptable/notAcceptable; " + RE + " Negotiate; " + TR + " listResponse/choiceResponse")],
  None, OBS, HOOK)
p("C08", "A sent body is one whole serialization of the representation it is labelled",
  "Whenever a negotiation succeeds with a body, that body is one complete, successful serialization of a single representation (or of the list), and Content-Length, Content-Type, Content-Encoding, Content-Language, Content-Charset and Content-Location describe exactly that body and representation. This holds even when a representation's content changes between serializations made during the same negotiation, or some of those serializations fail.",
  ["schedules", "fault_sequences", "histories"],
  "content that changes at any serialization or at any point of the interleaving, and serialization failures that come and go",
  "Every representation in the tests serializes to the same bytes each time and never fails, so mixing two serializations is invisible.",
  [PRO, HT, RE, TR],
  [("one serialization per response: its length and bytes are used together", PRO + " acceptable; " + TR + " choiceResponse"),
   ("selection works on sizes measured before", HT + " smallestContentLength")], None, OBS, HOOK)
p("C09", "Every negotiation is counted once, under the outcome it really had",
  "For every negotiation that returns, the documented counters gain exactly one count in total for proactive and reactive negotiators: error if and only if an error was returned, otherwise the counter of the status actually sent (acceptable for 200/201, not_acceptable for 406, multiple_choices for 300, no_content for 204); a transparent negotiation counts error if and only if it returned one. Totals over any concurrent, faulty history equal the outcomes clients saw, under the negotiator's own tag.",
  ["histories", "schedules", "fault_sequences"],
  "every history of concurrent negotiations with faults; counters compared with what the response writers saw",
  "The tests pass a no-op metrics scope everywhere, so no count is ever looked at.",
  [PRO, RE, TR],
  [("deferred error counting", PRO + " / " + RE + " / " + TR + " Negotiate"), ("outcome counters", PRO + " acceptable/notAcceptable; " + RE + " Negotiate")],
  None, ["tally.Scope handed in by the caller", "http.ResponseWriter"], HOOK)
p("C10", "The negotiate timer reports the time each negotiation really took",
  "Every negotiation, whether it succeeds, fails or is aborted, reports exactly one sample on the negotiate timer, tagged with its negotiator's type. The sample covers the whole negotiation: slow selection, slow serialization and a slow or stalled client are included and no time spent outside the negotiation is.",
  ["schedules", "fault_sequences"],
  "every placement of slow calls, stalls, clock jumps and failures in simulated time, with other requests interleaved",
  "The tests pass a no-op metrics scope and run in microseconds of real time.",
  [PRO, RE, TR], [("deferred stopwatch", PRO + " / " + RE + " / " + TR + " Negotiate")],
  None, ["tally.Timer handed in by the caller, on the simulated clock"], HOOK)
p("C11", "Logging and metrics never influence the negotiated outcome",
  "For every request, the response and the returned error are the same whether logging and metrics are off, on at any level, slow, or failing to write their records. However an observability back end loses, delays or fails to write its records, no negotiation is changed or failed by it.",
  ["fault_sequences", "schedules", "configurations"],
  "every logger level and sink fault (errors, latency) and every metrics scope, with concurrent requests",
  "The tests use the no-op logger and scope only.",
  [PRO, RE, TR], [("log and metric calls discard errors", PRO + " / " + RE + " / " + TR)], None, OBS, HOOK)
p("C12", "No fault, abort or stalled client wedges a negotiator",
  "Every negotiation terminates in a bounded number of steps once its own callbacks return, however other requests fail, panic or stall; a client or representation that is slow, or never finishes, delays nobody else. Once faults stop, the next request through any shared negotiator is served normally.",
  ["schedules", "fault_sequences", "crash_points"],
  "stalls, errors and panics at any call into caller code, at any point of the interleaving, followed by fault-free probe requests",
  "No test has more than one request in flight or continues after a failure.",
  [PRO, HT, RE, TR, RV, BA], [("no locks and no sticky failure state", PRO + " / " + RE + " / " + TR + " Negotiate")], None, OBS, HOOK)
p("C13", "No request, representation or fault makes negotiation panic",
  "Negotiation never panics of its own accord: not for malformed request headers, for missing or malformed representation metadata, for an empty offer, for failing callbacks, nor for content whose size changes between serializations. Such conditions end in a normal response or a returned error.",
  ["fault_sequences", "inputs", "schedules"],
  "malformed headers and metadata, empty offers, failures and size changes injected at any call, in any combination",
  "The tests offer well-formed, constant representations; the failing combinations need content to change between two calls or several oddities at once.",
  [PRO, HT, RE, TR, RV, "internal/header"],
  [("errors are returned, sets are checked for emptiness", HT + " Choose"), ("feature lists are validated when scored", RV + " acceptFeatureQuality")], None, OBS, HOOK)
p("C14", "Serialization never reports success for a partial or failed encoding",
  "When the marshaller or any content coding in a representation's stack fails while serializing (on opening, at any written byte, or on closing), serialization returns that failure. Bytes returned without an error always decode to the complete content.",
  ["fault_sequences", "crash_points"],
  "a failure of any coding in a stack of any depth at construction, at every byte offset written, and at close",
  "The tests never execute a failing encoder and never stack codings.",
  [BA, "representation/writer_constructor.go"], [("every constructor, write and close error is returned", BA + " encode")],
  None, ["return value of Bytes", "custom encoding writers"], HOOK)
p("C15", "Deserialization never yields content from damaged or failing input",
  "When any content coding in a representation's stack fails while deserializing (on opening, at any read byte, or on closing) or the unmarshaller fails, deserialization returns an error, and it never panics. Stored bytes that carry a content coding and were truncated at any point, or were corrupted under a checksummed coding, never deserialize without error into content that differs from the original.",
  ["fault_sequences", "crash_points"],
  "read faults at every offset of every coding in the stack; truncation at every length; bit and byte corruption at every position",
  "The tests decode only what they just encoded, in memory, without faults.",
  [BA, "representation/reader_constructor.go"], [("every constructor, read and close error is returned", BA + " decode")],
  None, ["return value of FromBytes", "custom encoding readers"], HOOK)
p("C16", "Every content coder that was opened is closed exactly once",
  "Whether serialization or deserialization succeeds or fails at any point, every encoding writer and reader that was successfully opened for it is closed exactly once before the call returns, and is not used afterwards.",
  ["fault_sequences", "crash_points", "schedules"],
  "every coder stack and every failure point (open, write/read at any byte, close of any layer), with concurrent calls",
  "No test counts closes; the tests' custom coders are never invoked.",
  [BA], [("close of the coder chain", BA + " encode/decode")], None, ["custom encoding writers and readers"], HOOK)
p("C17", "Encoding stacks round-trip, in header order, under concurrency and chunking",
  "For any stack of supported content codings, serializing and then deserializing gives back the same content, and the bytes on the wire are the content with the codings applied in the order the Content-Encoding lists them. This holds with any number of calls running concurrently on shared representations and however coders split, buffer or delay their reads and writes.",
  ["schedules", "fault_sequences", "histories"],
  "coding stacks of depth 0-4, interleaved concurrent calls, coders with short reads, empty reads, data-with-EOF and delayed flushes",
  "The tests use at most one coding, one call at a time, and whole-buffer reads and writes.",
  [BA, "representation/reader_constructor.go", "representation/writer_constructor.go", LI],
  [("encode applies codings, decode undoes them in reverse", BA + " encode/decode")], None, ["wire bytes", "round-tripped value"], HOOK)
p("C18", "Outcomes do not depend on unordered iteration",
  "The same request over the same representations gives the same response, the same returned error and the same counters every time it is negotiated, in every process and whatever order the runtime iterates over unordered collections.",
  ["schedules", "histories", "configurations"],
  "every iteration order of every map the library ranges over, and every process hash seed",
  "Each test negotiates once per process under one iteration order.",
  [HT, RV, "internal/header/media_range.go", "internal/header/feature_set.go", "internal/header/alternates.go"],
  [("attribute keys are sorted before rendering", "internal/header/alternates.go String"), ("map ranges are order-insensitive searches", "internal/header/feature_set.go")],
  None, OBS, "none in /repo: the overlay turns map ranges into seeded permutations")
p("C19", "Serialized bytes belong to the caller and never change afterwards",
  "A byte slice obtained from serializing a representation or list, and a body handed to the response writer, keep their content for as long as they are held, whatever negotiations, serializations or deserializations run later or concurrently. Overwriting such a slice, or the input of a finished deserialization, affects no later result.",
  ["histories", "schedules"],
  "every later or concurrent call on the same or other representations; slices held, compared and then overwritten",
  "Each test consumes its bytes at once and never holds them across another call.",
  [BA, LI, PRO, RE, TR], [("a new buffer per serialization", BA + " encode")], None, ["slices returned by Bytes", "slices passed to Write"], HOOK)
p("C20", "Building or using one negotiator never alters another",
  "Constructing negotiators with any options, at any time and concurrently with traffic, never changes the behaviour of a negotiator that already exists or of one built later with other options; the package defaults always behave as documented. Each negotiator keeps answering according to the options it was built with for its whole life.",
  ["histories", "schedules", "configurations"],
  "every interleaving of constructions (all options) and negotiations",
  "Each test builds one negotiator and uses it once.",
  [PRO, "proactive/proactive_options.go", RE, "reactive/reactive_options.go", TR, "transparent/transparent_options.go"],
  [("defaults are rebuilt inside each constructor call", PRO + " New; " + RE + " New; " + TR + " New")], None, OBS, HOOK)

# --- pure functions of their input: stated, not claimed (see MANIFEST.json not_applicable) ---
def n(id, title, st, why, files, mech):
    p(id, title, st, ["inputs"], "every request header value and every offered set of representations", why, files, mech)
n("N01", "A refused representation is never sent with 200",
  "With strict mode on, a 200/201 response never carries a representation whose media type, language or charset the request's Accept headers exclude (no matching range, or quality 0).",
  "Tests sample a few dozen header and representation combinations of an unbounded input space.", [PRO, HT], [("strict-mode counting and zero-quality elimination", PRO + " Negotiate; " + HT + " Choose")])
n("N02", "Proactive choice follows the Apache httpd precedence",
  "Among acceptable representations the one chosen maximises, in order, source and media-type quality, language quality, language order, HTML level, charset quality, non-ISO-8859-1, encoding quality, and then minimises content length.",
  "Tests sample one or two cases per filter.", [HT], [("filter pipeline", HT + " ApacheHTTPD")])
n("N03", "Remote variant selection follows RFC 2296",
  "A choice response is given only for the variant with the highest overall quality, when that quality is above zero and definite and the variant is a neighbour of the negotiated resource; otherwise a list response is sent.",
  "Tests sample a few cases and mostly mock the algorithm.", [RV, TR], [("overallQuality and IsDefinite", RV + " Choose"), ("isNeighbor", TR + " Negotiate")])
n("N04", "Negotiation headers are parsed as the RFCs define them",
  "Every well-formed Accept, Accept-Language, Accept-Charset, Accept-Encoding, Accept-Features and Negotiate header is understood as its grammar defines, including lists in one field line, wildcards and quality values.",
  "Tests sample individual header values.", ["internal/header"], [("range parsers", "internal/header")])
n("N05", "Feature predicates and expressions evaluate as RFC 2295 defines",
  "Every feature predicate, bag and list evaluates to the truth value and degradation factor RFC 2295 defines for the feature sets an Accept-Features header describes.",
  "Tests sample individual predicates.", ["internal/header/feature_predicate.go", "internal/header/feature_expression.go", "internal/header/feature_list_element.go", "internal/header/feature_set.go"], [("Evaluate methods", "internal/header/feature_predicate.go")])
n("N06", "Quality values compare and round to three decimals",
  "Quality values outside 0..1 are rejected and all comparisons between quality values respect the three-decimal precision of RFC 7231.",
  "Tests sample a few values.", ["internal/header/quality_value.go"], [("Round, Equals, GreaterThan", "internal/header/quality_value.go")])
n("N07", "List bodies, Alternates and TCN render every variant faithfully",
  "For every offered set, a list body and an Alternates header describe each representation's metadata completely and in the documented syntax.",
  "Tests sample a few representations.", [LI, "internal/header/alternates.go", "internal/header/tcn.go"], [("SetRepresentations; variantDescription", LI + "; internal/header/alternates.go")])
n("N08", "Options and strict mode select exactly the documented behaviour",
  "Each option changes exactly the documented aspect of a negotiator: strict-mode switches decide between 406 and disregarding a header, size limits and guess-small thresholds are honoured exactly, list constructors are the ones used.",
  "Tests sample one value per option.", ["proactive/proactive_options.go", "transparent/transparent_options.go", "reactive/reactive_options.go"], [("option functions", "proactive/proactive_options.go")])
n("N09", "Content codings use the registered wire formats",
  "The gzip, compress and deflate codings produce and accept the formats registered for those names in RFC 7231.",
  "Tests decode with the same code that encoded.", ["representation/writer_constructor.go", "representation/reader_constructor.go"], [("coder constructors", "representation/writer_constructor.go")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
