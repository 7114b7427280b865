# The properties: one P(...) each. gen.py turns them into properties.jsonl, MANIFEST.json and the
# per-property part of DESIGN.md.
PROPS = []


def P(id, title, statement, over, text, why, files, mech, how, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, how=how, state=state or []))


P("C01", "Headers are a case-insensitive, order-preserving multimap",
  "A header collection (on its own, or inside a request, a response or trailers) behaves as a map from case-insensitive names to non-empty ordered lists of values: insert replaces the list and returns the old one, append adds at its end, remove takes it out, and every lookup, index, iterator, size hint and whole-collection operation shows exactly that map. An operation that reports an error leaves the collection as it was, and no sequence of operations makes a name present without a value.",
  ["histories", "inputs"], "every sequence of operations, names, spellings and value argument forms",
  "Unit tests run a few fixed calls; the guarantee concerns every interleaving of inserts, appends, removals, mutable access and iteration, and every spelling.",
  ["src/headers/headers.rs", "src/headers/header_values.rs", "src/headers/values.rs", "src/headers/names.rs", "src/headers/iter.rs", "src/headers/to_header_values.rs"],
  [("Headers: map from lower-case name to values", "src/headers/headers.rs"), ("HeaderValues list", "src/headers/header_values.rs"), ("argument forms", "src/headers/to_header_values.rs")],
  "The reachable states of a header collection under all operations are enumerated to a depth with a reference multimap run in lock step; after each operation every observer is compared.")

P("C02", "Header names and values accept exactly ASCII and keep their text",
  "A header name or value can be made through the checked constructors from exactly the ASCII texts, and from nothing else, without panicking. A name is its text in lower case, compares and hashes regardless of the spelling it came from, and a value is its text unchanged, in every way either can be displayed, compared or converted. Converting a media type or a cookie gives the text it displays, as ASCII.",
  ["inputs"], "every byte string offered as a name or value",
  "Tests try a handful of names; acceptance and case folding are claims about all byte strings.",
  ["src/headers/header_name.rs", "src/headers/header_value.rs", "src/headers/constants.rs"],
  [("ASCII check and lower-casing", "src/headers/header_name.rs from_bytes/from_str"), ("ASCII check", "src/headers/header_value.rs from_bytes/from_str")],
  "All byte strings of length 0 to 2, length 3 over class representatives (all first bytes by representatives and all 65536 tails in thorough), long values, and all header-name constants are enumerated through every constructor.")

P("C03", "A body delivers its declared bytes exactly, however it is read",
  "Reading a body to the end through any mixture of its read interfaces and buffer sizes yields the first declared-length bytes of its source (all of them if no length is declared), in order and once, and then only end-of-file. A pause of the source is passed on with its wake-up, a failure of the source is reported as the same kind of failure without losing or repeating a byte, and the body never takes more than the declared length from the source nor grows the reported length.",
  ["schedules", "fault_sequences", "inputs"], "every chunking, pause and failure of the source, every mixture of read calls and buffer sizes, every declared length",
  "Tests read well-behaved in-memory bodies to the end; short reads, Pending, errors and mixed read interfaces at every position are not sampled.",
  ["src/body.rs"],
  [("AsyncRead / AsyncBufRead for Body", "src/body.rs poll_read, poll_fill_buf, consume"), ("declared length accounting", "src/body.rs bytes_read")],
  "The real Body is driven by an explorer that chooses every consumer call and every answer of a scripted source (full chunk, one byte, Pending, error) up to a bound on departures; bytes, errors, wake-ups and end-of-file are compared with the source at each poll.",
  [("length / bytes_read", "declared and delivered byte counts", "src/body.rs struct Body")])

P("C04", "Chaining bodies concatenates them and combines their metadata",
  "Chaining bodies gives a body that delivers the remaining declared bytes of the first and then of the second, and nothing else, under every way of reading, pausing and failing, also when a part was partly read before or is longer or shorter than declared. The chained length is the sum of the remaining lengths if both are known and representable and unknown otherwise, and the media type is kept only as far as the parts agree as documented.",
  ["schedules", "fault_sequences", "inputs", "histories"], "all pairs and triples of parts, declared lengths, earlier partial reads, read schedules",
  "The three existing tests chain in-memory strings and read them once.",
  ["src/body.rs"], [("Body::chain", "src/body.rs chain"), ("length limit on each part", "src/body.rs poll_read")],
  "As C03, over chains of two and of three parts (associated both ways), each with its own declared length, chunking and partial consumption.")

P("C05", "Whole-body conversions return exactly the body or an error",
  "Turning a body into bytes, a string, JSON or a form value returns exactly what its declared bytes denote, or an error: malformed content is an error with status 422, an error of the source is an error, and no content, declared length or read schedule panics, truncates or is accepted wrongly. Building a body from a string, bytes, JSON or form value sets its length and media type so that converting it back gives the value.",
  ["inputs", "schedules", "fault_sequences"], "all body contents over the token sets, chunk boundaries and source failures",
  "Tests convert one or two well-formed bodies; UTF-8 split at every reader boundary, wrong lengths and malformed text need enumeration.",
  ["src/body.rs"], [("into_bytes/into_string/into_json/into_form", "src/body.rs"), ("from_* constructors", "src/body.rs")],
  "Every concatenation of a bounded number of JSON and form tokens, all short byte strings, and every split of multi-byte text by the source are converted through Body, Request and Response, against serde_json and a hand-written form decoder.")

P("C06", "File bodies carry the file's bytes, length and media type",
  "A body made from a file delivers the file from its start to its end with exactly that length, whatever position the handle was at before, and its media type is sniffed from the file's first bytes, else guessed from the extension, else the default. A file that cannot be opened is an error, and the extension table answers the registered type for each known extension only.",
  ["inputs", "configurations"], "file contents, sizes around the sniffing window, names, constructors, handle positions, read modes",
  "Two fixture files are read once each; sizes around the sniff window, handle positions and clashes of content with extension are not covered.",
  ["src/body.rs", "src/mime/mod.rs"], [("Body::from_path / from_file", "src/body.rs"), ("peek_mime, guess_ext", "src/body.rs"), ("Mime::sniff / from_extension", "src/mime/mod.rs")],
  "Every combination of content kind, size, file name, constructor, initial handle position and read mode is run on real files in a scratch directory.")

P("C07", "Setting, replacing and taking bodies keeps message and header consistent",
  "Across every history of setting, replacing, swapping, taking and converting bodies and of setting and removing the content type, a request or response holds exactly the body last put in and each body taken out is the one that was in. The content-type header is the one last set explicitly, or, while none is present, follows the body put in, and the reported length and emptiness are those of the body held.",
  ["histories"], "every sequence of body and content-type operations on requests and responses",
  "Tests check single operations; who wins between explicit content type and body media type depends on the history.",
  ["src/request.rs", "src/response.rs", "src/body.rs"], [("set_body/replace_body/swap_body/take_body", "src/request.rs, src/response.rs"), ("copy_content_type_from_body", "src/request.rs, src/response.rs")],
  "Breadth of all operation histories to a bounded depth with a reference state machine for (body, content-type) stepped alongside.")

P("C08", "Trailers sent are received once, whatever the interleaving",
  "The trailers channel of a request or response hands out its sender once and its receiver once; what is sent is received exactly once and unchanged, a receiver whose sender is gone without sending ends with none, and neither side is left waiting without a wake-up once the other has acted. This holds for every interleaving of obtaining, sending, polling and dropping the two ends and the message.",
  ["schedules", "histories"], "every interleaving of the channel actions, cancellations included",
  "The tests run one order (send in a task, receive in the other) and no cancellation or early drop.",
  ["src/trailers.rs", "src/request.rs", "src/response.rs"], [("Sender/Receiver over a channel of capacity 1", "src/trailers.rs"), ("send_trailers/recv_trailers", "src/request.rs, src/response.rs")],
  "Every interleaving of atomic actions (take an end, start, poll or drop the send, poll or drop the receiver, drop the message) is executed on the real code under a counting waker, then completed fairly; delivery and wake-ups are checked against a channel model.")

P("C09", "Upgrade hands over one connection and passes its bytes through",
  "The upgrade channel of a request or response hands out its sender once and its receiver once; the connection sent is received exactly once, a receiver whose sender is gone ends with none, and neither side waits without a wake-up, for every interleaving of obtaining, sending, polling and dropping. The received connection passes reads, writes, flushes and closes, their results, pauses and errors through unchanged and one for one.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of channel actions; every short sequence of calls and answers on the connection",
  "There are no tests of upgrade beyond compilation of the API.",
  ["src/upgrade/connection.rs", "src/upgrade/receiver.rs", "src/upgrade/sender.rs", "src/request.rs", "src/response.rs"],
  [("upgrade Sender/Receiver", "src/upgrade/sender.rs, src/upgrade/receiver.rs"), ("Connection forwarding", "src/upgrade/connection.rs")],
  "The same explorer as C08 with the upgrade kind, plus all short call sequences against a scripted inner stream which records the calls it gets.")

P("C10", "Message heads remember what was set, and clones are independent",
  "Version, peer and local address, method or status, URL, headers, extensions and the trailers and upgrade flags of a request or response are exactly what the last change to each made them, and no change to one alters another. A clone has the same head with an empty body, no extensions and no flags, and later changes to either do not show in the other; the constructors, conversions and method shorthands make exactly the head they name.",
  ["histories"], "every sequence of head operations and clones",
  "Tests check each accessor once; cross-talk and clone aliasing appear only in histories.",
  ["src/request.rs", "src/response.rs"], [("accessors and Clone", "src/request.rs, src/response.rs"), ("shorthands and From impls", "src/request.rs, src/response.rs")],
  "All histories of head operations to a depth with a reference record, on Request and Response, including clone-and-continue with either copy.")

P("C11", "Extensions hold one value per type and drop it once",
  "The extensions map holds at most one value per type: insert returns the previous value of that type, get, get_mut, contains and remove see exactly the value last inserted, values of other types are never affected, and clear empties it. Every value is dropped exactly once.",
  ["histories"], "every sequence of insert, remove, mutate and clear over several types",
  "The one test inserts and removes two types.",
  ["src/extensions.rs"], [("type-keyed map", "src/extensions.rs")],
  "All operation histories over five value types to a depth with a reference map, all types observed after each step; drop counts checked.")

P("C12", "Status codes are exactly the named numbers",
  "A number converts to a status code exactly if it is one of the codes the crate names, and that code converts back to the number, displays it, compares with it, has its registered reason phrase, and answers each of the five class questions by its first digit. Serialization writes the number and deserialization accepts exactly the named numbers, whatever integer width they arrive in.",
  ["inputs"], "all integers of every width offered to conversion, comparison and deserialization",
  "Tests convert a few codes; acceptance is a claim about all integers.",
  ["src/status_code.rs"], [("TryFrom<u16>, From, Display, canonical_reason", "src/status_code.rs"), ("serde", "src/status_code.rs")],
  "All 65536 values exhaustively, all pairs of codes, and a contiguous range plus all width boundaries through every serde integer entry point.")

P("C13", "Methods and versions parse from exactly their names",
  "A method parses from exactly the registered method names in any case and from nothing else, and displays, serializes and converts to its registered name; the safety question is answered as registered. A protocol version parses from and displays exactly its token, and versions are ordered by number.",
  ["inputs"], "every string within the bounds offered as a method or version",
  "Tests parse a few names; rejection and case folding concern all strings.",
  ["src/method.rs", "src/version.rs"], [("FromStr/Display/AsRef", "src/method.rs, src/version.rs"), ("is_safe", "src/method.rs")],
  "All case variants of all names, all strings within one edit, and all short strings over an alphabet.")

P("C14", "Errors keep their cause, status and type through every change",
  "An error made in any documented way keeps its message, its cause (for downcasting by value and by reference), the chain of further causes and its type name under every sequence of status changes and in every view (Display, the standard and anyhow views, the boxed error), and its status is the one last set, or the documented default, whatever the sort of the source. The macros bail!, ensure!, ensure_eq! and format_err! take a literal, a format string or any message value alike. Attaching a status to a result or option touches only failures, converts an invalid status only by the documented panic, and evaluates its lazy argument only on failure.",
  ["histories", "inputs"], "every way of making an error, then every sequence of status changes and of taking it apart",
  "Tests cover a few constructions; the status must survive all sequences.",
  ["src/error.rs", "src/status.rs", "src/macros.rs"], [("Error", "src/error.rs"), ("Status trait", "src/status.rs"), ("macros", "src/macros.rs")],
  "All constructions x all named status codes x all sequences of status changes to a depth x all ways to take the error apart; chains of context, source error types, messages, and every macro form.")

P("C15", "Conversions from and to hyperium http lose nothing",
  "Converting headers, requests, responses, methods, versions and status codes to the http crate and back preserves every header line in order per name, the head (a missing version standing for HTTP/1.1 on the other side) and the body with its length and media type. What one side cannot represent is an error (or the documented default), never a panic, a truncated value or a silently missing line.",
  ["inputs"], "all header multimaps, heads, values and URLs within the bounds, in both directions",
  "The tests convert one message each way.",
  ["src/hyperium_http.rs"], [("From/TryFrom impls", "src/hyperium_http.rs")],
  "All header-line sequences to a depth, all methods, codes, versions, all header value bytes, unknown methods and codes, in both directions with field-by-field comparison.")

P("C16", "The request's remote address and host come from the right source",
  "The remote address of a request is the first 'for' of the Forwarded header, else the first of X-Forwarded-For, else the peer address; the host is the 'host' of Forwarded, else the first of X-Forwarded-Host, else the Host header, else the URL's host. No header content makes either panic or answer part of another parameter.",
  ["inputs", "configurations"], "every combination of the sources and every Forwarded line of the bounded grammar",
  "Tests use four Forwarded lines; order, quoting and lists of parameters multiply.",
  ["src/request.rs"], [("remote, host, forwarded_header_part", "src/request.rs")],
  "All Forwarded lines built from parameter shapes and joiners, times presence and shape of every other source, against a grammar-directed reference.")

P("C17", "Query values survive set_query and query",
  "A value serialized into a request's URL with set_query reads back equal with query, whatever characters its strings contain, and replaces only the query of the URL. Reading a query string that does not denote the asked-for type is an error with status 400, never a panic.",
  ["inputs"], "all string contents over the special characters, lists, maps and nested values; malformed query strings",
  "Tests round-trip one ASCII structure.",
  ["src/request.rs"], [("query, set_query via serde_qs", "src/request.rs")],
  "All strings up to a length over reserved, escaped and non-ASCII characters in every position of a structure, list, map and nested value.")

P("C18", "Media types parse and serialize by the WHATWG algorithm",
  "A text parses as a media type exactly if the WHATWG MIME Sniffing parser accepts it, with the type, subtype and parameters that parser gives, names being case-insensitive and the first of equal parameters winning, and removing a parameter takes out exactly it. Its serialization denotes the same media type and parses back equal, and each named constant is its documented type.",
  ["inputs", "histories"], "every text within the bounds",
  "Tests sample the WPT list and do not check parameters, duplicates of charset, or the round trip.",
  ["src/mime/parse.rs", "src/mime/mod.rs", "src/mime/constants.rs"], [("parse, format", "src/mime/parse.rs"), ("param, remove_param", "src/mime/mod.rs"), ("constants", "src/mime/constants.rs")],
  "All token sequences to a depth, every character up to U+0180 in every syntactic position and all parameter lists, against an independent implementation of the WHATWG parser and serializer; all removal sequences.")

P("C19", "Accept negotiates the best acceptable media type",
  "Negotiating over the available types answers, for the proposals by falling weight (the later declared first among equals), the first available type within the proposed range, never one refused with weight zero, then with a wildcard the first not refused, and otherwise an error with status 406; it does so again when repeated or after sorting. A range contains a type exactly if type and subtype agree up to '*' and the range's parameters are among the type's; a malformed header is an error with status 400, never a panic, and a written header reads back the same.",
  ["inputs", "histories"], "all bounded Accept lists, lists of available types, and sequences of push, sort and negotiate",
  "Tests negotiate four fixed lists; order, ties, zero weights and repetition multiply.",
  ["src/content/accept.rs", "src/content/media_type_proposal.rs", "src/mime/mod.rs", "src/utils/mod.rs"],
  [("Accept::negotiate/sort/from_headers", "src/content/accept.rs"), ("Mime::subset_eq", "src/mime/mod.rs"), ("sort_by_weight", "src/utils/mod.rs")],
  "All lists of ranges, weights and line splits to a bound, against all lists of available types, with a reference negotiation; all push/sort programs; all token sequences for totality.")

P("C20", "Accept-Encoding and TE negotiate the best acceptable coding",
  "Negotiating over the available codings answers the listed one of highest weight (unweighted ones last, the later declared first among equals), never one refused with weight zero, then with a wildcard the first not refused, and otherwise an error with status 406, also when repeated or after sorting. Unknown codings are skipped, a malformed weight is an error with status 400, an unknown Content-Encoding or Transfer-Encoding is an error with status 400, nothing panics, and written headers read back the same.",
  ["inputs", "histories"], "all bounded lists, available codings, and sequences of push, sort and negotiate",
  "Tests negotiate three fixed lists per header.",
  ["src/content/accept_encoding.rs", "src/content/encoding_proposal.rs", "src/content/content_encoding.rs", "src/content/encoding.rs", "src/transfer/te.rs", "src/transfer/encoding_proposal.rs", "src/transfer/transfer_encoding.rs", "src/transfer/encoding.rs", "src/utils/mod.rs"],
  [("negotiate/sort/from_headers", "src/content/accept_encoding.rs, src/transfer/te.rs"), ("weights", "src/utils/mod.rs parse_weight, sort_by_weight"), ("answer headers", "src/content/content_encoding.rs, src/transfer/transfer_encoding.rs")],
  "As C19 for both pairs of headers with the same macro-generated harness, over every coding the crate knows.")

P("C21", "Forwarded parses by RFC 7239 and writes what reads back equal",
  "A Forwarded header written by one proxy parses into exactly its by, for, host and proto values, names being case-insensitive, quoted strings unescaped and unknown extensions skipped, and a text that no reading of the grammar admits is an error with status 400, never a panic. Without Forwarded the X-Forwarded headers give the values. Every value that can be set and written reads back equal.",
  ["inputs", "histories"], "every Forwarded line within the bounds, and all values of all fields",
  "Tests sample some thirty lines; quoting, list and separator interplay is not covered.",
  ["src/proxies/forwarded.rs", "src/parse_utils.rs"], [("parse, format", "src/proxies/forwarded.rs"), ("token, quoted_string", "src/parse_utils.rs")],
  "All token sequences to a depth, every character in every syntactic position, all one-character edits of valid lines, all setter programs, against a grammar-directed reference.")

P("C22", "HTTP dates are read and written exactly",
  "Every whole second from 1970 to 9999 is written as its IMF-fixdate and reads back as that instant from each of the three formats of RFC 7231 that can denote it; a fraction of a second is cut off. A text which is none of the three formats, or denotes no day or time, is an error with status 400, never a panic.",
  ["inputs"], "every day of 8030 years, every second of chosen days, every field value and every text within two edits of a valid one",
  "Tests parse three dates; month lengths, leap years, century years and malformed digits are not sampled.",
  ["src/utils/date.rs"], [("fmt_http_date, parse_http_date", "src/utils/date.rs"), ("HttpDate to SystemTime", "src/utils/date.rs")],
  "Exhaustive enumeration of days and of the seconds of chosen days against a calendar that counts days one by one; all field values and edits against a by-shape reading of the formats.")

P("C23", "Date and seconds headers hold the value of their last line",
  "Date, Expires, Last-Modified, If-Modified-Since, If-Unmodified-Since and Retry-After read the instant of their last line and write what reads back equal; Age and Retry-After hold every number of seconds of 64 bits exactly. An absent header reads as absent, a malformed last line is an error with status 400, nothing panics, and their order and equality are those of the instants.",
  ["inputs"], "every sequence of lines and every number of seconds within the bounds",
  "Tests round-trip one value per header.",
  ["src/cache/age.rs", "src/cache/expires.rs", "src/conditional/last_modified.rs", "src/conditional/if_modified_since.rs", "src/conditional/if_unmodified_since.rs", "src/other/date.rs", "src/other/retry_after.rs"],
  [("from_headers, header_value", "src/cache/age.rs, src/cache/expires.rs, src/conditional/*.rs, src/other/{date,retry_after}.rs"), ("RetryAfter::duration_since", "src/other/retry_after.rs")],
  "One table-driven harness over all headers: all line sequences to a depth, all small numbers, all 64-bit boundaries and all token sequences.")

P("C24", "Cache-Control and Clear-Site-Data hold their directives in order",
  "Reading Cache-Control or Clear-Site-Data gives the known directives of all lines in order, cache directive names being case-insensitive and unknown ones skipped, commas within quoted arguments not separating, and a missing or malformed number being an error with status 400, never a panic. Every directive is written by its registered name with whole seconds, every list written reads back equal, and each cache directive is valid in exactly the messages its specification allows.",
  ["inputs", "histories"], "every header line within the bounds and every list of directives",
  "Tests write two directives; no test writes and reads each of them, or parses lists.",
  ["src/cache/cache_control/cache_control.rs", "src/cache/cache_control/cache_directive.rs", "src/cache/clear_site_data/mod.rs", "src/cache/clear_site_data/directive.rs"],
  [("from_headers, header_value, iterators", "src/cache/cache_control/cache_control.rs, src/cache/clear_site_data/mod.rs"), ("directive parsing and writing", "src/cache/cache_control/cache_directive.rs")],
  "All token sequences, argument shapes, name edits, line sequences and directive lists within the bounds against a table of the registered directives; open spots carry a set of admissible outcomes per list element.")

P("C25", "Entity tags and lists of them read back as written",
  "An ETag header reads as the strong or weak tag of its last line exactly if that is an entity tag of RFC 7232, and is an error with status 400 otherwise. If-Match and If-None-Match give the tags of all lines in order and the presence of '*', tags with commas included, and every tag and list of tags written reads back equal.",
  ["inputs", "histories"], "every header line within the bounds and every list of tags",
  "Tests sample two tags; commas, quotes and backslashes in tags and lists are not covered.",
  ["src/conditional/etag.rs", "src/conditional/if_match.rs", "src/conditional/if_none_match.rs"],
  [("ETag::from_str, Display", "src/conditional/etag.rs"), ("from_headers, header_value, wildcard", "src/conditional/if_match.rs, src/conditional/if_none_match.rs")],
  "All token sequences, all tags of up to two characters, all one-character edits, line sequences and lists, against a by-grammar reading.")

P("C26", "Vary and Allow list names and methods of all lines",
  "Vary gives the header names of all lines in order, in lower case, and the presence of '*'; Allow gives the set of methods of all lines. Empty elements are skipped, an unknown method is an error with status 400, nothing panics, and what is written, the empty list included, reads back equal.",
  ["inputs", "histories"], "every header line within the bounds and every list of names or methods",
  "Tests write two entries each and parse no foreign line.",
  ["src/conditional/vary.rs", "src/server/allow.rs"],
  [("from_headers, header_value", "src/conditional/vary.rs, src/server/allow.rs")],
  "All token sequences, line sequences and lists within the bounds against a split-and-trim reference.")

P("C27", "Credentials and challenges read as their grammar says and back as written",
  "An Authorization header reads as the registered scheme of its last line, in any letter case, and the credentials after it; a basic one reads exactly the user name before the first colon and the password after it. WWW-Authenticate reads its scheme and its realm wherever the realm stands among the parameters, unescaped from its quoted string. Malformed headers are errors with status 400, never a panic, and everything written reads back equal.",
  ["inputs", "histories"], "every header line within the bounds and every scheme, user name, password and realm",
  "Tests read one well-formed line per header; quoting, case, spacing and parameter order are not sampled.",
  ["src/auth/authorization.rs", "src/auth/basic_auth.rs", "src/auth/www_authenticate.rs", "src/auth/authentication_scheme.rs", "src/parse_utils.rs"],
  [("from_headers, header_value", "src/auth/authorization.rs, src/auth/basic_auth.rs, src/auth/www_authenticate.rs"), ("scheme names", "src/auth/authentication_scheme.rs")],
  "All token sequences, edits of scheme names, credentials (with their own base64 coder) and realms to a bound against references written from RFC 7235 and RFC 7617.")

P("C28", "A trace context keeps its numbers through parsing, children and writing",
  "A traceparent header reads its version, trace id, parent id and flags exactly, and a header that is not four hexadecimal fields within their widths is an error with status 400, never a panic. A child keeps the trace id, version and flags and has the id of the context it came from as its parent; setting the sampled flag changes nothing else, and what is written reads back with the writer's id as parent.",
  ["inputs", "histories"], "every header within the bounds and every sequence of child, set_sampled and transmission",
  "Tests parse two headers and create one child.",
  ["src/trace/trace_context.rs"], [("from_headers, child, set_sampled, Display", "src/trace/trace_context.rs")],
  "All token sequences, edits, field values and operation programs, run next to a model of the four numbers; ids are random and are read back through the observers.")

P("C29", "Server-Timing metrics keep name, duration and description",
  "Reading Server-Timing gives the metrics of all lines in order, each with its name, its duration in milliseconds and its description, token or quoted string, the first of repeated parameters counting and unknown ones being skipped. Malformed metrics are errors with status 400, never a panic, whatever number the duration is. Every list of metrics written reads back equal up to the precision of a double.",
  ["inputs", "histories"], "every header line, duration and description within the bounds",
  "Tests sample about ten lines; quoting, number syntax and rounding are not covered.",
  ["src/trace/server_timing/mod.rs", "src/trace/server_timing/metric.rs", "src/trace/server_timing/parse.rs"],
  [("parsing", "src/trace/server_timing/parse.rs"), ("writing", "src/trace/server_timing/metric.rs"), ("list", "src/trace/server_timing/mod.rs")],
  "All token sequences and combinations of parameter forms against an element-wise reference with admissible outcomes; all durations of a million small counts and around all powers; all descriptions to a bound.")

P("C30", "Security policies and helpers set exactly their headers",
  "Applying a content security policy gives a message exactly one header of the policy's kind, which lists every directive set so far once, with its sources in the order they were added, next to the flag, report and default policies, and applying it again or to another message gives the same. Each security helper sets, replaces, appends or removes exactly its own header with its documented value and leaves all others alone.",
  ["histories"], "every sequence of policy operations and helpers within the bounds",
  "Tests build one policy and apply it once.",
  ["src/security/csp.rs", "src/security/mod.rs"],
  [("directives, value, apply", "src/security/csp.rs"), ("helpers", "src/security/mod.rs")],
  "All operation programs to a depth, checked after every operation against a model of the policy, and all helper programs against a map of the headers.")

P("C31", "Strict-Transport-Security and Timing-Allow-Origin read back as written",
  "Strict-Transport-Security reads the max-age, includeSubDomains and preload of its last line whatever their order and letter case, unknown directives being ignored and a missing or malformed max-age being an error with status 400. Timing-Allow-Origin gives the origins of all lines in order and the presence of '*', null and empty elements being skipped and anything else that is no URL being an error with status 400. Nothing panics, and every value written reads back equal.",
  ["inputs", "histories"], "every header line within the bounds and every value of both headers",
  "Tests sample a handful of lines.",
  ["src/security/strict_transport_security.rs", "src/security/timing_allow_origin.rs"],
  [("from_headers, header_value", "src/security/strict_transport_security.rs, src/security/timing_allow_origin.rs")],
  "All token sequences, directive orders, edits, line sequences and lists within the bounds against references with admissible outcomes.")

P("C32", "Referer, SourceMap and Content-Location resolve against the base",
  "Each of these headers reads as the URL its last line denotes relative to the given base, absolute ones regardless of the base; a malformed URL or base is an error of the status the header documents, never a panic. Every URL that is set is observed and written as it is, reads back equal against any base, and a failed set leaves the previous one.",
  ["inputs"], "every header value within the bounds against every base, and every pair of locations",
  "Tests read one absolute and one relative location each.",
  ["src/other/referer.rs", "src/other/source_map.rs", "src/content/content_location.rs"],
  [("from_headers, set_location, header_value", "src/other/referer.rs, src/other/source_map.rs, src/content/content_location.rs")],
  "One table over the three headers: all token sequences against all bases, edits, line sequences and locations; resolution itself is the url crate's.")

P("C33", "Content-Length, Content-Type and Expect hold the value of their last line",
  "Content-Length reads exactly the decimal numbers of 64 bits, Content-Type exactly the media types, and Expect exactly '100-continue' in any letter case, each from its last line; an absent header reads as absent, and anything else is an error with status 400, never a panic. What is written reads back equal.",
  ["inputs"], "every header value within the bounds and every value",
  "Tests round-trip one value per header.",
  ["src/content/content_length.rs", "src/content/content_type.rs", "src/other/expect.rs"],
  [("from_headers, header_value", "src/content/content_length.rs, src/content/content_type.rs, src/other/expect.rs")],
  "All token sequences, numbers, constants, edits and line sequences within the bounds.")

P("C34", "Reading any header value ends with a value, nothing, or a client error",
  "No field value whatever, on one line or several, makes the reader of any typed header panic, hang or abort: it gives a value that can be written as ASCII text, says that there is none, or reports an error with the status documented for it (400, and 500 for a malformed Referer or SourceMap). What a reader gives depends only on the header's lines, not on whether they are held by bare headers, a request, a response or trailers.",
  ["inputs"], "every value within a few edits of a valid one, every short value over the special characters, every pair of lines cut anywhere, and long repetitions, for each of 33 typed headers",
  "Header values come from the network; tests try valid values and a few malformed ones per header.",
  ["src/parse_utils.rs", "src/utils/mod.rs", "src/auth", "src/cache", "src/conditional", "src/content", "src/other", "src/proxies/forwarded.rs", "src/security", "src/server/allow.rs", "src/trace", "src/transfer"],
  [("from_headers of each typed header", "src/*/*.rs"), ("splitting and quoted strings", "src/parse_utils.rs")],
  "For each reader the neighbourhood of its valid values is enumerated (all single edits over ASCII, all double edits over separators, all short texts, all cuts over two or three lines, long repetitions) and the real reader runs on each; a panic, an abort, a hang or another status is a violation.")

P("C35", "What a typed header reads it writes back in a form that reads equal",
  "Every typed header that was read from a message writes, under its own name and as one line, a value from which an equal header is read, and which is written the same again. Applying it replaces the earlier lines of that header and leaves all others alone, and reading does not change the message.",
  ["inputs"], "every value the reader accepts within a few edits of a valid one, and the other values of C34",
  "Round trips are tested from constructed values; a value a peer wrote in another accepted form is never written back.",
  ["src/headers/header.rs", "src/auth", "src/cache", "src/conditional", "src/content", "src/other", "src/proxies/forwarded.rs", "src/security", "src/server/allow.rs", "src/trace", "src/transfer"],
  [("Header::header_value, apply_header", "src/headers/header.rs"), ("from_headers and header_value of each typed header", "src/*/*.rs")],
  "The same exhaustive neighbourhoods as C34; each accepted value is applied to a message with earlier lines and other headers, the result compared, and read and written again.")

P("C36", "Comparisons compare what is stood for",
  "Two values of a type, or a value and the plain text, number, date or enumeration it can be compared with, are equal exactly if they stand for the same thing, in every form of comparison offered: header names regardless of case, header values, tags and parameter values exactly, a list of values equals a text only if that is its only value. Equal values hash alike. Dates, delays, ages and versions are ordered by time, length and number; proposals by weight, one without weight being least and unordered with its like.",
  ["inputs"], "every pair of values from the pools, in every comparison form",
  "Tests compare a few equal values; inequality, ordering and hashing are claims about pairs.",
  ["src/headers/header_name.rs", "src/headers/header_value.rs", "src/headers/header_values.rs", "src/mime/mod.rs", "src/content", "src/transfer", "src/conditional", "src/cache", "src/other", "src/status_code.rs", "src/method.rs", "src/version.rs"],
  [("PartialEq<str> and others", "src/headers/header_name.rs, header_value.rs, header_values.rs"), ("PartialOrd for proposals", "src/content/encoding_proposal.rs, media_type_proposal.rs, src/transfer/encoding_proposal.rs"), ("derived orders", "src/cache/age.rs, expires.rs, src/other/retry_after.rs, src/version.rs")],
  "All pairs from each pool are compared in every offered form and with every operator; the answer must be that of the keys they were made from.")
