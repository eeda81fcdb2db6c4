#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table, so that they stay in step.

Run by hand after editing; no check runs it."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REQ = "request_parser/http/request.py"
MP = "request_parser/http/multipartparser.py"
DS = "request_parser/utils/datastructures.py"
UH = "request_parser/files/uploadhandler.py"
UF = "request_parser/files/uploadedfile.py"
FB = "request_parser/files/base.py"
ENC = "request_parser/utils/encoding.py"
UHTTP = "request_parser/utils/http.py"
SET = "request_parser/conf/settings.py"
TXT = "request_parser/utils/text.py"
MOD = "request_parser/utils/module_loading.py"

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, oracle, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, oracle=oracle, note=note, state=list(state)))


prop("C01", "A well-formed request head is reported exactly",
     "For every well-formed request head the parser reports exactly the method, scheme, path, query string and protocol token that the request line contains. For every header name it reports the complete list of that name's values in order of arrival, trimmed of surrounding whitespace; no header is lost, merged, reordered, duplicated or invented (only a Host header that supplied the host is consumed).",
     ["inputs"], "All request lines (origin-form and absolute-form targets with any path, query, fragment) and all lists of headers, with repeated names, empty values, colons and separators inside values.",
     "The tests parse four fixed request files; repeated names, empty values, colons in values, fragments and absolute targets with unusual components are sampled once or not at all.",
     [REQ, UHTTP], [("request head parser", REQ + ":parse_request_header"), ("header block splitter", REQ + ":parse_request_headers"), ("request line splitter", REQ + ":parse_request_line"), ("URL splitter", UHTTP + ":_urlparse")],
     ["HttpRequest.method/scheme/path/protocol_info", "HttpRequest.META", "parse_request_line result"],
     "constructive round trip: the head is rendered from a generated structure and the parse must return that structure",
     "sampled search; heads up to a few KB, ASCII header text")

prop("C02", "The parse result does not depend on how the bytes arrive",
     "For every request, the parse result is the same however its bytes are split over the reads of the input stream, whatever kind of stream delivers them (file, in-memory stream, iterator of chunks) and whatever header read size is configured. The body handed on starts exactly after the first blank line: no byte of it is lost, duplicated or reordered.",
     ["inputs", "schedules", "configurations"], "All requests (plain, form and multipart bodies), all partitions of their bytes into chunks (an iterator's may be empty), all positive header read sizes.",
     "Tests always read from a file with the default 16-byte header read size, so one fixed partition is exercised.",
     [REQ, DS, MP], [("push-back stream", DS + ":LazyStream"), ("head/body split", REQ + ":parse_request_header")],
     ["every public attribute of HttpRequest after parse()", "body()"],
     "metamorphic: the dump of the parse under a generated partition/read size equals the dump for the whole bytes in one chunk, and the raw body equals the generated body",
     "sampled partitions incl. one-byte delivery and cuts inside CRLFCRLF")

prop("C03", "A malformed request head is rejected, never guessed at",
     "A request head without a terminating blank line, without any header line, whose request line is not exactly three space-separated parts, whose target cannot be split as a URL or is not ASCII, or that has a header line without a colon or with non-ASCII bytes is rejected with the invalid-request error carrying code 400. An otherwise valid head that names no host is rejected with the missing-host error. No other exception escapes from parsing a head, and heads without these faults are accepted.",
     ["inputs"], "All byte strings offered as a request head: valid ones, valid ones with one or several faults injected, and arbitrary mutations.",
     "Tests try five fixed malformed strings; the class of malformed heads is unbounded.",
     [REQ, UHTTP], [("sanity checks", REQ + ":parse_request_header"), ("header line check", REQ + ":parse_request_headers"), ("token count check", REQ + ":parse_request_line")],
     ["exception type and arguments from parse_request_header()"],
     "independent reference classifier (must-accept / must-reject / either) over generated and mutated heads",
     "sampled search")

prop("C04", "Host and port are derived correctly",
     "The reported host is the lower-cased host of an absolute request target, otherwise of the last Host header, without port and without a trailing dot; a host that is not a valid domain name, IPv4 or bracketed IPv6 literal with optional numeric port is reported as empty. The reported port is the explicit one if given, else 443 for https, 80 for http and 65536 when the scheme is unknown.",
     ["inputs"], "All host strings (valid names, IPv4, IPv6 literals, optional ports, trailing dots, case mixes, and invalid variants) in the target, in the Host header, or in both.",
     "Only one host without a port occurs in the tests.",
     [REQ], [("host validation and split", REQ + ":split_domain_port"), ("port defaulting", REQ + ":parse_request_header")],
     ["get_host()", "get_port()", "split_domain_port()"],
     "independent hand-written host grammar recogniser as reference model",
     "sampled search")

prop("C05", "URIs and paths are rebuilt safely and losslessly",
     "For every request the rebuilt full path and URI are pure ASCII, consist of scheme, host, escaped path and (if present) the query string, and percent-decode back to the path and query that were received. Setting a path to any text makes the full path its percent-encoded UTF-8 form and the raw form that text again, and appending a slash adds one exactly when the path does not end in one.",
     ["inputs"], "All targets and all path texts, including non-ASCII characters, spaces, reserved characters and already escaped sequences.",
     "Tests check a handful of literal paths.",
     [REQ, ENC], [("full path builder", REQ + ":_get_full_path"), ("safe path setter", REQ + ":set_path"), ("escaping", ENC + ":escape_uri_path")],
     ["get_full_path()", "get_uri()", "set_path()"],
     "round trip (percent-decoding with an independent decoder) plus reference encoder",
     "sampled search")

prop("C06", "A body of a non-form type is delivered intact",
     "For every request whose content type is not a form type, reading the raw body yields exactly the bytes after the head, and after body parsing it yields those bytes decoded with the declared charset (the configured default when none or an unknown one is declared, undecodable bytes replaced). Reading the raw body first never changes what a later body parse reports, for any content type.",
     ["inputs", "histories"], "All body byte strings, content types and charsets, and all orders of raw read and body parse.",
     "Tests decode three fixed files in three charsets.",
     [REQ], [("raw body reader", REQ + ":body"), ("body parser", REQ + ":parse_request_body")],
     ["body()", "POST", "FILES"],
     "round trip against the generated body bytes decoded by Python 3 codecs; metamorphic relation between orders of calls",
     "bodies up to some KB plus cases around the 64 KiB read size")

prop("C07", "The request data size limit is exact",
     "For a request that is not multipart, body reading and parsing fail with the data-too-big error if and only if the body is longer than the configured limit (no limit when it is None). When it fails, no more than the limit plus two read chunks of 64 KiB has been taken from the input stream.",
     ["inputs", "configurations"], "All body lengths around and far from the limit, all limits, all content types but multipart, all deliveries.",
     "Tests use one limit (64) and one far larger body; the boundary itself and the amount consumed are never checked.",
     [REQ], [("bounded accumulation", REQ + ":body")],
     ["exception from parse_request_body()/body()", "bytes pulled from the stream"],
     "arithmetic reference (len(body) > limit) and a counting stream",
     "limits 0..200000, None, bodies within +-2 of the limit favoured")

prop("C08", "Query strings and url-encoded forms decode to the submitted pairs",
     "For every list of name/value pairs, percent-encoded in the request's charset with any choice of '&' or ';' separators, '+' or %20 for spaces and upper or lower case escapes, the query dictionary or the POST dictionary holds for each name exactly its values in order, blank values included. Malformed escapes are kept literally and undecodable sequences become U+FFFD; nothing raises.",
     ["inputs", "configurations"], "All pair lists, charsets, escaping styles, raw and malformed query strings.",
     "Tests decode one fixed ASCII query with distinct names.",
     [REQ, UHTTP], [("pair parser", UHTTP + ":limited_parse_qsl"), ("query dictionary", REQ + ":QueryDict")],
     ["GET.lists()", "POST.lists()"],
     "round trip from generated pairs, and differential against an independent decoder for raw strings",
     "sampled search")

prop("C09", "The field count limit is exact",
     "A query string, url-encoded form or multipart form is refused with the too-many-fields error if and only if it has more fields (for queries and url-encoded forms: separators plus one, so that empty ones count) than the configured limit; uploaded files in a multipart form do not count, and no limit applies when it is None; a limit of 0 allows no field.",
     ["inputs", "configurations"], "All field counts and limits, all three carriers, with and without files in between.",
     "No test reaches the limit.",
     [UHTTP, MP, REQ], [("pair count check", UHTTP + ":limited_parse_qsl"), ("part count check", MP + ":MultiPartParser.parse")],
     ["exception from parse()"],
     "counting reference",
     "limits 0..40, counts within +-2 of the limit favoured")

prop("C10", "Multipart text fields are delivered intact",
     "For every well-formed multipart form, POST holds for each field name its parts in order, each with exactly the submitted bytes as data, its content type and content type parameters, and its transfer encoding. No field is lost, duplicated, truncated, or altered by line breaks, dashes or boundary-like text in the content, nor by text before the first or after the last boundary, nor by the letter case of the request's content type.",
     ["inputs"], "All boundaries, field names, part headers (any order and letter case) and contents that do not contain the delimiter, part header blocks up to 1024 bytes.",
     "Tests parse one fixed body with two fields.",
     [MP], [("boundary splitter", MP + ":BoundaryIter"), ("part header parser", MP + ":parse_boundary_stream"), ("form assembler", MP + ":MultiPartParser.parse")],
     ["POST"],
     "constructive round trip: the body is rendered from a generated part list",
     "sampled search with CR, LF, dash and boundary-fragment rich contents")

prop("C11", "Uploaded files are delivered intact",
     "For every well-formed multipart form, FILES holds for each field name its files in order (empty files included), each with exactly the submitted bytes as content, their count as size, and the submitted file name, content type, charset, content type parameters and transfer encoding.",
     ["inputs", "configurations"], "All file contents, sizes, names (including extended RFC 2231 names), part headers, mixes of files and fields, and memory limits.",
     "Tests check the first 100 bytes of one file.",
     [MP, UH, UF], [("file part handling", MP + ":MultiPartParser.parse"), ("upload handlers", UH + ":ConvenientFileUploadHandler")],
     ["FILES"],
     "constructive round trip with generated part lists",
     "sampled search; some files above the 64 KiB chunk size")

prop("C12", "Multipart parsing is independent of chunking and alignment",
     "For every multipart body, well-formed or not, the fields and files obtained are the same whatever chunk size the upload handlers ask for and however the body is split over reads of the input (malformed base64 text aside), in particular when a boundary, a part header or a line break straddles two chunks.",
     ["inputs", "schedules", "configurations"], "All multipart bodies, all handler chunk sizes, all partitions of the stream.",
     "Tests use the 64 KiB chunk size only, with a body whose boundaries never straddle a chunk edge.",
     [MP, DS], [("roll-back window", MP + ":BoundaryIter"), ("push-back stream", DS + ":LazyStream"), ("chunk producer", DS + ":ChunkIter")],
     ["result of MultiPartParser.parse()"],
     "metamorphic: result under each generated chunk size and partition equals the result in one chunk, which for well-formed bodies equals the generated parts",
     "chunk sizes from 4 bytes up; parts' header blocks below 1024 bytes")

prop("C13", "Base64 transfer encoding is decoded exactly",
     "A field or file sent with base64 transfer encoding is delivered as exactly the encoded bytes, whatever whitespace or line wrapping the encoded text contains and wherever chunk edges fall in it. A field whose encoded text is truncated (not a whole number of four-character groups) is delivered undecoded, a file whose encoded text is truncated is refused with the multipart error, and parsing always terminates.",
     ["inputs", "schedules"], "All contents, all wrappings, all chunk sizes, and encoded texts truncated or with bad padding.",
     "One base64 file in one chunk layout is tested; truncation and wrapping are not.",
     [MP], [("chunk realignment", MP + ":MultiPartParser.parse")],
     ["POST data", "FILES content", "exception type"],
     "round trip against Python 3 base64; reference validity rule for damaged text; step-bounded execution for termination",
     "sampled search; chunk sizes 4..64")

prop("C14", "Hostile multipart input is handled or refused cleanly",
     "Whatever bytes follow a multipart request head, parsing terminates within a number of steps proportional to the input, and either succeeds or raises one of the library's own errors (multipart error or suspicious-operation errors). A missing or invalid boundary or a negative length is refused with the multipart error, and a missing, zero or non-numeric length yields an empty form.",
     ["inputs"], "All bodies: mutated, truncated and spliced well-formed bodies, and grammar-free bytes rich in delimiter fragments; all Content-Type and Content-Length values.",
     "No test feeds a damaged multipart body.",
     [MP, DS], [("parser guards", MP + ":MultiPartParser.__init__"), ("stuck-parser guard", DS + ":LazyStream._update_unget_history")],
     ["exception type from parse()", "termination"],
     "robustness oracle (allowed exception set) with a step-bounded executor for termination",
     "sampled search; bodies up to a few KB")

prop("C15", "The multipart field memory limit is exact and bounds memory",
     "A multipart form is refused with the data-too-big error if and only if the sum over its fields of name length, transmitted data length and two exceeds the configured limit; file contents never count, and None means no limit. A field longer than the remaining allowance is never read in full.",
     ["inputs", "configurations"], "All part lists and limits, favouring sums within two of the limit; base64 fields included.",
     "No multipart body meets the limit in a test.",
     [MP], [("allowance accounting", MP + ":MultiPartParser.parse")],
     ["exception from parse()", "bytes pulled from the stream"],
     "arithmetic reference and a counting stream",
     "limits 0..3000 and None")

prop("C16", "Uploads move from memory to disk exactly at the limit",
     "With the default upload handler a file is kept in memory if and only if the file bytes received in the request up to and including it do not exceed the in-memory limit; otherwise it is a temporary file inside the configured directory. With the memory and temporary-file handlers chained, files are in memory if and only if the declared content length does not exceed the limit. Content, name and metadata are the same in every case.",
     ["inputs", "configurations"], "All sequences of files, sizes around the limit, limits, chunk layouts and handler configurations, including a temporary directory that does not exist yet.",
     "Tests drive the handlers by hand with one file far from the limit and never compare the stored content.",
     [UH, UF, SET], [("switch-over", UH + ":ConvenientFileUploadHandler.receive_data_chunk"), ("activation", UH + ":MemoryFileUploadHandler.handle_raw_input")],
     ["type and location of each FILES entry", "content"],
     "reference placement rule plus differential content comparison between handler configurations",
     "limits 0..5000; temporary files in a scratch directory")

prop("C17", "Upload handlers see each file completely and in order",
     "The chain of upload handlers is the one set on the request, or else the configured one; it cannot be changed once the upload was read. For any chain, each handler is offered the raw input once, then for each file a start signal, its data in order with the correct offsets and its completion with the correct size, and once the end of the upload; a handler that consumes a chunk hides it from later ones, one that stops the chain is the last to see a file's start, and the first file object returned on completion is the one stored. Skipping a file or stopping the upload affects only that file, respectively the rest of the upload; everything already received stays intact and readable.",
     ["inputs", "histories", "configurations"], "All chains of up to four recording handlers with generated behaviours (pass, transform, consume, stop chain, skip, stop upload, take over raw input) and all part lists.",
     "No test runs a handler chain through the parser.",
     [MP, UH], [("handler dispatch", MP + ":MultiPartParser.parse"), ("completion", MP + ":MultiPartParser.handle_file_complete")],
     ["event log of recording handlers", "POST", "FILES"],
     "reference simulation of the protocol compared with the recorded event log",
     "sampled search; up to 4 handlers and 6 parts")

prop("C18", "Uploaded file names are made safe",
     "Whatever file name a client submits, the name reported for the upload contains no directory part (neither '/' nor, for multipart uploads, '\\\\'), is at most 255 characters long, and is otherwise the submitted base name with HTML character references resolved to characters in the encoding of the request (those it lacks are kept as sent), keeping its extension when shortened (up to 255 characters of it). No file name makes an upload fail, in memory or on disk, and the temporary file always lies directly in the configured directory.",
     ["inputs"], "All file names: paths of both kinds, traversal, long names and extensions, character references, control and non-ASCII characters.",
     "Tests use one path and check only its base name.",
     [UF, MP, TXT], [("name setter", UF + ":UploadedFile._set_name"), ("IE path cleanup", MP + ":MultiPartParser.IE_sanitize"), ("character references", TXT + ":unescape_entities")],
     ["UploadedFile.name", "temporary_file_path()"],
     "safety predicate plus reference sanitiser",
     "sampled search")

prop("C19", "Uploaded files read back consistently",
     "For every uploaded file object, however it is stored, concatenating its chunks (for any chunk size), its lines, or repeated partial reads gives exactly its content; iterating gives its lines, each ended by LF, CR LF or CR, and reading by line gives those ended by LF; reopening or seeking to the start makes the content readable again. It reports multiple chunks if and only if it is on disk and larger than the chunk size, and its length equals the content length. Its truth value tells whether it has a name; after it was closed, an upload that is gone cannot be reopened, and no other file is ever opened or changed.",
     ["inputs", "histories"], "All contents (rich in CR, LF and CRLF around chunk edges), chunk sizes, storage kinds and sequences of read operations.",
     "Tests read one file once.",
     [FB, UF], [("chunk reader", FB + ":File.chunks"), ("line iterator", FB + ":File.__iter__")],
     ["chunks()", "iteration", "read/seek/open", "size", "multiple_chunks()"],
     "model-based: operation sequences against a byte string with a cursor",
     "sampled search")

prop("C20", "Temporary upload files live exactly as long as they should",
     "Every upload stored on disk exists, with its full content, as a file in the configured directory until it or its request is closed, and is gone afterwards; closing again is harmless, and in-memory uploads never create files. An upload that is skipped, stopped or refused by an error leaves no temporary file behind once the parse call has ended.",
     ["histories", "configurations", "fault_sequences"], "All part lists, limits, handler behaviours, damaged bodies and close sequences.",
     "No test closes an upload or looks at the directory.",
     [UF, MP, REQ, "request_parser/files/temp.py"], [("close", UF + ":TemporaryUploadedFile.close"), ("request close", REQ + ":HttpRequest.close"), ("abort cleanup", MP + ":MultiPartParser._close_files")],
     ["directory listing of the configured directory"],
     "invariant over the directory listing after each step",
     "scratch directory created and removed by the check")

prop("C21", "The push-back stream behaves like a byte queue with a cursor",
     "For every sequence of reads (bounded, unbounded, next chunk), push-backs and close, the stream returns the bytes of its source in order with pushed-back bytes first, and tell reports bytes taken minus bytes pushed back. Closing leaves only already buffered bytes readable. Pushing back more than forty equal-sized pieces without new input is reported as suspicious, and fewer push-backs never are.",
     ["inputs", "histories"], "All chunk sequences of the source and all operation sequences.",
     "No test exercises the stream directly.",
     [DS], [("stream", DS + ":LazyStream"), ("stuck guard", DS + ":LazyStream._update_unget_history"), ("chunk producer", DS + ":ChunkIter")],
     ["read/next/unget/tell/close results"],
     "model-based against a plain byte-string queue",
     "sequences up to 60 operations")

prop("C22", "Multi-value dictionaries keep every value in order",
     "For every sequence of operations a multi-value dictionary behaves like an ordinary mapping from key to list: appending and updating extend lists, assignment replaces them, single-value access gives the last value (an empty list or the default when there is none), and list access gives an independent copy of all values. Shallow and deep copies are independent of the original.",
     ["histories"], "All operation sequences over a small key set, including updates from other dictionaries, missing keys and empty lists, for the mutable variants.",
     "No test exercises the container API beyond a few lookups.",
     [DS, REQ], [("container", DS + ":MultiValueDict"), ("query dictionary", REQ + ":QueryDict")],
     ["every public method's result", "lists()"],
     "stateful model-based testing against a dict of lists",
     "sequences up to 40 operations")

prop("C23", "Immutable containers never change",
     "Parsed headers, a parsed query (one that is not empty) and a parsed POST, and every immutable query dictionary, multi-value dictionary or list, raise an attribute error on every mutating operation and are unchanged afterwards, while all reading operations keep working.",
     ["histories"], "All sequences of mutating and reading operations with arbitrary arguments on immutable instances.",
     "No test attempts a forbidden mutation.",
     [DS, REQ], [("guards", DS + ":ImmutableMultiValueDict"), ("guards", REQ + ":QueryDict._assert_mutable"), ("guards", DS + ":ImmutableList.complain")],
     ["exception type", "content after each operation"],
     "invariant over operation histories (content snapshot unchanged, error raised)",
     "all mutator methods of dict/list as reachable from Python 2")

prop("C24", "Query dictionaries encode and copy without loss",
     "Encoding any query dictionary and parsing the result with the same settings gives the same lists of values for the same names, for any text, any charset in which ASCII bytes stand for themselves, and any set of extra safe characters that are not delimiters; the stand-alone encoder has the same property for multi-value dictionaries. Names and values given as bytes are held as text, decoded with the charset of the dictionary, whichever operation sets them. Copies and dictionaries built from keys hold the same content, are mutable when promised, and are independent of the original.",
     ["inputs", "configurations"], "All multi-maps of text to lists of text representable in the charset, all charsets, all safe sets.",
     "Only encoding an empty dictionary is tested.",
     [REQ, UHTTP], [("encoder", REQ + ":QueryDict.urlencode"), ("encoder", UHTTP + ":urlencode"), ("copies", REQ + ":QueryDict.__deepcopy__")],
     ["urlencode()", "copy()", "fromkeys()"],
     "round trip encode/parse; copy independence",
     "sampled search over BMP text")

prop("C25", "IRI and URI conversion is ASCII, idempotent and reversible",
     "Converting any text or UTF-8 bytes to a URI yields only ASCII characters legal in a URI, leaves existing URIs unchanged (so it is idempotent), and converting back yields the original UTF-8 text whenever that contains no percent sign. Path escaping likewise yields only ASCII, escapes every character outside its safe set, and percent-decodes to its input.",
     ["inputs"], "All Unicode texts and UTF-8 byte strings.",
     "Two literal paths are tested.",
     [ENC], [("conversions", ENC + ":iri_to_uri"), ("path escaping", ENC + ":escape_uri_path")],
     ["iri_to_uri/uri_to_iri/escape_uri_path results"],
     "algebraic laws and a reference percent-encoder",
     "sampled search")

prop("C26", "Header parameters are parsed faithfully",
     "For every header value built from a main value and parameters, in token, quoted-string (any characters, with backslash escapes for quote and backslash) or RFC 2231 extended form, with any spacing and letter case of names, parsing returns the lower-cased main value and exactly those parameters. Arbitrary ASCII text never makes it fail.",
     ["inputs"], "All main values, parameter lists and notations; all ASCII strings.",
     "The assertion-free script for it is not part of the suite; the suite reaches it with two literal values.",
     [MP], [("parameter splitter", MP + ":_parse_header_params"), ("parameter decoder", MP + ":parse_header")],
     ["parse_header() result"],
     "constructive round trip",
     "sampled search")

prop("C27", "HTTP dates round-trip in all three formats",
     "For every second from 1970 to 9999, formatting it as an HTTP date and parsing the result returns it, and the same instant written in any of the three formats of the HTTP specification parses to the same value (two-digit years are read as 1970-2069). Any other text, including impossible dates, is rejected with a value error, or with None by the safe variant (whether the name of the day fits the date is not checked).",
     ["inputs"], "All seconds in range, all three formats, all mutations of date texts.",
     "Dates are not tested at all.",
     [UHTTP], [("date parser", UHTTP + ":parse_http_date"), ("date formatter", UHTTP + ":http_date")],
     ["http_date/parse_http_date/parse_http_date_safe"],
     "round trip and differential against Python 3 datetime",
     "sampled search")

prop("C28", "Base36, URL-safe base64 and entity-tag helpers are exact",
     "Base36 and URL-safe base64 encoding round-trip for every non-negative integer of up to 13 digits and every byte string, and text that cannot be decoded is rejected with a value error and no other. Parsing an entity-tag list returns exactly its valid quoted tags (or '*'), quoting is idempotent and, for text without quotation marks, yields a valid tag, and a path that would start an authority has its second slash escaped.",
     ["inputs"], "All integers, byte strings, tag lists with valid and invalid members, and paths.",
     "None of these helpers is tested.",
     [UHTTP], [("codecs", UHTTP + ":int_to_base36"), ("codecs", UHTTP + ":urlsafe_base64_encode"), ("etags", UHTTP + ":parse_etags"), ("slashes", UHTTP + ":escape_leading_slashes")],
     ["helper results"],
     "round trips and reference parsers",
     "sampled search")

prop("C29", "Redirect targets are only called safe when they are",
     "A URL is called safe only if every reading a browser could make of it (backslashes as slashes, tabs and line breaks removed, leading control characters and spaces, missing or repeated slashes) either stays on the same host or goes to an allowed host over http or https (https only when required); relative URLs and allowed absolute URLs are called safe. Domain matching accepts exactly equal hosts, or for a pattern with a leading dot the domain and its subdomains, case-insensitively in the pattern.",
     ["inputs", "configurations"], "All URLs from a grammar of schemes, slashes, backslashes, credentials, hosts and control characters; all allowed-host sets; all host/pattern pairs.",
     "Not tested at all.",
     [UHTTP], [("safety check", UHTTP + ":is_safe_url"), ("domain match", UHTTP + ":is_same_domain")],
     ["is_safe_url/is_same_domain results"],
     "independent browser-like URL interpretation as one-sided oracle, constructive safe URLs as the other side, reference for domain match",
     "sampled search")

prop("C30", "Settings take given values and defaults for the rest",
     "For every dictionary of settings, each given setting has exactly the given value and each other one its documented default; building settings never changes the defaults seen by others. A given upload directory is made absolute, exists and is writable afterwards, no probe file is left in it, and a directory that cannot be created or written is refused with the invalid-directory error.",
     ["configurations", "histories"], "All subsets of settings with arbitrary values, all orders of construction, existing, missing and impossible directories.",
     "Tests check one custom and the default configuration.",
     [SET, "request_parser/files/utils.py"], [("settings constructor", SET + ":Settings.__init__"), ("directory check", SET + ":Settings._check_upload_dir")],
     ["attributes of Settings", "the directory"],
     "reference model of the effective configuration; filesystem observation in scratch directories",
     "sampled search")

prop("C31", "Re-using a request object equals parsing afresh",
     "After a new stream is set and parsed on a request object, everything it reports equals what a new object reports for that stream, whatever was parsed before. After a new body stream is set and parsed, the head data is unchanged and the form data, files and body are those of the new body alone; a repeated parse call changes nothing, and a request whose parse failed never parses successfully when it is tried again without a new stream.",
     ["histories"], "All sequences of requests (plain, form, multipart, empty body, with and without charset, malformed) parsed on one object through stream or body stream replacement.",
     "Tests replace the stream once with nothing parsed from the body before.",
     [REQ], [("stream replacement", REQ + ":HttpRequest.stream"), ("body stream replacement", REQ + ":HttpRequest.body_stream")],
     ["every public attribute of HttpRequest"],
     "metamorphic: re-used object against fresh object",
     "sequences of up to 5 requests")

prop("C32", "Requests do not influence each other",
     "Parsing any sequence of requests in one process, interleaved step by step and sharing one settings object, gives each the result it has when parsed alone, leaves the shared settings unchanged, and a failed parse changes nothing for the others. Changing the encoding of one request re-decodes its query in the new encoding and affects no other request.",
     ["histories", "schedules", "configurations"], "All sets of requests, all interleavings of their head and body parsing steps, shared or separate settings.",
     "Each test parses requests one at a time with settings of their own.",
     [REQ, SET], [("per-request settings", REQ + ":HttpRequest.__init__"), ("encoding", REQ + ":HttpRequest.encoding")],
     ["every public attribute of HttpRequest", "Settings attributes"],
     "metamorphic: interleaved against isolated runs",
     "up to 4 requests and single-threaded interleavings")

prop("C33", "Input stream failures surface as errors, never as data",
     "If the input stream fails at any point while a body is read, the raw body read or the read interface raises the unreadable-post error carrying the original details, and no partial body, field or file is reported as complete, neither then nor on a later attempt. A stream that fails while the head is read makes parsing fail, and no failure is ever reported as an unrelated error type.",
     ["fault_sequences", "inputs"], "All requests, with an I/O error injected at every read position.",
     "No test injects a failing stream.",
     [REQ, MP], [("error translation", REQ + ":HttpRequest.body"), ("error translation", REQ + ":HttpRequest.read")],
     ["exception type and arguments", "POST/FILES after failure"],
     "fault injection at generated read positions, with an allowed-outcome oracle",
     "sampled positions; each position of short requests")

prop("C34", "Any bytes are parsed or refused with a library error",
     "For every byte string given as a request, with any settings, parsing terminates and either succeeds or raises one of the library's declared errors (invalid request, missing host, multipart error, suspicious operation, unreadable post). After success all accessors work: host, port, method, path, full path, URI, raw forms, ajax and secure flags, and the text representation.",
     ["inputs", "configurations"], "All byte strings: structured requests with mutations and grammar-free bytes; limits and charsets varied.",
     "Tests feed about ten well-formed requests.",
     [REQ, MP, UHTTP, DS], [("entry point", REQ + ":HttpRequest.parse")],
     ["exception type", "accessors"],
     "robustness oracle over structure-aware mutation fuzzing (mutated requests, grammar fragments, one place filled with long repeats), with time-bounded execution",
     "sampled search")

prop("C35", "The read interface delivers the body as a file would",
     "After the head is parsed, reading, reading by line and iterating over a request deliver, also through its stream attributes, the body bytes exactly once and in order, lines ending exactly at line feeds, for every mix of these operations and every delivery of the input. The ajax flag is true if and only if the request declares XMLHttpRequest in its X-Requested-With header, and the secure flag if and only if the scheme is https.",
     ["inputs", "histories", "schedules"], "All bodies, stream partitions and sequences of read, readline, readlines and iteration; all header sets.",
     "None of the read interface is tested; the flags are tested on one negative example.",
     [REQ, DS], [("read interface", REQ + ":HttpRequest.read"), ("flags", REQ + ":HttpRequest.is_ajax")],
     ["results of read/readline/readlines/iteration", "is_ajax()/is_secure()"],
     "model-based against a byte string with a cursor; reference predicate",
     "sampled search")

prop("C36", "Handlers are loaded by name or refused clearly",
     "Loading an upload handler or object by its dotted path returns exactly the named attribute of the named module, passing the given arguments on. A path without a dot or with an empty or non-ASCII component, an unknown module, or an unknown attribute is refused with an import error and nothing else. A package is reported to have a submodule exactly if it contains it, and the directory of a module is the one it lies in.",
     ["inputs"], "All dotted paths: valid ones over importable modules, and paths damaged in any component.",
     "Tests load three valid handler paths.",
     [MOD, UH], [("import by string", MOD + ":import_string"), ("handler loader", UH + ":load_handler")],
     ["import_string/load_handler results"],
     "differential against getattr on the imported module; allowed-exception oracle",
     "sampled search")

prop("C37", "Files made by the application behave as documented",
     "A File made around any file object, and a ContentFile made of any content, delivers exactly that content by reading, by chunks of any size, and by lines, knows its size, also after it was written to, and reports multiple chunks if and only if it is larger than the chunk size. Its name is the given one or that of the underlying file, its truth value tells whether a File has a name (a ContentFile is always true), it can be used in a with statement, and opening it again rewinds it, or reopens it by its path, or raises ValueError.",
     ["inputs", "histories"], "All byte and text contents, all kinds of underlying file (in memory, on disk, temporary, another File, a stream without positions), names and sequences of operations.",
     "No test makes a File.",
     [FB], [("size", FB + ":File.size"), ("chunk reader", FB + ":File.chunks"), ("line iterator", FB + ":File.__iter__"), ("content files", FB + ":ContentFile")],
     ["read/readline/seek/tell/write/open/close", "chunks()", "iteration", "size", "name", "truth value"],
     "model-based: operation sequences against a byte string with a cursor",
     "sampled search; at most 9 operations")

prop("C38", "Containers survive pickling",
     "Pickling and unpickling a multi-value dictionary, immutable or not, a query dictionary, made by the application or by parsing a request, or an immutable list, gives an object of the same type with the same lists of values for the same names, the same encoding, attributes and mutability, which is independent of the original.",
     ["inputs", "histories", "configurations"], "All contents (any text, numbers, None, bytes, lists), charsets, kinds of container, mutability, both pickle modules, all protocols, one or two rounds.",
     "No test pickles anything.",
     [DS, REQ], [("state", DS + ":MultiValueDict.__getstate__"), ("restoration", DS + ":MultiValueDict.__setstate__")],
     ["pickle.loads(pickle.dumps(x))"],
     "round trip compared with the original and with the generated content; mutation of one side",
     "sampled search")

prop("C39", "URL quoting is ASCII, exact and reversible",
     "For any text, urlquote() and urlquote_plus() give ASCII in which only letters, digits, '_', '.', '-', '~' and the given safe characters are unescaped and every other character is the escapes of its UTF-8 bytes (a space is '+' for the latter); urlunquote() and urlunquote_plus() give the original back. They take any text, with well-formed, ill-formed or no escapes: what is no escape is kept, and bytes that are not UTF-8 become replacement characters.",
     ["inputs", "configurations"], "All texts including those outside the Basic Multilingual Plane, given as text or UTF-8 bytes, and all sets of ASCII safe characters.",
     "No test quotes or unquotes anything.",
     [UHTTP], [("quoting", UHTTP + ":urlquote"), ("unquoting", UHTTP + ":urlunquote")],
     ["results of the four functions"],
     "differential against the standard library of Python 3; round trip",
     "sampled search; texts up to a few thousand characters")

NOT_APPLICABLE = []
SKIP = set(a for a in os.environ.get("META_SKIP", "").split(",") if a)


def main():
    have = set(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "lib", "props")) if f.startswith("c") and f.endswith(".py")) if os.path.isdir(os.path.join(ROOT, "lib", "props")) else set()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], list(NOT_APPLICABLE)
    for p in P:
        if p["id"] in have and p["id"] not in SKIP:
            checks.append({
                "property": p["id"], "quick_cmd": "./check %s" % p["id"],
                "thorough_cmd": "./check %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": "property-based testing (Hypothesis, generated inputs): " + p["oracle"],
                "level": "exploration",
                "level_note": "Bounded random search with shrinking, no proof of absence: " + p["note"] + ". Trusts Jython 2.7.3 as the interpreter, the reference model in lib/props/%s.py and Hypothesis." % p["id"].lower()})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every check drives the public API from outside through a Jython worker."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not")


if __name__ == "__main__":
    main()
