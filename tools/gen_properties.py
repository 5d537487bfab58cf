#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A CSV file is exposed faithfully, row by row",
  "Every row of a CSV input (the first one only unless it is configured to be ignored) is exposed as exactly one record, in file order, whose properties are exactly the configured or auto-detected columns, each holding that row's field under standard CSV quoting converted by the column's parser. Missing trailing fields are null, surplus fields are ignored, whatever the delimiter, line ending, field size or width of the header row. A field its parser rejects is reported as an error and is never replaced by another value.",
  ["inputs", "configurations"],
  "All CSV files (quoting, embedded delimiters and newlines, ragged rows, fields larger than the read buffers, LF and CRLF, with or without a final newline) and all column/delimiter/header configurations.",
  "The tests read a handful of fixed three-line files; the guarantee ranges over every field content, row shape, buffer alignment and configuration.",
  ["pkg/input/csv.go", "pkg/input/csv_config.go", "pkg/input/csv_record.go"],
  [("encoding/csv reader over a shared bufio buffer", "pkg/input/csv.go IterateAll"), ("column name to field mapping", "pkg/input/csv_record.go getColumn"), ("header row detection and skipping", "pkg/input/csv.go autodetectColumns, IterateAll")],
  observe=["input iteration, record values", "HTTP responses"])

p("C02", "Fetching a record by its position returns the record that was iterated there",
  "For every CSV, JSON or XML input, the positions reported while iterating are strictly increasing and identical on each iteration, and fetching a position returns a record equal to the one iterated at that position. This holds for any order, repetition and interleaving of fetches and iterations, including the first fetch after opening the input.",
  ["inputs", "histories"],
  "All files of the three formats and all sequences of fetch/iterate/partial iterate operations on one opened input.",
  "Tests fetch one or two positions of a tiny file once; offsets go wrong only for particular buffer alignments, record sizes and fetch histories.",
  ["pkg/input/csv.go", "pkg/input/json.go", "pkg/input/xml.go", "pkg/util/bufio.go"],
  [("offset arithmetic of buffered readers", "pkg/util/bufio.go"), ("reader and decoder reset on each fetch", "pkg/input/*.go Get")],
  state=[("reader offset / decoder state", "shared by successive fetches of one input", "pkg/input/*.go")],
  observe=["Input.Get versus IterateAll"])

p("C03", "A JSON file is exposed faithfully, document by document",
  "Every JSON object of a JSON input is exposed as exactly one record, in file order, with exactly the members and values of that document (nesting, strings, numbers as 64-bit floats, booleans and nulls), whatever the whitespace between documents and whatever their size. A document that is not valid JSON, or is not an object, is reported as an error after the records preceding it and never as a record.",
  ["inputs"],
  "All sequences of JSON objects, layouts and sizes, and all single corruptions of such a sequence.",
  "Tests use two flat documents on two lines; the claim is over every document shape, size and separator.",
  ["pkg/input/json.go", "pkg/input/json_record.go"],
  [("streaming JSON decoder with input offsets", "pkg/input/json.go IterateAll")],
  observe=["input iteration, record values"])

p("C04", "An XML file is exposed faithfully according to its XPath configuration",
  "Every XML element selected by the configured record expression (outside of another selected element) is exposed as exactly one record, in document order, and each property holds the value of its XPath expression evaluated on that element: strings through the configured parser, numbers and booleans for parsers of that type (an integer parser drops the fraction of a number), arrays with one item per selected node in document order, objects from the single selected node or null when there is none. A value whose type does not fit the configured parser, or several nodes for an object, is reported as an error.",
  ["inputs", "configurations"],
  "All XML documents with repeated record elements and all nested primitive/array/object property configurations over the supported XPath forms.",
  "Tests cover one fixed document; mapping mistakes depend on nesting, missing nodes, repeated nodes, attributes, entities and element sizes.",
  ["pkg/input/xml.go", "pkg/input/xml_config.go", "pkg/input/xml_record.go"],
  [("stream parser selecting record nodes", "pkg/input/xml.go IterateAll"), ("typed XPath evaluation", "pkg/input/xml_record.go getAllValues")],
  observe=["input iteration, record values"])

p("C05", "Dotted property paths agree with the full record",
  "For every record of every input type, looking up a dotted path gives exactly the value found by walking the record's full content along the same segments (member names in objects, zero-based numbers in arrays). A path that leads to an absent member or to an array index that does not exist gives null, and a path that cannot be resolved (empty, unknown column, non-numeric index, descending into a primitive) gives an error; no path ever crashes the program.",
  ["inputs"],
  "All records and all path strings, including negative, huge and malformed indexes.",
  "Tests look up a few valid paths and one missing index; the accessors are three separate implementations that must agree on every path.",
  ["pkg/input/record/path.go", "pkg/input/csv_record.go", "pkg/input/json_record.go", "pkg/input/xml_record.go"],
  [("recursive sub-value lookup", "pkg/input/record/path.go GetSubValue"), ("JSON and XML lookups", "pkg/input/json_record.go getSubValue, pkg/input/xml_record.go getSubValue")],
  observe=["Record.Get versus Record.All"])

p("C06", "Parsers convert exactly the documented values and reject the others",
  "The integer and float parsers strip the configured ignored characters, apply the decimal separator and return the exact 64-bit number or an error; the boolean parser returns true or false exactly for its configured values and an error otherwise. The string parser returns the UTF-8 conversion of the value from the configured charset, independently of what was parsed before, and the split and json parsers return the array or document the value denotes, items converted by the configured sub-parser.",
  ["inputs", "configurations"],
  "All parser configurations, all input strings, and all sequences of values parsed with one parser.",
  "Tests parse about ten literals per parser with one configuration each; overflow, multi-byte ignored characters, overlapping separators and stateful charsets are outside them.",
  ["pkg/parser/integer.go", "pkg/parser/float.go", "pkg/parser/boolean.go", "pkg/parser/string.go", "pkg/parser/split.go", "pkg/parser/json.go", "pkg/util/utils.go"],
  [("character stripping", "pkg/util/utils.go RemoveCharacters"), ("charset decoder", "pkg/parser/string.go"), ("split with literal or regexp delimiter", "pkg/parser/split.go")],
  observe=["Parser.Parse", "record values"])

p("C07", "Exact-match lookups return exactly the matching records, with or without index",
  "For any input and any combination of property filters with values of the properties' own types, the map index, the sqlite index with binary collation and the index-less default search each return exactly the positions of the records whose properties all equal the filter values, in strictly increasing order and without duplicates. For a property holding an array, the map index matches, once each, the records whose array contains the value, in nested arrays too. Using an index never changes which records are found compared to not using one.",
  ["inputs", "configurations"],
  "All data sets, indexed property sets, and filter combinations, over string, integer, float and boolean properties including duplicates, empty strings and missing values.",
  "Tests index three mocked records; agreement between four separate lookup implementations over every data set is not sampled.",
  ["pkg/index/map.go", "pkg/index/sqlite.go", "pkg/index/noop.go", "pkg/input/record/join.go"],
  [("per-value position lists", "pkg/index/map.go"), ("SQL equality lookup", "pkg/index/sqlite.go"), ("full scan comparison", "pkg/index/noop.go"), ("sorted list intersection", "pkg/input/record/join.go")],
  observe=["Index.GetRecordPositions", "HTTP responses"])

p("C08", "The wildcard index returns exactly the records containing the substring",
  "For every string data set and every non-empty search string, the wildcard index returns exactly the positions of the records whose property (or one item of it, for arrays of strings) contains that string as a substring, in increasing order without duplicates; filters on several properties are combined with AND. With ignoreCase both sides are compared in lower case, otherwise byte for byte. The answer does not depend on the insertion order, on the size of the index or on whether it was just built or loaded from its file.",
  ["inputs", "configurations"],
  "All multisets of strings (including multi-byte, repetitive and empty ones), all search strings, index sizes across the internal write buffer boundary, fresh and reloaded index.",
  "Tests add a few words to a small tree; node splits, position copies and buffer boundary crossings depend on the whole history of inserted suffixes.",
  ["pkg/index/wildcard.go", "pkg/index/wildcard/node.go", "pkg/index/wildcard/position.go", "pkg/index/wildcard/stream.go"],
  [("suffix tree insertion with node splitting", "pkg/index/wildcard/node.go addSequence"), ("position lists", "pkg/index/wildcard/position.go"), ("buffered random-access file", "pkg/index/wildcard/stream.go")],
  state=[("tree nodes and position lists in the index file", "the index itself", "pkg/index/wildcard/*.go")],
  observe=["Index.GetRecordPositions"])

p("C09", "The full-text index answers queries like SQLite FTS5 over the indexed properties",
  "For every data set and every valid full-text query built from terms, prefixes, phrases, column filters and boolean operators, the fts5 index returns exactly the positions of the records that satisfy the query over the indexed properties under the configured tokenizer, in increasing order. A query FTS5 rejects is reported as an error and never as an empty or partial result, and searching never changes later answers.",
  ["inputs", "configurations", "histories"],
  "All data sets, tokenizer/prefix settings and query expressions, valid and malformed, and sequences of such queries.",
  "Tests run one query on three records; operators, columns, prefixes, malformed queries and repetition are not sampled.",
  ["pkg/index/fts5.go", "pkg/index/fts5_config.go", "pkg/index/sqlite/sanitize.go"],
  [("virtual table creation and row insertion", "pkg/index/fts5.go createIndex"), ("MATCH query", "pkg/index/fts5.go GetRecordPositions")],
  observe=["Index.GetRecordPositions", "HTTP responses"])

p("C10", "SQLite index collations behave as documented, per property",
  "An sqlite-indexed property declared binary, nocase or rtrim (in any letter case, binary by default) matches a filter exactly when the two values are equal under SQLite's collating sequence of that name: byte equality, ASCII case-insensitive equality, or equality ignoring trailing spaces. Each property uses its own collation, whether the index is searched right after being built or after being reopened.",
  ["inputs", "configurations"],
  "All string data sets, filter values and assignments of collations to properties.",
  "The tests exercise the binary collation on three values only.",
  ["pkg/index/sqlite.go", "pkg/index/sqlite_config.go"],
  [("collation list and column definition", "pkg/index/sqlite_config.go, pkg/index/sqlite.go createIndex")],
  observe=["Index.GetRecordPositions"])

p("C11", "A stored index is reused only for the unchanged input, and answers as when new",
  "Reopening a completed wildcard, sqlite or fts5 index over the unchanged input with the same configuration succeeds without modifying it and gives the same answer to every query as the freshly built one. If the input's size or modification time (in whole seconds) changed, if the index was built with other settings that decide its answers (properties and ignoreCase of a wildcard index, properties and collations of a sqlite index, properties and tokenizer of an fts5 index), or if the file is not an index of the right kind and version, startup fails with an error instead of serving from it.",
  ["inputs", "histories", "configurations"],
  "All data sets and queries, all sequences of build, reopen, input change and configuration change, and arbitrary or truncated bytes in place of the index file.",
  "Tests check single metadata fields in isolation; the reuse decision and equality of answers over whole histories are not covered.",
  ["pkg/index/wildcard.go", "pkg/index/wildcard/metadata.go", "pkg/index/sqlite.go", "pkg/index/fts5.go", "pkg/index/sqlite/metadata.go"],
  [("metadata validation", "pkg/index/*/metadata.go AssertValid"), ("index loading", "pkg/index/wildcard.go loadIndex")],
  state=[("index metadata", "input size and time, version, completion flag", "pkg/index/*/metadata.go")],
  observe=["second startup: error or answers"])

p("C12", "An index whose construction did not finish is never served",
  "At whatever point the construction of a wildcard, sqlite or fts5 index stops (process killed, write error, disk full, error while reading the input), the next startup over what was left on disk either fails with an error, or rebuilds, or serves an index that answers every query as a complete one does. No partially built index is ever taken for a complete one.",
  ["crash_points", "fault_sequences", "inputs"],
  "All data sets, all stopping points between and inside the writes of the index construction, and all read-error positions of the input.",
  "No test stops a construction; the guarantee ranges over every crash point of every build.",
  ["pkg/index/wildcard.go", "pkg/index/wildcard/stream.go", "pkg/index/wildcard/metadata.go", "pkg/index/sqlite.go", "pkg/index/fts5.go", "pkg/index/sqlite/metadata.go"],
  [("completion flag written last", "pkg/index/wildcard.go createIndex, pkg/index/sqlite.go createIndex, pkg/index/fts5.go createIndex")],
  state=[("completed flag", "whether indexing finished", "pkg/index/*/metadata.go")],
  observe=["restart over the leftovers of an interrupted build"])

p("C13", "Paging a list returns exactly the requested window, in stable order",
  "A list endpoint returns, for the given filters, the matching records from position offset on, in input order and at most limit of them, where limit defaults to the configured default and is capped by the configured maximum, and offset defaults to zero; both use their configured parameter names. Consecutive pages neither skip nor repeat records, and a limit that is not a positive integer or an offset that is not a non-negative integer is answered with an error.",
  ["inputs", "configurations", "histories"],
  "All data sets, filters, limit/offset configurations and request parameter strings, and whole page-by-page traversals.",
  "Tests request two or three fixed pages of a mocked input.",
  ["pkg/output/json_array.go", "pkg/output/json_array_config.go"],
  [("limit and offset resolution", "pkg/output/json_array.go getLimit, getOffset"), ("skip-and-take over the position iterator", "pkg/output/json_array.go Handle")],
  observe=["HTTP responses of list endpoints"])

p("C14", "Requests return exactly the records matching all of their parameters",
  "A list endpoint returns the records that satisfy every parameter given in the request, each parsed by its parser and applied to its property through its index, whatever mix of indexes the parameters use and in whatever order; parameters that are absent do not filter and unknown ones are ignored. An object endpoint returns the first record in input order that satisfies all of its parameters, and status 404 when there is none. Every returned object holds exactly the content of its record.",
  ["inputs", "configurations"],
  "All data sets, parameter/index/parser configurations (default, map, sqlite, wildcard, fts5 together) and request combinations.",
  "Tests use a single parameter on a mocked index; the intersection of several index kinds over real inputs is not sampled.",
  ["pkg/output/json_array.go", "pkg/output/json_object.go", "pkg/output/json_common.go", "pkg/input/record/join.go"],
  [("grouping of filters by index", "pkg/output/json_array.go getFiltersPerIndex, pkg/output/json_object.go getRouteFiltersPerIndex"), ("intersection of sorted position lists", "pkg/input/record/join.go")],
  observe=["HTTP responses"])

p("C15", "Embedded relationships contain exactly the matching related records",
  "For every returned object and every configured relationship, the relationship's property holds the related records whose child properties all equal the parent's values: for an array relationship all of them up to the limit, sorted as configured or in input order; otherwise the first one in input order, or null. Nested relationships are resolved the same way relative to their own parent, independently of each other and of evaluation order, and the object's other properties are left unchanged.",
  ["inputs", "configurations"],
  "All pairs of data sets and relationship trees (arrays and single, limits, several match pairs, any index, nesting).",
  "Tests embed one relationship over a few mocked records.",
  ["pkg/output/json_common.go", "pkg/output/relationship/config.go"],
  [("relationship loading", "pkg/output/json_common.go loadRelationships")],
  observe=["HTTP responses"])

p("C16", "Sorted relationships are ordered by the configured properties and lose nothing",
  "A sorted relationship lists exactly the related records, ordered by the first sort property, ties broken by the following ones, each ascending unless configured descending. Strings are compared bytewise, numbers numerically and false comes before true; the limit is applied after sorting.",
  ["inputs", "configurations"],
  "All record multisets, sort property lists and directions over string, integer, float and boolean properties, with ties.",
  "One test sorts three records by two string properties.",
  ["pkg/input/record/sort.go", "pkg/input/record/sort_config.go", "pkg/parser/parser.go", "pkg/output/json_common.go"],
  [("multi-key comparison", "pkg/input/record/sort.go Less, pkg/parser/parser.go Compare")],
  observe=["HTTP responses"])

p("C17", "Each URL reaches exactly the configured route with the right parameter values",
  "A GET request is answered by the first configured route whose path equals the request path, where literal parts match only themselves and each placeholder matches any text its parameter's parser accepts in URLs; every placeholder's value is bound to the parameter of that name and overrides a query-string value of the same name. Of several query-string values of one name, the first counts. Requests matching no route, or using another method, get a 404 error.",
  ["configurations", "inputs"],
  "All route tables (several placeholders, adjacent literals, special characters, any primitive parser) and request paths and query strings.",
  "Tests match a few hand-written paths with mock parsers; placeholder alignment depends on the combination of parsers and literals.",
  ["pkg/service/http.go", "pkg/service/http_config.go", "pkg/parser/float.go", "pkg/parser/boolean.go", "pkg/parser/integer.go", "pkg/parser/string.go"],
  [("path to regular expression translation", "pkg/service/http.go createPathRegexp"), ("parameter extraction", "pkg/service/http.go getParams")],
  observe=["HTTP responses"])

p("C18", "Every request gets one well-formed JSON answer with the right status, always",
  "Whatever the request (any method, path, query string, headers or body) the service answers it with one complete JSON document and the JSON content type: the data with status 200, or an object with an error message with status 404 when no route or no record matches and 500 for any other error. A failing request never stops the service, and afterwards it keeps giving correct answers.",
  ["inputs", "histories", "fault_sequences"],
  "All requests, including malformed parameters, unparsable data cells, values JSON cannot represent and failing inputs, in any sequence.",
  "Tests send a few valid requests; status and body for arbitrary failures and survival after them are not settled by samples.",
  ["pkg/service/http.go", "pkg/output/json_array.go", "pkg/output/json_object.go"],
  [("error responses", "pkg/service/http.go sendErrorResponse"), ("success responses", "pkg/output/json_array.go Handle, pkg/output/json_object.go Handle")],
  observe=["raw HTTP responses"])

p("C19", "Concurrent requests get the same answers as sequential ones",
  "For any set of requests served concurrently, every response equals the response the same request gets when served alone. No interleaving of requests corrupts data, deadlocks or crashes the service, or makes two requests access shared memory without synchronisation.",
  ["schedules", "inputs"],
  "All schedules of concurrent requests over all input, parser, index and output kinds.",
  "All tests are sequential.",
  ["pkg/input/csv.go", "pkg/input/json.go", "pkg/input/xml.go", "pkg/index/sqlite.go", "pkg/index/fts5.go", "pkg/index/wildcard.go", "pkg/parser/string.go", "pkg/service/http.go"],
  [("reader locks", "pkg/input/*.go readerLock"), ("per-request iterators", "pkg/index/*.go")],
  state=[("shared readers and decoders", "one per input or parser", "pkg/input, pkg/parser")],
  observe=["HTTP responses under load, race detector"])

p("C20", "Answers do not depend on earlier requests, and serving leaks no resources",
  "The answer to a request is a function of the configuration and the data only: any sequence of earlier requests, successful or failing, leaves it unchanged. Serving any number of requests keeps the number of open files, database connections and background tasks bounded, and never writes to the input files or to a completed index.",
  ["histories"],
  "All finite request histories over all component kinds.",
  "Tests issue one or two requests per instance; state carried over and slow leaks only show over long histories.",
  ["pkg/index/sqlite.go", "pkg/index/fts5.go", "pkg/index/noop.go", "pkg/input/xml.go", "pkg/input/csv.go", "pkg/input/json.go"],
  [("closing of iterators and rows", "pkg/index/*.go"), ("stateless fetches", "pkg/input/*.go Get")],
  state=[("open descriptors, goroutines, decoder state", "what a request may leave behind", "pkg/index, pkg/input")],
  observe=["HTTP responses, process descriptors and goroutines"])

p("C21", "Every configuration is either served as written or rejected with an error",
  "For any configuration file, startup either fails with an error message or serves it as written; it never crashes or hangs. A configuration is rejected when it has a duplicate name within a layer, a reference to an input, index, output or parser that does not exist, a missing or empty required setting, an unknown or repeated setting, an invalid value (type, path, pattern, xpath, charset, certificate, limits), a parameter or relationship whose index does not handle its property or input, an index on a property that its CSV or XML input does not have, or a route placeholder that is not a parameter of the output. Environment variable references are expanded before parsing, and the order and YAML style of the file do not matter. Properties that only the records decide (noop index, parentProperty, sort) are outside of the startup checks.",
  ["configurations", "inputs"],
  "All YAML documents, in particular all single mutations of valid configurations, and file system states of the referenced paths.",
  "Tests validate single structs with single missing fields; the combinations through the real loader are unbounded.",
  ["pkg/config/config.go", "pkg/config/parser.go", "pkg/config/input.go", "pkg/config/index.go", "pkg/config/output.go", "pkg/config/service.go", "pkg/input/csv_config.go", "pkg/input/xml_config.go", "pkg/input/json_config.go", "pkg/index/sqlite_config.go", "pkg/index/fts5_config.go", "pkg/index/map_config.go", "pkg/index/wildcard_config.go", "pkg/output/json_array_config.go", "pkg/output/json_object_config.go", "pkg/output/relationship/config.go", "pkg/output/parameter/config.go", "pkg/service/http_config.go", "pkg/parser/split_config.go"],
  [("strict YAML decoding and validation", "pkg/config/config.go"), ("per-component Validate", "pkg/*/*_config.go")],
  observe=["startup result"])

p("C22", "Documented defaults apply exactly when a setting is left out",
  "Leaving out an optional setting is equivalent to writing its documented default (delimiter, parser, index, limit and offset settings, collation, tokenizer, ignoreCase, property type, isArray, sort direction, listen address, predefined parsers and default index), and a parser or index declared by the user under a predefined name (string, integer, float, boolean, json, default) replaces the predefined one wherever it is referred to, explicitly or not. Any two configurations that differ only in this way give the same answer to every request.",
  ["configurations", "inputs"],
  "All configurations, all subsets of omitted optional settings, all requests.",
  "Tests check single default fields after validation, not the behaviour of the whole service.",
  ["pkg/config/config.go", "pkg/input/csv_config.go", "pkg/input/xml_config.go", "pkg/index/sqlite_config.go", "pkg/index/fts5_config.go", "pkg/index/wildcard_config.go", "pkg/output/json_array_config.go", "pkg/output/parameter/config.go", "pkg/output/relationship/config.go", "pkg/input/record/sort_config.go", "pkg/service/http_config.go"],
  [("default assignment during validation", "pkg/*/*_config.go Validate"), ("default components", "pkg/config/config.go addDefaultConfigs")],
  observe=["HTTP responses of both configurations"])

p("C23", "The program stops when its data changes, and shuts down cleanly when asked",
  "While the program runs, a write to one of its input files makes it exit with an error status, unless that input sets dieOnInputChange to false, in which case it keeps serving; without such a write it never exits by itself. On an interrupt signal it stops accepting requests, completes those in progress and exits with status zero, and a startup error makes it exit with a non-zero status and a message.",
  ["histories", "configurations", "schedules"],
  "All sequences of requests, input writes (append, overwrite, truncate) and signals, over all input kinds and dieOnInputChange settings.",
  "No test runs the program as a whole.",
  ["cmd/main.go", "pkg/util/fsnotify.go", "pkg/service/http.go", "pkg/input/csv.go", "pkg/input/json.go", "pkg/input/xml.go"],
  [("file watcher", "pkg/util/fsnotify.go"), ("signal handling and deferred closing", "cmd/main.go")],
  observe=["process exit status, HTTP responses"])

p("C24", "Components of one instance do not interfere with each other",
  "Several inputs, indexes (including several sqlite and fts5 indexes stored in one database), outputs, routes and services configured in one instance each behave exactly as when configured alone. Every service answers its own routes at its own address, over http and https alike.",
  ["configurations", "inputs"],
  "All sets of valid component definitions merged in one configuration, compared with each of them alone.",
  "Tests instantiate one component at a time.",
  ["pkg/config/config.go", "pkg/index/sqlite.go", "pkg/index/fts5.go", "pkg/index/sqlite/metadata.go", "pkg/service/service.go", "pkg/service/http.go", "pkg/output/output.go"],
  [("table names derived from index names", "pkg/index/sqlite.go, pkg/index/fts5.go, pkg/index/sqlite/metadata.go"), ("lookup of components by name", "pkg/*/ NewFromConfigs")],
  observe=["HTTP responses of the merged and separate instances"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
