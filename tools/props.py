# Property texts; read by genmeta.py.
hooks = None
notes = ('Every check rebuilds its harness (harness/*.go, module with a replace directive) from the working tree of /repo. '
         'Known findings and fixed defects are in KNOWN_FINDINGS; the design and the table of seeded changes are in DESIGN.md.')
not_applicable = {}
techniques = {}

def add(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, state=None, hook=None):
    props.append(P(id, title, statement, over, qtext, why, files, mech, observe, state, hook))
    techniques[id] = (technique, note)

BOUND = 'Exhaustive within the stated bounds on the real code; says nothing about values or sizes outside them. '

add('C01', 'CSV records are exactly the rows of the file',
    'Iterating a CSV input gives one record per CSV row, in file order, whose columns are the cells of that row parsed by the configured parsers, with missing cells as nulls and the header and ignored rows left out as configured. A file that does not satisfy the configuration is an error; no row is ever silently dropped, duplicated, merged or altered.',
    ['inputs', 'configurations'], 'For every CSV text, every delimiter, quoting, column and header configuration, and every alignment of a row with the read buffer.',
    'The tests read a handful of small hand-written files; the row boundaries, quoting, buffer alignment and configuration combinations are unbounded.',
    ['pkg/input/csv.go', 'pkg/input/csv_record.go', 'pkg/input/csv_config.go', 'pkg/util/bufio.go'],
    [('row iterator and offsets', 'pkg/input/csv.go IterateAll'), ('cell access', 'pkg/input/csv_record.go')], ['input.IterateAll', 'record.All', 'record.Get'],
    'bounded exhaustive enumeration of input texts on the real reader against a reference reader',
    BOUND + 'Trusts encoding/csv for quoting corner cases it defines (the reference is an independent row reader over the same dialect).')
add('C02', 'JSON records are exactly the objects of the file',
    'Iterating a JSON input gives one record per top-level object of the file, in order, with the values of that object. Anything in the file that is not a sequence of objects is an error; no object is ever silently dropped, duplicated or altered.',
    ['inputs'], 'For every sequence of JSON tokens, including truncated and foreign ones, and every alignment of an object with the read buffer.',
    'The tests read two or three fixed documents.',
    ['pkg/input/json.go', 'pkg/input/json_record.go'], [('object iterator and offsets', 'pkg/input/json.go IterateAll'), ('object at a position', 'pkg/input/json.go Get')], ['input.IterateAll', 'record.All'],
    'bounded exhaustive enumeration of token sequences on the real reader against a reference reader', BOUND + 'Trusts encoding/json for the decoding of one well-formed object.')
add('C03', 'XML records are exactly the elements selected by the XPath',
    'Iterating an XML input gives one record per element selected by the record XPath, in document order, whose properties are what the configured property XPaths select in that element. A document that is cut short or malformed is an error rather than a shorter list.',
    ['inputs', 'configurations'], 'For every small document, every serialisation style of it, every record XPath form and every truncation point.',
    'The tests use a few fixed documents in one style.',
    ['pkg/input/xml.go', 'pkg/input/xml_record.go', 'pkg/input/xml_config.go'], [('element iterator', 'pkg/input/xml.go IterateAll'), ('property evaluation', 'pkg/input/xml_record.go')], ['input.IterateAll', 'record.All'],
    'bounded exhaustive enumeration of documents, styles and truncations on the real reader against the generating model', BOUND + 'Trusts the xpath library for expressions outside the enumerated forms.')
add('C04', 'Reading by position gives the iterated record, whatever happened before',
    'For every position an iteration produced, asking the input for that position at any later time gives a record equal to the iterated one, and a position at which no record starts is never answered with another record. Iterations and reads on the same input never disturb each other, and a record keeps its values after later operations.',
    ['histories', 'inputs'], 'For every sequence of reads by position, iterator openings, advances and releases, on every dataset shape.',
    'The tests read each position once on a fresh input; shared readers and buffers make the result depend on the whole history of operations.',
    ['pkg/input/csv.go', 'pkg/input/json.go', 'pkg/input/xml.go', 'pkg/util/bufio.go'], [('shared reader and its lock', 'pkg/input/*.go Get'), ('buffer position tracking', 'pkg/util/bufio.go')], ['input.Get', 'input.IterateAll'],
    'bounded exhaustive exploration of operation histories on the real inputs, differential against the first iteration',
    BOUND + 'Two XML limitations of the stream library are listed as known findings.')
add('C05', 'A parser accepts exactly its documented texts and gives their value',
    'Each parser turns every text of its documented form into the documented value, refuses every other text, and gives the same result whatever it parsed before. The route pattern of a parser matches every text that the parser accepts.',
    ['inputs', 'configurations', 'histories'], 'For every text, every parser configuration and every sequence of parsed texts.',
    'The tests try a few texts per parser; stateful decoders and separators combine in unboundedly many ways.',
    ['pkg/parser'], [('Parse and GetRegexpPattern of each parser', 'pkg/parser/*.go')], ['parser.Parse', 'parser.GetRegexpPattern'],
    'bounded exhaustive enumeration of texts and text pairs on the real parsers against reference parsers', BOUND + 'Trusts strconv for rounding of decimal numbers.')
add('C06', 'Sorting gives the documented total order and keeps every record',
    'Sorting by any list of ascending and descending properties gives a permutation of the records that respects the order on values (nulls, mixed types and ties included). The comparison is a consistent order: never contradictory and never dependent on the initial arrangement.',
    ['inputs', 'configurations'], 'For every list of records over the value domain, every key list and every initial arrangement.',
    'The tests sort a few short lists of one type.',
    ['pkg/input/record/sort.go', 'pkg/input/record/sort_config.go'], [('comparison and sort', 'pkg/input/record/sort.go')], ['record list sort'],
    'bounded exhaustive enumeration of lists and value pairs on the real sorter against a reference order', BOUND)
add('C07', 'A dotted path reads the value it designates in the record',
    'Reading any dotted path from a record gives the same value as walking the whole record along that path, and a path that designates nothing is a null or an error, never another value and never a crash. This holds equally for JSON, CSV and XML records.',
    ['inputs'], 'For every nested value and every path over names and indexes.',
    'The tests read a few fixed paths.',
    ['pkg/input/record/path.go', 'pkg/input/json_record.go', 'pkg/input/csv_record.go', 'pkg/input/xml_record.go'], [('path walking', 'pkg/input/record/path.go')], ['record.Get', 'record.All'],
    'bounded exhaustive enumeration of values and paths on the real records against a reference walk', BOUND)
add('C08', 'Combining position lists gives exactly their intersection, in order',
    'Combining any number of ascending position lists produces exactly the positions present in all of them, once each, in ascending order, whatever the order of the lists, and keeps reporting the end once it is reached. An error of any source is reported instead of a shorter result.',
    ['inputs', 'fault_sequences'], 'For every tuple of ascending lists, every order of them, and every failing call.',
    'The tests join two or three fixed lists.',
    ['pkg/input/record/join.go', 'pkg/input/record/record.go'], [('join iterator', 'pkg/input/record/join.go')], ['record.JoinPositionIterators'],
    'bounded exhaustive enumeration of list tuples and failing calls on the real iterator against set intersection', BOUND)
add('C09', 'The map and scanning indexes find exactly the equal records',
    'Filtering through the memory index or through a full scan yields exactly the records whose property equals the filter (or, for the memory index, contains it in an array), each once and in input order, for one or several filters and for any number of queries in progress. What an index cannot answer is an error and never a wrong or partial list.',
    ['inputs', 'histories'], 'For every dataset, filter combination and interleaving of two queries.',
    'The tests index one mock dataset of strings.',
    ['pkg/index/map.go', 'pkg/index/noop.go', 'pkg/index/index.go'], [('memory index', 'pkg/index/map.go'), ('full scan', 'pkg/index/noop.go')], ['index.GetRecordPositions'],
    'bounded exhaustive enumeration of datasets, filters and interleaved queries on the real indexes against reference equality', BOUND)
add('C10', 'The sqlite index finds exactly the records equal under its collation',
    'Filtering through the sqlite index yields exactly the records whose property equals the filter under the configured collation (with nulls matching only nulls), each once, for any names of properties and any number of unfinished queries. A failure while querying is an error and never a partial list.',
    ['inputs', 'configurations', 'histories'], 'For every dataset, collation, filter combination, property name and number of abandoned queries.',
    'The tests index one fixed dataset with plain names.',
    ['pkg/index/sqlite.go', 'pkg/index/sqlite'], [('table and queries', 'pkg/index/sqlite.go'), ('identifier quoting', 'pkg/index/sqlite/sanitize.go')], ['index.GetRecordPositions'],
    'bounded exhaustive enumeration of datasets, collations, filters and query histories on the real index against reference collations', BOUND + 'Trusts the SQLite library itself.')
add('C11', 'The full-text index finds exactly the documents matching the query',
    'Searching through the full-text index yields exactly the records whose indexed text satisfies the match expression under the configured tokenizer and prefix settings, each once. A malformed expression is an error, never an empty or partial list.',
    ['inputs', 'configurations'], 'For every small document collection, query of the grammar and index configuration.',
    'The tests run a few fixed searches.',
    ['pkg/index/fts5.go', 'pkg/index/fts5_config.go', 'pkg/index/sqlite'], [('virtual table and MATCH query', 'pkg/index/fts5.go')], ['index.GetRecordPositions'],
    'bounded exhaustive enumeration of documents and queries on the real index against a reference evaluation', BOUND + 'Trusts the FTS5 implementation.')
add('C12', 'The wildcard index is an exact substring search',
    'Filtering through the wildcard index yields exactly the records having a value that contains the filter text (ignoring case or not, as configured), each once and in order, for several filters together, and the same after the index file is reopened. Values or filters that cannot be searched are refused, never answered wrongly.',
    ['inputs', 'configurations'], 'For every set of texts and every search text, on a new and on a reopened index.',
    'The tests check the tree shape on a few words; node splitting, shared suffixes and buffer boundaries depend on the whole set of texts.',
    ['pkg/index/wildcard.go', 'pkg/index/wildcard'], [('suffix tree', 'pkg/index/wildcard/node.go'), ('position lists', 'pkg/index/wildcard/position.go'), ('storage', 'pkg/index/wildcard/stream.go')], ['index.GetRecordPositions'],
    'bounded exhaustive enumeration of text sets and searches on the real index against substring search', BOUND)
add('C13', 'The index chosen for a parameter never changes the answer',
    'A request filtering on the same properties gets the same answer whether each parameter is served by the default scan, an explicit scan, the memory index or the sqlite index, through one shared index or several. Combining an exact parameter with a text-search one gives exactly the records satisfying both.',
    ['configurations', 'inputs'], 'For every assignment of index kinds to parameters, every dataset and every request.',
    'No test compares two index kinds; each is tested alone on its own data.',
    ['pkg/output/json_common.go', 'pkg/index'], [('grouping of filters by index and joining', 'pkg/output/json_common.go'), ('indexes', 'pkg/index/*.go')], ['output.Handle'],
    'bounded exhaustive differential enumeration over index kinds, datasets and requests on the real outputs', BOUND)
add('C14', 'A record is found by the values it displays',
    'Requesting records with the value that a record shows for a property, written as the configuration says that property is written, returns that record and only records showing an equal value. This holds for every column type, for path and query-string parameters and for every kind of index.',
    ['inputs', 'configurations'], 'For every cell text, column parser, index kind and way of passing the parameter.',
    'The tests check inputs, indexes, outputs and the service separately and never the round trip of a value through all of them.',
    ['pkg/parser', 'pkg/input/csv.go', 'pkg/index', 'pkg/output', 'pkg/service/http.go'], [('parsing of cells and of parameters', 'pkg/parser'), ('type-sensitive comparison in indexes', 'pkg/index')], ['HTTP responses'],
    'bounded exhaustive enumeration of cell values, parsers, index kinds and request forms through the whole real stack', BOUND)
add('C15', 'A reopened persisted index answers like a fresh one',
    'Opening a wildcard, sqlite or full-text index that was completely built earlier for the same unchanged input and configuration succeeds, answers every query exactly as a new index would, does not read the input again and does not modify the file. Several indexes stored together never affect each other, whatever the order in which they are created, added and opened.',
    ['histories', 'inputs'], 'For every dataset and every sequence of creations, openings and closings of up to three indexes.',
    'The tests reopen at most once, on one dataset, and check that no error is returned.',
    ['pkg/index/wildcard.go', 'pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/index/sqlite/metadata.go'], [('load path of each index', 'pkg/index/*.go'), ('metadata', 'pkg/index/*/metadata.go')], ['index constructors', 'index.GetRecordPositions', 'file contents'],
    'bounded exhaustive exploration of open/close histories of real index files, differential against fresh indexes', BOUND)
add('C16', 'A stale, foreign or damaged index file never serves wrong records',
    'Opening an index file whose input has changed, whose configuration differs, which belongs to something else, or which is incomplete, truncated or corrupted in its header is refused, or the queries fail, or the answers are still those of a fresh index; it is never a crash, nor a different answer. A refused file is left as it was.',
    ['fault_sequences', 'configurations', 'histories'], 'For every single change of input identity or configuration, every truncation length and every corrupted header byte.',
    'The tests flip one metadata field at a time inside a unit test of the metadata object.',
    ['pkg/index/wildcard/metadata.go', 'pkg/index/sqlite/metadata.go', 'pkg/index/wildcard.go', 'pkg/index/sqlite.go', 'pkg/index/fts5.go'], [('AssertValid', 'pkg/index/*/metadata.go')], ['index constructors', 'index.GetRecordPositions'],
    'exhaustive enumeration of single damages, truncations and configuration changes on real index files, differential against fresh indexes',
    BOUND + 'Damage inside the data area of a file (beyond its header) that keeps its length is out of scope: the formats carry no checksum.')
add('C17', 'A crash while building a wildcard index never yields a wrong index',
    'Whatever the moment at which the process dies while building a wildcard index, opening the file it leaves is refused or gives an index that answers like a completed one. A write that fails during the build makes the build fail.',
    ['crash_points', 'fault_sequences'], 'For every prefix of the sequence of writes of a build, including writes cut at any byte, and every failing write.',
    'No test interrupts a build; the tests only see the finished file.',
    ['pkg/index/wildcard.go', 'pkg/index/wildcard/stream.go', 'pkg/index/wildcard/metadata.go'], [('completed flag written after the data', 'pkg/index/wildcard.go createIndex'), ('buffered stream', 'pkg/index/wildcard/stream.go')], ['index file', 'index constructor'],
    'exhaustive crash-point and torn-write enumeration over the recorded writes of real builds',
    BOUND + 'Crash model: the process dies and the writes already issued are kept, in order (no power loss, no reordering by the operating system).')
add('C18', 'A crash while building a sqlite or full-text index is never silent',
    'Whatever the moment at which the process dies while building a sqlite or full-text index, alone or beside a completed one in the same file, each index found on the next opening is refused, fails its queries, or answers exactly like a completed one. Adding an index never damages the answers of the others silently.',
    ['crash_points', 'fault_sequences'], 'For every prefix of the sequence of file writes of a build, including torn ones, with one or two indexes in the file.',
    'No test interrupts a build.',
    ['pkg/index/sqlite.go', 'pkg/index/fts5.go', 'pkg/index/sqlite'], [('completed flag', 'pkg/index/sqlite/metadata.go'), ('single connection and pragmas', 'pkg/index/sqlite/open.go')], ['database file', 'index constructors'],
    'exhaustive crash-point and torn-write enumeration over the recorded writes of real builds',
    BOUND + 'Same crash model as C17.')
add('C19', 'The index file storage behaves as a byte array',
    'After any sequence of additions, replacements, flushes and reopenings, reading any window of the wildcard index storage gives the bytes last written there, additions land at the announced offset, and after a flush the file holds exactly those bytes. Reading past the end is an error.',
    ['histories'], 'For every sequence of operations, sizes and offsets around the buffer size.',
    'The tests run one or two operations on a stream.',
    ['pkg/index/wildcard/stream.go'], [('write buffer over a file', 'pkg/index/wildcard/stream.go')], ['stream Add/Replace/Get/Flush', 'file contents'],
    'bounded exhaustive exploration of operation sequences on the real stream against a byte-array model', BOUND)
add('C20', 'An object request gives the first matching record, or says none exists',
    'A request for a single object gives the first record (in input order) matching all its parameters, complete and unaltered; when no record matches, the answer is a not-found error. A parameter that is not given counts as an empty text, and one that cannot be parsed is an error, never another record.',
    ['inputs', 'configurations'], 'For every dataset, parameter configuration, index kind and request.',
    'The tests request one or two records of a mock dataset.',
    ['pkg/output/json_object.go', 'pkg/output/json_common.go'], [('request handling', 'pkg/output/json_object.go Handle')], ['output.Handle'],
    'bounded exhaustive enumeration of datasets and requests on the real output against a reference', BOUND)
add('C21', 'Paging through a list gives every matching record exactly once',
    'A list request gives the matching records in input order, from the requested offset and at most the requested limit, both bounded and defaulted as configured; walking the pages gives every matching record exactly once. A limit or offset that is not a valid number is an error.',
    ['inputs', 'configurations'], 'For every dataset size, limit and offset configuration and request.',
    'The tests try a few offsets on one dataset.',
    ['pkg/output/json_array.go'], [('limit and offset handling', 'pkg/output/json_array.go')], ['output.Handle'],
    'bounded exhaustive enumeration of sizes, configurations and requests on the real output against list slicing', BOUND)
add('C22', 'Embedded relationships are exactly the matching records',
    'Each record of a response embeds, under each configured relationship, exactly the records of the related input whose properties match, sorted as configured and cut to the configured limit (or the first one, or null, for a single relationship), to any depth. The properties of the parent record itself are never altered.',
    ['inputs', 'configurations'], 'For every pair of parent and child datasets, relationship configuration and nesting.',
    'The tests cover one relationship on mock data.',
    ['pkg/output/json_common.go', 'pkg/output/relationship'], [('relationship loading', 'pkg/output/json_common.go'), ('relationship configuration', 'pkg/output/relationship/config.go')], ['output.Handle'],
    'bounded exhaustive enumeration of datasets and relationship configurations on the real outputs against a reference join', BOUND)
add('C23', 'Each request reaches the right route with the right parameters',
    'A request is answered by the first configured route whose method and path pattern it matches, literally outside of parameters and by the parameter parsers inside, and the output receives exactly the texts found in the path and query string. A request that matches no route gets a not-found error.',
    ['inputs', 'configurations'], 'For every small set of routes, parser configurations and request targets.',
    'The tests send a few requests to one or two fixed routes.',
    ['pkg/service/http.go', 'pkg/service/http_config.go', 'pkg/parser'], [('route patterns', 'pkg/service/http.go createPathRegexp'), ('parameters', 'pkg/service/http.go getParams')], ['HTTP requests and responses'],
    'bounded exhaustive enumeration of route tables and request targets on the real service against a reference matcher', BOUND)
add('C24', 'Every request gets one well-formed response with the right status',
    'Every request gets exactly one complete response: the status says whether it succeeded, was not found or failed, the content type is the announced one, and the body is one valid JSON document, also when the data holds unusual texts or numbers or cannot be encoded. An error response never comes with a success status, and no request breaks the following ones.',
    ['inputs', 'fault_sequences', 'histories'], 'For every value in the data, request form, failing step and pair of requests on one connection.',
    'The tests check one success and one error response.',
    ['pkg/service/http.go', 'pkg/output/json_object.go', 'pkg/output/json_array.go'], [('responses', 'pkg/service/http.go'), ('success and error callbacks', 'pkg/output/*.go Handle')], ['HTTP responses on the wire'],
    'bounded exhaustive enumeration of data values, faults and request sequences on the real service, parsing the raw responses', BOUND)
add('C25', 'Concurrent requests get the answers they would get alone',
    'Whatever the interleaving of concurrent requests and reads on shared inputs, indexes, parsers and outputs, each one gets the answer it would get alone, nothing crashes and nothing blocks for ever.',
    ['schedules'], 'For every interleaving, up to a preemption bound, of two or three concurrent operations on shared components.',
    'The tests are sequential; races need a particular interleaving.',
    ['pkg/input', 'pkg/index', 'pkg/output', 'pkg/parser', 'pkg/util/bufio.go'], [('reader locks', 'pkg/input/*.go'), ('shared indexes', 'pkg/index/*.go')], ['output.Handle', 'input.Get', 'index.GetRecordPositions'],
    'stateless exploration of all schedules up to a preemption bound on the instrumented real code',
    BOUND + 'Scheduling points are inserted before every statement of the repository\'s own code; code of dependencies runs atomically between two points.')
add('C26', 'A shutdown completes the requests in progress and then releases everything',
    'When the service is closed or the process is interrupted, requests already accepted are answered completely, new ones are refused, waiting returns only afterwards, and the ports are free again. This holds whatever the moment of the closing relative to the requests, and closing again does no harm.',
    ['schedules', 'histories'], 'For every moment of the closing relative to the steps of the requests in progress.',
    'The tests close an idle service.',
    ['pkg/service/http.go', 'pkg/service/service.go', 'cmd/main.go'], [('shutdown and waiting', 'pkg/service/http.go Close/Wait'), ('signal handling', 'cmd/main.go')], ['HTTP connections', 'process exit'],
    'exhaustive enumeration of the closing moment over the observable steps of the requests on the real service and program', BOUND)
add('C27', 'A change of an input file is noticed, and nothing else is',
    'When an input file is written, truncated, extended or replaced while rodb runs, the configured reaction happens (the program stops with an error, or a warning is logged and the program goes on); when the file is left alone - read, opened, linked, given another mode, owner or times, moved away and back, or when other files change - nothing happens. This holds for every kind of input, every form of its path, whatever rodb is doing with it and whatever happened to the file before.',
    ['histories', 'configurations'], 'For every short sequence of file operations and both settings.',
    'The tests write to one file once.',
    ['pkg/util/fsnotify.go', 'pkg/input/input.go', 'pkg/input/csv.go', 'pkg/input/json.go', 'pkg/input/xml.go'], [('watcher', 'pkg/util/fsnotify.go')], ['process exit', 'log messages'],
    'bounded exhaustive enumeration of file-operation histories against the real watcher', BOUND)
add('C28', 'A configuration is refused with an error or it works; never a crash',
    'Every configuration file is refused with an error message or yields components that can be built and queried; in no case does loading or building crash, hang or ignore an unknown or inconsistent setting. Every reference in an accepted configuration designates something that exists.',
    ['configurations'], 'For every single change of a valid configuration: a value removed, nulled, emptied, retyped, renamed, duplicated or redirected.',
    'The tests validate each configuration object alone with a few values.',
    ['pkg/config', 'pkg/input', 'pkg/index', 'pkg/output', 'pkg/parser', 'pkg/service'], [('Validate of each configuration', 'pkg/*/*_config.go'), ('YAML decoding', 'pkg/config')], ['config.NewConfigFromYamlFile', 'constructors'],
    'exhaustive enumeration of single (and paired) mutations of complete configurations through the real loader and constructors', BOUND)
add('C29', 'The same configuration and data always give the same answers',
    'Starting any number of times from the same configuration and files, and repeating the same request any number of times, gives the same answer each time: no result depends on internal ordering of maps.',
    ['histories', 'configurations'], 'For every iteration order of the internal maps that the small configurations use.',
    'A map order shows only by chance in one test run.',
    ['pkg/output/json_common.go', 'pkg/output/json_array.go', 'pkg/output/json_object.go', 'pkg/index'], [('iteration over configuration maps', 'pkg/output/json_common.go')], ['output.Handle'],
    'exhaustive enumeration of map iteration orders on the instrumented real code', BOUND)
add('C30', 'Input files are never modified and reading is side-effect free',
    'No operation of rodb changes, creates, renames or removes anything except the index files it is configured to build. The input files keep their bytes and modification time whatever is built, queried or refused.',
    ['histories', 'configurations'], 'For every configuration and request history of the enumerated stacks, observed at the system-call level.',
    'No test looks at what the process does to the file system.',
    ['pkg/input', 'pkg/index', 'pkg/config'], [('files opened read-only', 'pkg/input/*.go')], ['file system'],
    'exhaustive enumeration of stacks and request histories, comparing the directory tree before and after', BOUND)
add('C31', 'Serving requests does not accumulate resources',
    'After any sequence of completed requests (successful, refused, not found, cut short or failing), no file, connection, lock or goroutine remains held on their behalf, and building then closing the components releases everything they opened.',
    ['histories', 'fault_sequences'], 'For every request kind repeated and every failing step of a request.',
    'The tests make a few requests and never look at open files.',
    ['pkg/output', 'pkg/index', 'pkg/input'], [('iterator release', 'pkg/output/json_array.go'), ('query results', 'pkg/index/sqlite.go'), ('iteration files', 'pkg/input/*.go')], ['open files and goroutines of the process'],
    'bounded exhaustive enumeration of request histories and faults on the real stack, counting the resources held in each state', BOUND)
add('C32', 'A failure of any component is reported, never hidden in the answer',
    'When any read, iteration, index query or parse fails while a request is served or an index is built, the request or the build fails with an error. A failure never turns into a shorter list, a missing value, a not-found answer or a completed index.',
    ['fault_sequences'], 'For every single failing call during every request and build of the enumerated stacks.',
    'The tests inject no failure below the outputs.',
    ['pkg/output', 'pkg/index', 'pkg/input/record'], [('error propagation', 'pkg/output/json_common.go'), ('error propagation', 'pkg/index/*.go')], ['output.Handle', 'index constructors'],
    'exhaustive single-fault enumeration over every call of the input interface on the real indexes and outputs', BOUND)
