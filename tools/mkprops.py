import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append(dict(id=id,title=title,statement=stmt,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","A failure while building or querying the graph index is never swallowed",
"Whenever reading the triple input, or storing, looking up, iterating, compacting or finalising any part of the graph index, the identity map, or building the entity cache fails, the call that was doing it returns an error to its caller instead of a normal result. The only failures that may be absorbed are the two that are ordinary answers: the key is not present, and the input is exhausted.",
["fault_sequences","inputs"],"every error any storage, decoder or reader call can return, at every call site, on every path",
"The tests run the memory and disk engines on a healthy machine only; no test makes a storage, codec or reader call fail, so no error path is executed at all.",
["internal/triplestore/igraph/index.go","internal/triplestore/igraph/paths.go","internal/triplestore/igraph/engine_disk.go","internal/triplestore/imap/imap.go","internal/triplestore/imap/map_disk.go","internal/sparkl/index.go","internal/sparkl/cache.go"],
[("error results of every storage, codec and reader call flow to the caller's error result","internal/triplestore/igraph, internal/triplestore/imap, internal/triplestore/impl, internal/sparkl/index.go, index_source.go, cache.go, pkg/sgob")])

p("C02","A failure while extracting or exporting entities makes the whole run fail",
"Whenever extracting the entities of a bundle, filling their fields or children, handing them to an output, or loading or saving a data file fails, the operation as a whole reports an error, including when the failure happens in one of the concurrently running workers. The command line programs then stop with a non-zero exit status instead of presenting, printing or saving partial data.",
["fault_sequences","schedules"],"every failing call in the extraction, export, import and command line code, on every path and in every worker",
"No test runs extraction, export, import or a command at all; failures inside workers additionally depend on which worker fails first.",
["internal/sparkl/context.go","internal/sparkl/pathbuilder.go","internal/sparkl/storages/disk.go","internal/sparkl/storages/memory.go","internal/sparkl/exporter/sql.go","internal/glass/glass.go","internal/wisski/entity.go","cmd/n2j/n2j.go","cmd/n2j/json.go","cmd/n2j/sqlite.go","cmd/hangover/hangover.go","load.go"],
[("error results flow to the caller, the shared error slot of a group of workers, or a fatal exit","internal/sparkl, internal/sparkl/storages, internal/sparkl/exporter, internal/glass, internal/wisski, cmd/n2j, cmd/hangover, load.go")])

p("C03","Success of an export means that the complete output was written",
"A run that writes an index file, CSV files, a database or RDF data reports success only after every buffered layer of the output (compressor, CSV or RDF encoder, file, database) was flushed and closed, in the order from the outermost layer to the file, and none of those steps failed. An error while flushing or closing any layer makes the export fail.",
["fault_sequences","crash_points"],"every layer of every output and every point at which its final flush or close can fail",
"No test writes an export file; a full disk or a failing close never happens in a test.",
["internal/glass/glass.go","cmd/n2j/sqlite.go","cmd/n2j/json.go","internal/wisski/entity.go","internal/sparkl/pathbuilder.go","internal/sparkl/exporter/sql.go"],
[("finish calls (Close/Flush/Error) of every writer layer are reached on every success path and their errors returned","internal/glass/glass.go Export, cmd/n2j/sqlite.go doCSVTable, internal/wisski/entity.go WriteAllTriples")])

p("C04","Every opened resource is released on every path",
"Every file, database cursor, result iterator, storage engine handle, index and exporter that an operation opens is closed again on every way out of that operation, including the error returns, unless ownership is handed to the caller or to an object whose own close releases it. Closing or resetting an index closes every storage that preparing it opened.",
["fault_sequences","inputs"],"every acquiring call and every path from it to an exit of its owner",
"Leaks have no effect on a test's result; the tests never take the error paths on which a release can be missed.",
["internal/triplestore/igraph/index.go","internal/triplestore/igraph/engine_disk.go","internal/triplestore/imap/map_disk.go","internal/triplestore/imap/imap.go","internal/sparkl/index.go","internal/sparkl/context.go","internal/sparkl/pathbuilder.go","internal/sparkl/storages/disk.go","internal/glass/glass.go","cmd/n2j/sqlite.go"],
[("acquire/release pairing on all paths","all packages"),("set of storages opened by preparing equals the set closed by closing","internal/triplestore/igraph/index.go Reset/Close, internal/triplestore/imap/imap.go Reset/Close")])

p("C05","A finalised index refuses every modification",
"Once a graph index or identity map has been finalised, every operation that would modify it (adding a label, triple or datum, setting a mask, marking labels identical or inverse, compacting, finalising again) changes nothing and reports an error, until it is reset (handing out the next unused identifier stores nothing and is not such an operation). Finalising and compacting reach every storage of the index, and the data loader only hands out an index whose finalising succeeded.",
["histories","programs"],"every order of calls on an index or identity map",
"The tests use one fixed order of calls (reset, add, finalise, query) and never call a mutating operation after finalising.",
["internal/triplestore/igraph/index.go","internal/triplestore/imap/imap.go","internal/sparkl/index.go"],
[("every exported mutating method tests the finalised state before its first effect","internal/triplestore/igraph/index.go, internal/triplestore/imap/imap.go"),("finalise and compact cover all storages","internal/triplestore/igraph/index.go, internal/triplestore/imap/imap.go")])

p("C06","State shared between goroutines is only touched under its lock",
"Progress information, collected export data, SQL batches, bundle storages and collected worker errors may be used by any number of goroutines at the same time: every access to such shared state is protected by one common lock (or is atomic, or is ordered by waiting for the writers), and writes never happen under a read lock. No goroutine started in a loop or to run a worker writes a variable it shares with its siblings without such protection.",
["schedules"],"every interleaving of the goroutines that extraction, export, progress reporting and request handling start",
"No test starts two goroutines on these objects and the suite is not run with the race detector; a race may need a rare interleaving to show.",
["internal/stats/status.go","internal/sparkl/context.go","internal/sparkl/pathbuilder.go","internal/sparkl/exporter/map.go","internal/sparkl/exporter/sql.go","internal/sparkl/storages/disk.go","internal/sparkl/storages/memory.go"],
[("consistent lockset for every field that is written after construction","internal/stats, internal/sparkl/exporter, internal/sparkl/storages"),("captured variables of concurrent closures","internal/sparkl, internal/triplestore")])

p("C07","Workers are waited for, locks are given back, nothing blocks forever",
"An operation that starts worker goroutines returns only after all of them have finished everything they do (including finalising what they filled), a storage is finalised only once every worker that fills it is done, every worker signals completion exactly once on every path including failures, and work is announced before the worker or the waiter can observe the count. Every lock is released on every path, never taken again by a goroutine already holding it, and never held while calling back into user code or while waiting for another goroutine.",
["schedules","fault_sequences"],"every interleaving of the workers and every path through them",
"Deadlocks and early returns depend on the schedule and on workers failing, neither of which a test controls.",
["internal/sparkl/context.go","internal/sparkl/pathbuilder.go","internal/triplestore/igraph/index.go","internal/triplestore/imap/imap.go","internal/stats/status.go","internal/sparkl/storages/disk.go","internal/sparkl/exporter/sql.go","cmd/hangover/hangover.go"],
[("wait group and lock typestate","internal/sparkl/context.go, internal/sparkl/pathbuilder.go, internal/triplestore/igraph/index.go, internal/stats/status.go")])

p("C08","Requests during loading get the loading answer, never half loaded data",
"While the dataset is still loading, every page or API endpoint that shows dataset content answers only with the loading page or a service-unavailable JSON message and touches no dataset content; the pages and endpoints that show progress, performance and legal information keep working. The switch to serving data happens only after the complete data and all settings are in place, the server is only started on a listener that exists, and once the switch happened the data is not replaced.",
["schedules","histories"],"every request at every moment during start-up",
"No test starts the viewer; the loading window is a matter of timing.",
["internal/viewer/viewer.go","internal/viewer/fallback.go","internal/viewer/html.go","internal/viewer/json.go","cmd/hangover/hangover.go","internal/headache/ui_run.go"],
[("readiness test dominates every access to loaded data","internal/viewer/html.go, internal/viewer/json.go"),("publication order","internal/viewer/viewer.go Prepare"),("settings before serving","cmd/hangover/hangover.go, internal/headache/ui_run.go")])

p("C09","Every response carries the content security policy of the settings",
"Every HTTP response of the viewer, whatever the path, status or loading state, is sent with a Content-Security-Policy header computed from the settings. The policy always denies by default and allows scripts, connections and fonts only from the viewer itself (never inline or evaluated scripts), allows inline styles and media exactly when rendering of HTML is enabled, images exactly when rendering of images or HTML is enabled, and frames exactly for a configured http(s) embed address, and in strict mode restricts images and media to the configured public addresses.",
["configurations","inputs"],"every combination of the rendering settings and every request",
"No test issues a request or computes a policy; there are 2^4 setting combinations and arbitrary request paths.",
["internal/viewer/viewer.go"],
[("header set before dispatch","internal/viewer/viewer.go ServeHTTP"),("policy text per setting","internal/viewer/viewer.go CSPHeader")])

p("C10","Dataset content is never emitted as markup unless HTML rendering is on",
"Text that comes from the dataset, the pathbuilder or a request reaches a page only through contextual escaping; it is passed on as trusted markup only where the setting for rendering HTML is enabled, and shown as an image only where the setting for rendering images is enabled. Only fixed text, percent-encoded address parts, explicitly escaped attribute values and the operator's own footer are ever declared trusted.",
["inputs","configurations"],"every dataset value and request parameter, under every setting",
"No test renders a page; the guarantee is about all strings a dataset may contain.",
["internal/viewer/html.go","internal/assets/templates.go","internal/viewer/templates","internal/assets/templates","pkg/htmlx/htmlx.go"],
[("conversions to trusted template types","internal/viewer/html.go, internal/assets/templates.go"),("uses of the raw HTML function and of image elements in templates","internal/viewer/templates, internal/assets/templates")])

p("C11","Every link and redirect leads to an existing route and carries values intact",
"Every internal link or redirect target that the viewer itself generates (other than addresses taken from dataset values, which are only made local) matches a route the viewer serves (or an embedded asset), with the parameters that route requires, and each request handler only reads parameters its route defines. Bundle names and URIs placed into the path or the query of an address are encoded for that position, so the handler on the other side receives exactly the same value.",
["inputs","programs"],"every bundle name and URI that may occur in a dataset, at every place an address is built",
"No test renders a page or follows a link; URIs with reserved characters are not in any test data.",
["internal/viewer/viewer.go","internal/viewer/html.go","internal/viewer/json.go","internal/viewer/templates","internal/assets/templates"],
[("route table against link targets and route parameters","internal/viewer/viewer.go setupMux"),("encoder per address position","internal/viewer/html.go")])

p("C12","What an index export writes is what an import reads",
"An exported index file is read back item by item in the same order and with the same types in which it was written, for every nesting of the data; every piece of data that the viewer serves is part of the file, and only data that survives encoding is put in it. A file of another format version is refused.",
["programs","inputs"],"every stored item of the file format, at every nesting level",
"Only the generic stream helper has tests; no test exports or imports an index.",
["internal/glass/glass.go","internal/sparkl/cache.go","pkg/sgob/sgob.go","internal/triplestore/impl/id.go"],
[("sequence of encoded items equals sequence of decoded items","internal/glass/glass.go EncodeTo/DecodeFrom, internal/sparkl/cache.go EncodeTo/DecodeFrom, pkg/sgob/sgob.go"),("encodability of every reachable type","internal/viewer/viewer.go RenderFlags, internal/wisski/entity.go, internal/sparkl/cache.go")])

p("C13","On-disk keys and records are read with the layout they were written with",
"Every record and key that the disk engines write is decoded with the same fields, in the same order, at the same positions and widths that encoding used, and every disk storage has both directions of its key and value encoding set consistently. No field of a record is lost or exchanged with another between writing and reading.",
["programs","inputs"],"every record type of the disk engines",
"The tests store small graphs in which exchanged or missing fields of a record are mostly invisible to the queries they make.",
["internal/triplestore/igraph/triple.go","internal/triplestore/igraph/engine_disk.go","internal/triplestore/imap/imap.go","internal/triplestore/imap/map_disk.go","internal/triplestore/impl/id.go","internal/sparkl/storages/entity.go","internal/sparkl/storages/disk.go"],
[("marshal and unmarshal layouts","internal/triplestore/igraph/triple.go, internal/triplestore/imap/imap.go"),("pairing of encoder and decoder functions","internal/triplestore/igraph/engine_disk.go, internal/triplestore/imap/map_disk.go")])

p("C14","Disk caching stays inside the cache directory and never mixes storages",
"With a cache directory configured, the program creates and removes files only below that directory, at fixed names or names from which no dataset content can escape, and the directories of different storages are always different, so one storage can neither wipe nor overwrite another. Without a cache directory nothing is written to disk, and opening a storage always starts from an empty one.",
["inputs","configurations"],"every pathbuilder (bundle identifiers are free text) and every set of storages",
"The tests open each engine once in a fresh temporary directory; hostile or colliding bundle identifiers do not occur.",
["internal/triplestore/igraph/engine_disk.go","internal/triplestore/imap/map_disk.go","internal/sparkl/storages/disk.go","internal/sparkl/storages/storages.go","internal/sparkl/sparkl.go"],
[("paths reaching removal and creation","internal/triplestore/igraph/engine_disk.go, internal/triplestore/imap/map_disk.go, internal/sparkl/storages/disk.go")])

p("C15","Every option sets exactly the thing it names, and conflicts are refused",
"Every command line option and every entry of the graphical settings reaches its own setting and no other, keeps the documented default when not given, and has an effect; options are all parsed before they are used. When more than one output kind is requested the program refuses to run instead of picking one, and the input files are handed to the reader of their own kind. An input directory with none or several candidate files of a kind is refused, and lists of names are taken apart at commas and ends of lines, without surrounding spaces and empty entries.",
["configurations"],"every combination of options",
"No test runs a command or the settings code.",
["cmd/n2j/n2j.go","cmd/hangover/hangover.go","internal/headache/settings.go","internal/headache/ui_settings.go","load.go"],
[("option to variable binding and use","cmd/n2j/n2j.go, cmd/hangover/hangover.go, internal/headache/settings.go"),("input roles","load.go FindSource")])

p("C16","SQL exports bind all data as parameters and start from fresh tables",
"Values from the dataset reach a database only as bound statement parameters, never as part of the statement text, and identifiers built from the pathbuilder keep their fixed, distinguishing prefixes. Every table an export fills is dropped and created again by that export before the first row is inserted into it, so exporting twice into the same database leaves the same rows as exporting once; rows, columns and values are listed in the same order. This includes the tables and rows of all child bundles, whose rows name the entity they belong to as their parent.",
["inputs","histories"],"every dataset value, every pathbuilder, and repeated exports into one database",
"No test runs an SQL export.",
["internal/sparkl/exporter/sql.go","cmd/n2j/sqlite.go"],
[("flow of values into statement text","internal/sparkl/exporter/sql.go"),("drop before create for every table","internal/sparkl/exporter/sql.go createBundleTable, CreateFieldTable")])

p("C17","Serving requests never modifies the loaded data",
"Handling requests only reads the loaded entities, pathbuilder, cache and settings: no request, alone or concurrently with others, changes an element, order or content of data that other requests see. Collections derived for one response are fresh copies before they are sorted, filtered or extended.",
["schedules","inputs"],"every request and every interleaving of requests",
"No test serves a request; damage to shared data shows only in later or concurrent requests.",
["internal/viewer/html.go","internal/viewer/json.go","internal/viewer/api.go","internal/sparkl/cache.go","internal/wisski/entity.go"],
[("effects of everything reachable from a request handler","internal/viewer, internal/sparkl/cache.go, internal/wisski/entity.go")])

p("C18","Memory and disk storage give the same answers",
"Whether data is kept in memory or in a cache directory, all operations of a storage make the same distinctions: adding values to or loading an unknown entity is reported as unknown entity, a missing key is reported as absent, existing entries of an index are resolved by the same conflict rule, and entities are listed together with the parent the caller asked for, including a parent at the first position.",
["configurations","inputs"],"every call on every pair of corresponding storages",
"The entity storages have no tests at all; the index engines are compared on one small graph without conflicts or missing entries.",
["internal/sparkl/storages/disk.go","internal/sparkl/storages/memory.go","internal/triplestore/igraph/engine_disk.go","internal/triplestore/igraph/engine_memory.go","internal/triplestore/imap/map_disk.go"],
[("cross-check of sibling implementations","internal/sparkl/storages, internal/triplestore/igraph, internal/triplestore/imap")])

p("C19","Whether a value is a literal or a node never depends on its text",
"A statement whose object is a literal is stored, listed, serialised and shown as a literal, and one whose object is a resource as a resource, decided by its kind in the input and never by looking at its content; in particular empty literals and literals that look like addresses stay literals. The language tag given in the input travels with the literal, and literals without a tag stay without one.",
["inputs"],"every statement of every dataset, including empty and address-like literals",
"The test data contains neither empty nor address-like literals and no test serialises triples.",
["internal/triplestore/igraph/triple.go","internal/triplestore/igraph/index.go","internal/sparkl/index_source.go","internal/sparkl/index.go","internal/triplestore/igraph/paths.go"],
[("the kind decides, not the content","internal/triplestore/igraph/triple.go Triple, internal/sparkl/index_source.go Next, internal/sparkl/index.go")])

p("C20","Every pass over the input sees all of it, in the prescribed order",
"Building an index reads the whole input from its beginning once per pass: identities first, then inverses, then the data, and only then is the index finalised and queried. Each pass reads until the input reports its end, and consumes every statement of the kind it is responsible for, with its parts in their roles: a statement that declares two names identical makes the subject the name that remains.",
["inputs","histories"],"every input and every position within it",
"No test builds an index from a source.",
["internal/sparkl/index.go","internal/sparkl/index_source.go"],
[("order of passes and of finalising","internal/sparkl/index.go MakeIndex"),("rewinding and end of input","internal/sparkl/index_source.go")])

p("C21","Each statement is reachable from both ends, with its inverse, consistently",
"Every statement added to the index is entered both into the by-subject and into the by-object index with the same subject, predicate, object and identifier, and each lookup addresses an index in the order in which it is filled, and a statement is read back with exactly what was stored for it. When a predicate has an inverse, the reversed statement is entered as an inferred one with subject and object exchanged, naming the parts of the statement it stems from in the order they were given, and declaring an inverse declares it in both directions. A value is stored with exactly its language. Between a given and an inferred statement of the same three nodes the given one is kept, whatever the order they are added in.",
["inputs","programs"],"every statement and every lookup",
"The tests use one fixed graph and compare only query results in which several exchanges of arguments cancel out.",
["internal/triplestore/igraph/index.go","internal/triplestore/igraph/paths.go"],
[("argument order at fills and lookups","internal/triplestore/igraph/index.go insert, internal/triplestore/igraph/paths.go")])

p("C22","Unknown bundles, entities and addresses are answered with not found",
"A request naming a bundle, entity or URI that the dataset does not contain is answered with a not-found status and nothing else; no result of a lookup is used before its success was established, and nothing further is written to the response after such an answer. A lookup of an absent name never yields the data of another one.",
["inputs"],"every request",
"No test issues a request.",
["internal/viewer/html.go","internal/viewer/json.go","internal/viewer/api.go","internal/sparkl/cache.go"],
[("results of lookups are used only on the success branch","internal/viewer, internal/sparkl/cache.go"),("not-found answer ends the handler","internal/viewer/html.go, internal/viewer/json.go")])

p("C23","Every page template fits the data it is executed with",
"Every page renders to its end for every dataset: each template only refers to templates, functions, fields and methods that exist for the data it is executed with, calls functions with arguments of the right number and type, and asks for optional parts only where they are known to be present. No page breaks off in the middle because of a mismatch between template and data.",
["inputs","programs"],"every path through every template, including branches for rarely used data",
"Templates are checked when they are executed and only along the branches taken; no test executes one.",
["internal/viewer/html.go","internal/viewer/fallback.go","internal/viewer/templates","internal/assets/templates","internal/assets/templates.go"],
[("template expressions against the types of the context values","internal/viewer/templates, internal/assets/templates")])

p("C24","A missing status object is harmless everywhere",
"Every operation that reports progress or logs works without a status object or without an output attached to it, and does the same work with the same result as with one. Operations on a missing status do nothing and return empty values.",
["configurations","inputs"],"every operation that accepts a status object, with none or an unattached one passed",
"The tests never pass a missing status to loading, exporting, importing or the viewer.",
["internal/stats/status.go","internal/glass/glass.go","internal/sparkl/index.go","internal/sparkl/context.go","internal/viewer/viewer.go"],
[("status is tested before it is used, on every path","internal/stats/status.go, internal/glass/glass.go")])

p("C25","Recycled buffers never leak data from one entity into another",
"Bytes and objects that come from a reuse pool, a cursor or a scratch buffer are emptied before they are filled again, and everything that outlives the current step is copied out of them first. What was read or stored for one entity or row therefore never shows up in, or changes, another one.",
["schedules","histories"],"every use of a recycled object, in every order of uses",
"Reuse happens only under repeated or concurrent storage calls, which no test makes.",
["internal/sparkl/storages/entity.go","internal/sparkl/storages/disk.go","internal/triplestore/imap/map_disk.go","internal/triplestore/igraph/engine_disk.go","cmd/n2j/sqlite.go","internal/sparkl/exporter/sql.go"],
[("reset before reuse, copy before escape","internal/sparkl/storages/entity.go, internal/sparkl/storages/disk.go, internal/triplestore/imap/map_disk.go, cmd/n2j/sqlite.go")])

p("C26","Every output receives each bundle as one complete, ordered sequence",
"Each output receives, for every top-level bundle, exactly one announcement of the bundle, then its entities, then exactly one end of the bundle, also when extracting an entity fails in between; after the last bundle the output is closed exactly once, on success and on failure. No entity is delivered before its announcement or after its end, and nothing after the close. No bundle (even one without entities) and no entity is skipped unless something failed.",
["schedules","fault_sequences"],"every interleaving of the bundle workers and every failing step",
"No test runs an export.",
["internal/sparkl/pathbuilder.go","internal/sparkl/exporter/exporter.go"],
[("typestate of the exporter","internal/sparkl/pathbuilder.go Export")])

p("C27","Names declared identical are one node and keep their own name",
"Adding a name that is known gives the identifiers it has and changes nothing; a new name gets a fresh identifier of its own from which the name can be read back. Once two names are declared identical, looking up either, or any name that was identical to one of them before, gives the same shared identifier, while each keeps its own literal identifier, so that the name the input used can still be shown; names unrelated to them are not affected. The list of identities holds exactly the names whose shared identifier belongs to another name. Looking up an unknown name changes nothing.",
["inputs","histories"],"every history of names being added and identified, every failing access of the storage",
"The tests identify names in one order in a small map.",
["internal/triplestore/imap/imap.go"],
[("contracts of the two maps","internal/triplestore/imap/imap.go AddNew, MarkIdentical, Forward, Reverse, IdentityMap")])

p("C28","What is sent out is everything known about the entity, in the announced format",
"Every answer of the viewer announces, before it begins, the media type of what it then sends: pages as HTML, the programming interface as JSON, downloads as N-Triples or Turtle. A download of an entity holds every statement that was recorded for the entity itself, for each value of each of its fields and, recursively, for each of its children; statements are only left out as repetitions when they have the same identifier, and every one that remains is written. A statement is written with its shared names when the canonical form is asked for and with its own names otherwise, with its data as a literal of its language. JSON shows every part of an entity and of the status that has text.",
["inputs"],"every shape of entity, every request and every combination of statement kinds, languages and forms",
"No test requests a download or inspects what is written.",
["internal/viewer/json.go","internal/wisski/entity.go","internal/triplestore/igraph/triple.go"],
[("media types of the answers","internal/viewer/json.go jsonTurtle, jsonNTriples, jsonEntity"),("collection of statements","internal/wisski/entity.go AllTriples, appendTriples, WriteAllTriples"),("form of a statement","internal/triplestore/igraph/triple.go Triple")])

p("C29","What is extracted follows the pathbuilder",
"Extraction asks for every path of the pathbuilder step by step as it is written, classes at its even and predicates at its odd places, followed by the data property of a field, and without changing the pathbuilder. Every bundle, every part of a bundle and every field is extracted with its own path and kept under its own machine name; an entity is the node at which the path of its bundle ends (the first one for a bundle without a parent), and values and parts are attached to the entity that lies on their path. No value, part or entity that is found is left out unless something fails, and the statements an index keeps include all that extraction asks for.",
["inputs"],"every pathbuilder (depth, path lengths, fields, parts) and every dataset",
"No test extracts anything with a pathbuilder.",
["internal/sparkl/context.go","internal/sparkl/index.go","internal/sparkl/storages/memory.go","internal/sparkl/exporter/sql.go"],
[("extraction of a bundle, its fields and parts","internal/sparkl/context.go Context.Store"),("queries made from a path","internal/sparkl/context.go extractPath"),("what the index keeps","internal/sparkl/index.go setMask, addBundleToMasks")])

p("C30","Everything that was extracted can be found again",
"Every extracted entity is kept, in the order it was delivered, under the machine name of its bundle, and can be looked up there afterwards by its own name and by every name declared identical to it; the answer is exactly that entity. Asking for the bundle of an address names a bundle that lists the entity, the list of bundles holds exactly the bundles that were extracted, and the other names of an entity are exactly those declared identical to it. The list of a bundle shows the addresses of all its entities.",
["inputs"],"every extracted data, every set of identities and every address asked for",
"Tests never look anything up in a cache of several bundles with identities.",
["internal/sparkl/cache.go","internal/sparkl/exporter/map.go","internal/viewer/api.go"],
[("how the cache is filled","internal/sparkl/cache.go NewCache"),("how it is asked","internal/sparkl/cache.go Entity, Bundle, Aliases, Canonical"),("how entities are collected","internal/sparkl/exporter/map.go")])

p("C31","The pages of a bundle cover its list, and their links lead on and back",
"Whatever offset and page size a request names, and however many entities a bundle has: a page shows a whole page of the list from that offset, or all that is left, and is answered with not found when nothing is left; requests never take parts outside of the list. The next page begins exactly behind what is shown, the previous one ends where the page begins (or is the first page), the first begins with the first entity and the last reaches the last entity; each of these links is there exactly when there are entities in its direction, and asks for pages of the same size. The numbers shown are those of the first and last entity shown and of all entities.",
["inputs"],"every bundle size, limit and offset",
"No test renders a list.",
["internal/viewer/html.go","internal/assets/templates/viewer_pagination.html"],[("page arithmetic","internal/viewer/html.go htmlBundle, htmlBundleWithLimit"),("links of a page","internal/assets/templates/viewer_pagination.html")])

# ---- not applicable ones
p("C40","Path queries return exactly the matching paths",
"For every graph and every sequence of predicates, a path query returns each path of the graph that matches it exactly once, with its nodes and statements in order.",
["inputs"],"every graph and query",
"Tests evaluate three queries on one graph.",
["internal/triplestore/igraph/paths.go"],[("path expansion","internal/triplestore/igraph/paths.go")])
p("C41","Identity closure maps every alias to one representative",
"After any sequence of identity declarations, two labels share a representative exactly when the declarations connect them.",
["histories"],"every sequence of declarations",
"One fixed sequence is tested.",
["internal/triplestore/imap/imap.go"],[("MarkIdentical","internal/triplestore/imap/imap.go")])
p("C42","Masking never changes what extraction finds",
"Extracting all bundles from an index restricted to the predicates of the pathbuilder yields the same entities as from the unrestricted index.",
["inputs"],"every dataset and pathbuilder",
"No test uses masks.",
["internal/sparkl/index.go","internal/triplestore/igraph/index.go"],[("masks","internal/triplestore/igraph/index.go addMask")])
p("C44","Batched SQL inserts never exceed the limits and lose no row",
"For every number of entities, columns, batch size and variable limit, the inserts of an export together contain each row once and none exceeds the limits.",
["inputs","configurations"],"every combination of sizes",
"No test runs an SQL export.",
["internal/sparkl/exporter/sql.go"],[("chunk arithmetic","internal/sparkl/exporter/sql.go execInsert, Add, End")])
p("C45","Identifiers are compared in order of creation and never repeat",
"Identifiers are handed out in increasing order, compare in that order in memory and on disk, and exhaustion is reported instead of repeating one.",
["histories"],"every number of increments",
"Tests sample a few values.",
["internal/triplestore/impl/id.go"],[("increment and comparison","internal/triplestore/impl/id.go")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
