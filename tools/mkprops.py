#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOT = "No existing test runs this path at all: the suite only covers integer graphs, id codecs, sgob on small values and two progress examples."

prop("C01", "Extraction yields exactly the entities, fields and children the data states",
 "For every pathbuilder and n-quads dataset, the entities loaded for each bundle (their URI, path, field values with language, child entities at every level, and the statements supporting each of them) are exactly those obtained by matching every enabled pathbuilder path against the statements of the dataset. Nothing is lost, invented, duplicated, attached to the wrong entity, field or parent, and disabled paths contribute nothing.",
 ["inputs", "schedules"], "all pathbuilders (nesting, multi-step paths, shared classes and properties, disabled paths), all datasets, all interleavings of the concurrent extraction",
 NOT, ["internal/sparkl/context.go", "internal/sparkl/pathbuilder.go", "internal/sparkl/storages/memory.go", "internal/triplestore/igraph/paths.go"],
 [("staged extraction: entities, fields, then children", "internal/sparkl/context.go Context.Store"), ("path queries over the index", "internal/triplestore/igraph/paths.go"), ("in-memory bundle storage", "internal/sparkl/storages/memory.go")],
 ["result of sparkl.LoadPathbuilder", "glass.Create cache", "n2j JSON"])

prop("C02", "The on-disk cache gives the same result as indexing in memory",
 "Indexing and extracting a dataset with a cache directory gives exactly the same bundles, entities, fields, children, statements and aliases as doing it in memory. This includes cache directories that still contain data of an earlier (also interrupted) run of the same or another dataset, whose contents never show up in the result.",
 ["inputs", "configurations", "histories"], "all datasets and pathbuilders, memory versus disk, empty versus previously used cache directory",
 "The engines' tests use integer triples without pathbuilder; bundle storages and disk-backed extraction are never executed, nor compared to memory.",
 ["internal/sparkl/storages/disk.go", "internal/sparkl/storages/entity.go", "internal/triplestore/igraph/engine_disk.go", "internal/triplestore/imap/map_disk.go"],
 [("disk engines with own codecs", "internal/triplestore/igraph/engine_disk.go"), ("per-bundle leveldb storing gob-encoded entities, wiped on open", "internal/sparkl/storages/disk.go")],
 ["result of sparkl.LoadPathbuilder with both engines"])

prop("C03", "A path query returns exactly the matching paths",
 "For every finalized index, in memory or on disk, a query (starting class, then any sequence of edges and class restrictions) returns exactly the paths that exist in the graph: the nodes in order, the datum and language if the path ends in a literal, and for each step the statement supporting it. Every path is returned exactly once, with its statements describing the step they support, and results of equal queries on the same index agree in order.",
 ["inputs", "histories"], "all graphs (cycles, self-loops, parallel edges, literals, multi-edges), all query sequences",
 "igraph tests use one synthetic integer graph with one shape of query.",
 ["internal/triplestore/igraph/index.go", "internal/triplestore/igraph/paths.go", "internal/triplestore/igraph/engine_memory.go", "internal/triplestore/igraph/engine_disk.go"],
 [("PSO and POS orderings with conflict resolution", "internal/triplestore/igraph/index.go insert"), ("lazy path expansion", "internal/triplestore/igraph/paths.go")],
 ["Index.PathsStarting, Connected, Ending, Paths"])

prop("C04", "Names declared identical behave as one thing everywhere",
 "Once names are linked by a configured sameAs predicate, directly or through any chain, cycle or order of statements and in any position of the file, all statements about any of them are answered for all of them, and every such class has exactly one canonical name. The identity map lists every other name of the class exactly once with that canonical name and lists nothing else; names that are not linked are never merged.",
 ["inputs", "histories"], "all sequences of identity declarations and statements, in all orders, both engines",
 "igraph tests only mark neighbouring integers identical, in one order.",
 ["internal/triplestore/imap/imap.go", "internal/sparkl/index.go"],
 [("MarkIdentical rewriting of canonical ids", "internal/triplestore/imap/imap.go"), ("separate pass for sameAs statements", "internal/sparkl/index.go indexSameAs")],
 ["Index.IdentityMap", "path queries by each alias"])

prop("C05", "Inverse properties are inferred exactly, and marked as inferred",
 "If two properties are declared inverse of each other by a configured predicate, every statement with one of them can also be followed in the opposite direction using the other, and nothing else is inferred. An inferred statement is marked as inferred and still names the statement it stems from; a statement that is also stated directly is reported as direct, no matter the order in which both occur.",
 ["inputs", "histories"], "all inverse declarations (either direction, repeated, through aliases) and all statement orders, both engines",
 "igraph tests mark one fixed predicate pair inverse on a synthetic graph; roles are never checked.",
 ["internal/triplestore/igraph/index.go", "internal/triplestore/igraph/triple.go", "internal/sparkl/index.go"],
 [("insertion of the inverse triple with role Inverse", "internal/triplestore/igraph/index.go AddTriple"), ("conflict resolution by role", "internal/triplestore/igraph/index.go resolveLabelConflict")],
 ["roles of the triples in query results"])

prop("C06", "Skipping statements the pathbuilder does not need never changes results",
 "Indexing with the pathbuilder as a filter yields exactly the same entities, values, children and aliases as indexing every statement of the dataset. This also holds when statements use equivalent or inverse properties instead of those named in the pathbuilder.",
 ["inputs", "configurations"], "all pathbuilders and datasets, with and without the filter, both engines",
 NOT, ["internal/sparkl/index.go", "internal/triplestore/igraph/index.go"],
 [("predicate and data masks derived from the pathbuilder", "internal/sparkl/index.go setMask"), ("mask test on insertion", "internal/triplestore/igraph/index.go addMask")],
 ["entities with IndexOptions.Mask set and unset"])

prop("C07", "Literal values and their language survive unchanged from file to output",
 "A plain, language-tagged or xsd:string literal of the n-quads file appears in the loaded entity, the JSON API and the exports with exactly the same characters and language tag, including escapes, empty strings, control characters, long values and characters outside the basic plane. Values are never normalised, trimmed, truncated, merged or swapped between languages, and literals of other datatypes still yield exactly one value each.",
 ["inputs"], "all literal strings and language tags, both engines",
 NOT, ["internal/sparkl/index_source.go", "internal/triplestore/igraph/index.go", "internal/sparkl/storages/entity.go", "internal/viewer/json.go"],
 [("conversion of quads into tokens", "internal/sparkl/index_source.go QuadSource.Next"), ("data and language maps", "internal/triplestore/igraph/index.go AddLangData")],
 ["field values in the cache and the JSON API"])

prop("C08", "An exported index loads back into exactly the same data",
 "Writing a loaded dataset to an index file and loading that file again, also in another process, gives the same pathbuilder, bundles, entities, values, statements, canonical names, aliases and settings as the original. A successful export leaves a complete file: it contains everything needed and its container is properly terminated.",
 ["inputs", "configurations"], "all datasets, all pathbuilders and settings",
 NOT, ["internal/glass/glass.go", "internal/sparkl/cache.go", "pkg/sgob/sgob.go", "internal/triplestore/imap/memory.go"],
 [("gzip-compressed stream of gob values", "internal/glass/glass.go Export, Import"), ("order of encoded fields", "internal/sparkl/cache.go EncodeTo, DecodeFrom")],
 ["glass.Import(glass.Export(x))", "the exported file"])

prop("C09", "A damaged or foreign index file is refused, never half-loaded",
 "Loading an index file that was truncated at any point, or that was modified, is of another version or is not an index file at all, reports an error instead of crashing, exhausting memory or returning partial data. A file is only accepted if what is loaded is exactly what was exported.",
 ["crash_points", "inputs", "fault_sequences"], "all truncation points, byte modifications and inconsistent counts in the stream",
 NOT, ["internal/glass/glass.go", "pkg/sgob/sgob.go", "internal/sparkl/cache.go"],
 [("version check", "internal/glass/glass.go DecodeFrom"), ("gzip checksum", "internal/glass/glass.go Import"), ("counted decoding", "pkg/sgob/sgob.go decodeMap, decodeSlice")],
 ["result of glass.Import on damaged files"])

prop("C10", "Streamed encoding and decoding of values is lossless",
 "For every value made of nested maps, slices and encodable elements, decoding its streamed encoding gives back an equal value, several values in one stream come back in order, and nothing is read beyond the value. Encoding failures are reported.",
 ["inputs"], "all nestings, sizes, empty and nil collections, sequences of values in one stream",
 "sgob tests round-trip four hand-picked values one at a time.",
 ["pkg/sgob/sgob.go"], [("counted element-wise encoding", "pkg/sgob/sgob.go")], ["sgob.Encode and sgob.Decode on one stream"])

prop("C11", "N-Triples and Turtle downloads contain exactly the entity's statements",
 "The N-Triples and Turtle downloads of an entity are well-formed and contain, each once, exactly the statements of that entity (its own, those of its field values and those of its child entities), with canonical names, correctly escaped literals and language tags. They never contain anything else, and an entity with unusual but valid values, such as empty literals, still downloads completely.",
 ["inputs"], "all entities: hostile literals, language tags, nested children, shared and inferred statements",
 NOT, ["internal/wisski/entity.go", "internal/triplestore/igraph/triple.go", "internal/viewer/json.go"],
 [("collection and deduplication by statement id", "internal/wisski/entity.go AllTriples"), ("conversion to rdf terms", "internal/triplestore/igraph/triple.go Triple")],
 ["/api/v1/ntriples/{bundle}", "/api/v1/turtle/{bundle}"])

prop("C12", "A database export contains every entity, value and child exactly once",
 "A SQL export, in joined-column mode and in field-table mode and for any batch size, contains for every bundle exactly one row per loaded entity (child rows naming their parent) and exactly the values of every field. Exporting again into the same database replaces the earlier content instead of adding to it.",
 ["inputs", "configurations", "histories"], "all datasets, both layouts, batch sizes and query variable limits, separators, repeated exports",
 NOT, ["internal/sparkl/exporter/sql.go", "internal/sparkl/pathbuilder.go"],
 [("batching per bundle", "internal/sparkl/exporter/sql.go Add, End"), ("chunked inserts", "internal/sparkl/exporter/sql.go execInsert")],
 ["contents of the resulting sqlite database"])

prop("C13", "Command line exports are complete and the exit status tells the truth",
 "The JSON, CSV, SQLite and index files written by the command line tools contain exactly the data of the given dataset, and the tool exits with status 0 if and only if the complete output was written. Invalid input or arguments, unwritable targets or failing writes lead to a non-zero exit status, never to a crash, a hang or a silently incomplete file.",
 ["inputs", "configurations", "fault_sequences"], "all datasets, flags and output targets, failing and full outputs",
 "The tests never execute the commands.",
 ["cmd/n2j/n2j.go", "cmd/n2j/json.go", "cmd/n2j/sqlite.go", "cmd/hangover/hangover.go"],
 [("error reporting through LogFatal", "cmd/n2j/json.go"), ("export mode without server", "cmd/hangover/hangover.go main")],
 ["exit status, stdout and files of n2j and hangover"])

prop("C14", "Every name of an entity leads to that entity",
 "For every loaded top-level entity and every one of its names, resolving the name redirects to the page of exactly this entity under its canonical name, also for names with characters that need escaping, and following the redirects ends at its page. Paths of public URLs resolve to the entity with that URI, and unknown names give a 404.",
 ["inputs"], "all URIs (reserved characters, plus signs, percent escapes, non-ascii, fragments), all aliases, all public URL settings",
 NOT, ["internal/viewer/html.go", "internal/sparkl/cache.go", "internal/viewer/viewer.go"],
 [("redirect to canonical name", "internal/viewer/html.go htmlEntityResolve"), ("public path resolution", "internal/viewer/html.go sendToResolver"), ("alias maps", "internal/sparkl/cache.go")],
 ["/wisski/get?uri=", "/wisski/navigate/{id}/view", "/entity/{bundle}?uri="])

prop("C15", "Following the page links of a bundle visits every entity exactly once",
 "For every bundle size, page size and starting offset, a bundle page lists exactly the requested section of the bundle's entities in order and states the correct range and total. Starting at the first page and following the next links visits every entity exactly once and ends; previous, first and last links exist exactly when there is such a page to go to, and lead to it.",
 ["inputs"], "all bundle sizes, page sizes and offsets, including out of range and malformed ones",
 NOT, ["internal/viewer/html.go", "internal/assets/templates/viewer_pagination.html", "internal/viewer/templates/bundle.html"],
 [("slicing and link computation", "internal/viewer/html.go htmlBundleWithLimit")], ["/bundle/{bundle}?limit=&skip="])

prop("C16", "Pages and API show exactly the loaded data",
 "The index and bundle pages and the API list exactly the loaded bundles and entities; the entity page and API show exactly the fields, values, languages, direct children, aliases and statements of that entity, under the right names. Requests for anything that does not exist, or for an entity in a bundle it does not belong to, give a 404, and every link and embedded data on a page refers to what is shown.",
 ["inputs"], "all datasets and all request paths",
 NOT, ["internal/viewer/html.go", "internal/viewer/json.go", "internal/viewer/api.go", "internal/sparkl/cache.go", "internal/assets/templates", "internal/viewer/templates"],
 [("lookup by bundle and canonical id", "internal/sparkl/cache.go Entity"), ("templates", "internal/viewer/templates/entity.html")],
 ["HTML pages and JSON API responses"])

prop("C17", "Data from the dataset never becomes active content",
 "Unless HTML rendering is switched on, no literal, URI, name or description of the dataset or pathbuilder appears in a page as anything but text or an inert attribute: it creates no element, attribute, script or javascript: link. Every response carries a content security policy that allows no inline or foreign scripts in any setting, and allows foreign images, media, frames and inline styles only where the settings ask for them.",
 ["inputs", "configurations"], "all literals, URIs and names, all pages, all combinations of rendering settings",
 NOT, ["internal/viewer/html.go", "internal/viewer/viewer.go", "internal/assets/templates", "internal/viewer/templates"],
 [("html/template escaping", "internal/viewer/templates"), ("content security policy", "internal/viewer/viewer.go CSPHeader")],
 ["parsed DOM and headers of every page"])

prop("C18", "HTML rendering rewrites exactly the links that belong to the public site",
 "With HTML rendering on, the HTML of a value is shown with the same structure, text and attributes, except that links and image sources pointing below the wisski path of a configured public URL (with http or https) become local links to the same path and query. Every other link stays as it is, and no input makes rendering fail.",
 ["inputs", "configurations"], "all html fragments (malformed, nested, hostile), all link forms, all public URL settings",
 NOT, ["pkg/htmlx/htmlx.go", "internal/viewer/html.go"],
 [("rewriting of parsed fragments", "pkg/htmlx/htmlx.go ReplaceLinks"), ("prefix test", "internal/viewer/html.go ReplaceURL")],
 ["value shown on the entity page", "htmlx.ReplaceLinks"])

prop("C19", "While data is loading every request gets a safe answer; then the full data",
 "At every moment before loading has finished, every page answers with the loading page and every data API call with status 503 and a retry hint; progress, performance and about pages work, and no request crashes or sees partial data. From the moment loading has finished, every request is answered from the complete data.",
 ["schedules", "histories"], "all requests at all points of loading, concurrently with it",
 NOT, ["internal/viewer/fallback.go", "internal/viewer/viewer.go", "internal/stats/status.go"],
 [("done flag published after data", "internal/viewer/viewer.go Prepare"), ("fallback handlers", "internal/viewer/fallback.go")],
 ["responses before, during and after Prepare"])

prop("C20", "Concurrent requests are race-free and get the answers they would get alone",
 "Any number of concurrent requests to a loaded viewer run without data races, crashes or deadlocks, and each receives exactly the response it would receive on its own.",
 ["schedules"], "all sets of concurrent requests and interleavings",
 "No test sends a request, and the suite never runs with the race detector.",
 ["internal/viewer", "internal/sparkl/cache.go", "internal/stats/status.go"],
 [("read-only cache", "internal/sparkl/cache.go"), ("one-time route setup", "internal/viewer/viewer.go setupMux")],
 ["race detector", "responses compared with sequential ones"])

prop("C21", "Indexing and extraction run race-free and give the same result every time",
 "Loading a dataset, with its parallel extraction of bundles, fields and children and while its progress is observed by others, has no data races, never deadlocks, and gives the same result for every interleaving.",
 ["schedules"], "all interleavings of the extraction goroutines, progress observers and engines",
 "The suite never runs extraction, nor the race detector.",
 ["internal/sparkl/context.go", "internal/sparkl/pathbuilder.go", "internal/sparkl/storages", "internal/stats/status.go", "pkg/progress/progress.go"],
 [("wait groups separating stages", "internal/sparkl/context.go"), ("locks of bundle storages", "internal/sparkl/storages/memory.go, disk.go")],
 ["race detector", "results under injected delays"])

prop("C22", "Failures while loading are always reported, never turned into wrong data",
 "If any read of the sources, any operation of an index or bundle storage, or any call of an exporter fails while a dataset is indexed, extracted or exported, the operation as a whole reports an error and ends. It never panics, hangs, or claims success with missing or different data.",
 ["fault_sequences", "crash_points"], "a failure at every single operation of source, index storages, bundle storages and exporter",
 "No test injects a failure.",
 ["internal/sparkl/index.go", "internal/sparkl/context.go", "internal/sparkl/pathbuilder.go", "internal/triplestore/igraph/index.go", "internal/triplestore/imap/imap.go", "internal/glass/glass.go"],
 [("error propagation", "internal/sparkl/context.go reportError"), ("error returns of the index", "internal/triplestore/igraph/index.go")],
 ["outcome of MakeIndex, LoadPathbuilder, Export with faulty engines"])

prop("C23", "Loading releases all it used: no leaked goroutines, files or locks",
 "After loading or exporting a dataset has finished, successfully or with an error, and everything was closed, no goroutine of it remains and every database and file it opened is closed, so that the same cache directory can be used again right away. Closing twice is harmless.",
 ["histories", "fault_sequences"], "all successful and failing runs, both engines",
 NOT, ["internal/sparkl/context.go", "internal/triplestore/igraph/index.go", "internal/sparkl/storages/disk.go"],
 [("Close of context, index and storages", "internal/sparkl/context.go Close, internal/triplestore/igraph/index.go Close")],
 ["goroutine dump and open file descriptors"])

prop("C24", "A finalized index never changes and refuses modification",
 "After an index has been finalized, every attempt to add statements, declare identities or inverses, compact or finalize again returns an error and changes nothing, and any number of concurrent queries and lookups keep returning the same answers.",
 ["histories", "schedules"], "all sequences of calls after finalizing, concurrently with queries, both engines",
 "Tests never call a mutating operation after Finalize.",
 ["internal/triplestore/igraph/index.go", "internal/triplestore/imap/imap.go"],
 [("finalized flags", "internal/triplestore/igraph/index.go, internal/triplestore/imap/imap.go")],
 ["return values and query results after Finalize"])

prop("C25", "Reported progress is consistent and only moves forward",
 "Observed at any time while a dataset loads, stages appear in the order in which they run, each once; within a stage the current count never decreases and, where a total is known in advance, never exceeds it and reaches it when the stage succeeds. Once loading is done, progress is reported as done forever.",
 ["schedules", "histories"], "all observers and interleavings of a load",
 "Tests only run two single-threaded examples of the progress writer.",
 ["internal/stats/status.go", "internal/sparkl/context.go", "internal/viewer/viewer.go", "pkg/progress/progress.go"],
 [("stage bookkeeping", "internal/stats/status.go Start, DoStage, SetCT"), ("counter of finished bundles", "internal/sparkl/context.go StoreBundles")],
 ["stats.OnUpdate, Stats.Progress, /api/v1/progress"])

prop("C26", "Using a cache directory only touches files the tool owns inside it",
 "Whatever the pathbuilder contains, indexing with a cache directory creates, changes and deletes files only inside that directory, and different bundles never overwrite each other's files.",
 ["inputs"], "all bundle identifiers and names (path separators, dots, empty, equal, long)",
 NOT, ["internal/sparkl/storages/disk.go", "internal/triplestore/imap/map_disk.go", "internal/triplestore/igraph/engine_disk.go"],
 [("path of the bundle storage, wiped before use", "internal/sparkl/storages/disk.go NewStorage")],
 ["file tree around the cache directory"])

prop("C27", "The files to load are found exactly as documented, or an error is given",
 "With two arguments the first is used as pathbuilder and the second as n-quads; with a directory, its only *.xml and its only *.nq file are used; with a file, it is used as an index where that is allowed. In every other case, including ambiguous or missing files, directories in place of files and a wrong number of arguments, an error is returned and no file is chosen.",
 ["inputs"], "all argument lists and directory contents, including names with special characters",
 NOT, ["load.go"], [("FindSource", "load.go")], ["hangover.FindSource"])

prop("C28", "Internal identifiers are unique, ordered, and keep their order when stored",
 "Identifiers handed out by one map are all distinct, valid and increasing, and running out of them is never silent. Storing and reading identifiers and statements preserves them exactly, the byte order of stored identifiers is their numerical order, and stored data that is too short is reported instead of read as something else.",
 ["inputs", "histories"], "all identifiers including boundary values and carries, all sequences of allocations, all byte strings",
 "Tests cover identifiers below 2^24 in order and random ones below 1000; decoding of malformed data is never tried.",
 ["internal/triplestore/impl/id.go", "internal/triplestore/igraph/triple.go", "internal/triplestore/imap/imap.go"],
 [("big endian codec", "internal/triplestore/impl/id.go"), ("triple codec", "internal/triplestore/igraph/triple.go MarshalTriple")],
 ["impl.ID methods, MarshalTriple and UnmarshalTriple, IMap.Next"])

prop("C29", "The graphical frontend serves exactly what its form says, until it is closed",
 "After the form of the graphical frontend is submitted, its site answers like a viewer with the chosen dataset, identity and inverse predicates, public addresses and rendering settings, on the chosen address, whenever the requests arrive. A form that is not valid cannot be submitted and starts nothing. The window shows the address and the figures of the site, and errors are shown in the console, which keeps the last lines in order. Data that could not be loaded is never shown. Closing the window or interrupting the program ends the server, frees the address and leaves nothing running.",
 ["inputs", "schedules", "histories"], "all contents of the form, including corrected ones, all datasets, requests at any time before, while and after loading, all ways to end the program",
 "The frontend has no tests, and whether a request or the settings come first is a matter of timing.",
 ["internal/headache/headache.go", "internal/headache/ui_run.go", "internal/headache/ui_settings.go", "internal/headache/settings.go", "internal/headache/status.go", "internal/console/console.go"],
 [("settings are read from the form", "internal/headache/settings.go"), ("listener, loading and shutdown", "internal/headache/ui_run.go runViewer"), ("validation of the form", "internal/headache/ui_settings.go"), ("ring of lines", "internal/console/console.go line")],
 ["widgets of the window with a headless driver", "HTTP answers of the frontend's server"])

prop("C30", "The reported figures account for every statement",
 "The figures reported about an index (during the load, by the index, on the performance page and API) account for every statement that was read: each literal statement is either counted as datum or as skipped, each other statement is either stored or counted as skipped, direct and inverse statements together are exactly the different edges that can be found, nothing is skipped without a filter, there are conflicts exactly if something is repeated, and the index knows its number of distinct statements, in memory and on disk, also after it is used again.",
 ["inputs", "histories"], "all datasets with repetitions, identities, inverses and filters, all histories of additions, both engines",
 "No test looks at the statistics.",
 ["internal/triplestore/igraph/index.go", "internal/triplestore/igraph/engine_memory.go", "internal/triplestore/igraph/engine_disk.go", "internal/sparkl/index.go", "internal/stats/status.go", "internal/viewer/templates/perf.html"],
 [("statistics of the index", "internal/triplestore/igraph/index.go AddTriple, AddLangData, insert"), ("number of statements", "internal/triplestore/igraph/index.go TripleCount")],
 ["Index.Stats, Index.TripleCount, /api/v1/perf, /perf"])

prop("C31", "Requests change nothing, and only the address decides the answer",
 "A loaded site is read-only: no request, whatever its method, address, headers or body, changes the loaded data or the answer to any later request. The answer to an address depends on nothing but the address: not on the order of requests, the host name, cookies, forwarding or content negotiation headers, or parameters in a body. HEAD answers like GET, parts of files are parts of the whole file, and no request makes the site fail.",
 ["inputs", "histories"], "all histories of requests of all methods, addresses, headers and bodies to a loaded site, including ones that are not valid HTTP or break off",
 NOT, ["internal/viewer/viewer.go", "internal/viewer/html.go", "internal/viewer/json.go", "internal/viewer/api.go", "internal/sparkl/cache.go", "internal/wisski/entity.go"],
 [("entities are shared between all requests", "internal/sparkl/cache.go Entity"), ("handlers", "internal/viewer/html.go, internal/viewer/json.go"), ("collecting statements of an entity", "internal/wisski/entity.go AllTriples")],
 ["HTTP answers", "the loaded cache and pathbuilder"])

prop("C32", "Pages get everything they refer to, and their own policy never blocks it",
 "Every script, style sheet, icon and image that a page of the viewer itself refers to is part of the site, is delivered with the right type, and is allowed by the content security policy of that very page, as are the frame of the configured TIPSY URL and the requests to the API: in every setting, for every page, also while loading and for errors. Images, media and inline styles inside of rendered values are allowed where the settings ask for them: from everywhere, or with the strict policy from the public URLs.",
 ["inputs"], "all pages of all datasets, all combinations of settings, all places where images and media can be",
 "Needs every page under every combination of settings; no test looks at pages or headers.",
 ["internal/viewer/viewer.go", "internal/assets/assets_dist.go", "internal/assets/templates.go", "internal/viewer/templates/about.html", "internal/assets/templates/base.html"],
 [("policy made of the settings", "internal/viewer/viewer.go CSPHeader"), ("files of the frontend", "internal/assets/assets_dist.go, internal/assets/static.go"), ("icon", "internal/viewer/viewer.go setupMux")],
 ["HTML of all pages, the files they refer to, and the Content-Security-Policy header"])

prop("C33", "Counting streams are transparent, and the progress line shows the last state",
 "A counting reader or writer (as used for exporting and importing an index) passes on exactly the data, counts and errors of what it wraps, for every pattern of short, empty and failing reads and writes, and whether or not its progress can be shown; its count is at all times the number of bytes that went through. A terminal showing a progress line has on it, after a forced flush, exactly the last content and nothing left of earlier ones; in between it is updated as soon as the interval has passed and never before; after closing it is empty. A count is shown with its total exactly while it is below it.",
 ["inputs", "fault_sequences", "histories"], "all patterns of reads and writes, all histories of updates, flushes and closes",
 "The two existing examples read and write ten bytes each.",
 ["pkg/progress/progress.go", "internal/glass/glass.go"],
 [("counting", "pkg/progress/progress.go Reader, Writer"), ("rewriting a line", "pkg/progress/progress.go Rewritable.Flush")],
 ["what goes through progress.Reader and progress.Writer, and what is written for the terminal"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError:
    print(len(P), "written, not validated")
