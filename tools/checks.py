"""technique and level note per property"""
CHECKS = {
 'C01': ('online comparison of extraction runs with a brute-force reference model over generated pathbuilders and datasets',
         'Held on the generated worlds that were observed (counts in the evidence). Trusts the pathbuilder xml parser and the reference model.'),
 'C02': ('differential monitoring of disk-backed against in-memory runs, over fresh and dirty cache directories (earlier, interrupted and damaged runs)',
         'Held on the generated worlds and histories that were observed; one known finding is listed.'),
 'C03': ('online comparison of path queries with a reference evaluation over dense random graphs, both engines',
         'Held on the graphs and queries that were observed.'),
 'C04': ('online comparison of canonical names and queries with a union-find reference over random identity declarations and orders',
         'Held on the declaration histories that were observed.'),
 'C05': ('online comparison of inferred statements with a reference over random inverse declarations and insertion orders',
         'Held on the graphs and orders that were observed.'),
 'C06': ('differential monitoring of masked against unmasked runs over generated worlds',
         'Held on the generated worlds that were observed.'),
 'C21': ('race detector and online comparison of results under injected delays and adversarial schedules (jitter, starvation, ordering, late operations), with observers of progress',
         'No race, deadlock or difference in the interleavings that were observed.'),
 'C23': ('resource monitors (goroutines, open files, locks, unclosed storages) around complete, failing and interrupted loads, closing everything in between',
         'No leak in the histories that were observed; a leak of memory that no monitor names is not seen.'),
 'C24': ('race detector and online comparison of answers with a snapshot while modifications are attempted concurrently',
         'Held on the indexes, modifications and interleavings that were observed.'),
 'C25': ('race detector and trace checkers over the progress recorded by every update, concurrent pollers, the progress API and the text output',
         'Held on the loads and failures that were observed; observers see what they see in between.'),
 'C10': ('online round-trip monitoring of generated values of generated types through hostile readers and writers (cut, failing, byte by byte)',
         'Held on the types and values that were generated.'),
 'C28': ('online comparison of identifiers and stored records with 64 bit arithmetic and map models, around every critical value, including using up all identifiers, and damaged records',
         'All identifiers are used up once; other values are sampled.'),
 'C08': ('online comparison of every answer of exported and imported indexes (in this and in other processes), byte-level check of the container, and exports into targets that become full at chosen bytes',
         'Held on the indexes that were observed.'),
 'C09': ('fault injection into index files (cut at every byte, flipped bits, damaged blocks, changed content beneath valid checksums, other versions, foreign files); an oracle classifies every import as refused, identical, or wrong, and crashes, hangs and memory are monitored',
         'Small files are cut at every byte and every byte has a bit flipped; larger ones are sampled. Content that is changed under a forged checksum is only judged for crashes, hangs and memory.'),
 'C11': ('online comparison of every download, read by an independent strict parser, with the statements collected from the entity, its values and children; generated and made entities with hostile iris, literals and language tags',
         'Held on the entities that were observed; one known finding (blank nodes) is listed.'),
 'C14': ('online checking of chains of redirects for every name of every entity of generated and made datasets, written in several ways, and for paths below public urls and unknown names',
         'Held on the names and settings that were observed.'),
 'C15': ('online checking of bundle pages: every page that is reached by links or asked for is compared with the section of the bundle it must show, walks are followed to the end and back',
         'Every section of small bundles is asked for; larger bundles are sampled.'),
 'C16': ('online comparison of every page (parsed as a browser does) and API answer of generated sites with the loaded and expected data, under several names, with requests for what does not exist',
         'Held on the sites that were observed; what scripts do with a page afterwards is not executed.'),
 'C17': ('differential monitoring of pages made of hostile data against pages made of harmless data of the same shape (tokens, elements, attributes, embedded data, links), an online checker for active content, and evaluation of the content security policy of every response as a browser does',
         'Held on the sites and settings that were observed.'),
 'C18': ('differential monitoring of rendered pages against a reference DOM: independently parsed values with independently rewritten links put into the page of harmless values; generated markup, link soup and broken html',
         'Held on the values that were observed; html that the html library itself does not write and read back equally is only judged by the rest of the page.'),
 'C19': ('race detector and classification of recorded answers by when they were sent and received, while loads (from files, with cache directory, from an index, failing) are stopped at every update and hammered by clients; also of the real server, built with the race detector, over the network',
         'Held on the loads and moments that were observed.'),
 'C20': ('race detector and online comparison of every concurrent answer (in the process and over the network, with clients that go away) with that of a site asked alone',
         'Held on the sites, requests and interleavings that were observed.'),
 'C07': ('online comparison of every literal (random texts, escapes, languages, datatypes, long ones) with tokens, loaded entities (memory, cache directory, imported index), API and downloads read by an independent parser',
         'Held on the files that were observed.'),
 'C12': ('comparison of every row of the resulting database with the reference model (datasets through the pipeline, entities given to the exporter concurrently, hostile names and values, injected failures of single statements, counted query variables)',
         'Held on the exports that were observed; sqlite only, as there is no mysql server here.'),
 'C27': ('comparison of FindSource with an independent reference over random file trees and arguments (symbolic links, pipes, unreadable directories, special characters)',
         'Held on the trees that were observed.'),
 'C26': ('recording of the complete file tree (kind, identity, permissions, times, content) around and inside of the cache directory before and after each load, comparison with loads in memory',
         'Held on the loads that were observed; run as an unprivileged user.'),
 'C13': ('runtime monitoring of the real n2j and hangover processes: offline oracle over outputs and exit status against a reference model, with system call faults injected by strace',
         'Model-based comparison of json, csv, sqlite and index files; strace lets single operations on outputs, inputs and cache fail; full devices, file size limits, impossible targets, wrong arguments, mutated inputs. A crash, hang, false exit status or incomplete file is a violation.'),
 'C29': ('end-to-end monitor of the real graphical frontend with a headless driver: differential comparison of its site against a viewer with the same settings, at all times, and leak monitors after its end',
         'The toolkit is used with its headless driver; a violation counts when it is seen again in a repetition of the same session. The dialogs to choose files are not exercised.'),
 'C30': ('conservation monitors: recorded statements and storage operations against every reported figure (index statistics, counts, progress, pages and API), for histories of operations and complete loads',
         'Held on the histories and loads that were observed; for both engines.'),
 'C31': ('differential monitors: fingerprints of all loaded data before, between and after requests, and answers compared over all orders, encodings and methods of requests',
         'Held on the sites and requests that were observed.'),
 'C32': ('trace monitor: everything in the DOM of a page that makes a browser load something is asked for, and judged by an independent matcher of content security policies',
         'Held on the pages and settings that were observed; scripts are not executed.'),
 'C33': ('differential and conservation monitors over scripted streams, and an emulated terminal line for the recorded output',
         'Held on the histories that were observed.'),
 'C22': ('fault injection at every kind of operation of sources, storages and exporters; an oracle classifies the outcome (error, hang, panic, success with other data)',
         'Every operation kind of the wrapped interfaces is failed at several positions; levels below the storages are only failed by damaging databases.'),
}
NOT_APPLICABLE = {}
