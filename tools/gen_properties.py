#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is maintained here)."""
import json, os
G="core/src/graph/mod.rs"; U="core/src/graph/update.rs"; CS="graphannis/src/annis/db/corpusstorage.rs"
MODEL="graphannis/src/annis/db/aql/model.rs"; ST="core/src/graph/storage/"; AN="core/src/annostorage/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,hook_needed=hook)))

# ---- graph and updates
p("C01","Applying an update list equals applying its changes one after another",
 "After a list of changes (add/delete node, node label, edge, edge label) was applied successfully to a corpus, its content (nodes, node labels, edges per component, edge labels) is exactly what results from carrying out the changes one by one in list order with their documented meaning: a node is created once per name, labels and edges attach only to existing nodes and edges, a repeated label replaces the value, changes naming absent things have no effect, and deleting an edge or node removes all that hangs on it. How the same sequence of changes is divided into lists does not matter, nor does whether the corpus is kept in memory or on disk.",
 ["inputs","histories","configurations"],"every sequence of update lists over every vocabulary of node names, label names and components; in-memory and disk-based graphs; any division into lists",
 "The tests apply a few fixed lists to a fresh graph; interactions inside a list (delete and re-add, label on an edge created later, new component in the same list as a node deletion) are not sampled.",
 [G,U,"core/src/graph/storage/adjacencylist.rs","core/src/graph/storage/disk_adjacency.rs",AN+"inmemory.rs",AN+"ondisk.rs"],
 [("apply_update_in_memory","core/src/graph/mod.rs"),("UpdateEvent","core/src/graph/update.rs")],
 ["Graph::apply_update","CorpusStorage::apply_update","get_outgoing_edges/get_annotations_for_item of the resulting graph"])
p("C02","Deleting a node leaves nothing of it behind",
 "Once a node was deleted, no label of it, no edge from or to it in any component and no label of such an edge is visible through any interface (queries, exports, subgraphs, component listings, searches), however the corpus reached that state. Creating a node of the same name afterwards starts with only the labels given then and without edges.",
 ["histories","configurations"],"every history of updates containing node deletions, including deletions in the same list in which the component, edge or label was created, re-creations, optimizations, reloads in between; memory and disk",
 "One test deletes one node in a small graph; the residue depends on which storage implementation, which component and which list the deleted things were in.",
 [G,"core/src/graph/storage/adjacencylist.rs","core/src/graph/storage/dense_adjacency.rs","core/src/graph/storage/disk_adjacency.rs",AN+"inmemory.rs",AN+"ondisk.rs"],
 [("UpdateEvent::DeleteNode handling","core/src/graph/mod.rs apply_update_in_memory"),("delete_node","core/src/graph/storage/*.rs"),("remove_item","core/src/annostorage/*.rs")],
 ["Graph::get_graphstorage(..).get_outgoing_edges/get_ingoing_edges/source_nodes","AnnotationStorage searches"])
p("C03","Token and coverage index is exact after any update history",
 "After any history of update lists, the automatically maintained token relations (left-most token, right-most token, and inherited coverage of each node) are exactly those defined by the current coverage, dominance and ordering edges and token labels. In particular a corpus grown or changed step by step answers every token, coverage, precedence and tree query like a corpus built in one go from the final content.",
 ["histories"],"every division of a build history into update lists, with additions and deletions of tokens, spans, hierarchy nodes, ordering edges, and token labels",
 "Tests build a corpus in one list (or add once) and query it; the incremental path depends on which nodes are judged affected by which change.",
 [MODEL,"graphannis/src/annis/db/token_helper.rs"],
 [("AQLUpdateGraphIndex (before/after_update_event, apply_update_graph_index_components)","graphannis/src/annis/db/aql/model.rs")],
 ["LeftToken/RightToken/inherited Coverage components of the graph","AQL token and precedence queries"])
p("C04","A rejected update list changes nothing",
 "When applying an update list reports an error, the corpus content visible to queries afterwards is the content before the call, and it is also what a later reopening of the database yields; later valid updates work as if the rejected one had never been submitted.",
 ["inputs","histories","fault_sequences"],"every history in which some update list is rejected: lists that delete things that do not exist at any position of the list, and lists whose persisting fails at any file-system operation",
 "No test applies a list that is rejected half-way and then looks at the content, in memory and after reopening.",
 [CS,G],[("apply_update error path unloads the graph","core/src/graph/mod.rs apply_update / corpusstorage.rs apply_update")],
 ["CorpusStorage::apply_update result","corpus content before/after","content after reopening"])
# ---- persistence
p("C05","Saved corpora are read back identically",
 "Closing a database cleanly and opening it again, unloading a corpus and using it again, or saving a graph and loading it yields exactly the same nodes, labels, edges, edge labels and query results as before, for in-memory and disk-based corpora and for every way the internal representation of a component was chosen. Repeating this any number of times, with updates in between, changes nothing either.",
 ["histories","configurations"],"every corpus content and every history of updates, optimizations, unloads and reopenings; memory and disk",
 "Tests save and load a handful of fixed graphs; the representation (and therefore the serialization) chosen depends on the shape of each component.",
 [G,CS,"core/src/graph/storage/registry.rs",ST+"*.rs",AN+"inmemory.rs",AN+"ondisk.rs"],
 [("internal_save/internal_open","core/src/graph/mod.rs"),("save_to/load_from","core/src/graph/storage/*.rs")],
 ["content of the reopened corpus compared with the content before"])
p("C06","An acknowledged update survives a crash at any point; updates are all-or-nothing",
 "If the process is killed at any moment, then after opening the database again each corpus contains every update list whose application had been reported successful, and a list whose application was still running is contained either completely or not at all. This includes crashes while the background write-out is running and several updates in quick succession.",
 ["crash_points","histories","schedules"],"every file-system operation of a history of update lists (and the background write-out they start) as crash point",
 "The existing tests never interrupt a write; a crash window is one among hundreds of file-system operations.",
 [G,CS],[("write-ahead log and temp-file rename","core/src/graph/mod.rs apply_update_keep_statistics"),("background_sync_wal_updates, internal_save_with_backup","core/src/graph/mod.rs")],
 ["content after reopening in a new process, compared with the acknowledged lists"])
p("C07","Crash recovery is itself safe and repeatable",
 "Opening a database after a crash, being killed again at any point of that recovery (or of the first work after it), and opening again gives the same content as an undisturbed recovery would have; opening, closing and reopening a recovered database any number of times without updates changes nothing.",
 ["crash_points","fault_sequences"],"every pair of crash points (first in an update or write-out, second in recovery or in the following update), followed by repeated clean reopenings",
 "No test recovers from the backup directory twice; only the second opening shows whether the first recovery left a consistent directory.",
 [G],[("recovery from backup directory and log replay","core/src/graph/mod.rs internal_open/load_from")],
 ["content after the 1st, 2nd, ... reopening"])
p("C08","Corpora live and die as named in the interface; cached state is invisible",
 "The database behaves as a map from corpus names to contents: creating, importing, updating and deleting a corpus affect exactly that corpus; the list, existence-dependent return values and errors follow the map; nothing of a deleted or overwritten corpus reappears, also not after reopening. Loading, unloading, eviction from the cache, preloading and re-optimizing never change any visible content.",
 ["histories","configurations","schedules"],"every sequence of create, import (with and without overwriting), update, unload, preload, re-optimize, delete, list and query calls over several corpora and cache sizes, with reopenings",
 "Tests exercise single life cycles; the interplay of cache eviction, pending background writes and deletion/overwriting depends on the history and on timing.",
 [CS],[("corpus_cache, check_cache_size_and_remove","corpusstorage.rs"),("delete, create_empty_corpus, import_from_fs","corpusstorage.rs"),("active_background_workers","corpusstorage.rs")],
 ["list, info, count, find and export of each corpus after each step"])
p("C09","Concurrent use of one database is equivalent to some sequential use",
 "When several threads update, query, unload and list corpora of one database at the same time, every call returns as if the calls had been executed one at a time in an order consistent with real time; in particular no acknowledged update is lost, and no query sees part of an update list. The final content, also after closing and reopening, contains all acknowledged updates.",
 ["schedules","histories"],"every interleaving of update, query, count, unload, preload and list calls by several threads, including the background write-out threads",
 "Existing tests are sequential except one smoke test; the race windows (loading, background write-out, unloading) need specific schedules.",
 [CS,G],[("per-corpus RwLock, cache lock, background thread counter","corpusstorage.rs"),("current_version/persistence lock","core/src/graph/mod.rs")],
 ["call/return history of each thread; final content before and after reopening"])
# ---- storages
p("C10","All component representations answer like the plain edge set",
 "Every representation a component can be stored in answers each question (outgoing and incoming edges, reachable nodes within a distance range in both directions, shortest distance, connectedness within a range, edge labels, source nodes) exactly as the definition over its set of edges says, for each graph shape the representation can be chosen for, directly after conversion as well as after saving and loading. Adding and deleting edges, nodes and labels in a writable representation has exactly the described effect on later answers.",
 ["inputs","histories","configurations"],"all edge sets (trees, forests, DAGs, cyclic graphs, chains, several roots, shared targets), all distance ranges, all representations, all sequences of modifications",
 "Each representation has a few example-based tests with hand-picked shapes; range and inverse queries on merged chains, cycles beside trees, or shared sub-trees are not reached.",
 [ST+"adjacencylist.rs",ST+"dense_adjacency.rs",ST+"linear.rs",ST+"prepost.rs",ST+"disk_adjacency.rs",ST+"disk_path.rs",ST+"union.rs","core/src/dfs.rs"],
 [("GraphStorage/EdgeContainer implementations","core/src/graph/storage/*.rs"),("CycleSafeDFS","core/src/dfs.rs")],
 ["GraphStorage::{find_connected,find_connected_inverse,distance,is_connected,get_outgoing_edges,get_ingoing_edges,source_nodes,get_anno_storage}"])
p("C11","Optimizing a corpus changes nothing but speed",
 "Recomputing statistics and switching components (or a whole corpus, between memory and disk) to the representation judged best keeps every node, label, edge and edge label and the answer of every query, for every shape of component; a corpus can be updated further afterwards with the same effect as if it had not been optimized.",
 ["histories","configurations"],"every graph content, every point of an update history at which optimization happens (once or repeatedly), both target modes",
 "The choice of representation depends on statistics of the component (roots, fan-out, depth, cyclic or not); tests optimize only a few well-formed corpora.",
 [G,"core/src/graph/storage/registry.rs",ST+"*.rs"],[("optimize_impl/optimize_gs_impl","core/src/graph/mod.rs"),("get_optimal_impl_heuristic","core/src/graph/storage/registry.rs"),("calculate_statistics","core/src/graph/storage/*.rs")],
 ["projection of the graph before/after optimize_impl; CorpusStorage::reoptimize_implementation"])
p("C12","Label searches return exactly the matching items",
 "In both the in-memory and the on-disk label store, after any sequence of label insertions, replacements, removals and item removals, each lookup and search (by name with or without namespace, exact value, different value, any value, regular expression and its negation, keys and values of an item, list of keys, values and counts) returns exactly the items and values defined by the current set of labels, each once. This also holds after saving and loading.",
 ["inputs","histories","configurations"],"every sequence of modifications and every search, over arbitrary Unicode names, values and patterns; both stores; before and after save/load",
 "The tests insert a few ASCII labels and search; replacing values, removing and re-adding, empty namespaces, non-ASCII values and regex prefixes are not sampled.",
 [AN+"inmemory.rs",AN+"ondisk.rs",AN+"symboltable.rs"],[("AnnotationStorage implementations","core/src/annostorage/*.rs")],
 ["AnnotationStorage::{exact_anno_search,regex_anno_search,get_annotations_for_item,get_all_values,...}"])
p("C13","The disk-backed map behaves as a sorted map",
 "For every sequence of insertions, replacements, removals, clears and compactions, the disk-backed map answers lookups, membership, emptiness, full iteration and range iteration exactly like an ordinary sorted map holding the same entries, no matter when entries are moved between memory and disk files, and the same after it was written to a file and opened again.",
 ["histories","configurations"],"every operation sequence and every eviction setting, key range and position of compactions and reopenings",
 "Tests cover a few sequences with one or two eviction settings; correctness depends on the interleaving of operations with evictions and compactions.",
 ["core/src/util/disk_collections.rs"],[("three-level structure c0/c1/c2 with tombstones","core/src/util/disk_collections.rs")],
 ["DiskMap::{insert,get,contains_key,remove,iter,range,is_empty,clear,compact,write_to}"])
# ---- queries
p("C14","Query results are exactly those the query language defines",
 "A query returns exactly the tuples of nodes that satisfy all its node descriptions and all its relations (dominance, pointing, precedence, nearness, coverage, overlap, inclusion, identical/left/right alignment, corpus membership, arity, value equality, with distance ranges and edge-label conditions) according to the definition of these relations on the corpus graph; nothing is missing, nothing extra, nothing twice.",
 ["inputs","programs"],"every corpus graph and every conjunctive query",
 "The query tests count matches of fixed queries in fixed corpora (partly not even shipped); rare graph shapes, distance ranges, node description kinds and combinations are not reached.",
 ["graphannis/src/annis/db/aql/conjunction.rs","graphannis/src/annis/db/aql/operators/*.rs","graphannis/src/annis/db/exec/*.rs","graphannis/src/annis/db/token_helper.rs","graphannis/src/annis/db/aql/mod.rs"],
 [("Conjunction::make_exec_node","graphannis/src/annis/db/aql/conjunction.rs"),("operators","graphannis/src/annis/db/aql/operators"),("joins and filters","graphannis/src/annis/db/exec")],
 ["CorpusStorage::find/count","graphannis::aql::execute_query_on_graph"])
p("C15","Negation, optional nodes and alternatives follow their logical meaning",
 "A negated relation between two required nodes keeps exactly the tuples for which the relation does not hold; a relation negated against an optional node keeps exactly the tuples for which no such node exists; a query of alternatives returns the union of the results of its alternatives without duplicates, for every nesting of alternatives and conjunctions. Negated value and edge-label conditions likewise are the complement within the items that have the label.",
 ["inputs","programs"],"every corpus graph and every query using negated operators, optional nodes, != conditions and nested alternatives",
 "Only a handful of negation and alternative queries are tested, on corpora where most filters are trivial.",
 ["graphannis/src/annis/db/aql/{mod,conjunction,disjunction}.rs","graphannis/src/annis/db/aql/operators/negated_op.rs","graphannis/src/annis/db/aql/operators/non_existing.rs","graphannis/src/annis/db/exec/*.rs"],
 [("NegatedOp, NonExistingUnaryOperatorSpec","graphannis/src/annis/db/aql/operators"),("normal form transformation","graphannis/src/annis/db/aql/mod.rs"),("ExecutionPlan","graphannis/src/annis/db/plan.rs")],
 ["CorpusStorage::find/count"])
p("C16","How a query is executed does not influence its result",
 "The set of results of a query is the same whether joins run in parallel or sequentially, whether the corpus is held in memory or on disk, optimized or not, freshly loaded or long in use, whether statistics are up to date or absent, however the operands and the order of the relations of the query are written, and however often it is repeated.",
 ["programs","configurations","histories"],"every corpus graph, every query and every equivalent formulation, each execution configuration",
 "Tests run each query in one or two configurations on a fixed corpus; the planner's choices (join order, operand switch, index join, special searches) depend on statistics and spelling.",
 ["graphannis/src/annis/db/aql/conjunction.rs","graphannis/src/annis/db/exec/*.rs","graphannis/src/annis/db/exec/parallel/*.rs","graphannis/src/annis/db/plan.rs",CS],
 [("optimize_join_order_heuristics, optimize_node_search_by_operator","graphannis/src/annis/db/aql/conjunction.rs"),("estimation_type, get_inverse_operator","graphannis/src/annis/db/aql/operators"),("parallel joins","graphannis/src/annis/db/exec/parallel")],
 ["CorpusStorage::find/count under each configuration"])
p("C17","Counts and found matches agree",
 "For every query and list of corpora, the match count equals the number of results an unlimited search returns, and the extended count reports that same number together with the number of distinct documents the matches' first nodes lie in; an execution error in any of these is reported and not counted.",
 ["inputs","programs","configurations"],"every corpora list, query and execution configuration",
 "Tests compare counts with fixed numbers for few queries, rarely with find on the same query and over several corpora.",
 [CS],[("count, count_extra, find","graphannis/src/annis/db/corpusstorage.rs")],
 ["CorpusStorage::{count,count_extra,find}"])
p("C18","Result pages partition one fixed, correctly sorted result list",
 "For the normal and inverted order, consecutive pages (any offset and limit) over one or several corpora concatenate to exactly the unlimited result list; normal order sorts by corpus, document path and text position, inverted order is its exact reverse; a page in random order or without order has the same size and consists of different matches of the list. The order of normal results does not depend on execution configuration.",
 ["inputs","configurations"],"every offset, limit, order, list of corpora and query, on corpora with nested sub-corpora, documents with several texts and matches of different length",
 "Tests check one or two pages on one corpus; boundaries between corpora, limits beyond the end, the partial-sort shortcut and position-based comparison are not covered.",
 [CS,"graphannis/src/annis/db/sort_matches.rs","graphannis/src/annis/util/quicksort.rs","graphannis/src/annis/util/sortablecontainer.rs"],
 [("find, find_in_single_corpus","graphannis/src/annis/db/corpusstorage.rs"),("compare_matchgroup_by_text_pos","graphannis/src/annis/db/sort_matches.rs"),("sort_first_n_items","graphannis/src/annis/util/quicksort.rs")],
 ["CorpusStorage::find with all offsets/limits/orders"])
p("C19","Frequency tables count exactly the matches",
 "A frequency table contains for each combination of label values occurring at the requested positions of the matches exactly one row with the number of matches having it (missing labels counted as empty value), rows sorted by falling count; the counts add up to the total number of matches over all given corpora.",
 ["inputs","programs"],"every query, frequency definition, graph and list of corpora",
 "One test with one definition on one corpus.",
 [CS],[("frequency","graphannis/src/annis/db/corpusstorage.rs")],["CorpusStorage::frequency"])
p("C20","Extracted subgraphs contain exactly the requested part",
 "Extracting the context of a match, the matches of a query, a document or the corpus structure yields exactly the nodes the definition asks for (the matched nodes, everything covering the tokens between the left and right context measured in tokens or segmentation units, and the corpus nodes above them), each with all its labels, and exactly the edges with labels of the requested components between these nodes. Successive tokens that are not adjacent in the text are connected by a gap marker edge, and no others.",
 ["inputs","programs","configurations"],"every corpus graph, list of match nodes, left/right context size, segmentation, query and component filter",
 "Tests check a few contexts in a few texts; boundaries of texts, overlapping regions, several matches in one text and gaps are hardly sampled.",
 ["graphannis/src/annis/db/corpusstorage/subgraph.rs",CS,"graphannis/src/annis/db/token_helper.rs"],
 [("new_subgraph_iterator, create_subgraph_for_iterator","graphannis/src/annis/db/corpusstorage/subgraph.rs"),("subgraph, subgraph_for_query, subcorpus_graph, corpus_graph","graphannis/src/annis/db/corpusstorage.rs")],
 ["CorpusStorage::{subgraph,subgraph_for_query,subcorpus_graph,corpus_graph}"])
p("C21","Exporting and importing preserves a corpus",
 "Exporting a corpus (as GraphML or GraphML in a zip archive, alone or with others) and importing it again yields a corpus with exactly the same nodes, labels, edges, edge labels and configuration, including any Unicode or markup characters in names and values, and answering all queries the same. Linked files are preserved under the name of their node, whatever the name is, and are only written inside the folder of the corpus or of the export. A corpus exported in stable order, imported and exported again gives equal text.",
 ["inputs","configurations"],"every corpus content and configuration, any strings as node names, label names, values, component names; memory and disk, zip and file",
 "The round-trip tests use one or two small well-behaved graphs; strings with markup, blanks, colons, quotes or non-ASCII characters in each position are not sampled.",
 ["core/src/graph/serialization/graphml.rs",CS,"core/src/util/mod.rs"],
 [("export/import","core/src/graph/serialization/graphml.rs"),("join_qname/split_qname","core/src/util/mod.rs"),("export_to_zip/import_all_from_zip","graphannis/src/annis/db/corpusstorage.rs")],
 ["graphml::export, graphml::import","CorpusStorage::{export_to_fs,export_to_zip,import_from_fs,import_all_from_zip}"])
p("C22","Listings describe exactly the current content",
 "The lists of components, node labels and edge labels of a corpus, with or without values, limited to the most frequent value or not, report exactly the components that exist and the label names and values that occur at the time of the call, after any history of updates, deletions, optimizations and reloads.",
 ["histories","configurations"],"every update history and listing call, memory and disk",
 "The listing tests run on one freshly built corpus.",
 [CS,AN+"inmemory.rs",AN+"ondisk.rs"],[("list_components, list_node_annotations, list_edge_annotations","graphannis/src/annis/db/corpusstorage.rs"),("annotation_keys, get_all_values, guess_most_frequent_value","core/src/annostorage/*.rs")],
 ["CorpusStorage::{list_components,list_node_annotations,list_edge_annotations,info}"])
p("C23","A database directory is used by one instance at a time",
 "While one open database instance uses a directory, every attempt to open another instance on it fails without touching its content; as soon as the instance is closed, which waits for all outstanding writes, or its process has died at any point, the directory can be opened again and shows every update that had been acknowledged.",
 ["schedules","histories","crash_points"],"every interleaving of opening, using, closing and killing instances in one or several processes",
 "One test opens twice in the same process; holding the lock through pending background writes and process death are not covered.",
 [CS],[("create_lockfile, Drop","graphannis/src/annis/db/corpusstorage.rs")],["CorpusStorage::with_cache_strategy results; content on reopening"])
p("C24","Queries in the ANNIS 3 compatibility mode keep their old meaning",
 "With the query language AQLQuirksV3 the result of a query is the one defined for ANNIS 3: precedence and nearness without a limit end after 50 tokens; the nodes of a relation need only differ from each other, not from all other nodes of the match; a node with k dominance or pointing relations (k > 1) is repeated k-1 times at the end of the match, in the order of the nodes in the query; meta::name=\"value\" conditions, wherever they are written, restrict all alternatives to matches whose first node lies in a document with such labels, and are not part of the match; no match is listed or counted twice. Results are ordered by the (decoded) document name, in the order of the locale unless the corpus stems from relANNIS 3.3, then by text position and name, and node names are written in the old encoding. count, count_extra, find with all pages and orders, frequency and subgraphs agree on this meaning, and plan, representation and parallelism do not influence it.",
 ["inputs","configurations"],"every corpus and every query of the compatibility mode, all pages and orders, memory and disk, sequential and parallel, C and other locales",
 "One unit test looks at the encoding of one name and one at comparing two paths; the tests of meta conditions need corpora that are not there and are ignored, so the mode is practically untested.",
 ["graphannis/src/annis/db/aql/mod.rs","graphannis/src/annis/db/aql/conjunction.rs","graphannis/src/annis/db/sort_matches.rs",CS,"graphannis/src/annis/db/plan.rs"],
 [("map_conjunction, add_legacy_metadata_constraints","graphannis/src/annis/db/aql/mod.rs"),("compare_document_path, compare_string","graphannis/src/annis/db/sort_matches.rs"),("create_find_iterator_for_query, find_in_single_corpus (quirks_mode)",CS)],
 ["aql::parse(query, true) + execute_query_on_graph","CorpusStorage::{count,count_extra,find,frequency,subgraph_for_query} with QueryLanguage::AQLQuirksV3"])
p("C25","The web service gives and changes only what the token permits",
 "A request whose token has a wrong signature or algorithm, is expired, lacks the mandatory claim or is malformed is refused (401); a request without token is one of the user anonymous. Changing or listing groups, deleting, importing and exporting corpora and fetching job results need the role admin (403 otherwise, nothing changes). Everything else about a corpus is answered only if the user is an administrator, anonymous access to all corpora is configured, or every corpus asked for is listed in one of the groups of the user or in the group anonymous, according to the last successful change of that group; the list of corpora has exactly these. A permitted answer has exactly the content the corpus has at that time (query results, frequencies, annotations, parts of the graph, linked files), no file outside of the corpus can be read, and a result of a job is given once. Groups, replaced completely by each change and gone with all permissions after their deletion, and corpora survive killing the service; concurrent changes of groups and reads behave as if executed in some order.",
 ["inputs","schedules","histories"],"every sequence of requests by any users over HTTP, also concurrent, with restarts of the service",
 "The existing tests of the web service call few endpoints with a mock-up of two tokens; groups that change over time, restarts, concurrent changes, most endpoints and invalid tokens are not tested.",
 ["webservice/src/api/mod.rs","webservice/src/api/corpora.rs","webservice/src/api/administration.rs","webservice/src/api/search.rs","webservice/src/actions.rs","webservice/src/extractors.rs","webservice/src/main.rs"],
 [("verify_token, from_request","webservice/src/extractors.rs"),("check_is_admin, check_corpora_authorized_read","webservice/src/api/mod.rs"),("add_or_replace_group, delete_group, authorized_corpora_from_groups","webservice/src/actions.rs"),("file_content, list_files","webservice/src/api/corpora.rs")],
 ["HTTP requests to the running service under /v1"])
p("C26","Importing a relANNIS corpus creates exactly what its tables describe",
 "Importing a folder or ZIP file with tables of a relANNIS corpus (version 3.3, or 3.2 and older) creates a corpus with exactly: one node for each corpus, document, text (with nodes or, in 3.3, any), row of the node table and linked file, named by the path of their corpus (percent-encoded; documents with equal names get a suffix) with node types, layers and document names; all node, corpus and edge annotations, NULL values replaced as documented and escapes decoded; the text of each token and the white space before the first and after each token; the part-of edges along the tree of corpora; the order of the tokens of each text and of each segmentation; the edges of all components of the rank table; coverage edges from each node to each token it covers (by token index in 3.3, by characters before); and the configuration (visualizers with defaults, replaced and removed rules, example queries, context, view, tokenization strategy, size). The result is the same for folder, ZIP file, memory and disk. Folders with a missing or malformed table are refused and change nothing.",
 ["inputs"],"every consistent set of relANNIS tables, and every set that is broken in one place",
 "The tests import three fixed corpora and look at a handful of nodes and edges; the coverage, order, white space, segmentations, versions and configuration depend on how rows in several tables combine.",
 ["graphannis/src/annis/db/relannis.rs","graphannis/src/annis/db/corpusstorage.rs"],
 [("load, parse_corpus_tab, load_node_tab, load_component_tab, load_rank_tab, calculate_automatic_coverage_edges","graphannis/src/annis/db/relannis.rs"),("import_from_fs, import_all_from_zip","graphannis/src/annis/db/corpusstorage.rs")],
 ["import_from_fs, import_all_from_zip, import_from_zip with ImportFormat::RelANNIS; subgraph and info of the imported corpus"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
