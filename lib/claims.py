"""What MANIFEST.json claims (tools/gen_manifest.py writes it from here)."""
TM="TLA+ model checking of the protocol, and TLC trace validation of recorded executions"
T="TLA+ specification, TLC trace validation of recorded executions"
NOTES="All checks: harness crate in /verif/harness records executions of the code in /repo; TLC validates them against the TLA+ specifications in /verif/spec."
HOOKS=None
NOT={}
G="Every recorded call of the real graph must be a step of spec/AnnoGraph.tla and leave exactly the content the specification computes; histories are enumerated (small vocabulary) and random. Trusts the projection (public read API) and TLC."
CLAIMS={
 "C01":(T,"model_checking",G),
 "C02":(T,"model_checking",G),
 "C03":(T,"model_checking",G),
"C10":(T,"model_checking","Answers of every representation are compared by TLC with the definition over the edge set (spec/Storage.tla). Exhaustive over all 64 (thorough 4096) edge sets on 3 (4) nodes plus random shapes."),
 "C12":(T,"model_checking","spec/AnnoStore.tla defines every lookup and search from the current set of labels (regular expressions by spec/Regex.tla); TLC compares all recorded answers of both stores."),
 "C13":("TLA+ model checking of the layered map plus TLC trace validation","model_checking","spec/DiskMap.tla is checked exhaustively for small constants; every recorded call sequence of the real map must be a behaviour of it with exactly the answers of the abstract map."),
 "C11":(T,"model_checking",G),
 "C14":(T,"model_checking","spec/Aql.tla defines the matches of every query on the content of the corpus (spec/AnnoGraph.tla); TLC compares the recorded answers of all execution configurations with it."),
 "C15":(T,"model_checking","As C14; negation, optional nodes and alternatives are defined in spec/Aql.tla through the disjunctive normal form of the query."),
 "C16":(T,"model_checking","TLC requires a single duplicate-free answer for each query over all execution configurations, rewritings and repetitions, on corpora larger than those of C14, and the defined matches on smaller ones."),
 "C17":(T,"model_checking","spec/Results.tla defines the numbers of matches and documents; TLC compares all recorded counts of every configuration with them."),
 "C18":(T,"model_checking","spec/Results.tla defines the sorted result list; TLC requires every recorded page to be the corresponding part of it (of its reverse, or of a permutation)."),
 "C19":(T,"model_checking","spec/Results.tla defines the possible rows of every match; TLC checks rows, counts, sum and order of every recorded table."),
 "C20":(T,"model_checking","spec/Results.tla defines the part of the corpus; TLC compares the complete content of every recorded subgraph with it."),
 "C22":(T,"model_checking","Lists must be those of the content of spec/AnnoGraph.tla after the same updates."),
 "C04":(TM,"model_checking","Histories with refused writes and impossible changes; a rejected list must leave the abstract database of spec/Store.tla unchanged, also after reopening."),
 "C05":(T,"model_checking","Closing, reopening, unloading, saving and loading are no changes of the abstract state (spec/Store.tla, spec/AnnoGraph.tla); TLC checks all recorded contents incl. the token relations on disk."),
 "C06":(TM,"fault_enumeration","Every recorded history with the process killed at a file system change must be allowed by spec/Store.tla, whose Crash step keeps acknowledged lists and allows the pending one completely or not at all."),
 "C07":(TM,"fault_enumeration","As C06 with recovery killed repeatedly: a crash outside of a call does not change the abstract database."),
 "C08":(T,"model_checking","spec/Store.tla is the map; every result of every call in random histories must be its result."),
 "C09":(TM,"model_checking","TLC searches a linearization of every recorded concurrent history against spec/Store.tla."),
 "C23":(TM,"model_checking","spec/StoreTrace.tla allows opening only if no other process holds the directory and requires it otherwise; processes are stopped at chosen points of closing and opening."),
 "C21":(T,"model_checking","spec/Exchange.tla defines what an imported corpus contains; TLC compares graph, linked files, configuration, corpus size and query answers after recorded exports and imports."),
 "C24":(T,"model_checking","spec/Aql.tla (OldMatches) and spec/Results.tla (order and text of old queries) define the old meaning; TLC compares every recorded answer with it."),
 "C25":(TM,"model_checking","spec/WebService.tla defines permissions, answers and changes; TLC checks every recorded answer of the running service and searches an order of concurrent requests; spec/GroupTables.tla: the statements of concurrent changes of groups in all interleavings."),
 "C26":(T,"model_checking","spec/RelAnnis.tla defines the graph, files and configuration that the tables describe; TLC computes them and compares what the real import created."),
}
