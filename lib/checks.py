"""One function per property."""
import os
import vlib
from vlib import Run, build, build_web, TIER

def quick():
    return vlib.TIER != "thorough"

def scale(q, t):
    return q if quick() else t

GRAPH_RULE = ("random and exhaustive update histories over small vocabularies (names with Unicode and blanks included), "
              "see harness/src/graphdrv.rs; corpora with 1100 to 11000 nodes; non-trivial: at least two update lists of which one contains a deletion")

def nt_graph(t):
    ups = [e for e in t["ev"] if e["e"] == "Update"]
    return len(ups) >= 2 and any(u[0][0] == "D" for e in ups for u in e["us"])

GRAPH_ASSUME = ["graph content is read back through the public API of the graph (outgoing and ingoing edges, labels, counts)",
                "labels annis::node_name and annis::node_type are only set by creating nodes"]

def graph_check(prop, jobs, models=()):
    vh = build()
    r = Run(prop)
    try:
        for m in models:
            r.model(**m)
        for name, args in jobs:
            files = r.drive(vh, name, ["graph"] + args)
            r.validate(name, "GraphTrace", files, nontrivial=nt_graph)
        return r.finish("model_checking", GRAPH_ASSUME, rule=GRAPH_RULE)
    finally:
        r.close()

def C01():
    return graph_check("C01", [
        ("exh1", ["--profile", "exhaustive", "--base", 1, "--len", 2]),
        ("exh2", ["--profile", "exhaustive", "--base", 2, "--len", scale(2, 3)]),
        ("random", ["--profile", "update", "--n", scale(200, 4000)]),
        ("mixed", ["--profile", "all", "--n", scale(100, 2000)]),
        ("bulk", ["--profile", "bulk", "--n", scale(1, 16)]),
    ])

def C02():
    return graph_check("C02", [("delete", ["--profile", "delete", "--n", scale(350, 6000)])])

def C03():
    return graph_check("C03", [("index", ["--profile", "index", "--n", scale(350, 6000)])])

def C11():
    return graph_check("C11", [("opt", ["--profile", "opt", "--n", scale(300, 6000)]),
                               ("bulk", ["--profile", "bulk", "--n", scale(1, 10)])])

def C10():
    vh = build()
    r = Run("C10")
    try:
        for name, args in [
            ("exh3", ["--profile", "exhaustive", "--nodes", 3]),
            ("convert", ["--profile", "convert", "--n", scale(120, 2500)]),
            ("modify", ["--profile", "modify", "--n", scale(70, 1500)]),
            ("long", ["--profile", "long", "--n", scale(4, 60)]),
            ("huge", ["--profile", "huge", "--n", scale(2, 30)]),
        ] + ([] if quick() else [("exh4", ["--profile", "exhaustive", "--nodes", 4])]):
            files = r.drive(vh, name, ["storage"] + args, timeout=800)
            r.validate(name, "StorageTrace", files, nontrivial=nt_storage)
        return r.finish("model_checking",
                        ["edges from a node to itself are not part of a component (adding them has no effect)",
                         "the path representation on disk is only converted from acyclic components with at most one outgoing edge per node and depth <= 15"],
                        rule="all edge sets over 3 (thorough: 4) nodes and random graph shapes, converted into every representation that "
                             "fits, the one the heuristic chooses, overwritten, chained and reloaded; random modification sequences of the "
                             "writable ones; chains and trees beyond 255 levels; chains and trees of 32765 to 66000 nodes. non-trivial: a component with at least 3 edges")
    finally:
        r.close()

def nt_storage(t):
    return any(e["e"] == "Huge" for e in t["ev"]) or any(len(e.get("edges", [])) >= 3 for e in t["ev"] if e["e"] == "Graph") or \
        sum(len(e["ops"]) for e in t["ev"] if e["e"] == "Change") >= 4

def C13():
    vh = build()
    r = Run("C13")
    try:
        r.model("DiskMapMC")
        r.model("DiskMapMC", cfg="DiskMapMCBroken.cfg", expect_violation=True)
        for name, args in [
            ("exhaustive", ["--profile", "exhaustive", "--len", scale(4, 6)]),
            ("random", ["--profile", "random", "--n", scale(500, 15000)]),
            ("emptykey", ["--profile", "emptykey"]),
        ]:
            files = r.drive(vh, name, ["map"] + args, timeout=800)
            r.validate(name, "DiskMapTrace", files, nontrivial=lambda t: len(t["ev"]) >= 4)
        return r.finish("model_checking",
                        ["key types whose byte order is their order (as all key types used in the code)", "no I/O errors"],
                        rule="spec/DiskMap.tla: all behaviours of the three layers over 3 keys and 2 values refine a map (plus a broken variant that must be "
                             "refused); all sequences of <= 4 (thorough 6) operations over two keys with three eviction limits on the real map, and random long "
                             "sequences over several key types, block sizes and B-tree orders, all 49 kinds of ranges. non-trivial: at least 4 operations")
    finally:
        r.close()

def C12():
    vh = build()
    r = Run("C12")
    try:
        for name, args in [("random", ["--n", scale(250, 6000)]), ("bulk", ["--bulk", 11000, "--n", scale(1, 12)])]:
            files = r.drive(vh, name, ["anno"] + args, timeout=800)
            r.validate(name, "AnnoTrace", files, nontrivial=lambda t: sum(e["e"] != "Same" for e in t["ev"]) >= 4)
        return r.finish("model_checking",
                        ["the largest item is only required to be an upper bound (it is used to create new IDs)",
                         "estimations (guess_*) only have to succeed", "valid regular expressions of literals, classes, any, concatenation, alternation, repetition"],
                        rule="random sequences of insert (also replacing), remove, remove item, clear, statistics, save/load in four ways on the in-memory and the on-disk "
                             "store for nodes and edges; after each step every lookup and search over the vocabulary, incl. random regular expressions whose meaning "
                             "is defined in spec/Regex.tla; some stores with 11000 labels; values with NUL, line feed, the largest code point and common UTF-8 prefixes. non-trivial: at least 4 changes")
    finally:
        r.close()

AQL_ASSUME = ["text is well-formed: token order is a set of chains, coverage and dominance acyclic, everything a node covers lies in one chain",
              "relations with a distance range including zero are only asked of components that have edges",
              "segmentation distances relate segmentation nodes themselves"]

def nt_query(t):
    return sum(1 for e in t["ev"] if e["e"] in ("Query", "Same") and any(a.get("r") for a in e["ans"])) >= 2

def aql(prop, jobs, rule):
    vh = build()
    r = Run(prop)
    try:
        for name, args in jobs:
            files = r.drive(vh, name, ["aql"] + args, timeout=840)
            r.validate(name, "AqlTrace", files, nontrivial=nt_query, timeout=840)
        return r.finish("model_checking", AQL_ASSUME, rule=rule)
    finally:
        r.close()

def C14():
    return aql("C14", [("plain", ["--profile", "plain", "--n", scale(640, 5000)])],
               "random corpora (texts, spans with and without gaps, segmentations, trees, pointing relations, corpus structure) built by update histories; conjunctive queries "
               "with up to 4 nodes; TLC computes the matches from the definition (spec/Aql.tla) and compares them with the answers of 12 execution configurations. "
               "non-trivial: at least two queries with results")

def C15():
    return aql("C15", [("logic", ["--profile", "logic", "--n", scale(400, 4000)])],
               "as C14, with negated relations between required nodes, relations against optional nodes, nested alternatives and negated values; spec/Aql.tla defines the "
               "result by the disjunctive normal form. non-trivial: at least two queries with results")

def C16():
    return aql("C16", [("forms", ["--profile", "forms", "--n", scale(180, 2500)]),
                       ("plain", ["--profile", "plain", "--n", scale(60, 500)])],
               "random larger corpora held in six ways (memory, disk, optimized or not, reloaded, without statistics), sequential and parallel joins, three ways to write each "
               "query, asked again after all others: one answer without duplicates. non-trivial: at least two queries with results")

CORPUS_ASSUME = AQL_ASSUME + ["segmentation chains stay within one text", "tokens of one chain are in one document",
                "a component that holds only the computed text index of graphANNIS is not part of the content"]
CORPUS_RULE = ("one to three random corpora (as in C14, with sub-corpora, several texts per document, parallel texts, unusual names) in two corpus storages (memory and disk), "
               "which are unloaded, reopened, optimized and used in between at random. ")

def answered(kinds, n=2):
    return lambda t: sum(1 for e in t["ev"] if e["e"] in kinds and any("err" not in a for a in e["ans"])) >= n

def corpus(prop, jobs, rule):
    vh = build()
    r = Run(prop)
    try:
        for name, args, nt in jobs:
            files = r.drive(vh, name, ["corpus"] + args, timeout=840)
            r.validate(name, "CorpusTrace", files, nontrivial=nt, timeout=840)
        return r.finish("model_checking", CORPUS_ASSUME, rule=CORPUS_RULE + rule)
    finally:
        r.close()

def C17():
    return corpus("C17", [("count", ["--profile", "count", "--n", scale(640, 8000)], lambda t: any(a.get("r", [0])[0] > 0 for e in t["ev"] if e["e"] == "Count" for a in e["ans"]))],
                  "count, count_extra and the length of find for one or several corpora, some with a tiny timeout, which may give an error but no other number; "
                  "spec/Results.tla defines matches and documents. non-trivial: a query with results")

def C18():
    return corpus("C18", [("find", ["--profile", "find", "--n", scale(480, 6000)], lambda t: sum(len(a["pages"][0]["r"]) >= 2 for e in t["ev"] if e["e"] == "Find" for a in e["ans"][:1] if "pages" in a) >= 2)],
                  "pages of normal, inverted, random and unsorted results with consecutive and random offsets and limits up to the largest number; the order of normal results is "
                  "defined in spec/Results.tla. non-trivial: two result lists with at least two matches")

def C19():
    return corpus("C19", [("freq", ["--profile", "freq", "--n", scale(480, 6000)], lambda t: any(len(a["r"]["rows"]) >= 2 for e in t["ev"] if e["e"] == "Freq" for a in e["ans"] if "r" in a))],
                  "frequency tables with up to three columns, with and without namespace, unknown variables, alternatives. non-trivial: a table with two rows")

def C20():
    return corpus("C20", [("sub", ["--profile", "sub", "--n", scale(800, 10000)], answered(("Sub", "SubQ", "SubC", "CorpG"), 3))],
                  "subgraphs with token and segmentation contexts, of queries with component filters, of documents, and the corpus structure; nodes, labels, edges in both "
                  "directions, edge labels and gap edges compared with spec/Results.tla. non-trivial: three extracted parts")

def C22():
    return corpus("C22", [("list", ["--profile", "list", "--n", scale(960, 10000)], answered(("Comps", "NAnnos", "EAnnos"), 3))],
                  "lists of components, node annotations and edge annotations with all, only the most frequent or no values after histories of updates. non-trivial: three lists")

def C24():
    vh = build()
    r = Run("C24")
    try:
        for name, n in [("old", scale(200, 5000)), ("oldlong", scale(16, 300))]:
            files = r.drive(vh, name, ["aql", "--profile", name, "--n", n], timeout=840)
            r.validate(name, "AqlTrace", files, nontrivial=nt_query, timeout=840)
        found = lambda t: any(a.get("r", [0])[0] > 0 for e in t["ev"] if e["e"] == "Count" for a in e["ans"]) or \
            any(len(a["pages"][0]["r"]) >= 2 for e in t["ev"] if e["e"] == "Find" for a in e["ans"][:1] if "pages" in a)
        for name, locale in [("results", "C"), ("locale", "en_US.UTF-8")]:
            files = r.drive(vh, name, ["corpus", "--profile", "old", "--n", scale(128, 3000)], timeout=840,
                            env={"LC_ALL": locale})
            r.validate(name, "CorpusTrace", files, nontrivial=found, timeout=840)
        return r.finish("model_checking", CORPUS_ASSUME + [
            "no optional nodes in queries with meta conditions; alternatives refer to their nodes by name",
            "the order of strings in a locale is the one of the C library (strcoll)"],
            rule="random corpora with metadata, nested documents and equal document names; random queries in the compatibility mode with several tree relations of "
                 "a node and meta conditions at any place; texts of 45 to 64 tokens for unlimited distances; counts, result pages, frequencies and subgraphs in the C "
                 "and the en_US locale. non-trivial: queries with results")
    finally:
        r.close()

def nt_export(t):
    return any(any("err" not in a for a in e["ans"]) and e["e"] == "Trip" for e in t["ev"]) and any(len(e["us"]) > 0 for e in t["ev"] if "us" in e)

def C21():
    vh = build()
    r = Run("C21")
    try:
        files = r.drive(vh, "export", ["export", "--n", scale(480, 8000)], timeout=840)
        r.validate("export", "ExportTrace", files, nontrivial=nt_export, timeout=840)
        return r.finish("model_checking", ["nodes have a type (those created by updates always do)", "names of exported corpora contain no slash",
                                           "names of nodes with linked files are relative paths that do not collide with the GraphML file itself"],
                        rule="random corpora with configurations and linked files, in which names, values, types, layers and components are replaced by texts with markup, blanks, line ends, "
                             "control characters, separators and non-ASCII characters; exported as file, directory or zip archive, alone or together, from memory and disk instances, imported "
                             "(also over existing corpora) into memory and disk instances, up to twice in a row; graph, token relations, linked files, configuration, corpus size and answers of "
                             "queries compared with spec/Exchange.tla; stable-order text before and after a round trip. non-trivial: a successful round trip of a corpus with content")
    finally:
        r.close()

STORE_ASSUME = ["a crash is the death of the process: what was written to files before stays (no loss of power)",
                "corpora exported and imported in these histories are identified by the file name",
                "content is read back with subgraph_for_query of all nodes, and directly from the directory (incl. token relations) at the end"]

def store_ops(t):
    for e in t["ev"]:
        o = e.get("o")
        if isinstance(o, dict):
            yield o["op"], e

def nt_fault(t):
    return any(e["e"] == "Crash" or e.get("io") for e in t["ev"]) and any(op == "apply" for op, _ in store_ops(t))

def nt_recover(t):
    return sum(e["e"] == "Crash" for e in t["ev"]) >= 2

def nt_map(t):
    return len({op for op, _ in store_ops(t)}) >= 6

def nt_reject(t):
    return any(op == "apply" and e.get("r", {}).get("k") == "err" for op, e in store_ops(t))

def nt_conc(t):
    cur = most = 0
    for e in t["ev"]:
        cur += e["e"] == "Call"
        cur -= e["e"] == "Ret"
        most = max(most, cur)
    return most >= 2

def nt_lock(t):
    return any(op in ("open", "open2") and e.get("r", {}).get("k") == "err" for op, e in store_ops(t))

def store(prop, jobs, rule, models=(), graph=(), level="model_checking"):
    vh = build()
    r = Run(prop)
    try:
        for m in models:
            r.model(**m)
        for name, args in graph:
            files = r.drive(vh, name, ["graph"] + args)
            r.validate(name, "GraphTrace", files, nontrivial=nt_graph)
        for name, args, nt in jobs:
            files = r.drive(vh, name, ["store"] + args, timeout=800)
            r.validate(name, "StoreTrace", files, nontrivial=nt)
        return r.finish(level, STORE_ASSUME, rule=rule)
    finally:
        r.close()

MAP_RULE = ("random sequences of 8 to 22 calls (create, import, export, update lists incl. rejected ones, delete, unload, preload, optimize, info, list, queries) on "
            "memory and disk corpora with three cache sizes, closing and reopening in between, background writer held back or let run at chosen moments, unusual corpus names. ")
CRASH_RULE = ("the process is killed before, after or in the middle of chosen (quick: a random sample, thorough: nearly all) single file system changes of random scenarios: update lists in quick succession, "
              "background write-out, closing, creating, importing, deleting, optimizing; then reopened, inspected, updated, closed and inspected again, also directly in the directory. ")

def protocol(*bugs):
    """the file and lock protocols, and variants of them that must be rejected"""
    m = [dict(name="StoreProtocol", cfg="StoreProtocol.cfg" if TIER == "quick" else "StoreProtocolLarge.cfg")]
    return m + [dict(name="StoreProtocol", cfg=f"StoreProtocolBug_{b}.cfg", expect_violation=True) for b in bugs]

def C04():
    return store("C04", [
        ("error", ["--profile", "error", "--n", scale(64, 400), "--points", scale(8, 60)], nt_fault),
        ("map", ["--profile", "map", "--n", scale(240, 4000)], nt_reject),
    ], "writes refused by the file system (one, three or all from a random one on) during random scenarios, and lists with changes that cannot be carried out; afterwards the "
       "content seen by queries, after further updates, reopening and a crash. non-trivial: a refused write with an update, or a rejected list",
       graph=[("graph", ["--profile", "all", "--n", scale(80, 1000)])], models=protocol("keep"))

def C05():
    return store("C05", [("map", ["--profile", "map", "--n", scale(800, 6000)], nt_map)],
                 MAP_RULE + "Graphs saved and loaded directly, in all representations. non-trivial: at least six kinds of calls",
                 graph=[("persist", ["--profile", "persist", "--n", scale(200, 4000)]),
                        ("bulk", ["--profile", "bulk", "--n", scale(1, 10)])])

def C06():
    return store("C06", [
        ("crash", ["--profile", "crash", "--n", scale(160, 600), "--points", scale(10, 80)], nt_fault),
        ("error", ["--profile", "error", "--n", scale(48, 240), "--points", scale(8, 60)], nt_fault),
    ], CRASH_RULE + "non-trivial: a crash or refused write in a history with updates", level="fault_enumeration", models=protocol("nomerge", "logcurrent", "dropearly"))

def C07():
    return store("C07", [("recover", ["--profile", "recover", "--n", scale(240, 800), "--points", scale(10, 80)], nt_recover)],
                 CRASH_RULE + "Recovery itself is killed up to two more times at a random change, and opened and closed repeatedly. non-trivial: at least two crashes", level="fault_enumeration", models=protocol("noclean"))

def C08():
    return store("C08", [("map", ["--profile", "map", "--n", scale(1600, 8000)], nt_map)],
                 MAP_RULE + "non-trivial: at least six kinds of calls")

def C09():
    return store("C09", [("conc", ["--profile", "conc", "--n", scale(960, 8000)], nt_conc)],
                 "two to four threads with two to five calls each (updates of node pairs, unload, preload, count, content, list, info, delete, create, optimize) on one or two corpora with tiny or large "
                 "cache, up to three rounds, then close or crash and reopen; TLC searches an order of the calls consistent with real time and all results. non-trivial: at least two calls at the same time", models=protocol("nodetach"))

def C23():
    return store("C23", [("lock", ["--profile", "lock", "--n", scale(1200, 5000)], nt_lock)],
                 "three processes opening, updating, closing (also stopped in the middle of closing and opening), dying, with the background writer held back. non-trivial: an attempt to open was refused",
                 models=[dict(name="LockProtocol")] + [dict(name="LockProtocol", cfg=f"LockProtocolBug_{b}.cfg", expect_violation=True) for b in ("nocheck", "unlockfirst", "nowait")])

def nt_web(t):
    rs = [e for e in t["ev"] if e["e"] == "Req"]
    return any(e["r"]["k"] == "put" and e["a"]["st"] == 200 for e in rs) and any(e["a"]["st"] == 403 for e in rs) and \
        any(not e["r"]["who"]["admin"] and e["a"]["st"] == 200 and e["r"].get("cs") for e in rs)

def C25():
    vh = build()
    web = build_web()
    r = Run("C25")
    try:
        r.model("GroupTables")
        for i in (1, 2, 3):
            r.model("GroupTables", cfg=f"GroupTablesBroken{i}.cfg", expect_violation=True)
        keys = os.path.join(vlib.HARNESS, "keys")
        for name, args in [("rest", ["--profile", "all", "--n", scale(320, 3000)]), ("rsa", ["--profile", "rsa", "--n", scale(24, 200)])]:
            files = r.drive(vh, name, ["web", "--keys", keys] + args, timeout=800, env={"VH_WEB": web})
            r.validate(name, "WebTrace", files, nontrivial=nt_web)
        return r.finish("model_checking",
                        ["the service is the only one that changes its data directory and its database",
                         "killing the service happens between requests", "corpus names are usable as file names (for import and export)"],
                        rule="the web service as a process of its own, asked over HTTP by users with valid (HS256, RS256), missing and eleven kinds of invalid tokens: "
                             "changing and deleting groups (also at the same time), deleting, importing and exporting corpora, all endpoints that read, paths that try to leave the "
                             "folder of the corpus, kills and restarts; spec/GroupTables.tla: two administrators, all interleavings of the statements of three requests, kills. "
                             "non-trivial: an answered change of a group, a refused request and a permitted one of a user who is no administrator")
    finally:
        r.close()

def nt_rel(t):
    ok = [e for e in t["ev"] if e["e"] == "Rel" and not e.get("bad")]
    return bool(ok)

def C26():
    vh = build()
    r = Run("C26")
    try:
        files = r.drive(vh, "rel", ["rel", "--n", scale(1600, 20000)], timeout=840)
        r.validate("rel", "RelTrace", files, nontrivial=nt_rel)
        return r.finish("model_checking",
                        ["the tables are consistent: unique names, the pre- and post-order of the corpora starts at 0 and is nested, dominance stays within a text and has tokens as leaves, "
                         "no texts directly in the root corpus, different orders of visualizer rules"],
                        rule="random tables (versions 3.2 and 3.3, with and without segmentations, several texts and documents, documents with equal names, all kinds of components, NULL values, "
                             "escaped characters, linked files, visualizers, example queries, properties) imported from folders and ZIP files, in memory and on disk, "
                             "also over an existing corpus, and folders with a missing or malformed table, which must be refused without effect; the graph, configuration and files of the imported corpus read back. "
                             "non-trivial: tables that can be imported")
    finally:
        r.close()

def run(prop):
    f = globals().get(prop)
    if f is None:
        raise vlib.CheckError("no such check")
    return f()
