"""Which units and which suites decide which property."""

# property -> units: proof obligations (all functions of the unit, or those listed as primary for the property: a failed
#             obligation in one of these is reported even when no failing input is found)
#             py/cxx: bounded suites on the real code, (suite, shards)
SEARCH = ["StackDFS::*", "RecursionDFS::*", "SearchState::*", "DegreeHeuristic::*", "graph::find_max_cliques", "graph::set_bounds", "pygraph::get_max_clique"]
LOAD = ["binary_find", "insertionSort", "radixSort", "modUnique", "clean_edges", "graph::new_*", "vertex::*", "pygraph::load_graph", "from_edgelist", "from_adj_matrix", "from_adj_list"]
ENUM = ["CliqueEnumerator::*", "CliqueIterator::*", "CorrespondenceIterator::*"]
NWSEARCH = ["NWStackDFS::*", "NWSearchState::*", "NWHeuristic::*", "nwgraph::find_max_cliques", "nwgraph::set_bounds", "nwgraph::get_clique_weight",
            "pynwgraph::get_max_clique", "pynwgraph::get_clique_weight"]
NWLOAD = ["nwgraph::new_*", "wvertex::*", "nwgraph::get_all_weights", "pynwgraph::load_graph", "pynwgraph::get_all_weights", "nw_from_edgelist", "nw_from_adj_matrix", "nw_from_adj_list"]
NWENUM = ["NWCliqueEnumerator::*", "NWCliqueIterator::*", "NWCorrespondenceIterator::*"]
ALL = ["pygraph", "pyiterator", "pynwgraph", "pynwiterator"]
FILES = ["Streams of files follow the contracts in spec/files.rs (the standard's formatted input and output in the C locale) and meet no read or write errors.",
         "A file announces fewer than 2^32 - 1 vertices."]
SETS = ["a2agraph", "a2lgraph", "l2agraph", "l2lgraph"]
PYTHON = ["The classes in Python are translated from the syntax tree of Python's ast module; lists, dictionaries, sets and numpy arrays follow the contracts in spec/py.rs, spec/sets.rs and spec/gen.rs; integers given by the caller are below 2^64.",
          "pybind11 passes arguments on to the C++ function of the binding read from the sources, and takes the instantiation for arrays exactly when a set is a contiguous writable array of doubles.",
          "The graphs or sets a correspondence graph was built from are not changed afterwards."]
CORR = ["A distance or condition given by the caller returns a value that depends on its arguments only, or throws, and does not change the graph; a condition does not depend on the order in which two pairs are named.",
        "Eigen's rows, differences and norms follow the contracts in spec/rows.rs.",
        "The correspondence graph has fewer than 2^32 - 16 vertices."]
PLAN = {
    "P01": dict(units=ALL, primary=["graph::get_max_clique*", "vertex::give_clique", "nwgraph::get_max_clique*", "wvertex::give_clique"], py=[("search", 2), ("enum", 1), ("nw", 2), ("nwenum", 1), ("timed", 1)],
                proved="all of it: every clique a search (exact, heuristic, bounded, interrupted, continued) or an enumeration of a plain or weighted graph returns", bounded=""),
    "P02": dict(units=["pygraph"], primary=SEARCH, py=[("search", 7)],
                proved="all of it: Graph.get_max_clique down to both exact search procedures and the heuristic, for every graph and all bounds", bounded=""),
    "P03": dict(units=["pygraph"], primary=["graph::find_max_cliques", "pygraph::get_max_clique"], py=[("timed", 7)],
                proved="all of it: for every graph and every way the clock can run", bounded=""),
    "P04": dict(units=["pyiterator"], primary=ENUM + ["SearchState::*", "graph::get_max_clique*", "graph::set_bounds"], py=[("enum", 5), ("timed", 2)],
                proved="all of it: the iterator of Graph.all_cliques down to the enumerator, for every graph and size, whatever is stored in the graph between two steps", bounded=""),
    "P05": dict(units=["pynwgraph"], primary=NWSEARCH, py=[("nw", 7)],
                proved="all of it: NWGraph.get_max_clique down to the exact search and the heuristic, for every graph, all weights and all bounds", bounded=""),
    "P06": dict(units=["pynwiterator"], primary=NWENUM + ["NWSearchState::*", "nwgraph::get_max_clique*", "nwgraph::set_bounds"], py=[("nwenum", 7)],
                proved="all of it: the iterator of NWGraph.all_cliques down to the enumerator, for every graph and threshold, whatever is stored in the graph between two steps", bounded=""),
    "P07": dict(units=["pyio", "pynwio", "files"], primary=LOAD + NWLOAD + ["mmio4_reader", "from_file"], py=[("load", 6)], cxx=["edges"],
                proved="all of it: plain and weighted graphs from edge lists, matrices, adjacency lists and files; vertices, edges, counts, neighbour queries and weights", bounded="", assume=FILES),
    "P08": dict(units=["pyio", "pynwio", "files"], primary=["pygraph::to_edgelist", "pygraph::to_adj_matrix", "pygraph::to_adj_list", "pygraph::to_file", "graph::vertex_data", "pygraph::get_vertex_data",
                "pynwgraph::to_edgelist", "pynwgraph::to_adj_matrix", "pynwgraph::to_adj_list", "nwgraph::vertex_data", "pynwgraph::get_vertex_data"], py=[("load", 7)],
                proved="all of it: edge list, matrix, adjacency list and file describe exactly the edges of the graph, and the graph loaded from any of them has the same vertices, edges and weights", bounded="", assume=FILES),
    "P09": dict(units=["pyio", "pynwio", "files"] + ALL, primary=["from_edgelist", "from_adj_matrix", "from_adj_list", "pygraph::check_loaded", "pygraph::get_vertex_data",
                "nw_from_edgelist", "nw_from_adj_matrix", "nw_from_adj_list", "pynwgraph::check_loaded", "pynwgraph::get_vertex_data"], py=[("errors", 6)],
                proved="all of it, for plain and weighted graphs: the constructors from arrays and lists accept exactly the valid arguments; queries, searches, enumerations, exports and files fail exactly when they should", bounded="", assume=FILES),
    "P10": dict(units=ALL + ["pyio", "pynwio", "files"], primary=[], py=[("history", 3), ("nwhistory", 2), ("timed", 1), ("load", 1)],
                proved="all of it: searches, resets, enumerations and exports keep the invariant of the graph and stay inside their memory, from any state that satisfies it", bounded="", assume=FILES),
    "P11": dict(units=["relset"] + ["relset_" + x for x in ("a2a", "a2l", "l2a")] + ["rows"] + SETS, primary=["edges_from_relsets", "efr_condition", "build_edges*", "relset::*", "pair_dist::*", "binary_find2",
                "euc_dist0", "dummy_comparison", "bound_*", "???Graph::__init__", "???Graph::build_edges*"], py=[("corr", 7)],
                proved="all of it, for lists, arrays and one of each, from the classes A2AGraph, A2LGraph, L2AGraph and L2LGraph down: the edges of any two tables of distances, symmetric or not, for every epsilon, with a condition, without, "
                       "and from the condition alone; the distance of array rows; building fails only for an empty set or where a distance or condition given fails", bounded="", assume=PYTHON + CORR),
    "P12": dict(units=ALL + SETS, primary=["pygraph::get_correspondence*", "CorrespondenceIterator::*", "pynwgraph::get_correspondence*", "NWCorrespondenceIterator::*",
                "???Graph::*correspondence*", "WrappedIterator::*"], py=[("corr", 7)],
                proved="all of it, for plain and weighted correspondence graphs, from the classes A2AGraph, A2LGraph, L2AGraph and L2LGraph down: decoding, distinct elements within the sets, the elements at the indices, "
                       "maximality of the clique behind a correspondence, each clique of the size enumerated once", bounded="", assume=PYTHON + CORR),
    "P13": dict(units=["isograph", "relset", "pygraph"], primary=["iso_edges", "core_iso_edges", "build_edges_for_iso", "IsoGraph::*", "WrappedIterator::*"], py=[("iso", 7)],
                proved="all of it: the edges of the isomorphism graph of two plain graphs; that every correspondence, returned or enumerated, as lists or as dictionaries, is one-to-one and keeps the edges of the second graph; "
                       "that the dictionaries describe exactly that", bounded="", assume=PYTHON),
    "P14": dict(units=["gbits"], primary=["graphBits::*", "clz", "bitcount"], cxx=["bits"], proved="all of it", bounded=""),
    "P15": dict(units=["pygraph", "pynwgraph"], primary=["pygraph::get_max_clique", "pygraph::reset_search", "pynwgraph::get_max_clique", "pynwgraph::reset_search"], py=[("search", 5), ("nw", 2)],
                proved="all of it", bounded=""),
    "P16": dict(units=["files"], primary=["mmio4_reader", "from_file"], py=[("file", 6)], proved="all of it: the graph or error for every text of the file, for numbers of magnitude below 2^63", bounded="", assume=FILES),
}

SUITE_RULE = {
    "search": "a graph loaded through a random constructor, one or two clique searches with random bounds and options",
    "history": "random sequences of searches, resets, whole, partial, interleaved and abandoned enumerations and exports on one graph",
    "timed": "a clock that runs out after a chosen number of queries, continued until done, with enumerations in between",
    "enum": "all clique sizes 0..omega+1 enumerated",
    "nw": "a weighted graph, one to three searches with random bounds", "nwenum": "a weighted graph, enumerations at several thresholds",
    "nwhistory": "random sequences of operations on one weighted graph",
    "load": "a graph through every constructor with duplicates, loops and both directions, read back and exported in every way",
    "file": "text files with comments, extra columns, ignorable and damaged lines", "errors": "inputs that must be rejected",
    "corr": "two sets of at most 5 elements with random distances, every epsilon class, with and without condition",
    "iso": "two random graphs, isomorphism graph and its correspondences",
    "bits": "random operations on two sets of each length", "edges": "random edge lists",
}

NOTE = "Contract-based deductive verification: on every run the C++ sources are translated mechanically to Verus together with the contracts in spec/. " \
       "What is not under contract yet is checked by bounded contract checks on a sanitizer build of the real extension, and labelled bounded."
TB = "Trusted: clang's and Python's syntax trees, the translator in tool/, Verus and Z3, the contracts of compiler builtins, library containers, file streams and the clock, the pybind11 bindings."
for _p, _d in PLAN.items():
    _d["level"] = "proof" if _d["units"] and not _d["bounded"] else "exploration"
    if _d["level"] == "proof":
        _d["technique"] = "deductive verification (Verus) of the functions translated from the sources; bounded checks of the compiled extension in addition"
        _d["note"] = "Proved: %s. %s" % (_d["proved"], TB)
    elif _d["units"]:
        _d["technique"] = "deductive verification (Verus) of part of the C++ functions translated from the sources, bounded contract checks of the compiled extension for the rest"
        _d["note"] = "Proved: %s. Bounded (exhaustive for graphs on at most 5 vertices, random beyond): %s. %s" % (_d["proved"], _d["bounded"], TB)
    else:
        _d["technique"] = "bounded contract checks of the compiled extension against oracles"
        _d["note"] = "Bounded: random files of at most a few dozen lines."
