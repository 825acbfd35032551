"""Verification units: which sources, contracts and functions go together."""
from assemble import Unit
from cppast import py_flags

GRAPH_TUS = ["detail/graph/graph.cpp", "detail/graph/vertex.cpp", "detail/graph/clique.cpp", "detail/gbits.cpp", "detail/utils.cpp"]
GRAPH_SPECS = ["gbits.spec", "utils.spec", "cliques.spec", "search.spec", "edges.spec", "graph.spec"]
SEARCH_SPECS = GRAPH_SPECS + ["searchstate.spec", "gsearch.spec", "root.spec"]
LEMMAS = ["cliques.spec", "search.spec", "wsum.spec", "pend.spec", "wpend.spec", "verts.spec", "wverts.spec"]
NW_TUS = ["detail/nwgraph/nwgraph.cpp", "detail/nwgraph/wvertex.cpp", "detail/nwgraph/nwclique.cpp", "detail/gbits.cpp", "detail/utils.cpp"]
NW_SPECS = ["gbits.spec", "utils.spec"] + LEMMAS + ["edges.spec", "nwgraph.spec"]
NW_SEARCH_SPECS = NW_SPECS + ["nwstate.spec", "nwsearch.spec"]

UNITS = {
    "gbits": dict(tus=["detail/gbits.cpp"], spec_files=["gbits.spec"]),
    "edges": dict(tus=["detail/utils.cpp"], spec_files=["utils.spec", "cliques.spec", "edges.spec"], verify="edges.spec"),
    "graph": dict(tus=GRAPH_TUS, spec_files=GRAPH_SPECS, verify="graph.spec"),
    "lemmas": dict(tus=["detail/gbits.cpp"], spec_files=["gbits.spec"] + LEMMAS, verify=" ".join(LEMMAS)),
    "nwgraph": dict(tus=NW_TUS, spec_files=NW_SPECS, verify="nwgraph.spec", prelude=("prelude.rs", "dbl.rs")),
    "nw_dfs": dict(tus=["detail/nwgraph/nw_dfs.cpp"] + NW_TUS, spec_files=NW_SEARCH_SPECS + ["nw_dfs.spec"], verify="nwstate.spec nwsearch.spec nw_dfs.spec", prelude=("prelude.rs", "dbl.rs")),
    "nw_heuristic": dict(tus=["detail/nwgraph/nw_heuristic.cpp"] + NW_TUS, spec_files=NW_SEARCH_SPECS + ["nw_heuristic.spec"], verify="nw_heuristic.spec", prelude=("prelude.rs", "dbl.rs")),
    "nw_enumerate": dict(tus=["detail/nwgraph/nw_enumerate.cpp"] + NW_TUS, spec_files=NW_SEARCH_SPECS + ["nw_enumerate.spec"], verify="nw_enumerate.spec", prelude=("prelude.rs", "dbl.rs")),
    "nwclique": dict(tus=["detail/nwgraph/nw_dfs.cpp", "detail/nwgraph/nw_heuristic.cpp"] + NW_TUS, spec_files=NW_SEARCH_SPECS + ["nw_dfs.spec", "nw_heuristic.spec", "nwclique.spec"], verify="nwclique.spec", prelude=("prelude.rs", "dbl.rs")),
    "pynwgraph": dict(tus=["core/pynwgraph.cpp", "detail/nwgraph/nw_dfs.cpp", "detail/nwgraph/nw_heuristic.cpp"] + NW_TUS, spec_files=NW_SEARCH_SPECS + ["nw_dfs.spec", "nw_heuristic.spec", "nwclique.spec", "pynwload.spec", "pynwgraph.spec"],
                      verify="pynwgraph.spec", prelude=("prelude.rs", "dbl.rs"), extra=py_flags()),
    "pynwio": dict(tus=["core/pynwgraph.cpp"] + NW_TUS, spec_files=NW_SPECS + ["pynwload.spec", "pynwio.spec"], verify="pynwload.spec pynwio.spec", prelude=("prelude.rs", "dbl.rs"), extra=py_flags()),
    "dfs_stack": dict(tus=["detail/graph/dfs_stack.cpp"] + GRAPH_TUS, spec_files=SEARCH_SPECS + ["dfs_stack.spec"], verify="searchstate.spec gsearch.spec root.spec dfs_stack.spec"),
    "dfs_recurse": dict(tus=["detail/graph/dfs_recurse.cpp"] + GRAPH_TUS, spec_files=SEARCH_SPECS + ["clock.spec", "dfs_recurse.spec"], verify="clock.spec dfs_recurse.spec", prelude=("prelude.rs", "dbl.rs")),
    "enumerate": dict(tus=["detail/graph/enumerate.cpp"] + GRAPH_TUS, spec_files=SEARCH_SPECS + ["pend.spec", "enumerate.spec"], verify="enumerate.spec"),
    "heuristic": dict(tus=["detail/graph/heuristic.cpp"] + GRAPH_TUS, spec_files=SEARCH_SPECS + ["heuristic.spec"], verify="heuristic.spec"),
    "clique": dict(tus=GRAPH_TUS + ["detail/graph/dfs_stack.cpp", "detail/graph/dfs_recurse.cpp", "detail/graph/heuristic.cpp"], spec_files=SEARCH_SPECS + ["clock.spec", "dfs_stack.spec", "dfs_recurse.spec", "heuristic.spec", "clique.spec"],
                   verify="clique.spec", prelude=("prelude.rs", "dbl.rs")),
    "pygraph": dict(tus=["core/pygraph.cpp"] + GRAPH_TUS + ["detail/graph/dfs_stack.cpp", "detail/graph/dfs_recurse.cpp", "detail/graph/heuristic.cpp"],
                    spec_files=SEARCH_SPECS + ["clock.spec", "dfs_stack.spec", "dfs_recurse.spec", "heuristic.spec", "clique.spec", "pyload.spec", "pygraph.spec"],
                    verify="pygraph.spec", prelude=("prelude.rs", "dbl.rs"), extra=py_flags()),
    "pyio": dict(tus=["core/pygraph.cpp"] + GRAPH_TUS, spec_files=GRAPH_SPECS + ["pyload.spec", "pyio.spec"], verify="pyload.spec pyio.spec", prelude=("prelude.rs", "dbl.rs"), extra=py_flags()),
    "pynwiterator": dict(tus=["core/pyiterator.cpp", "core/pynwgraph.cpp", "detail/nwgraph/nw_enumerate.cpp"] + NW_TUS, spec_files=NW_SEARCH_SPECS + ["nw_enumerate.spec", "pynwload.spec", "pynwiterator.spec"],
                         verify="pynwiterator.spec", prelude=("prelude.rs", "dbl.rs", "obj.rs", "share.rs"), extra=py_flags()),
    "pyiterator": dict(tus=["core/pyiterator.cpp", "core/pygraph.cpp", "detail/graph/enumerate.cpp"] + GRAPH_TUS, spec_files=SEARCH_SPECS + ["pend.spec", "verts.spec", "enumerate.spec", "pyload.spec", "pyiterator.spec"],
                       verify="pyiterator.spec", prelude=("prelude.rs", "dbl.rs", "obj.rs", "share.rs"), extra=py_flags()),
    "files": dict(tus=["core/pygraph.cpp", "detail/mmio.cpp"] + GRAPH_TUS, spec_files=GRAPH_SPECS + ["pyload.spec", "files.spec"], verify="files.spec", prelude=("prelude.rs", "dbl.rs", "files.rs"), extra=py_flags()),
    "relset": dict(tus=["ext/L2Lgraph.cpp", "core/pygraph.cpp"] + GRAPH_TUS, spec_files=GRAPH_SPECS + ["pyload.spec", "corr.spec", "ext.spec"], verify="corr.spec ext.spec", prelude=("prelude.rs", "dbl.rs", "obj.rs", "ext.rs"), extra=py_flags()),
    "isograph": dict(tus=["ext/Isograph.cpp", "core/pyiterator.cpp", "core/pygraph.cpp", "detail/graph/enumerate.cpp", "detail/graph/dfs_stack.cpp", "detail/graph/dfs_recurse.cpp", "detail/graph/heuristic.cpp"] + GRAPH_TUS,
                     spec_files=SEARCH_SPECS + ["clock.spec", "dfs_stack.spec", "dfs_recurse.spec", "heuristic.spec", "clique.spec", "pyload.spec", "pygraph.spec", "pyio.spec",
                                                "pend.spec", "verts.spec", "enumerate.spec", "pyiterator.spec", "corr.spec", "isograph.spec"],
                     verify="isograph.spec", prelude=("prelude.rs", "dbl.rs", "obj.rs", "share.rs", "py.rs"), extra=py_flags(),
                     py=("wrappers/isograph.py", "wrappers/_gen_graph.py"), bind=("core/wrap_pygraph.cpp",)),
    "rows": dict(tus=["ext/A2Agraph.cpp"], spec_files=["rows.spec"], prelude=("prelude.rs", "dbl.rs", "obj.rs", "sets.rs", "rows.rs"), extra=py_flags()),
    "utils": dict(tus=["detail/utils.cpp"], spec_files=["utils.spec"]),
}

# the templates for lists and arrays share their contracts, and so do the classes of correspondence graphs
for _c in ("A2A", "A2L", "L2A"):
    UNITS["relset_" + _c.lower()] = dict(UNITS["relset"], tus=["ext/%sgraph.cpp" % _c] + [x for x in ("ext/A2Agraph.cpp", "ext/L2Lgraph.cpp") if _c != "A2A"] + ["core/pygraph.cpp"] + GRAPH_TUS,
                                         spec_files=GRAPH_SPECS + ["pyload.spec", "corr.spec", "ext.spec:" + _c], verify="ext.spec:" + _c, subst={})
for _c, _t in (("A2AGraph", "11"), ("A2LGraph", "10"), ("L2AGraph", "01"), ("L2LGraph", "00")):
    UNITS[_c.lower()] = dict(
        tus=["ext/%sgraph.cpp" % _c[:3]] + [x for x in ("ext/A2Agraph.cpp", "ext/L2Lgraph.cpp") if _c[0] != _c[2]] + ["core/pyiterator.cpp", "core/pygraph.cpp", "detail/graph/enumerate.cpp", "detail/graph/dfs_stack.cpp", "detail/graph/dfs_recurse.cpp", "detail/graph/heuristic.cpp"] + GRAPH_TUS,
        spec_files=SEARCH_SPECS + ["clock.spec", "dfs_stack.spec", "dfs_recurse.spec", "heuristic.spec", "clique.spec", "pyload.spec", "pygraph.spec", "pyio.spec", "pend.spec", "verts.spec", "enumerate.spec", "pyiterator.spec",
                                   "corr.spec", "ext.spec" if _c == "L2LGraph" else "ext.spec:" + _c[:3], "gen.spec:" + _c],
        subst={"CLS": _c, "MAT1": ("false", "true")[int(_t[0])], "MAT2": ("false", "true")[int(_t[1])]},
        verify="gen.spec:" + _c, prelude=("prelude.rs", "dbl.rs", "obj.rs", "share.rs", "ext.rs", "py.rs", "sets.rs", "gen.rs"), extra=py_flags(),
        py=("wrappers/%s.py" % _c.lower(), "wrappers/_gen_graph.py"), bind=("core/wrap_pygraph.cpp",))

OWNER = {f: n for n, d in UNITS.items() for f in (d["verify"].split() if isinstance(d.get("verify"), str) else d["spec_files"])}


def closure(names):
    """The units named and those that prove the lemmas and contracts they import."""
    out, todo = [], list(names)
    while todo:
        n = todo.pop(0)
        if n not in out:
            out.append(n)
            todo += [OWNER[f] for f in UNITS[n]["spec_files"]]
    return out


def make(repo, name, cache=None, stub=()):
    d = UNITS[name]
    return Unit(repo, name, d["tus"], d["spec_files"], d.get("verify"), tu_cache=cache, stub=stub,
                prelude=d.get("prelude", ("prelude.rs",)), extra=d.get("extra", ()), std=d.get("std"), py=d.get("py", ()), bind=d.get("bind", ()), subst=d.get("subst"))
