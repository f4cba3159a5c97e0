from oracles.nfatools import *
import re
from collections import defaultdict
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.node_automaton import NodeAutomaton
from pybgl.graph_view import GraphView
from pybgl.graph_dp import GraphDp
from pybgl.nfa import Nfa
from pybgl.property_map import make_func_property_map, make_assoc_property_map
from pybgl.graphviz import read_graphviz, ReadGraphvizVisitor, read_graphviz_dp
from pybgl.graphviz_impl import graphviz_escape_html, enrich_kwargs, GraphvizStyle
RULE = ("random graphs of every class (views, undirected, automata, with removed vertices) written with random vertex, edge and default attributes and label texts (markup, brackets, control characters), the lines of the text compared with "
        "the graph, read back and compared; random label texts escaped; random texts read; non-trivial: at least one edge or a label with a special character")
CH = ["<", ">", "&", "[", "]", "{", "}", "\n", "\t", "\r", "\x01", "\x1f", " ", "a", "b", "é", "<b>", "</b>", "<br/>", "< font color='red'>", "</font>", "<foo>", ";", "->", '"', "\\", "=", "<SUB>", "</tr >", "/", "<td>", "&amp;", "0"]
TAGS = "b br font hr i img o s sub sup table td tr u vr".split()
ESC = {"&": "&#38;", "<": "&#60;", ">": "&#62;", "\n": "\\n", "\t": "\\t", "\r": "\\r", "[": "&#91;", "]": "&#93;", "{": "&#123;", "}": "&#125;"}

def gen(rng, tier):
    def lab(k):                 # no control character inside a tag: the reader works line by line
        while True:
            s = "".join(rng.choice(CH) for _ in range(rng.randrange(k)))
            if not re.search(r"<[^>]*[\x00-\x1f][^>]*>", s): return s
    gs = graph_cases(rng, 2, 5)
    while True:
        r = rng.random()
        if r < .2: yield dict(k="escape", s=lab(8)); continue
        n, es = next(gs)
        if r < .3:
            yield dict(k="read", n=n, es=es, u=rng.random() < .5, seed=rng.randrange(1000)); continue
        yield dict(k="write", c=rng.choice("dduuiaAnNv"), n=n, es=es, rm=rng.random() < .15, vl=[lab(4) if rng.random() < .8 else None for _ in range(n)] if rng.random() < .6 else None, el=[lab(4) if rng.random() < .8 else None for _ in es] if rng.random() < .5 else None,
                   col=rng.random() < .4, dv=rng.random() < .3, dg=rng.random() < .3, style=rng.random() < .5, extra=rng.random() < .2, name=rng.random() < .2, dp=rng.random() < .3, sub=rng.random() < .2)

def escape(s):
    "Independent reading of the rule: supported tags are kept, every other character is escaped."
    out = ""; i = 0
    while i < len(s):
        m = None
        if s[i] == "<":
            j = s.find(">", i)
            if j > 0:
                body = s[i + 1:j].lstrip(); low = body.lower()
                for t in TAGS:
                    for x in ("/" + t, t, t + "/"):
                        if x.endswith("/") and t not in ("br",): continue
                        if low.startswith(x) and (low[len(x):].strip() == "" or (not x.startswith("/") and low[len(x)].isspace())): m = j + 1
        if m: out += s[i:m]; i = m
        else:
            c = s[i]; out += ESC.get(c, "\\x%02x;" % ord(c) if ord(c) < 32 else c); i += 1
    return out

def wellformed(t):
    "outside of tags there is no raw markup left"
    rest = re.sub(r"<[^<>]*>", "", t); need(not re.search(r"[<>\[\]{}\x00-\x1f]", rest), "unescaped markup in %r", t); need("&" not in re.sub(r"&#\d+;", "", rest), "unescaped & in %r", t)

def attrs(d):
    return "[%s]" % "; ".join("%s=<%s>" % (k, escape(v)) if k == "label" else '%s="%s"' % (k, v) for k, v in d if v is not None)

def run(case):
    if case["k"] == "escape":
        s = case["s"]; t = graphviz_escape_html(s); same(t, escape(s), "escaped text of %r" % s); wellformed(t) if "\n>" not in s else None; return
    if case["k"] == "read":
        rng = random.Random(case["seed"]); n, es = case["n"], case["es"]; ids = rng.sample(range(50), n); arc = "--" if case["u"] else "->"
        L = ["graph G {" if case["u"] else "digraph G {"] + ["  %d%s;" % (i, rng.choice(["", " ", ' [label="x y"]', " [color=red]"])) for i in ids]
        L += ["%d%s%s%s%d%s;" % (ids[u], rng.choice(["", " "]), arc, rng.choice(["", " "]), ids[v], rng.choice(["", ' [label="a"]', " "])) for u, v in es] + ["}"]
        if rng.random() < .5: L.insert(1, "  rankdir=LR;")
        g = (UndirectedGraph if case["u"] else DirectedGraph)()
        read_graphviz("\n".join(L) if rng.random() < .5 else L, g)
        same(sorted(g.vertices()), list(range(n)), "vertices read")
        o = (lambda u, v: (min(u, v), max(u, v))) if case["u"] else (lambda u, v: (u, v))
        same(msort((e.source, e.target) for e in g.edges()), msort(o(u, v) for u, v in es), "edges read"); return
    n, c = case["n"], case["c"]; es = case["es"]
    C = dict(d=DirectedGraph, u=UndirectedGraph, i=IncidenceGraph, a=Automaton, A=IncidenceAutomaton, n=NodeAutomaton, N=Nfa, v=DirectedGraph)[c]
    g = C(n); real = []
    sym = lambda i: "s%d<" % (i % 3)
    if c == "n":
        for u in range(n): g.pmap_vsymbol[u] = "q%d&" % u
    for i, (u, v) in enumerate(es):
        if c in "aAN": e, ok = g.add_edge(u, v, sym(i))
        else: e, ok = g.add_edge(u, v)
        if ok: real.append((e, i))
    if c in "aAn":
        for u in range(0, n, 2): g.set_final(u)
    if c == "N":
        for u in range(0, n, 2): g.set_final(u)
        if n: g.set_initials({0})
    if case["rm"] and n > 1 and c != "N": g.remove_vertex(n - 1); real = [(e, i) for e, i in real if n - 1 not in (e.source, e.target)]
    V = list(g.vertices()); E = list(g.edges())
    dpv, dpe, kw = {}, {}, {}
    if case["vl"] is not None: dpv["label"] = make_func_property_map(lambda u: case["vl"][u])
    if case["col"]: dpv["color"] = make_func_property_map(lambda u: "red" if u % 2 else None); dpe["style"] = make_func_property_map(lambda e: "dotted" if e.source == 0 else None)
    idx = {e: i for e, i in real}
    if case["el"] is not None: dpe["label"] = make_func_property_map(lambda e: case["el"][idx[e]] if e in idx else None)
    w = g; RV, RE = V, E
    if c == "v": w = GraphView(g, make_func_property_map(lambda u: u != 1)); RV = [u for u in V if u != 1]; RE = [e for e in E if 1 not in (e.source, e.target)]
    nm = (lambda u: "v%d" % u) if case["name"] else str
    dp = case["dp"] and c in "dui"
    if dpv: kw["dpv"] = dpv
    if dpe: kw["dpe"] = dpe
    given = dict(dpv), dict(dpe)
    dv = {"shape": "box"} if case["dv"] else None; dg = {"rankdir": "TB"} if case["dg"] else None
    if dv: kw["dv"] = dv
    if dg: kw["dg"] = dg
    if case["extra"]: kw["extra_style"] = "splines=line"
    if dp:
        gd = GraphDp(w, **{k: ([v] if k == "extra_style" else v) for k, v in kw.items()})
        same(gd.get_dpv() or {}, dpv, "get_dpv"); same(gd.get_dpe() or {}, dpe, "get_dpe"); kw = {}; w = gd
    elif case["style"]: kw["graphviz_style"] = "ranksep=1"
    if case["sub"] and c != "n": RV = RV[::2]; RE = RE[::2]; kw["vs"] = set(RV) if c == "v" else list(RV); kw["es"] = set(RE) if c == "v" else list(RE)
    if case["name"]: kw["vertex_to_str"] = nm
    text = w.to_dot(**kw)
    same((dpv, dpe), given, "the dictionaries of the caller")
    d1 = list(dpv.items()); d2 = list(dpe.items())
    cv = list(d1); ce = list(d2)
    if c in "aA": cv += [("shape", {u: "doublecircle" if u % 2 == 0 else "circle" for u in V})]; ce += [] if "label" in dpe else [("label", {e: e.distinguisher for e in E})]
    if c in "n": cv = cv + [("shape", {u: "doublecircle" if u % 2 == 0 else "circle" for u in V})] + ([] if "label" in dpv else [("label", {u: "^" if u == g.initial() else "q%d&" % u for u in V})]); ce += [] if "label" in dpe else [("label", {e: "q%d&" % e.target for e in E})]
    arc = "--" if c == "u" else "->"
    lines = [l.strip() for l in text.split("\n")]
    need(lines[0].startswith(("graph" if c == "u" else "digraph") + " G {") and lines[-1].endswith("}"), "frame of the text: %r", text)
    if len(lines) > 1: need(all(l.endswith(";") for l in lines[1:-1]), "lines of the text: %r", text)
    body = [re.sub(r"\s*;$", "", l) for l in lines[1:-1]]
    pat = re.compile(r"^(v?\d+)(?:\s*(->|--)\s*(v?\d+))?\s*(\[.*\])?$", re.S); found = [pat.match(l) for l in body]; found = [m for m in found if m]
    gotv = msort(m.group(1) for m in found if not m.group(2)); same(gotv, msort(map(nm, RV)), "vertices declared")
    gote = msort((m.group(1), m.group(3)) for m in found if m.group(2)); same(gote, msort((nm(e.source), nm(e.target)) for e in RE), "edges declared")
    need(all(m.group(2) == arc for m in found if m.group(2)), "arrow style in %r", text)
    def parts(s):                      # attributes as a set (their order is free)
        s = (s or "").strip()
        return None if s in ("", "[]") else s
    def key(l): return sorted(attrs([x]) for x in l if x[1] is not None)
    if c != "N":
        wantv = msort((nm(u), key([(k, p[u]) for k, p in cv])) for u in RV); wante = msort((nm(e.source), nm(e.target), key([(k, p[e]) for k, p in ce])) for e in RE)
        def split(s):
            if not s: return []
            s = s[1:-1]; r = []; i = 0
            while i < len(s):
                m = re.match(r"(\w+)=", s[i:]); need(m, "attribute list %r", s); k = m.group(1); i += m.end()
                if k == "label":
                    need(s[i] == "<", "label not delimited in %r", s); dep = 0; j = i
                    while True:
                        need(j < len(s), "unbalanced label in %r", s)
                        dep += (s[j] == "<") - (s[j] == ">"); j += 1
                        if dep == 0: break
                else:
                    need(s[i] == '"', "value not quoted in %r", s); j = s.index('"', i + 1) + 1
                r.append("[%s=%s]" % (k, s[i:j])); i = j
                if i < len(s): need(s[i] == ";", "separator in %r", s); i += 1
                while i < len(s) and s[i] == " ": i += 1
            return sorted(r)
        same(msort((m.group(1), split(parts(m.group(4)))) for m in found if not m.group(2)), wantv, "vertex attributes")
        same(msort((m.group(1), m.group(3), split(parts(m.group(4)))) for m in found if m.group(2)), wante, "edge attributes")
    for d, p in (dv, "node"), (dg, "graph"):
        if d:
            for k, v in d.items(): need(any(re.match(p + r" \[.*%s=\"%s\"" % (k, v), l) for l in body), "default attribute %s=%s is missing from %r", k, v, text)
    if case["extra"]: need("splines=line" in body, "extra style missing from %r", text)
    if not case["name"] and "\r" not in text:
        h = (UndirectedGraph if c == "u" else DirectedGraph)()
        if not case["sub"]:
            read_graphviz(text, h); ix = {u: i for i, u in enumerate([int(m.group(1)) for m in found if not m.group(2)])}
            o = (lambda u, v: (min(u, v), max(u, v))) if c == "u" else (lambda u, v: (u, v))
            same(sorted(h.vertices()), list(range(len(RV))), "vertices read back"); same(msort((e.source, e.target) for e in h.edges()), msort(o(ix[e.source], ix[e.target]) for e in RE), "edges read back")
            h2 = (UndirectedGraph if c == "u" else DirectedGraph)(); read_graphviz_dp(text.splitlines(), h2)
            same(msort((e.source, e.target) for e in h2.edges()), msort((e.source, e.target) for e in h.edges()), "edges read back by read_graphviz_dp")

def trivial(case): return not case["s"] if case["k"] == "escape" else not case["es"]
