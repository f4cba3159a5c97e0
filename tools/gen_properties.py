#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties, one JSON object a line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/pybgl/"+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))
I, H, S = "inputs", "histories", "schedules"

p("C01", "A directed graph is a faithful multigraph under any history",
  "After any sequence of vertex and edge additions and removals on a directed graph, the vertices, edges, out-edges, degrees and counts it reports are exactly those of a mathematical directed multigraph that went through the same sequence, self-loops and parallel edges included. Each added edge is reported with its own endpoints and is different from every edge still stored; a vertex identifier handed out is never one already in use; removing an edge removes only that edge and removing a vertex removes only that vertex and the edges touching it. Looking up the edge between two vertices finds it exactly when there is one and only one.",
  [H, I], "every history of operations, every graph",
  "The tests run a few fixed scripts on 3 to 6 vertices; the guarantee quantifies over every history and every multigraph.",
  ["graph.py"], [("Graph.add_edge distinguishers", "graph.py Graph.add_edge"), ("Graph.remove_vertex cascades", "graph.py Graph.remove_vertex"), ("Graph.remove_edge", "graph.py Graph.remove_edge")],
  [("adjacencies", "vertex -> target -> distinguishers", "graph.py Graph.__init__"), ("last_vertex_id", "next identifier", "graph.py Graph.__init__")], ["Graph.edges", "Graph.out_edges", "Graph.vertices"])
p("C02", "An undirected graph stays symmetric and counts each edge once",
  "After any sequence of additions and removals on an undirected graph, each edge is listed exactly once among the edges of the graph and is seen from both of its endpoints, in both the outgoing and incoming direction, as the same edge. Vertices, edge counts and degrees agree with the mathematical undirected multigraph that went through the same sequence, self-loops and parallel edges included. Removing an edge makes it disappear from both endpoints and leaves its parallel edges in place.",
  [H, I], "every history of operations, every undirected multigraph",
  "The tests use a handful of undirected graphs and few removals; symmetry must survive every history.",
  ["graph.py"], [("UndirectedGraph.add_edge", "graph.py UndirectedGraph.add_edge"), ("UndirectedGraph.remove_edge", "graph.py UndirectedGraph.remove_edge")],
  [("adjacencies", "mirrored adjacency", "graph.py UndirectedGraph")], ["UndirectedGraph.edges", "UndirectedGraph.out_edges", "UndirectedGraph.in_edges"])
p("C03", "Incoming and outgoing edges always mirror each other",
  "In every graph or automaton that reports incoming edges (incidence graph, incidence automaton, incidence automaton with symbols on states), after any sequence of additions and removals of vertices and edges, the incoming edges reported over all vertices are exactly the outgoing edges reported over all vertices, each attached to its own target. In- and out-degrees agree with these lists. Removing a vertex removes it and all the edges it touches, self-loops included, and nothing else.",
  [H, I], "every history of operations on the three incidence structures",
  "The tests check some insertions and removals on small fixed structures, never arbitrary histories.",
  ["incidence_graph.py", "incidence_automaton.py", "incidence_node_automaton.py"],
  [("IncidenceGraph", "incidence_graph.py"), ("IncidenceAutomaton", "incidence_automaton.py"), ("IncidenceNodeAutomaton", "incidence_node_automaton.py")],
  [("in_adjacencies / predecessors", "reverse adjacency", "incidence_*.py")], ["in_edges", "out_edges", "edges"])
p("C04", "A deterministic automaton is a partial transition function",
  "After any sequence of operations, an automaton has at most one transition for a state and a symbol: adding a second one is refused and changes nothing, whatever the states involved. The transition function, the outgoing transitions, the list of all transitions, the symbols of a state and the alphabet all describe that same partial function, and a word is accepted exactly when following its symbols from the initial state is possible and ends in a final state. Inserting a word in an automaton built only by such insertions makes the accepted language grow by exactly that word; best-effort walks stop at the first missing transition and report how many symbols were consumed.",
  [H, I], "every history of operations, every word",
  "Tests use fixed automata; none covers transitions into the first state being added twice, nor arbitrary words.",
  ["automaton.py"], [("Automaton.add_edge", "automaton.py"), ("Automaton.delta", "automaton.py"), ("Automaton.delta_word", "automaton.py"), ("Automaton.automaton_insert_string", "automaton.py")],
  [("adjacencies", "state -> symbol -> state", "automaton.py"), ("q0, pmap_vfinal", "initial and final states", "automaton.py")], ["delta", "accepts", "edges", "alphabet"])
p("C05", "State-labelled automata follow the symbol of the target state",
  "In an automaton whose symbols are carried by states, after any sequence of operations, the transition from a state on a symbol leads to the one successor carrying that symbol and is absent otherwise, also when asked from the absent state; a second edge towards a successor with the same symbol is refused. Outgoing edges, edge lookup and the symbols of a state agree with that function, the alphabet is the set of symbols carried by the non-initial states, and acceptance of a word is the run of that function from the initial state. The constructors that build such an automaton or a plain automaton from a list of transitions yield exactly the listed transitions, the requested initial state, the requested symbols and the requested final states.",
  [H, I], "every history of operations, every list of transitions and every word",
  "Tests build a few node automata; constructors are sampled on one or two lists with integer names.",
  ["node_automaton.py", "incidence_node_automaton.py", "automaton.py"], [("NodeAutomaton.delta", "node_automaton.py"), ("make_node_automaton", "node_automaton.py"), ("make_automaton", "automaton.py")],
  [("adjacencies", "state -> symbol -> state", "node_automaton.py"), ("pmap_vsymbol", "symbol of a state", "node_automaton.py")], ["delta", "accepts", "edges"])
p("C06", "A non-deterministic automaton follows the set-of-states semantics",
  "For every non-deterministic automaton reached by any sequence of operations, and every word that does not contain the mark of the empty move, the set of states reached by a word is the set of states reachable by a path spelling that word with any number of empty moves before, between and after its symbols, and the word is accepted exactly when that set contains a final state. The stored transitions behave as a set of labelled transitions (start, symbol, end): adding one stores it, listing shows each stored one exactly once, removing one removes that one only, removing a state removes exactly the transitions touching it, and the symbols and alphabet reported are exactly those of the stored transitions.",
  [H, I], "every history of operations, every NFA with empty moves and cycles of them, every word",
  "Tests sample one or two NFAs and few words; parallel transitions, removals and epsilon cycles are not explored.",
  ["nfa.py"], [("Nfa.delta_epsilon", "nfa.py"), ("Nfa.delta_word", "nfa.py"), ("Nfa.add_edge", "nfa.py"), ("Nfa.remove_edge", "nfa.py")],
  [("adjacencies", "state -> symbol -> targets", "nfa.py"), ("initials", "initial states", "nfa.py")], ["delta_word", "accepts", "edges"])
p("C07", "Breadth-first search visits exactly what is reachable, nearest first",
  "From any set of starting vertices of any finite directed or undirected graph, breadth-first search terminates, discovers, examines and finishes every vertex reachable from a start exactly once and no other vertex, and examines each outgoing edge of those vertices exactly once. Vertices are discovered in non-decreasing distance from the starts, and each edge is reported as a tree edge, or as a non-tree edge with the colour its target had at that moment. Edges refused by the caller's filter are never followed; a search without sources or visitor given works on all vertices or silently.",
  [I], "every finite graph, every set of sources, every edge filter",
  "Tests run the search on one or two graphs; reachability and ordering quantify over every graph.",
  ["breadth_first_search.py"], [("breadth_first_search_graph", "breadth_first_search.py"), ("bfs_search_initialization", "breadth_first_search.py")],
  [("pmap_vcolor", "white, gray, black", "breadth_first_search.py")], ["visitor callbacks"])
p("C08", "Depth-first search visits exactly what is reachable, properly nested",
  "From any set of starting vertices of any finite graph, depth-first search terminates, discovers and finishes every vertex reachable from a start exactly once, no other vertex, and examines each permitted outgoing edge of those vertices exactly once. Discover and finish events are properly nested, each edge is classified as tree, back or forward/cross edge according to whether its target was unseen, on the current path, or finished at that moment. An empty set of starting vertices explores nothing, an absent one explores the whole graph, and edges refused by the caller's filter are never followed.",
  [I], "every finite graph, every set of sources, every edge filter",
  "Tests run a few graphs and never an empty set of sources.",
  ["depth_first_search.py"], [("depth_first_search", "depth_first_search.py"), ("depth_first_search_graph", "depth_first_search.py")],
  [("pmap_vcolor", "white, gray, black", "depth_first_search.py")], ["visitor callbacks"])
p("C09", "Topological sort orders every acyclic graph and rejects every cycle",
  "On every directed acyclic graph, topological sort returns each vertex exactly once, with the source of every edge before its target. On every graph containing a cycle (a self-loop included) it raises an error instead of returning an order. A container supplied by the caller, even an empty one, receives the order and is the one returned.",
  [I], "every directed graph",
  "Tests sort one DAG; no test has a cycle of several shapes or supplies a container.",
  ["topological_sort.py", "depth_first_search.py"], [("TopologicalSortVisitor", "topological_sort.py"), ("depth_first_search_graph", "depth_first_search.py")],
  (), ["topological_sort"])
p("C10", "Strongly connected components partition the graph exactly",
  "On every directed graph, two vertices receive the same component if and only if each can be reached from the other, every vertex receives a component, and the number returned is the number of distinct components.",
  [I], "every directed graph",
  "Tests use one graph; mutual reachability quantifies over every graph.",
  ["strong_components.py", "depth_first_search.py"], [("TarjanVisitor", "strong_components.py"), ("strong_components", "strong_components.py")],
  [("pmap_vroot, pmap_vlowlink, pmap_component", "Tarjan state", "strong_components.py")], ["strong_components"])
p("C11", "Dijkstra returns the true shortest distances and all tight predecessors",
  "For every graph with non-negative weights and every source, the distance computed for each vertex is the minimum total weight over all paths from the source, and is infinite exactly when there is no path. The predecessors recorded for a reached vertex other than the source are exactly the edges that can end a shortest path to it (source distance plus weight equals its distance), hence at least one. Each vertex is examined at most once, in non-decreasing distance.",
  [I], "every graph, every non-negative weight function, every source",
  "Tests run one or two weighted graphs; optimality quantifies over all paths.",
  ["dijkstra_shortest_paths.py", "heap.py", "algebra.py"], [("dijkstra_shortest_paths", "dijkstra_shortest_paths.py"), ("dijkstra_shortest_paths_iteration", "dijkstra_shortest_paths.py"), ("Heap.decrease_key", "heap.py")],
  [("pmap_vdist, pmap_vpreds", "distances and tight edges", "dijkstra_shortest_paths.py")], ["pmap_vdist", "pmap_vpreds"])
p("C12", "Extracted shortest paths are real paths of minimum weight",
  "For every graph with non-negative weights (zero included), source and target, the shortest path returned is a sequence of consecutive edges of the graph that leads from the source to the target and whose total weight is the minimum, and nothing is returned exactly when the target cannot be reached. Extraction from recorded predecessors always terminates, and the structure of all shortest paths to a target contains exactly the recorded predecessor edges met when walking back from it. Restricting the search to one target gives the same distance as the full search.",
  [I], "every graph, every non-negative weight function, every source and target",
  "Tests check one example and no zero-weight cycle.",
  ["dijkstra_shortest_paths.py"], [("make_shortest_path", "dijkstra_shortest_paths.py"), ("make_shortest_paths_dag", "dijkstra_shortest_paths.py"), ("dijkstra_shortest_path", "dijkstra_shortest_paths.py")],
  (), ["dijkstra_shortest_path", "make_shortest_path", "make_shortest_paths_dag"])
p("C13", "The heap always pops a best element and loses none",
  "Under any sequence of pushes, pops and priority decreases, the heap holds exactly the elements pushed and not yet popped, with multiplicity, and each pop returns an element that no remaining one precedes under the caller's ordering. After the caller improves the priority of a stored element and reports it, later pops respect the new priority. The comparison wrapper orders two values exactly as the caller's preorder does, for ascending and descending preorders, ties included.",
  [H, I], "every history of operations, every total preorder",
  "Tests sort a few lists; the guarantee is over all histories with mutated priorities.",
  ["heap.py"], [("Heap.push/pop/decrease_key", "heap.py"), ("Comparable.__lt__", "heap.py")],
  [("index", "heap array of keyed entries", "heap.py")], ["Heap.pop", "len", "iteration"])
p("C14", "The edit distances equal their recursive definitions",
  "For every pair of strings, the Levenshtein, LCS and Damerau-Levenshtein functions return exactly the minimum number of operations defined by their recurrences: insertions, deletions and substitutions; insertions and deletions only; insertions, deletions, substitutions and swaps of adjacent symbols, respectively. The result is zero exactly for equal strings and does not depend on the order of the arguments. (Words are taken short enough for the recursion limit of the interpreter.)",
  [I], "every pair of strings",
  "Tests check a few pairs of words.",
  ["levenshtein_distance.py", "lcs_distance.py", "damerau_levenshtein_distance.py"], [("levenshtein_distance", "levenshtein_distance.py"), ("lcs_distance", "lcs_distance.py"), ("damerau_levenshtein_distance", "damerau_levenshtein_distance.py")],
  [("memo", "memoised sub-results", "*_distance.py")], ["return value"])
p("C15", "A metric search tree finds every word within the radius",
  "For every history of insertions in the metric search tree, every distance that is a metric, every query word and radius, the search returns an inserted word nearest to the query, with its true distance, when some inserted word lies within the radius, and nothing when none does. Inserting a word already present changes nothing, and each word stored below a branch lies at that branch's distance from the word at its root.",
  [H, I], "every insertion history, query and radius",
  "Tests use one dictionary and few queries; completeness is over all words.",
  ["bk_tree.py"], [("BkTree.insert", "bk_tree.py"), ("BkTree.search", "bk_tree.py")], [("tree edges", "distance-labelled branches", "bk_tree.py")], ["BkTree.search"])
p("C16", "Determinization preserves the language",
  "For every non-deterministic automaton, with empty moves, several initial states and cycles, determinization terminates and returns a deterministic automaton accepting exactly the same words. Each of its states is reachable from its initial state, and with completion requested it has a transition for every symbol of the alphabet from every state and still accepts the same words.",
  [I], "every NFA and every word",
  "Tests determinize a few NFAs and test a few words.",
  ["moore_determination.py", "nfa.py"], [("moore_determination", "moore_determination.py")], [("map_qs_q", "set of NFA states -> DFA state", "moore_determination.py")], ["moore_determination"])
p("C17", "NFA combinators build exactly the regular operations",
  "For every pair of non-deterministic automata marking the empty move alike, the combinators for literal, bracket, concatenation, alternation, optional, star, plus and bounded or unbounded repetition return an automaton whose language is exactly the corresponding operation on the argument languages. This holds for operands with loops on their initial or final states, and for lower bound zero in repetitions.",
  [I], "every operand automaton and every word",
  "Tests apply the combinators to one-symbol operands; loops at the initial and final states are not explored.",
  ["thompson_compile_nfa.py"], [("concatenation, alternation, zero_or_one, zero_or_more, one_or_more, repetition, repetition_range", "thompson_compile_nfa.py")], (), ["accepted words"])
p("C18", "A compiled regular expression matches what the expression denotes",
  "For every expression of the supported syntax (literals, escapes, bracket classes, grouping, alternation, star, plus, optional, exact, bounded and unbounded repetition), both the compiled NFA and the compiled DFA accept a word exactly when the expression denotes it under the usual precedence of the operators, repetition binding tighter than concatenation and concatenation tighter than alternation. Compilation always succeeds on well-formed expressions, the empty one included.",
  [I], "every well-formed expression and every word over the alphabet",
  "Tests compile a dozen expressions and try a few words each.",
  ["thompson_compile_nfa.py", "regexp.py", "shunting_yard_postfix.py", "moore_determination.py", "tokenize.py"], [("thompson_compile_nfa", "thompson_compile_nfa.py"), ("compile_dfa", "regexp.py"), ("parse_bracket / parse_repetition", "thompson_compile_nfa.py")], (), ["accepts"])
p("C19", "Infix expressions are parsed with the right precedence",
  "For every well-formed infix expression over the arithmetic operators, with unary signs and parentheses, the postfix form, the computed value and the value of the syntax tree are those of the expression fully parenthesised by the operator table's precedence and associativity. Writing the syntax tree of an expression made of binary and postfix operators back as text and parsing it again gives the same tree, and computing an expression with unbalanced parentheses raises an error.",
  [I], "every well-formed expression, every operator table",
  "Tests evaluate a few expressions.",
  ["shunting_yard_postfix.py", "tokenize.py"], [("shunting_yard_postfix", "shunting_yard_postfix.py"), ("shunting_yard_compute", "shunting_yard_postfix.py"), ("shunting_yard_ast", "shunting_yard_postfix.py")], (), ["postfix sequence", "computed value"])
p("C20", "Union and intersection products accept exactly the union and intersection",
  "For every pair of deterministic automata, the union product accepts a word exactly when at least one operand does, and the intersection product exactly when both do, the empty word included. The product has one initial state, corresponds to the pair of initial states, and every transition of the product follows the operands' transitions on the same symbol; the operands are left unchanged.",
  [I], "every pair of deterministic automata and every word",
  "Tests multiply one or two pairs of automata.",
  ["deterministic_union.py", "deterministic_intersection.py", "product_mixin.py", "parallel_breadth_first_search.py"], [("DeterministicUnionVisitor", "deterministic_union.py"), ("DeterministicIntersectionVisitor", "deterministic_intersection.py"), ("ProductMixin.add_product_vertex", "product_mixin.py")], (), ["accepts on the product"])
p("C21", "Inclusion test decides language inclusion",
  "For every pair of deterministic automata in which every state is reachable and every state leads to a final state, the inclusion test answers that they accept the same language, that the first is included in the second, that the second is included in the first, or that neither is, exactly when this is so. The answer swaps when the arguments are swapped.",
  [I], "every pair of trimmed deterministic automata",
  "Tests compare a few pairs.",
  ["deterministic_inclusion.py", "parallel_breadth_first_search.py"], [("DeterministicInclusionVisitor", "deterministic_inclusion.py"), ("deterministic_inclusion", "deterministic_inclusion.py")], (), ["return value"])
p("C22", "Minimization preserves the language and reaches minimality",
  "For every deterministic automaton with an initial state, including those with no final state or only final states, Hopcroft minimization terminates and returns a deterministic automaton accepting exactly the same words; when the automaton is complete, so is the result, and no two of its distinct states are equivalent. The argument automaton keeps its language.",
  [I], "every complete deterministic automaton and every word",
  "Tests minimize a few automata, all with both final and non-final states.",
  ["hopcroft_minimize.py"], [("hopcroft_minimize", "hopcroft_minimize.py"), ("move / split", "hopcroft_minimize.py")], [("partition", "equivalence classes", "hopcroft_minimize.py")], ["accepts", "num_vertices"])
p("C23", "Acyclic minimization preserves the finite language and is minimal",
  "For every acyclic deterministic automaton in which every state is reachable from the initial one and leads to a final state, with symbols on its transitions or on its states, linear-time minimization accepts exactly the same finite set of words and leaves no two distinct equivalent states (carrying the same symbol, when symbols are on states).",
  [I], "every acyclic trimmed deterministic automaton",
  "Tests minimize two tries.",
  ["revuz_minimize.py"], [("revuz_minimize", "revuz_minimize.py"), ("revuz_height", "revuz_minimize.py")], (), ["accepts", "num_vertices"])
p("C24", "A trie accepts exactly the words inserted or merged into it",
  "After any sequence of word insertions and merges of other tries, a trie accepts exactly the words inserted and the words of the merged tries, in whatever order they come, prefixes and the empty word included. It stays a tree whose states are exactly the prefixes of those words, and a merged trie is left unchanged.",
  [H, I], "every history of insertions and merges, every word",
  "Tests insert a few words and merge two tries.",
  ["trie.py", "automaton.py"], [("Trie.insert", "trie.py"), ("TrieDeterministicFusion", "trie.py")], (), ["accepts"])
p("C25", "Suffix tries, factors and trie matching recognise exactly the factors",
  "For every word and every positive maximum length (or none), the suffix trie accepts exactly the factors of that word within that length, each having one state of its own, and the enumeration of factors yields each occurrence of a non-empty one once and the empty word once. A digital sequence behaves as the automaton of its single word, one state per position, and refuses changes. Matching two tries counts the prefixes of their words according to which tries hold them as words.",
  [I], "every word, length bound, dictionary and text",
  "Tests use one or two words.",
  ["suffix_trie.py", "trie_matching.py", "digital_sequence.py"], [("make_suffix_trie", "suffix_trie.py"), ("factors", "suffix_trie.py"), ("trie_matching", "trie_matching.py"), ("DigitalSequence", "digital_sequence.py")], (), ["accepts", "return values"])
p("C26", "A graph view shows exactly the relevant part of the graph",
  "For every graph and every pair of vertex and edge predicates, a view reports exactly the relevant vertices and the relevant edges whose ends are relevant, in the vertex, edge, out-edge and in-edge listings and the counts and degrees, and follows later changes of the graph. Union and intersection of two views of the same graph show what either, or both, of the predicates of the operands select; their difference shows the vertices relevant in the first and not in the second, and the edges relevant in the first between those. The viewed graph is never changed.",
  [I, H], "every graph, every predicate pair, every combination of views",
  "Tests use one graph and few predicates.",
  ["graph_view.py"], [("GraphView.vertices/edges/out_edges", "graph_view.py"), ("GraphView.__or__/__and__/__sub__", "graph_view.py")], (), ["vertices", "edges"])
p("C27", "Copies, extractions and cuts are exact",
  "For every graph or automaton, directed or not, source and relevance predicates, copying yields a structure in one-to-one correspondence with exactly the part reachable from the source through relevant vertices and edges, each edge once and with its symbol, and reports this correspondence to the caller's maps and callbacks; extraction visits exactly that part. A copied automaton whose final states are marked by the callback keeps the language when everything is relevant. A cut returns exactly the targets of the chosen edges that leave the part reachable from the source without crossing a chosen edge, together with the vertices of that part that have no outgoing edge.",
  [I], "every graph, source and predicate pair",
  "Tests copy one or two graphs.",
  ["graph_copy.py", "automaton_copy.py", "graph_extract.py", "cut.py"], [("graph_copy", "graph_copy.py"), ("automaton_copy", "automaton_copy.py"), ("graph_extract", "graph_extract.py"), ("cut", "cut.py")], (), ["the copy", "callbacks"])
p("C28", "Pruning and reversing keep what they must",
  "For every automaton with incoming edges, pruning keeps exactly the states that are both reachable from the initial state and able to reach a final state, keeps every transition between them, and so keeps the accepted language, also when no state is final. Reversing a graph exchanges the ends of every edge and nothing else: its outgoing edges are the incoming ones of the original, and reversing twice gives back the original behaviour.",
  [I], "every incidence automaton, every incidence graph",
  "Tests prune one automaton and reverse one graph; none has no final state.",
  ["prune_incidence_automaton.py", "reverse.py", "depth_first_search.py"], [("prune_incidence_automaton", "prune_incidence_automaton.py"), ("reverse_graph", "reverse.py")], (), ["vertices", "edges", "accepts"])
p("C29", "Graphviz text written for a graph describes exactly that graph",
  "For every graph and every set of style properties, the produced Graphviz text declares each vertex once and each edge once with the right arrow style and exactly the requested attributes, the text of labels being escaped outside of the supported markup; the dictionaries of the caller are left unchanged. Reading a text with at most one numbered vertex or edge per line builds exactly those vertices and edges, and reading back a text written for a graph rebuilds that graph, vertices being renumbered in their order.",
  [I], "every graph, every label text",
  "Tests convert a few graphs with fixed labels.",
  ["graphviz_impl.py", "graphviz.py", "graph_dp.py", "html.py"], [("to_dot / GraphToDot", "graphviz_impl.py"), ("read_graphviz", "graphviz.py"), ("graphviz_escape_html", "graphviz_impl.py")], (), ["dot text", "graph read"])
p("C30", "Tokenizing loses nothing and invents nothing",
  "For every text and every token pattern, the tokens and the text between them, taken in order, concatenate back to the original text, tokens are exactly the successive non-empty matches of the pattern, and text between two matches is reported in one piece, with its position, and only when it is not empty. In a regular expression, concatenation marks are inserted exactly between two adjacent operands.",
  [I], "every text and pattern",
  "Tests tokenize a few expressions.",
  ["tokenize.py", "shunting_yard_postfix.py"], [("tokenize", "tokenize.py"), ("tokenizer_re", "shunting_yard_postfix.py"), ("catify", "shunting_yard_postfix.py")], (), ["token sequence"])
p("C31", "Property maps, orderings, algebra and visitor aggregates obey their laws",
  "A property map returns the value last assigned to a key or its default, an identity or constant or function map returns the key, the constant or the function's value, and writing to a map changes only that key. Writing to a read-only map is refused. The relations provided for path search are the strict orders of numbers, and each closed operation returns its absorbing value as soon as one operand is that value and is otherwise the ordinary sum, product, maximum or minimum. An aggregate of visitors forwards every event, with its positional and named arguments, to each of its members, in order.",
  [I, H], "all keys, values and histories of assignments; all numbers; all sets of visitors and events",
  "Tests exercise a few keys.",
  ["property_map.py", "algebra.py", "aggregated_visitor.py"], [("AssocPropertyMap, FuncPropertyMap, ...", "property_map.py"), ("Less, Greater, ClosedPlus", "algebra.py"), ("AggregatedVisitor", "aggregated_visitor.py")], (), ["values returned", "events received"])
p("C32", "Parallel walks meet exactly the pairs of states reached together",
  "For every pair of deterministic automata, starting pairs and filter of the target pairs, the parallel breadth-first walk examines exactly once each pair of states (one of them possibly absent) reached from a starting pair by reading a same word through pairs that pass the filter, nearest first and no other pair, and from it examines each symbol leaving either state once, with the two transitions read. Each such transition is reported as discovering a new pair or as meeting a pair queued or finished at that moment. Walks of a tree from a node visit each node below it exactly once, parents before children, level by level for one walk and subtree by subtree for the other.",
  [I], "every pair of deterministic automata, every finite tree",
  "Tests walk two small automata and one small tree.",
  ["parallel_breadth_first_search.py", "graph_traversal.py"], [("parallel_breadth_first_search", "parallel_breadth_first_search.py"), ("bfs_tree / dfs_tree", "graph_traversal.py")], (), ["visitor callbacks"])
if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), max(len(x["title"]) for x in P))
