from contracts.automata import *
NOTE = "every method of Automaton proved against the partial transition function it denotes"
TRUSTED = TRUSTED_BASE
ASSUMPTIONS = ASSUME_BASE
PROOFS = [f.proof() for f in (a_add_vertex, delta, delta_none, a_add_edge, a_edge, sigma, sigma_none, alphabet, finals, a_remove_edge, a_remove_vertex, set_final, is_final, set_initial, initial, is_initial, delta_word, accepts, best_effort, is_complete, insert_string, a_constructor, is_det,
    alisting("vertices", G + "Graph.vertices", states, INT), alisting("edges", M + "edges", all_tr), alisting("out_edges", M + "out_edges", tr_of, AED, an_int_q),
    acounting("num_vertices", G + "Graph.num_vertices", states, INT), acounting("num_edges", G + "Graph.num_edges", all_tr), acounting("out_degree", G + "Graph.out_degree", lambda c: lambda e: And(is_tr(A0(c))(e), asrc(e) == c.t("u")), AED, an_int_q))]
