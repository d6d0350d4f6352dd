AI = "abstract interpretation of rustc MIR (intervals, linear relations, byte classes, ghost counters, inductive loop invariants)"
TRUST = "Trusts rustc's MIR, the interpreter in engine/ and its models of the std/serde items it does not enter (engine/models.py); a path it cannot analyse is reported as undecided in the evidence, never as a violation."
DEFAULT = (AI, "proof", "Proof obligations over all inputs, one per function and path class, generated from /repo's current MIR. " + TRUST)
NOTES = {
 "C58": ("type-level witnesses (unification by rustc's type checker)", "proof", "Function items and aliases are unified with the items they must denote; rustc's type checker decides. The list of names is fixed: a name added later is not covered."),
 "C48": ("termination analysis: lexicographic ranking over the stable abstract states of every loop", "proof", "Rankings are found over the edges of each loop after its invariants are stable; what visitors, Display implementations and containers do in between is theirs. Recursion through Option and newtype forms (which consume nothing) is governed by the caller's types. Unrolled loops end because the analysis ends. " + TRUST),
 "C50": ("rustc unsafe_code lint forbidden in every feature configuration, plus a token scan", "proof", "Decided by rustc's own lint for every configuration of the two crates; the token scan covers source no configuration compiles."),
 "C51": ("type-level compile-fail witnesses", "proof", "Each witness is a client program that misuses a borrow; rustc must reject it with a borrow or lifetime error while its well-behaved twin compiles. Relies on rustc's borrow checker; the list of client patterns is finite."),
 "C45": ("call-graph analysis (recursion cycles and re-entrant visitor calls)", "proof", "Every call reachable from the skipping entries in the monomorphic call graph, callbacks included. The recursion through visit_seq/visit_map is a known finding; anything else that recurses or re-enters is reported."),
 "C53": ("canonical MIR comparison between configurations, then relational comparison of specification obligations where the code differs", "proof", "A function whose canonical MIR is the same in both configurations behaves the same; the others are decided by the specification checks that enter them, in both configurations. What std functions do in the other configuration is trusted, and so is the promise of Display implementations not to fail on their own (ToString panics on it, the allocation-free twin reports an error). " + TRUST),
 "C18": ("call-graph analysis (recursion cycles and re-entrant visitor calls)", "proof", "Every call reachable from the skipping entries in the monomorphic call graph, callbacks included. " + TRUST),
 "C01": (AI, "proof", "The containers come from other crates and are represented by contracts of their methods (what they append, how they refuse, what they need in order not to panic), written down in checks/core_w.py from their documentation. " + TRUST),
 "C19": ("relational abstract interpretation: every abstract output of the writer is fed to the reader", "proof", "The writer is interpreted first; each abstract byte pattern it can leave (symbolic header bytes, payload ranges, counts) becomes the input of the reader, interpreted under the same relations, and the values handed to the visitor are compared with the values serialized. Composition over nested values is by the element contract (one message per element). " + TRUST),
 "C52": ("call-graph reachability of allocating functions (effect analysis)", "proof", "Every function reachable from the public API in the no-std and std configurations is checked against a list of allocating std items; trait calls into user code are outside the claim. " + TRUST),
}
NA = {
 "C90": "quantifies over arbitrary user implementations of Serialize and Deserialize; a static argument can only reach the library's side of it, which the per-form properties (C03-C15, C19, C20-C25, C35-C43) decide",
 "C91": "correct rounding is a property of ryu_js and core's float parser over 2^64 bit patterns, numeric algorithms outside this repository; what this repository does (which text is handed to the parser, which value to the formatter) is decided under C23 and C38",
 "C92": "an amortised cost bound over runtime lengths: the analyses here bound positions, not the sum of work over iterations, and part of the work is done by user visitors",
}
