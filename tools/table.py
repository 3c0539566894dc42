P["C16"] = dict(level="proof", note="The rendering is verified for all locations (postconditions of Display and fmt_quoted), and lemmas over the grammar the parser is verified against, and over the evaluation contracts, give that the text parses to the query that selects exactly that node. Assumed: the Formatter model, and the contracts of C17 for the parser.",
    assumptions=["a Formatter appends what is written to it (buf()), and never fails",
                 "indices below 2^53, and texts and paths below 2^53 characters (larger ones do not fit in memory)"])
P["C19"] = dict(level="proof", note="The text that Display writes is specified (d_query) and the 22 Display functions of the syntax tree, JsonPath's Display, Serialize and Deserialize and its visitor are verified against it; a lemma over the grammar that the parser is verified against (lem_C19_round_trip: induction on the syntax tree) gives that the text of every parsed query, except for the constructs of the known findings, parses to the same syntax tree. Assumed: the Formatter, Serializer and Deserializer models; the contracts of C17 for the parser.",
    assumptions=["a Formatter appends what is written to it (buf()), and never fails",
                 "any Serializer and any Deserializer: collect_str and serialize_str take the text; deserialize_str gives the visitor's visit_str the string that is held",
                 "number literals: proved for those whose text, as serde_json writes it, reads back as the same number (t_lit); others are the known finding on floating-point literals",
                 "a text of at most 2^53 characters, and what is parsed from it, is held in memory (ax_vec_of, ax_string_of)",
                 "names and string literals with quotes, backslashes or control characters, negated calls, and descendant segments in shorthand are excluded: known findings, in a directory where no repair may be committed"])

NP = "Every parser function (nom combinators expanded by the extractor into the matches and loops that define them) is verified against the grammar in contracts/parse.vx for all texts, up to JsonPath::parse; the primitive parsers of nom, the number conversion of serde_json and the registry of functions carry assumed contracts."
for p in ("C17", "C18", "C20"):
    P[p] = dict(level="proof", note=NP, assumptions=[
        "nom: the primitive parsers (char, tag, digit0/1, alpha1, multispace0, satisfy, take_while, ...) carry assumed contracts; the combinators are expanded by the extractor as their documentation defines them",
        "a rest of the input is modelled by its text; its offset is the length difference (offsets of equal texts at different places are told apart only as ends of the input)",
        "serde_json's conversion of a number text to Number (num_of), String/Vec equality as equality of contents",
        "which functions are registered, and which arguments they accept, are parameters here (see C11)",
    ])

NR = "The five built-in functions, the validators, evaluators and entries that #[register] and #[function] generate (taken from the macro-expanded source of the current tree), the type tables and the conversions are verified for all inputs, and lemmas over the parser's and evaluator's contracts give that every call of a parsed query is well typed and every argument converts. The regex engine, the HashMap of the registry and the link from a static to its initializer are assumed."
for p in ("C10", "C11"):
    P[p] = dict(level="proof", note=NR, expanded=True, assumptions=[
        "regex: whether a text is a valid pattern and where it matches is the engine's (re_ok, re_finds); an anchored group built from a valid pattern matches as the pattern does on the whole text, `.` excluding line ends (ax_re_match, ax_re_search; patterns that end in a (?x) comment are out of scope)",
        "a LazyLock static holds what its initializer builds, REGISTRY.get looks up what REGISTRY was built from (ax_registry, ax_builtin_*), inventory yields what was submitted",
        "the closures #[function] generates for a user's function are like those for the eight signatures of tools/fixture, which are under contract (ax_user_*)",
        "a text of at most 2^53 characters, and what is parsed from it, is held in memory (ax_vec_of, ax_string_of)",
    ])
