"""Per property: proof units, bounded search, level, texts."""
PROPS = {
    "C01": dict(
        units=["lexer"], search=dict(quick=60, thorough=400), level="proof",
        explain="Every function of the plain token stream (Lexer::new .. eat, the look-ahead cache, lex_one) is proved, for all inputs and all call sequences, to keep the ghost sequence 'tokens to come' = peeked ++ reversed buffer ++ what the generated lexer will still produce; eat and consume_utf8_bytes remove exactly its head or a prefix of the head's text.",
        standin="none; the search tests the assumed contract of the generated logos lexer",
        assumptions=["the logos-generated lexer hands out the lexemes of the input one after another and never an error lexeme (assumed; exercised by the search)",
                     "the size of a token is 12..32 bytes, so the page holds at least one"],
    ),
    "C02": dict(
        units=["names"], search=dict(quick=60, thorough=400), level="proof",
        explain="lex_command_name, advance_ascii_name and the three methods of the environment clause reader are proved, for all sources and positions, to take exactly the characters of the specified name (first character, letters and @, the star only if the specification has that name), to classify it, and in a clause to take blanks, line ends and comments, the braced name and its closing brace or nothing; every slice lies on character boundaries, no arithmetic overflows, all loops end.",
        standin="that logos calls lex_command_name behind each backslash and not for `\\\\` (its generated automaton) is exercised by the search",
        assumptions=["logos' source, span, bump and slice as in units/names.vu", "UTF-8: an ASCII character is one byte equal to it, others begin with a byte >= 0x80", "char::is_whitespace is uninterpreted"],
    ),
    "C03": dict(
        units=["parser"], search=dict(quick=60, thorough=400), level="proof", rlimit=200,
        explain="Every function of the parser (parse, item_list, item_group, content, command, environment, attachments, \\left..\\right, arguments, trivia, conditionals, eat) is proved, for all token streams and specifications, to keep the sequence 'significant text of the children built so far, then of the held trivia, then of the tokens to come' unchanged except for the documented openers; at the end of parse all tokens are consumed. Callers are checked against the contracts of their callees, recursion included.",
        standin="that blanks, line ends and comments are left out only between a head and its argument",
        assumptions=["the token stream of the lexer is a sequence of tokens with non-empty text and fewer than 2^31 tokens (C01's contract, assumed here)", "rowan's GreenNodeBuilder builds the tree of its start/token/finish calls, and checkpoints are positions among the children (contracts in units/parser.vu)", "glob_match_prefix is uninterpreted (C11)", "Parser::new_macro (the same parser over the macro engine's stream) is not under contract", "the call stack is deep enough"],
    ),
    "C04": dict(
        units=["parser"], search=dict(quick=60, thorough=400), level="proof", rlimit=200,
        explain="Every function of the parser is proved, for all token streams and specifications, to reach no unwrap of None, no index or slice out of range, no overflow, no unreachable!, to close exactly the nodes it opened, to use each checkpoint only inside the node under construction, and to end (the remaining stream shrinks at each recursive call and loop turn); parse leaves exactly one finished root.",
        standin="none, but for the depth of the call stack and Parser::new_macro",
        assumptions=["the token stream of the lexer is a sequence of tokens with non-empty text and fewer than 2^31 tokens (C01's contract, assumed here)", "rowan's GreenNodeBuilder builds the tree of its start/token/finish calls, and checkpoints are positions among the children (contracts in units/parser.vu)", "glob_match_prefix is uninterpreted (C11)", "Parser::new_macro (the same parser over the macro engine's stream) is not under contract", "the call stack is deep enough"],
    ),
    "C05": dict(
        units=["parser"], search=dict(quick=60, thorough=400), level="proof", rlimit=200,
        explain="ArgMatcher::try_match and match_as_term are proved to accept one more argument exactly while the pattern takes the kinds read so far and this one; match_arguments_, command, environment and the infix and left-attached cases are proved to build only nodes whose arguments the specification of the name takes, for all token streams and specifications; every node of the tree parse builds satisfies it.",
        standin="the glob patterns' prefix relation itself is C11",
        assumptions=["the token stream of the lexer is a sequence of tokens with non-empty text and fewer than 2^31 tokens (C01's contract, assumed here)", "rowan's GreenNodeBuilder builds the tree of its start/token/finish calls, and checkpoints are positions among the children (contracts in units/parser.vu)", "glob_match_prefix is uninterpreted (C11)", "Parser::new_macro (the same parser over the macro engine's stream) is not under contract", "the call stack is deep enough"],
    ),
    "C06": dict(
        units=["parser", "access"], search=dict(quick=60, thorough=400), level="proof", rlimit=200,
        explain="Every node the parser finishes is proved to have the documented form (command, begin, environment, end, formula, \\left..\\right and its clauses), for all token streams and specifications, so all nodes of the tree do; the typed accessors of syntax.rs are proved to return exactly the child the form names on every such node.",
        standin="none",
        assumptions=["the token stream of the lexer is a sequence of tokens with non-empty text and fewer than 2^31 tokens (C01's contract, assumed here)", "rowan's GreenNodeBuilder builds the tree of its start/token/finish calls, and checkpoints are positions among the children (contracts in units/parser.vu)", "glob_match_prefix is uninterpreted (C11)", "Parser::new_macro (the same parser over the macro engine's stream) is not under contract", "the call stack is deep enough", "rowan's read-only tree accessors (contracts in units/rowan.vu); the casts of the syntax_tree_node! macro accept exactly their kind"],
    ),
    "C07": dict(
        units=["macros"], search=dict(quick=60, thorough=400), level="proof", rlimit=200,
        explain="One step of the engine is specified as a function of the tokens to come and the table of macros: how a definition is read (ident), what its text becomes (slots), which arguments a use reads (use_args: groups up to the matching brace, characters of a word, other tokens, the optional argument), and what comes instead (expand). identify_macro_update, process_macro_def, read_macro_args, read_until_balanced, peek_*_opt, read_env_body, expand_tokens, add_macro, extend_inner and trapped_by_macro are proved, for all token streams and tables, to do exactly that step and never to panic; do_bump and the token stream on top are proved to hand out exactly what iterating the step gives; a lemma derives the sentence of the property (the expansion is the definition with each #i replaced by argument i).",
        standin="none",
        assumptions=["the logos-generated lexer hands out the lexemes of the input, command names with their backslash and words non-empty (C02, C01)", "the table of macros is a map (C10), std's Vec, iterators and str as in units/macros.vu", "DEFAULT_MACROS is define_declarative_macros on an empty table (the static's once_cell initializer)", "brace and conditional counters are mathematical, a vector has at most isize::MAX bytes", "the engine's loop may not end for macros that expand to themselves: termination of do_bump is not proved", "the functions listed as assumed here are proved in the checks of C08 and C09"],
    ),
    "C08": dict(
        units=["macros"], search=dict(quick=60, thorough=400), level="proof", rlimit=200,
        explain="trapped_by_if, trapped_by_else, trapped_by_endif and skip_false_tokens are proved, for all token streams and stacks of open conditionals, to do exactly the specified step (what is skipped ends at the \\fi or \\else of its own conditional, nested ones counted); do_bump and Lexer::next, peek, eat are proved to hand out exactly what iterating the step gives, across every page boundary. Lemmas derive from it: for inputs without macros everything eaten is cond(lexemes), and cond keeps the then-part of \\iftrue, the else-part of \\iffalse and everything of other conditionals.",
        standin="none",
        assumptions=["the logos-generated lexer hands out the lexemes of the input, command names with their backslash and words non-empty (C02, C01)", "the table of macros is a map (C10), std's Vec, iterators and str as in units/macros.vu", "DEFAULT_MACROS is define_declarative_macros on an empty table (the static's once_cell initializer)", "brace and conditional counters are mathematical, a vector has at most isize::MAX bytes", "the engine's loop may not end for macros that expand to themselves: termination of do_bump is not proved", "the functions listed as assumed here are proved in the checks of C07"],
    ),
    "C09": dict(
        units=["macros"], search=dict(quick=60, thorough=400), level="proof", rlimit=200,
        explain="For every input whose tokens are no conditional and no name in the table of macros, do_bump, trapped_by_macro and the lexer on top (new_with_bumper, next, peek, eat, consume_utf8_bytes) are proved to hand out exactly the lexemes of the input, in order, nothing added, dropped or changed, across every page boundary; C01 proves the same of the lexer without macros, so the parser reads the same tokens.",
        standin="that equal token streams give equal trees (the parser is a function of its tokens) is exercised by the search",
        assumptions=["the logos-generated lexer hands out the lexemes of the input, command names with their backslash and words non-empty (C02, C01)", "the table of macros is a map (C10), std's Vec, iterators and str as in units/macros.vu", "DEFAULT_MACROS is define_declarative_macros on an empty table (the static's once_cell initializer)", "brace and conditional counters are mathematical, a vector has at most isize::MAX bytes", "the engine's loop may not end for macros that expand to themselves: termination of do_bump is not proved", "the functions listed as assumed here are proved in the checks of C07 and C08"],
    ),
    "C10": dict(
        units=["snap"], search=dict(quick=60, thorough=400), level="proof",
        explain="insert, remove, get, clear, snapshot, commit, rollback_to, reverse and Index of SnapshotMap are proved against a ghost map and a ghost undo log: undoing the log from any length back to a snapshot's length gives the mapping of that snapshot, for all histories. The two scope functions of the macro engine, which only forward, are exercised by the search.",
        standin="the two forwarding scope functions of the macro engine (bounded histories)",
        assumptions=["std's hash map behaves as a map; ena's VecLog behaves as a stack (contracts in units/snap.vu, exercised by the search)"],
    ),
    "C11": dict(
        units=["glob"], search=dict(quick=60, thorough=400), level="proof",
        explain="All functions of the matcher are proved, for all patterns and paths shorter than 2 GiB, to index inside pattern, path, captures and brace stack, never to underflow, overflow or call pop or last on an empty stack; glob_match, glob_match_prefix and glob_match_with_captures are proved to give, on patterns without * ? [ { and backslash, exactly equality or the prefix relation, negated once per leading '!'.",
        standin="termination of the main loop, and that the answer with captures is the answer without on patterns with special characters (search)",
        assumptions=["capture_index is treated as mathematical (it counts steps)", "patterns and paths are shorter than 2^31 bytes", "std: as_bytes, starts_with, is_separator on this platform"],
    ),
    "C12": dict(
        units=["spec"], search=dict(quick=60, thorough=400), level="proof",
        explain="Every define_* function, every TEX_* constant, the conversion of every shorthand item and of whole specifications, the builder, and get, get_cmd, get_env are proved equal to the documented canonical item, with alias, pattern and context feature, for all arguments.",
        standin="items() and the JSON names of the items (search only)",
        assumptions=["std's hash map behaves as a map, collecting (name, item) pairs keeps each name with its item (contracts in units/spec.vu, exercised by the search)"],
    ),
    "C17": dict(
        units=["cli"], search=dict(quick=60, thorough=400), level="proof",
        explain="process_opts is proved, for all strings, to reject exactly the undocumented combinations and otherwise to return exactly the documented pair of files. How clap fills the options, and what main.rs does with the pair, is exercised by the search on the real program.",
        standin="clap's parsing and compile() of main.rs: bounded runs of the program",
        assumptions=["std's Path::with_extension is the meaning of 'extension replaced' (uninterpreted)"],
    ),
    "C18": dict(
        units=["kani"], search=dict(quick=60, thorough=400), level="proof",
        kani=dict(harnesses=["prove_there_and_back", "prove_two_codes", "prove_back_and_there", "prove_kind_of"],
                  functions=[("TexLang::kind_from_raw", "crates/mitex-parser/src/syntax.rs"), ("TexLang::kind_to_raw", "crates/mitex-parser/src/syntax.rs"),
                             ("From<SyntaxKind> for rowan::SyntaxKind", "crates/mitex-parser/src/syntax.rs"), ("From<rowan::SyntaxKind> for SyntaxKind", "crates/mitex-parser/src/syntax.rs"),
                             ("SyntaxKind::from_repr", "crates/mitex-parser/src/syntax.rs"), ("From<Token> for SyntaxKind", "crates/mitex-parser/src/syntax.rs")]),
        explain="The two conversions and the conversion of lexer tokens are called as compiled; their contracts (round trip both ways, codes equal only for equal kinds, the documented kind of every token) are proved over the whole finite domain by loop-free Kani contract harnesses, which is a complete proof.",
        standin="none",
        technique="Kani function contracts on the real crate, loop-free over the full domain (CBMC)",
        assumptions=["Kani's translation of the compiled crate, CBMC"],
    ),
    "C13": dict(
        units=["conv"], search=dict(quick=60, thorough=400), level="proof", rlimit=300,
        explain="Every function of the converter (Converter::new, convert and the functions it calls for formulas, groups, attachments, \\left..\\right, commands, special commands, environments, lists, figures and tables, enter/exit of mode and environment, indentation) carries the contract: if it returns Ok, mode, environment and indentation are what they were. Each call is checked against the contract of its callee, recursion included, for all trees.",
        standin="termination (proved in C16's run, not here)",
        assumptions=["rowan's read-only tree accessors return the kind, text, children and first matching child of the ghost tree (contracts in units/tree.vu)",
                     "depth and counters that only count nesting or list items are mathematical where the text marks them vx_add/vx_succ", "no claim is made for a conversion that returns Err: it is abandoned as a whole"],
    ),
    "C14": dict(
        units=["conv"], search=dict(quick=60, thorough=400), level="proof", rlimit=300,
        explain="The text written for a tree is specified as a recursive function txt of the tree and the state (mode, environment, indentation, pending blank skip and label): each leaf by its token kind (words, escapes, alignment marks, line breaks, blanks, comments), groups, formulas, scripts, \\left..\\right, commands and environments by their parts. convert and each function it calls are proved to append exactly that text, for all well-shaped trees (lemma wf_plain), in every state: words, specials, groups, formulas, attachments, \\left..\\right, commands, \\item, \\label, \\includegraphics, \\color, \\textcolor, \\colorbox, math environments, lists, text environments, figures with their captions and tables with their columns, rules and cells. convert_inner, convert_text, convert_math and the Display of TypstRepr are proved to return that text for the tree of the input, from the state a conversion begins in, with the given specification or the default one.",
        standin="that trees the parser builds are well-shaped (wf) is C06",
        assumptions=["core::fmt::write of {} calls Display::fmt with a formatter that appends to the output and passes its result on", "rowan's read-only tree accessors (contracts in units/tree.vu)", "Formatter::write_str and write_char append exactly their argument", "str::chars, strip_prefix, strip_suffix and split_at as in units/conv.vu", "trim, split, ends_with a string, trim_end_matches and decimal numbers are functions of their text (uninterpreted)"],
    ),
    "C15": dict(
        units=["conv"], search=dict(quick=60, thorough=400), level="proof", rlimit=700,
        explain="A tree is clean if no element at a place that is converted is an unknown command or environment, an error token, an \\item outside a list or a formula with wrong delimiters (recursive predicate with one clause for each construct that says which children are converted). Every function of the converter is proved to return Ok only on clean trees, for all well-shaped trees; convert_inner, convert_text and convert_math return output only if the tree of the input is clean.",
        standin="that trees the parser builds are well-shaped (wf) is C06",
        assumptions=["core::fmt::write of {} calls Display::fmt with a formatter that appends to the output and passes its result on", "rowan's read-only tree accessors (contracts in units/tree.vu)", "trees are as C06 says (wf)"],
    ),
    "C16": dict(
        units=["conv"], search=dict(quick=60, thorough=400), level="proof", rlimit=300,
        explain="Every function of the converter is proved, for all well-shaped trees, never to reach an unwrap or expect of None, an index or slice out of range, an overflow or underflow, and to terminate (the height of the tree decreases at each recursive call, each loop consumes its iterator).",
        standin="the call stack is assumed deep enough; that parsed trees are well-shaped (wf) is C06; parser and macro engine are exercised by the search",
        assumptions=["the error cell of TypstRepr is not borrowed while it is written", "rowan's read-only tree accessors (contracts in units/tree.vu)", "trees are as C06 says (wf)", "counters that only count nesting or list items do not overflow"],
    ),
}
