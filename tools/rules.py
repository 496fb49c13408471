"""What a case is and what makes it count, per property (for the evidence files)."""
LEX = ("A case is a random set of lexemes (fields, patterns, keyword mappers, thunk mappers, middlewares, state mixins; one or several "
       "states) with random and directed inputs, invalid UTF-8 included. ")
GR = ("A case is a random grammar over the production utilities (generated without left recursion, 1-40 non-terminals, nullable parts, "
      "wrappers, validators, lookaheads, lists, suffixes) built through the public API, with inputs derived from the grammar, "
      "mutations of them, and noise. ")
RULES = {
    "C01": LEX + "Non-trivial: input not empty. Distinct by (lexemes, input).",
    "C02": LEX + "Compared token by token with a reference first-match tokenizer. Non-trivial: input not empty. Distinct by (lexemes, input).",
    "C03": "A case is a set of distinct strings with shared prefixes, gaps and multi-byte members, declared in several orders, in all four kinds "
           "of fixed-string sets, matched at every position of directed inputs. Distinct by (set, order, kind, text, position).",
    "C04": LEX + "Non-trivial: the reference state machine changed state at least once. Distinct by (lexemes, input).",
    "C05": GR + "Lexerless. Result compared with a reference PEG evaluator. Non-trivial: input not empty and the reference made at least 6 steps. Distinct by (grammar, input).",
    "C06": GR + "Over a tokenizer. Result compared with a reference evaluator without prediction. Non-trivial: as C05. Distinct by (grammar, input).",
    "C07": GR + "With whitespace-like tokens, non-structural and structural productions. Each text is re-spaced several ways and trees are compared; non-structural "
           "productions are compared with the reference. Distinct by (grammar, input).",
    "C08": GR + "Every node of every returned tree is checked. Non-trivial: more than 2 nodes. Distinct by (grammar, input).",
    "C09": GR + "Each grammar is built twice, over tokens and over text, and both are run on each input. Non-trivial: more than one byte. Distinct by (grammar, input).",
    "C10": "A case is a random production graph, most with planted or random recursion, missing symbols or long ladders; the verdict of the constructor is "
           "compared with one computed on the description. Non-trivial: more than one non-terminal. Distinct by grammar.",
    "C11": GR + "Attempts are counted by position through instrumented terminals and compared with the reference; long, nested and hostile inputs are added. "
           "Non-trivial: more than 5 reference steps. Distinct by (grammar or lexemes, input).",
    "C12": GR + "Every rejected input counts: pointer, named token or character, line and column. Distinct by (grammar, input).",
    "C13": GR + "With validators that fail on chosen occasions. Every parse in which a validator reports an error counts. Distinct by (grammar, input).",
    "C14": "A case is a byte text with every offset asked in several orders, and texts of error messages of parses. Non-trivial: longer than one byte. Distinct by (text, offset).",
    "C15": GR + "Built with and without memoizing wrappers, evaluations of memoized productions counted. Non-trivial: a memoized production was evaluated. Distinct by (grammar, input).",
    "C16": GR + "A history of calls on two parsers of the same description through all entry points. Non-trivial: an input seen before in the history. Distinct by (grammar, input, position in the history).",
    "C17": GR + "Inputs are laced with multi-byte, truncated and invalid sequences; every string handed out and all log output is checked; part of the work runs "
           "under AddressSanitizer and Miri. Non-trivial: input with a byte outside ASCII. Distinct by (grammar, input).",
    "C18": GR + "The text of the whole grammar, of parts, of single productions and of tokenizers compared with the description. Non-trivial: more than one rule. Distinct by text.",
    "C19": "A case is a random tree (wide, deep, with repeated values, or from a parse) with all search helpers asked from several nodes. Non-trivial: more than 2 nodes. Distinct by (tree, value).",
    "C20": "A case is a random JSON document, a re-spacing, serialisation or mutation of one, given to both shipped parsers and to a reference recogniser. Non-trivial: longer than 2 bytes. Distinct by text.",
    "C21": GR + "Run with and without log labels, through the debug entry points, and in both build profiles. Non-trivial: longer than one byte. Distinct by (grammar, input).",
    "C22": "A case is a random token list; every query of the stream is compared with the list at every position and offset. Non-trivial: both kinds of tokens present. Distinct by list.",
    "C23": GR + "Every evaluation of every production is observed (position, consumed, first token) and compared with its declarations. Non-trivial: more than 4 observations. Distinct by (grammar, input).",
    "C24": "A case is a list of strings, patterns or keywords with duplicates or unusable members planted, given to every constructor that takes one. Non-trivial: more than one member. Distinct by (list, constructor).",
    "C25": GR + "Or of lexers as in C01. Every production and lexeme has a label with a level of its own; the standard output of each call is redirected and its "
           "lines are compared, label by label, with what probes around the productions and lexemes saw. Debug builds only (labels print nothing in others). "
           "Non-trivial: a label with more than 3 lines. Distinct by (grammar, input, label).",
    "C26": "A case is a tree (built by hand with values that look like tree art, or parsed) printed in every form, and tokens, positions, pointers and errors. "
           "Non-trivial: more than 2 nodes. Distinct by printed text.",
}
ASSUME = [
    "The regex crate, the standard library and the compiler are trusted.",
    "The reference evaluators in /verif/harness/src (refi.rs, lexg.rs) state the intended semantics.",
    "Held on the executions counted here; nothing is claimed about executions that were not made.",
]
