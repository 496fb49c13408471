#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Token streams are lossless: tokens tile the input and end in one EOF",
 "Whenever a tokenizer (single-state or multi-state) accepts an input, the tokens it returns start at byte 0, each begins exactly where the previous one ended, none except the last is empty, and together they cover every byte of the input; the last token is the end-of-file token, zero-width at the input length, and it occurs nowhere else. Whenever it rejects, the reported pointer is the first byte position at which no lexeme of the active state matches, never beyond the input.",
 ["inputs","programs"],"every lexeme set built from the lexeme utilities (anchored, non-nullable patterns; fields; mappers; middlewares; state mixins) and every byte input, the empty input and invalid UTF-8 included",
 "The tests tokenize about ten fixed strings; gaps, overlaps or a missing EOF only show for particular token boundaries, empty inputs or state switches at the end of the input.",
 ["src/tokenization.rs","src/lex.rs","src/lexeme/*.rs"],
 [("tokenize loops: push token, advance pointer, EOF push","src/tokenization.rs")],
 ["Tokenizer::tokenize / CombinedTokenizer::tokenize results"])

p("C02","Tokenization equals ordered first-match over the lexeme list",
 "At every position the token is produced by the first lexeme in the given order that matches there, with exactly the span that lexeme's own definition gives (a pattern its regex match, a keyword mapper or thunk mapper the inner span with a remapped token, a middleware the inner lexeme only when its predicate accepts, seeing the tokens produced so far). So the whole token stream, or the rejection position, is a function of lexeme order, definitions and input only.",
 ["inputs","programs"],"every ordered list of Pattern, Punctuations, Constants, Mapper, ThunkMapper and Middleware lexemes and every input",
 "The unit tests run one or two hand-written token sets; precedence between overlapping lexemes, keyword boundaries and history-dependent mappers depend on the combination of lexemes and text.",
 ["src/tokenization.rs","src/lexeme/pattern.rs","src/lexeme/mapper.rs","src/lexeme/middleware.rs","src/lexeme/constants.rs","src/lexeme/punctuation.rs"],
 [("find_map over lexemes in order","src/tokenization.rs"),("Mapper / ThunkMapper / Middleware consume","src/lexeme/")],
 ["token stream returned by tokenize","arguments seen by user closures"])

p("C03","Fixed-string sets always take the longest member that matches",
 "A set of fixed strings - punctuation or constant lexemes, and the lexerless punctuation and constant-set fields - matches at a position exactly when some member is a prefix of the remaining input, and then consumes the longest such member and yields the value registered for that member. The order in which members were declared and members that share prefixes make no difference, and an empty member never yields an empty token (in the lexerless fields, which may legally match nothing, it is the match of last resort).",
 ["inputs","programs"],"every set of distinct strings (with arbitrary shared prefixes, multi-byte characters, nested prefixes with gaps such as '<' and '<<=') and every input",
 "The tests use operator tables in which every prefix of an operator is an operator; gaps in the prefix tree and near-miss continuations are not exercised.",
 ["src/field_tree.rs","src/lexeme/punctuation.rs","src/lexeme/constants.rs","src/production/terminals/constant_field.rs","src/production/terminals/punctuation.rs"],
 [("prefix tree insert / find","src/field_tree.rs"),("length-sorted reverse scan","src/lexeme/constants.rs, src/production/terminals/constant_field.rs")],
 ["lexeme and lexerless parse results"])

p("C04","Lexer states follow a strict stack discipline",
 "In a multi-state tokenizer the lexeme set used at each position is the one registered for the top of the state stack, or for the default state when the stack is empty: append pushes, pop removes the top, switch replaces the top (or pushes on an empty stack), and a no-op action leaves it unchanged; actions fire only for the tokens they were declared for and take effect from the next token on. A discarding action suppresses the token as if that lexeme had not matched while its state change stays, and a pop with nothing to pop makes the lexeme not match; every tokenize call starts from the default state.",
 ["inputs","programs","histories"],"every set of states, state-changing lexemes (static or closure-driven) and every input, including unbalanced closers",
 "Tests follow one template-literal grammar on well-balanced inputs; wrong stack handling shows only for particular nestings, unbalanced input or same-state transitions.",
 ["src/lexeme/mixin.rs","src/tokenization.rs","src/lexeme/action.rs"],
 [("perform_state_action","src/lexeme/mixin.rs"),("analyzer selection by latest state","src/tokenization.rs")],
 ["token stream returned by CombinedTokenizer::tokenize"],
 [("state_stack","stack of entered states; empty means default","src/tokenization.rs")])

p("C05","Lexerless parsing implements PEG semantics exactly",
 "For every valid grammar, a lexerless parse accepts an input exactly when the grammar read as a parsing expression grammar does (ordered choice, greedy possessive repetition, sequence, optional, suffix forms, separated lists with or without a trailing separator, lookahead, validators, nodes and hiding), and returns exactly the syntax tree list that reading defines: same nodes, same order, same byte ranges, nothing extra or missing. A failed alternative leaves no trace in the result.",
 ["inputs","programs"],"every grammar built from the production utilities without left recursion and every byte input",
 "The tests run one JSON grammar and a few snippets; which combinations of utilities backtrack, drop or duplicate children depends on the grammar and the input together.",
 ["src/production/non_terminals/*.rs","src/production/wrappers/*.rs","src/production/terminals/*.rs","src/parsing.rs"],
 [("advance_ptr of every production","src/production/")],
 ["LexerlessParser::parse results","enter/exit events of every production (probe)"])

p("C06","Tokenized parsing implements PEG semantics; prediction is invisible",
 "For every valid grammar and tokenizer, and every stream given to parse_stream (with gaps between its tokens, or with structural positions chosen by the caller), parsing over the stream of structural tokens accepts and returns exactly what the grammar read as a parsing expression grammar over those tokens defines: same nodes, order, byte ranges and token bounds. Selecting alternatives and suffixes by their possible first tokens is only an optimisation: it never changes which alternative wins, which empty alternative is taken, what nodes appear, or which validation error is raised (though a validator need not be consulted for an alternative that cannot start with the next token).",
 ["inputs","programs"],"every grammar built from the production utilities (with nullable alternatives in any position, lookaheads, validators, nested wrappers) and every input text",
 "Tests use a JSON and an expression grammar in which every alternative starts with a distinct token; nullable alternatives, shared first tokens and prediction misses are barely reached.",
 ["src/production/non_terminals/union.rs","src/production/non_terminals/suffixes.rs","src/production/non_terminals/concat.rs","src/production/wrappers/*.rs","src/production/terminals/token_field.rs"],
 [("first-set prediction","src/production/non_terminals/union.rs, suffixes.rs"),("advance_fltr_ptr of every production","src/production/")],
 ["DefaultParser::parse results","enter/exit events of every production (probe)"])

p("C07","Insignificant tokens: ignored by default, exact where asked for",
 "Structural parsing never depends on non-structural tokens: inserting, removing or changing whitespace-like tokens between tokens changes neither acceptance nor the tree's shape, node values or leaf texts. Inside a non-structural production the tokens seen are exactly the raw tokens from just after the previous structural token on - at the start of the input from the first token on - and with range filling it matches only if it consumes that gap completely; a structural production nested inside continues with the very next structural token and hands back the position right after the last token it consumed.",
 ["inputs","programs"],"every grammar mixing structural, non-structural and nested structural productions, every token text and every placement of non-structural tokens (leading, trailing, repeated, absent)",
 "The only tests put one newline or space between tokens of one declaration grammar; leading trivia, several trivia tokens in one gap, alternatives that mix both views, and nested structural switches are unreached.",
 ["src/production/wrappers/non_structural.rs","src/production/wrappers/structural.rs","src/filtered_stream.rs","src/production/non_terminals/union.rs","src/production/non_terminals/suffixes.rs"],
 [("gap start computation and fill check","src/production/wrappers/non_structural.rs"),("structural re-entry","src/production/wrappers/structural.rs"),("structural filtering","src/filtered_stream.rs")],
 ["DefaultParser::parse results","probe events with raw token indices"])

p("C08","Syntax trees are geometrically consistent with the source",
 "In every returned tree each node has start <= end <= input length, siblings appear in source order without overlap and inside their parent's range (in grammars without non-structural productions, whose nodes lie in the gap before the position), and a leaf for a matched token or terminal spans exactly the matched text. In tokenized parsing every node carries token bounds that agree with its byte range (the first bound token starts at the node's start; the range of an inner node ends where its end-bound token starts; a token leaf is bounded by that token and the next), zero-width nodes have equal bounds, and lexerless nodes carry none. Every intermediate result a production returns reports the range from its first to its last node (none without nodes), and every failure says of itself correctly whether it is a validation error or a mismatch.",
 ["inputs","programs"],"every accepted (grammar, input) pair in both parsing modes",
 "Tests look at printed trees or a few node values; ranges and bounds are never checked against the source.",
 ["src/ast_node.rs","src/filtered_stream.rs","src/production/wrappers/node.rs","src/production/wrappers/nullable.rs","src/production/wrappers/look_ahead.rs","src/production/terminals/*.rs","src/production/non_terminals/suffixes.rs"],
 [("node construction with start/end/bound","src/production/wrappers/node.rs, src/production/non_terminals/suffixes.rs, src/production/terminals/")],
 ["every ASTNode of every parse result","every production's intermediate result (probe)"])

p("C09","Lexerless and tokenized parsers of the same grammar agree",
 "When the same whitespace-free language is described once with a tokenizer and token terminals and once with the corresponding lexerless terminals, both parsers accept the same inputs and give trees with the same shape, node values and byte ranges, and on rejection both point at the same unparsable token.",
 ["inputs","programs"],"every pair of corresponding grammars over an unambiguous token alphabet and every input",
 "The two modes have separate advance code in every production and no test compares them.",
 ["src/production/non_terminals/*.rs","src/production/wrappers/*.rs","src/parsing.rs","src/cache.rs"],
 [("advance_ptr versus advance_fltr_ptr","src/production/")],
 ["results of DefaultParser::parse and LexerlessParser::parse"])

p("C10","Construction rejects exactly the unusable grammars",
 "Building a parser fails for every grammar in which some reachable production can reach itself again without consuming input first (through any chain of sequences, choices, suffix forms, wrappers, lookaheads and nullable prefixes, whatever order things are declared in; lookaheads, end-of-file and non-structural productions count as consuming nothing) or in which a reachable production was never given its symbols, and succeeds for every other grammar. Rejection is an error value which names a production at fault (a recursion chain it spells out is a cycle the grammar has), never a panic, overflow or hang, and validating again gives the same answer.",
 ["programs"],"every production graph: direct, indirect, nullable-prefixed and suffix recursion, shared and diamond-shaped subgraphs, cycles that pass through consuming positions (legal), missing symbols anywhere",
 "The two tests for this fail on the original tree and cover only the shortest cycles; graph shape and declaration order are unbounded.",
 ["src/production/non_terminals/mod.rs","src/production/non_terminals/concat.rs","src/production/non_terminals/union.rs","src/production/non_terminals/suffixes.rs","src/production/wrappers/separated_list.rs"],
 [("validate with connected/visited sets","src/production/non_terminals/"),("obtain_nullability","src/production/")],
 ["DefaultParser::new / LexerlessParser::new / validate results"])

p("C11","Parsing is total: every input gets an answer, in bounded work",
 "With a validated grammar and valid lexemes, tokenizing and parsing any byte sequence - empty, random, truncated, invalid UTF-8, unbalanced, very long - returns either a result or an error value: it never panics, never loops forever, and never re-runs an alternative, repetition or separator that made no progress. The number of production attempts never exceeds what plain ordered-choice evaluation of the grammar needs.",
 ["inputs","programs"],"every validated grammar (nested optional repetitions and empty-matching separators included), every lexeme set and every byte input",
 "Tests feed well-formed inputs; panics, index errors and non-termination hide behind malformed and degenerate inputs.",
 ["src/production/wrappers/list.rs","src/production/wrappers/separated_list.rs","src/tokenization.rs","src/filtered_stream.rs","src/cache.rs","src/code.rs"],
 [("progress checks in repetitions","src/production/wrappers/list.rs, separated_list.rs"),("zero-width lexeme guard","src/lexeme/pattern.rs")],
 ["process outcome, step counters in probes around every production and lexeme"])

p("C12","Syntax errors point at the furthest failure",
 "When an input is rejected by the grammar, the reported pointer is the position of the first input that could not be parsed on the furthest-reaching attempt: in tokenized parsing the start of the first structural token not consumed by the attempt that matched furthest, in lexerless parsing the furthest matched byte. The message says 'Unexpected end of file' exactly when that position is the end of the input, otherwise names the offending token or character, and the line and column in the text are those of the pointer.",
 ["inputs","programs"],"every grammar and every rejected input, with and without trivia before the offending token, at the first token, mid-line and at the end",
 "Tests check one or two error pointers, all of them after whitespace.",
 ["src/cache.rs","src/production/terminals/*.rs","src/code.rs"],
 [("max_parsed_point tracking","src/cache.rs, src/production/terminals/"),("create_error","src/cache.rs")],
 ["ParseError.pointer and message"],
 [("max_parsed_point","end of the furthest terminal match","src/cache.rs")])

p("C13","A validation error aborts the parse and surfaces unchanged",
 "If a user validator reports a validation error while parsing, no alternative, optional, repetition, separated list, suffix, lookahead or wrapper around it may swallow it or try something else: parsing stops and returns an error with exactly that pointer, the validator's message, and the line and column of the pointer. A validator that reports 'unparsed' behaves as an ordinary mismatch, one that accepts changes nothing, and a validator sees exactly the nodes its production produced and the whole source.",
 ["inputs","programs"],"every placement of validators in every grammar, in both parsing modes, and every input",
 "Tests place one validator directly under a list; the abort rule is re-implemented in every combinator and mode.",
 ["src/production/wrappers/validated.rs","src/production/non_terminals/*.rs","src/production/wrappers/list.rs","src/production/wrappers/separated_list.rs","src/production/wrappers/nullable.rs","src/cache.rs"],
 [("is_invalid checks in every combinator","src/production/"),("create_error Validation arm","src/cache.rs")],
 ["validator call log, ParseError"])

p("C14","Line and column always describe the byte offset",
 "For every source text and every byte offset from 0 to its length, the line is one plus the number of newlines before the offset and the column is one plus the number of bytes since the start of that line (the newline itself belongs to the line it ends), and converting a text prefix to a position gives the position of its end. Answers do not depend on which offsets were asked for before, and the line and column in the text of an error are those of its pointer, wherever it points.",
 ["inputs","histories"],"every byte text (empty lines, CRLF, no final newline, multi-byte and invalid UTF-8) and every offset, in any query order",
 "Tests check a single error position.",
 ["src/code.rs","src/position.rs"],
 [("line break table and binary search","src/code.rs"),("Position::from","src/position.rs")],
 ["Code::obtain_position, Position::from, positions embedded in errors"])

p("C15","Memoization never changes an outcome",
 "Wrapping any production in the memoizing wrapper changes nothing observable (outside non-structural contexts, where it refuses to run): same acceptance, trees, errors and error positions as without it, in both parsing modes, however often and from however many places the production is retried at a position, with distinct keys for distinct productions. Each memoized production is evaluated at most once per position and parse, and nothing is carried over from one parse to the next.",
 ["inputs","programs","histories"],"every grammar with any subset of productions memoized, every input, successive parses with the same parser",
 "No test uses the memoizing wrapper at all.",
 ["src/cache.rs","src/production/wrappers/cache.rs"],
 [("result cache keyed by (key, position)","src/cache.rs"),("lookup/insert","src/production/wrappers/cache.rs")],
 ["parse results with and without memoization, probe events below the wrapper"],None,
 "The key type has no public constructor, so a cfg-guarded constructor is needed.")

p("C16","Parsers are pure: results depend only on grammar and input",
 "Parsing and tokenizing are functions of grammar and input: repeating a call, interleaving it with other inputs (failing ones included), reusing a parser after errors or after a call that the caller's own code gave up by a panic, calling it again from within a validator or lexeme while a call is under way, building a second parser from the same description, or going through the tokenize, parse and combined entry points gives identical tokens, trees, errors and grammar text.",
 ["histories","inputs","programs"],"every sequence of calls on a parser and every pair of independently built parsers of the same grammar",
 "Each test builds one parser and uses it once; lazily initialised tables and hash-ordered containers only show across calls and instances.",
 ["src/parsing.rs","src/cache.rs","src/production/non_terminals/union.rs","src/production/non_terminals/suffixes.rs","src/lexeme/mapper.rs"],
 [("per-parse cache","src/parsing.rs"),("lazily initialised first sets and nullability","src/production/non_terminals/")],
 ["recorded call histories"])

p("C17","Text handling is memory- and encoding-safe on any bytes",
 "For any input bytes - multi-byte characters, a multi-byte character at the failure position, invalid or truncated UTF-8 - every string the library hands out (error messages, displayed values, grammar text) is valid UTF-8, a well-formed offending character or token is quoted whole, and no execution has undefined behaviour or an invalid memory access.",
 ["inputs"],"every byte input, in tokenized and lexerless parsing and in all rendering functions",
 "Tests use ASCII inputs; unchecked conversions are silent on them.",
 ["src/cache.rs","src/code.rs","src/position.rs","src/lexeme/mapper.rs","src/production/terminals/constant_field.rs"],
 [("unchecked byte-to-str conversions","src/cache.rs, src/code.rs, src/position.rs, src/lexeme/mapper.rs, src/production/terminals/constant_field.rs")],
 ["bytes of every returned String","Miri and AddressSanitizer reports"])

p("C18","Grammar text is complete, faithful and terminates",
 "The grammar text of any grammar - recursive ones included - lists every named rule reachable from the root exactly once, each with all of its alternatives or symbols in their declared order, shows a trailing optional separator exactly for lists that accept one, and for tokenized parsers ends with every lexeme of every lexer state in declared order. Rendering never loops or fails.",
 ["programs"],"every grammar graph and every tokenizer",
 "Tests print a grammar without looking at it.",
 ["src/production/non_terminals/*.rs","src/production/wrappers/*.rs","src/production/terminals/*.rs","src/tokenization.rs","src/lexeme/*.rs"],
 [("impl_grammar with visited set","src/production/"),("build_grammar","src/tokenization.rs"),("Display of productions","src/production/")],
 ["grammar() output"])

p("C19","Tree queries agree with a plain pre-order traversal",
 "For every syntax tree, the search helpers agree with the pre-order walk of the tree: find returns the first node in that order satisfying the predicate or value, list returns all of them in order, contains says whether one exists, child lookup considers only direct children in order, and a nested search applies the searches successively from each found node.",
 ["inputs"],"every tree (any depth, repeated values at several depths) and every predicate or value",
 "Tests use the helpers on one or two trees with unique values.",
 ["src/ast_node.rs"],
 [("find_tree, list_tree, walk_tree, contains, get_child","src/ast_node.rs")],
 ["return values of the query helpers"])

p("C20","The shipped JSON parsers implement the same JSON dialect",
 "Both shipped JSON example parsers, tokenized and lexerless, accept exactly the documents of their dialect (JSON with non-negative numbers and one optional trailing comma in arrays and objects, any whitespace between tokens) and return trees that mirror the document: kinds, nesting, order, keys and literal spans; both give the same tree shape for the same document. Every document serialised by a standard JSON library within the dialect is accepted, and a rejected document's error points into the document.",
 ["inputs"],"every JSON document and every mutation of one",
 "The tests parse one JSON file and a handful of snippets and print the result.",
 ["src/examples/json/tokenized.rs","src/examples/json/lexerless.rs"],
 [("json_tokenizer, json_grammar","src/examples/json/tokenized.rs"),("json_lexerless_grammar","src/examples/json/lexerless.rs")],
 ["parse results of both example parsers"])

p("C21","Debug facilities and build profile do not change results",
 "Debug and release builds give the same tokens, trees and error pointers for the same grammar and input, and attaching log labels of any level to any lexeme, production or tokenizer changes nothing but the printed output. Parsing a registered production at an offset through the debug entry points gives the same tree, or the same rejection with the same furthest position, as that production yields at that position in a full parse; with a tokenizer, an offset that is not the start of a structural token means the next structural token.",
 ["configurations","inputs","programs"],"every grammar, input, log level assignment and both build profiles",
 "Tests run one profile and do not compare logged with unlogged runs.",
 ["src/production/mod.rs","src/lexeme/mod.rs","src/logger.rs","src/parsing.rs","src/tokenization.rs"],
 [("cfg(debug_assertions) logging and assertions","src/production/mod.rs, src/lexeme/mod.rs"),("debug_production_at / debug_parser_at","src/parsing.rs")],
 ["results of both builds, with and without logs"])

p("C22","Token stream lookups agree with the token list",
 "For every token list, with or without gaps between the tokens, the filtered stream contains exactly the structural tokens in order - a stream made with chosen positions exactly those -, every translation between filtered and raw positions is the corresponding list position and they are mutually inverse, and lookups by byte offset return the token starting exactly there or, as the error case, the first one starting after it. Iteration, ranges, length and bounds queries agree with the list.",
 ["inputs"],"every token list ending in EOF, every position and every byte offset",
 "No test calls these lookups; parsing uses only a few of them.",
 ["src/filtered_stream.rs","src/wrapper_index.rs"],
 [("filtered index table and binary searches","src/filtered_stream.rs")],
 ["return values of TokenStream methods"])

p("C23","Nullability and first-token facts are sound",
 "Whatever a production does on any input is covered by what it declares: if it can succeed without consuming input it says it is nullable (lookaheads, end-of-file and non-structural productions included; a regular expression that matches empty only in some context excepted), and if it succeeds consuming tokens, the first one it consumed - structural, or raw inside a non-structural production - is in its declared first-token set. Declaring non-nullable is never contradicted by an empty match, and the declarations are the same before and after parsing.",
 ["inputs","programs"],"every production of every grammar at every position of every input",
 "No test looks at these declarations; wrong ones only surface when a specific grammar makes prediction rely on them.",
 ["src/production/non_terminals/*.rs","src/production/wrappers/*.rs","src/production/terminals/*.rs"],
 [("is_nullable, obtain_nullability, impl_first_set","src/production/")],
 ["probe events: entry position, result, first token, declared facts"])

p("C24","Constructors reject ambiguous or unusable definitions",
 "Defining something twice or unusably is an error value at construction time: a pattern that matches the empty text or does not compile, an empty or repeated punctuation, a repeated keyword of a mapper, an empty lexerless punctuation set or a repeated member of one, a lexerless pattern that does not compile, symbols or suffixes assigned a second time and a second log label or rule name are all refused, leaving the first definition in force, and every other definition is accepted.",
 ["inputs","programs"],"every list of strings, patterns and keywords, in every order and with duplicates at every position",
 "Tests only construct valid definitions.",
 ["src/lexeme/pattern.rs","src/lexeme/punctuation.rs","src/lexeme/mapper.rs","src/field_tree.rs","src/production/terminals/*.rs","src/production/non_terminals/*.rs"],
 [("FieldTree::insert duplicate detection","src/field_tree.rs"),("OnceCell set","src/production/")],
 ["constructor and setter results"])

p("C25","Log labels report every attempt truthfully, and no more than their level",
 "In builds with debug assertions, a log label makes its production, lexeme or multi-state tokenizer print lines that name the label. A production labelled Success prints exactly one line for every attempt that matches, in the order in which its attempts end, with the line and column where the attempt started and where the match ended (the end of the last token consumed, or the start of the structural token after it); labelled Result or Verbose it prints, in the same sequence, also one line for every attempt that fails, with the position of the attempt, or for a validation error with the position that was reported. Pattern, punctuation and constant lexemes do the same for the tokens they match, with the token; a wrapping lexeme (mapper, mixin, middleware) reports what the lexeme it wraps made of the text. A labelled multi-state tokenizer prints every switch of the lexer state with both states and the position and the failure to tokenize, from Default on, and its success from Success on. Labels at None print nothing, productions labelled Default print nothing either, and entry lines of productions appear at Verbose only.",
 ["inputs","programs"],"every grammar and lexer, every assignment of levels to labels, and every input, in all three parsing modes",
 "No test reads what a label prints; a line left out, doubled or with a wrong position needs a particular outcome in a particular parsing mode.",
 ["src/production/mod.rs","src/production/**/*.rs","src/lexeme/*.rs","src/tokenization.rs","src/logger.rs"],
 [("ProductionLogger","src/production/mod.rs"),("LexemeLogger","src/lexeme/mod.rs"),("calls in every advance_* and consume","src/production/, src/lexeme/"),("Log::order","src/logger.rs")],
 ["standard output of a parse or tokenization","enter/exit events of every production and lexeme (probe)"])

p("C26","Printed forms show every node, token and error as it is",
 "Printing a tree draws every node exactly once, in document order, each on its own line with its value and its start and end, indented by its depth; the Debug and Display texts of a tree also name every node's value, start and end in document order, and Debug nests them as the tree does. Tokens print their kind, start and end, positions their line and column, token pointers their index, and errors their message. Nodes made with the constructors (node, leaf, null) hold exactly what they were given, and a clone is equal in every part.",
 ["inputs"],"every tree of any shape, depth and node type, parsed or built by hand",
 "The tests only print; nothing looks at the output.",
 ["src/ast_node.rs","src/lex.rs","src/position.rs","src/error.rs","src/wrapper_index.rs"],
 [("TreeItem implementation and print","src/ast_node.rs"),("Debug / Display implementations","src/ast_node.rs, src/lex.rs, src/position.rs, src/error.rs")],
 ["standard output of print","formatted strings"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
