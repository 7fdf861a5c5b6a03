"""Texts of MANIFEST.json (see ../mkmanifest.py)."""
_AI = "path-sensitive abstract interpretation of the type-checked AST"
TECHNIQUE = {
    "C01": _AI + ": ownership/typestate of every allocation in every grammar action, destructor, lexer action and entry point (fixpoint over the grammar)",
    "C02": _AI + ": ownership/typestate (double release, use after release, wrong release) over the same paths",
    "C03": _AI + ": definite assignment of all node fields, fixpoint over the grammar",
    "C04": _AI + " of the actions along the sentential forms of the expression dialect, compared with an independent table of expected trees",
    "C05": _AI + " of the actions along the sentential forms of queries, compared with an independent table of expected trees",
    "C06": _AI + " of the actions along the sentential forms of the other statements, compared with an independent table of expected trees",
    "C07": _AI + " of the actions along the sentential forms of IMPORT and COPY in every option order, compared with expected trees",
    "C08": "static analysis of the LALR automaton: every shift/reduce decision of two operators in every state against an independent precedence table",
    "C09": "complete product of the generated lexer automaton with an independent lexical description; abstract interpretation of the lexer actions and entry points",
    "C10": _AI + " of literal and number actions against an independent table of values; lexer automaton product for number texts",
    "C11": _AI + " of entry points, error handling and hand-over of statements; analysis of the automaton's start reductions",
    "C12": _AI + " of all actions that touch the placeholder list; placeholder numbering and order",
    "C13": _AI + " of every SQLParserResult operation as an abstract data type",
    "C14": "effect analysis: all variables with static storage and all external functions in the whole program, with a reset-before-use dataflow for thread-local state",
    "C15": _AI + " of the print functions over all node shapes that the grammar fixpoint yields",
    "C16": _AI + " of length bookkeeping in lexer and parser actions; analysis of the automaton's default reductions",
    "C17": _AI + " of the print functions: output obligations per field and label tables",
    "C18": _AI + " of the accessors over all field combinations against their definition",
    "C19": _AI + " of the actions along all clauses with a condition for rejection, in every order",
    "C20": "static analysis of the LALR automaton: acceptance of every dialect phrase in every state that expects one; " + _AI + " of its actions",
    "C23": "static analysis of the grammar: every production must be a derivation of an independent grammar of the dialect; analysis of the LALR automaton for chains of comparisons",
    "C24": "termination analysis: lexer automaton and end-of-text actions, reductions of the LALR automaton, loops of the type-checked AST, recursion met by " + _AI,
}
_BASE = ("Decided from the current source on every run, nothing is executed. Trusted: clang's AST, bison's and flex's generated skeletons, the modelled "
         "library functions, this repository's abstract interpreter. Paths the interpreter does not understand are counted as undecided in the evidence "
         "and raise no alarm (none on the current tree). ")
NOTE = {
    "C01": _BASE + "Sound up to: lists analysed with two elements, allocation succeeds.",
    "C02": _BASE + "Sound up to: lists analysed with two elements, allocation succeeds.",
    "C03": _BASE + "Sound up to: lists analysed with two elements.",
    "C04": _BASE + "Every production of the expression grammar, operands symbolic; forms up to the listed optional parts, nesting by compositionality of the actions.",
    "C05": _BASE + "Every clause combination listed in the table, sub-phrases symbolic.",
    "C06": _BASE + "Every clause combination listed in the table, sub-phrases symbolic.",
    "C07": _BASE + "Every order of up to the listed number of options.",
    "C08": _BASE + "All states of the automaton; pairs the dialect does not lay down (two comparisons in a row, sign before a multiplicative operator) are not judged.",
    "C09": _BASE + "All lexer states and bytes; texts beyond INT_MAX bytes are out of scope.",
    "C10": _BASE + "Values of floating point texts are those of atof in the C locale.",
    "C11": _BASE + "Scanner and parser are summarised by their protocol.",
    "C12": _BASE + "Numbering evaluated with up to three placeholders, order by position.",
    "C13": _BASE + "One operation at a time from an arbitrary state of the object (inductive).",
    "C14": _BASE + "External functions outside the lists count as undecided.",
    "C15": _BASE + "Termination is that of recursion on finite trees; depth is bounded by the parser's nesting limit only where the grammar nests.",
    "C16": _BASE + "Counting evaluated on token texts of one to three characters.",
    "C17": _BASE + "Labels are compared with independent tables; layout beyond indentation order is free.",
    "C18": _BASE,
    "C19": _BASE,
    "C23": _BASE + "The grammar as a whole; what actions refuse is C19's, and what the lexer refuses C09's.",
    "C24": _BASE + "An alarm is raised only where a loop certainly goes on; loops whose end depends on more than the analysis follows count as undecided.",
    "C20": _BASE + "Phrases of the table in all states that expect them, within the parser's nesting limit.",
}
NOT_APPLICABLE = {
    "C21": "Depth of the recursive destructor and printer is the length of operator chains, a run-time quantity that no static argument bounds: left recursion "
           "in the grammar keeps the parser stack flat (YYMAXDEPTH does not limit it), and the tree built is as deep as the text is long (that all of it ends is C24). The property does not "
           "hold for very long chains (hundreds of thousands of operators); repairing it would need an iterative destructor and printer.",
    "C22": "The code does not check malloc/strdup results (neither do bison's and flex's skeletons in all places); what a failed allocation leads to depends on "
           "run-time state outside the source, and stating the property for the present code would only list every allocation.",
}
NOTES = "python3 check.py ID analyses the sources under /repo/src (VERIF_REPO overrides the root). No hooks in /repo."
