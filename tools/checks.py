LEVEL_NOTE = ("Sound for the stated rule up to the trusted base: go/packages, go/ssa, and the analyzer in /verif/analyzer "
 "(gated value-dependence analysis over SSA: every result is a term with a BDD guard over the program's own branch conditions; no execution, no solver). ")
def c(pid, technique, note):
    return dict(property=pid, quick_cmd=f"bash ./check.sh {pid} quick", thorough_cmd=f"bash ./check.sh {pid} thorough",
                technique="static analysis: " + technique, level="other", level_note=LEVEL_NOTE + note)
CHECKS = [
 c("C01", "interprocedural effect analysis of the four commands with path guards (gated SSA + BDD)", "Statement texts are classified by their constant verb; the driver is trusted to do what a read-only statement says."),
 c("C02", "provenance of every statement the planner can synthesise, against the filter the apply and preview loops really apply (gated term analysis)", "A removing statement is one whose constant text removes something; only constant parts of the text count, since names may contain anything."),
 c("C03", "comparison of the gated event sequences (printed / executed) of the preview and apply paths", "Output and Exec are compared as guarded terms; stdout itself is trusted."),
 c("C04", "typestate of the transaction protocol over guarded driver events", "database/sql's Begin/Exec/Commit/Rollback are trusted."),
 c("C05", "error-flow analysis: whole commands (gated SSA) - a failed call contradicts every successful end; planner - path-sensitive dataflow from every fallible call over the CFG, following the error through phis, stores and wrappers to the returns", "A fallible call is one whose signature returns an error, or the rows.Err/Close protocol."),
 c("C06", "guarded control-flow analysis of main: events after a failure must be unreachable, exit status non-zero", "os.Exit/log.Fatal are trusted to end the process."),
 c("C08", "call-graph effect analysis, map-iteration and global-mutability analysis of everything reachable from the planner, parser and dump entry points", "CHA call graph over the repository's packages; the standard library is classified by package and function."),
 c("C18", "symbolic decomposition of the data source name of each command into options, environment variables and prompt (gated SSA); options compared with the documented usage", "net/url and the MySQL driver formatter are trusted to escape; IPv6 hosts are taken verbatim."),
 c("C21", "regeneration of the LALR tables from the grammar source and comparison with the compiled grammar; semantic actions compared as normalised syntax", "golang.org/x/tools goyacc is the reference generator."),
 c("C11", "semantic actions of the compiled grammar evaluated as functions of their symbols and compared with a reviewed table of meanings; then symbolic value of every model field as a function of the parsed tree, per statement kind and dialect (gated SSA), compared with the attribute of the same meaning; enumerations constant by constant", "The spec is a table of about 120 transfers per dialect; sqlparser.String and identifier String methods are taken as faithful here."),
 c("C12", "symbolic planner runs on pairs of schemas that agree everywhere but in one attribute, kept symbolic (gated SSA): statements planned iff the attributes differ, no statement when equal", "The pairs cover the attributes the property names per object kind and dialect; other attributes of the same object are equal and symbolic; lists have one or two elements."),
 c("C22", "typestate of rows and transactions on every return of every function that opens one", "database/sql's Close semantics are trusted."),
 c("C23", "table of words against the tokens of the grammar; the tokenizer summarised over the characters it looks at and compared with the longest operator of every text of three characters; propagation of character sets through the scanners, over restricted alphabets, for where words, numbers, quoted texts and comments end", "What backslash escapes in strings stand for is decided only as far as C10 goes; texts of three characters suffice for operators."),
 c("C09", "provenance of every name placed in a planned statement (gated terms): the text on both sides of each hole must open and close the dialect's quoting; word-for-word comparison of planned statements on symbolic schema pairs", "A name hole is a model field holding a user-chosen name; the quoting characters are those of the dialect."),
 c("C10", "end-to-end symbolic evaluation of literals (gated SSA): grammar action, constructor, conversion and text of the default clause per kind of literal and dialect; reads of number characters paired with writes", "The loop that scans a string literal is only covered by its escape table; two known findings about backslashes."),
 c("C13", "symbolic planner runs on schema pairs (gated SSA): the text of each definition as a function of the model's attributes, compared as a term with the definition the dialect requires, for every combination of the attributes", "The expected texts are written from the dialects' syntax, compared with quoting removed and as multisets."),
 c("C14", "symbolic planner runs on schema pairs (gated SSA): the removing statements of each run compared with the ones due", "A removing statement is one whose constant text starts a DROP or an ALTER … DROP."),
 c("C17", "constant propagation of the dialect from each command's main to driver, catalog queries, planner, grammar mode and tokenizer (gated SSA); forms and vocabulary of every planned statement per dialect; token starts per dialect by abstract interpretation of the dispatch", "The words and statement forms of each dialect are tables in analyzer/dialect.go; text copied from the user's schema is not judged."),
 c("C20", "symbolic evaluation of the printer on what each grammar rule makes of its symbols (81 Format methods, through the compiled semantic actions); the resulting text is compared with the rule itself or with a reviewed table; for every optional part the text without it must keep all other parts; identifier escaping evaluated character by character", "TrackedBuffer.Myprintf is modelled (%s %v %c %a); string escaping inside EncodeSQL is C10's; 19 findings are recorded."),
 c("C19", "abstract interpretation of the tokenizer (sets of possible current characters, advanced or not, per program point, context-sensitive): progress and end-of-input exit of every loop, reachability of its panics; index and slice bounds by dominating checks", "The generated parser is assumed to stop at the end token; recursion depth is not bounded."),
 c("C15", "case analysis of the converter for every statement kind and action (gated SSA, errors kept); grammar productions that skip the tail of a statement against the converter; specialisation of the planner to every kind of object against a missing table, an existing object and a second definition", "refused means that no outcome without an error is satisfiable"),
 c("C07", "the whole dump of each adapter as one closed term over the rows of the catalog queries (gated SSA with loops over rows as list repetitions, objects made per row resolved), compared with a description of the dump in terms of catalog columns under every combination of conditions; canonical forms of the catalog queries against reference queries", "what a catalog query means to the server is assumed; the text of a dumped definition is compared up to layout"),
 c("C16", "symbolic planner runs on schema pairs (gated SSA): the positions of dependent statements in the planned list compared under their guards", "Dependencies are those of the scenes: constraint before column, old definition before new, column before index."),
]
NOTES = "Static analysis of /repo: see DESIGN.md. Every check reads /repo's current source through go/packages and go/ssa on every run; known_findings.txt lists the recorded findings."
