#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe or [])))

GEN = "schema/generator.go"; PAR = "schema/parser.go"; AST = "schema/ast.go"
ADA = ["adapter/mysql/mysql.go", "adapter/postgres/postgres.go", "adapter/mssql/mssql.go", "adapter/sqlite3/sqlite3.go"]
CMD = ["cmd/mysqldef/mysqldef.go", "cmd/psqldef/psqldef.go", "cmd/mssqldef/mssqldef.go", "cmd/sqlite3def/sqlite3def.go"]

prop("C01", "Dry-run and export never write to the database",
 "When a sqldef command is run with --dry-run or with --export, it sends only reading statements to the database: no transaction is opened and no statement that can change the schema or the data is executed, whatever the schema file and the current database contain. Dumping the current schema uses only read-only queries in every mode.",
 ["inputs", "configurations"], "every schema file, current schema, flag combination and dialect",
 "Tests run dry-run for one SQLite table change; MySQL, PostgreSQL and SQL Server paths, and flag combinations, need live servers and cannot be enumerated.",
 ["sqldef.go", "adapter/database.go"] + ADA + CMD,
 [("early return on Export/DryRun before the apply step", "sqldef.go Run"), ("only select/show queries while dumping", "adapter/*/"), ("flag to option wiring", "cmd/*/ parseOptions")],
 ["statements reaching the SQL driver"])
prop("C02", "--skip-drop never lets a DROP statement reach the database",
 "With --skip-drop, no statement containing DROP is executed, and every statement sqldef itself synthesises to remove a table, view, trigger, policy, index, constraint, column or column property is one that this filter recognises and skips. The flag given on the command line is the one that is honoured, in apply and in dry-run alike.",
 ["inputs", "configurations"], "every generated plan in every dialect",
 "One SQLite test drops one table; the dozens of other statements that remove something are never generated under the flag.",
 ["sqldef.go", "adapter/database.go", GEN] + CMD,
 [("filter in the apply loop", "adapter/database.go RunDDLs"), ("texts of removing statements", GEN)],
 ["statements reaching the SQL driver"])
prop("C03", "Dry-run shows exactly what a real run would execute and skip",
 "For the same inputs and flags, --dry-run prints the same statements, in the same order, with the same 'Skipped' marking, as a real run prints and executes; every statement that a real run executes was printed first, verbatim.",
 ["inputs", "configurations"], "every plan and both values of --skip-drop",
 "The two code paths are separate loops; tests compare them on one example.",
 ["sqldef.go", "adapter/database.go"], [("preview loop", "sqldef.go showDDLs"), ("apply loop", "adapter/database.go RunDDLs")],
 ["stdout", "statements reaching the SQL driver"])
prop("C04", "A plan is applied inside one transaction, rolled back on error",
 "Applying a plan opens exactly one transaction, runs every statement of the plan through it, commits it exactly once after the last statement succeeded, and never commits after a failed statement. After a statement fails, no further statement is sent and the transaction is rolled back.",
 ["inputs", "fault_sequences"], "every plan and every position at which a statement or the commit fails",
 "No test makes a statement fail half-way, and the failing position is unbounded.",
 ["adapter/database.go", "sqldef.go"], [("Begin/Exec/Rollback/Commit protocol", "adapter/database.go RunDDLs")],
 ["driver calls"])
prop("C05", "No error of the database, the parser or the file system is dropped",
 "Every error reported by a database call (opening, querying, iterating, scanning, executing, committing), by reading the schema file, or by parsing reaches the caller as an error; none is discarded, only printed, or replaced by success, so a partial dump or a partial plan is never used as if it were complete.",
 ["inputs", "fault_sequences"], "every fallible call and every point at which it may fail",
 "Tests never inject faults, and three of the four adapters are not exercised at all without a server.",
 ["sqldef.go", "adapter/database.go", PAR, GEN] + ADA + CMD,
 [("error propagation by return values", "all packages except the SQL grammar")], ["returned errors", "exit status"])
prop("C06", "A failed step stops the run with a non-zero exit and no later step",
 "If connecting, dumping, reading the schema file, parsing, planning or applying fails, the command terminates with a non-zero exit status and a message, and performs none of the later steps; when every step succeeds it does not exit with an error.",
 ["inputs", "fault_sequences"], "every step, every cause of failure",
 "Exit statuses are observed by tests for successful SQLite runs only.",
 ["sqldef.go"] + CMD, [("sequence of steps guarded by err checks", "sqldef.go Run; cmd/*/ main")], ["exit status", "driver calls"])
prop("C07", "The dump covers every object and every attribute read from the catalog",
 "The dump of the current schema contains one entry for every table, view and trigger the catalog query returned, and each catalog attribute that the adapter reads (type, length, nullability, default, identity, check, uniqueness, key columns and their direction, included columns, index options, referential actions, replication flag, policy parts) determines the part of the definition it describes, separated so that the dump can be split into statements again.",
 ["inputs"], "every database content, in each of the four adapters",
 "Only the SQLite adapter is tested; catalog rows are arbitrary.",
 ["adapter/database.go"] + ADA, [("row loops and DDL builders", "adapter/*/")], ["output of --export"])
prop("C08", "Planning and dumping are deterministic and free of side effects",
 "The plan is a function of the dialect, the desired schema text and the current schema text only: computing it performs no I/O, reads no clock, environment, randomness or mutable global state and does not depend on map iteration order; for a given sequence of catalog rows the dump is a fixed text. The SQL grammar and planner layers never touch a database.",
 ["inputs", "histories", "schedules"], "every input pair and every repetition",
 "Nondeterminism shows up only in some runs, so no finite number of runs excludes it.",
 [GEN, PAR, AST, "sqlparser/"] + ADA, [("pure functions over parsed input", "schema/")], ["output of repeated runs"])
prop("C09", "Identifiers in generated DDL are quoted in the dialect's style",
 "In every statement the planner synthesises, each table, column, index, constraint, policy, trigger and view name taken from a schema is enclosed in the quoting characters of the target dialect, with quoting characters inside the name doubled, so that no name can end the identifier early; schema-qualified names are quoted part by part.",
 ["inputs"], "every identifier text in every synthesised statement of every dialect",
 "Names with reserved words, quotes or spaces are unbounded; tests use a few plain names.",
 [GEN], [("escapeTableName/escapeSQLName", GEN)], ["generated DDL"])
prop("C10", "Default values and literals survive into generated DDL unchanged",
 "A literal default value of the desired schema appears in generated column definitions as a literal denoting the same value: strings are quoted with embedded quotes escaped, numbers and bit values are not rounded, truncated or replaced, keywords are not quoted, and value kinds that cannot be rendered are reported as an error.",
 ["inputs"], "every literal of every kind", "Literal values are unbounded; tests try a handful of simple ones.",
 [GEN, PAR], [("generateDefaultDefinition", GEN), ("parseValue", PAR)], ["generated DDL"])
prop("C11", "Every parsed attribute reaches the planner's model in the right place",
 "Each attribute that a statement's text gives a table, column, index, foreign key, policy, view, trigger, default, identity, sequence or check is put by the grammar into the part of the parsed tree that means it, and each that the planner models is taken from the parsed attribute of the same meaning; on the way none is lost, swapped with another, inverted or replaced by a constant, and enumerations are mapped value by value.",
 ["inputs"], "every parsed statement of each kind",
 "The conversion has some eighty attribute transfers; the SQLite tests observe few of them.",
 [PAR, AST], [("parseTable/parseIndex/parseDDL conversions", PAR), ("semantic actions of create_statement and alter_statement", "sqlparser/parser.y")], ["generated DDL"])
prop("C12", "Exactly the differences between current and desired are acted upon",
 "If current and desired definitions are equal in every attribute, nothing is generated for them; if they differ in an attribute that the dialect's planner manages (column type, length, sign, nullability, default, check, identity, charset, collation, on-update, position, array, key columns and direction, index kind, predicate, included columns, options, referential actions, policy parts, view and trigger definitions), a statement for that object is generated.",
 ["inputs"], "every pair of current and desired definitions, one attribute at a time, in each dialect",
 "Comparators combine dozens of attributes; an attribute that silently stops mattering changes no tested example.",
 [GEN], [("haveSame*/areSame* comparators", GEN)], ["generated DDL"])
prop("C13", "Regenerated definitions carry every attribute of the desired object",
 "A column, index, key, foreign key, identity or sequence that sqldef adds or redefines is written with every attribute its desired definition has and with none that it lacks, in the position its dialect's syntax requires, so that applying the statement does not silently reset an attribute.",
 ["inputs"], "every combination of attributes in each dialect",
 "Combinations of some twenty optional attributes are not enumerable by example.",
 [GEN], [("generateColumnDefinition, generateAddIndex, generateForeignKeyDefinition, generateSequenceClause", GEN)], ["generated DDL"])
prop("C14", "Nothing is dropped that the desired schema still contains unchanged",
 "A statement that removes a table, view, column, index, key, constraint, default, identity, policy or trigger is generated only when the desired schema lacks that object or defines it differently; conversely tables, views, columns, indexes, foreign keys and policies that the desired schema lacks are removed (unless the dialect offers no such statement).",
 ["inputs"], "every pair of schemas", "Data loss depends on the combination of objects; tests remove a few objects each.",
 [GEN], [("existence lookups guarding each removal", GEN + " generateDDLs")], ["generated DDL"])
prop("C15", "Statements that cannot be handled are refused, never ignored",
 "Every statement in the schema file is either turned into a planned object or reported as an error: unsupported statements, unknown kinds of DDL, objects for missing tables, doubly defined objects, and unknown dialects are refused, and an error never leaves behind a plan that is used.",
 ["inputs"], "every statement of every schema file", "The set of unsupported statements is unbounded.",
 [PAR, GEN], [("default branches returning errors", PAR + " parseDDL; " + GEN + " generateDDLs")], ["error output", "generated DDL"])
prop("C16", "Dependent statements are ordered so that each can be executed",
 "Within a plan, an object that is replaced is dropped before it is added again; foreign keys are dropped before the indexes and columns they use, constraints on a column before the column; columns are added before keys and indexes using them; AUTO_INCREMENT is removed before the key it needs and added after it.",
 ["inputs"], "every plan", "Ordering matters only for combinations of changes that tests do not combine.",
 [GEN], [("phases of generateDDLs and generateDDLsForCreateTable", GEN)], ["generated DDL"])
prop("C17", "Each command speaks one dialect, end to end",
 "Each command connects with its own database's driver, parses both schemas with that dialect's grammar mode, and synthesises only statement forms that this dialect's syntax has.",
 ["configurations", "inputs"], "each of the four commands, every plan", "Three of four commands need servers and are never run.",
 [GEN, PAR] + ADA + CMD, [("mode constants passed from main to planner to parser", "cmd/*, schema/"), ("per-mode switches", GEN)], ["generated DDL"])
prop("C18", "Connection options are honoured completely",
 "Every connection option of a command (user, password, host, port, socket, database name and the documented environment variables and prompt) reaches the connection exactly once and in its own place, with the documented precedence and correctly escaped.",
 ["configurations"], "every combination of options and environment variables",
 "Option combinations and special characters are unbounded and need servers.",
 ADA + CMD, [("parseOptions", "cmd/*"), ("buildDSN", "adapter/*")], ["DSN given to the driver"])
prop("C19", "Tokenising any text terminates without a crash",
 "For every input text, complete, truncated or malformed, the tokenizer always makes progress, stops at the end of the input, and returns an error token rather than panicking or reading past the end.",
 ["inputs"], "every byte string", "The failing inputs are truncations inside quotes, comments and escapes at arbitrary places.",
 ["sqlparser/token.go"], [("EOF checks in each scanning loop", "sqlparser/token.go"), ("consumeNext end-of-input panic", "sqlparser/token.go")], ["Parse* results"])
prop("C20", "Printing a parsed statement loses no part of it",
 "The text that is compared and re-emitted for a parsed expression or statement (a CHECK or policy condition, the predicate of a partial index, the definition of a view, the body of a trigger) is what was written: it has every part that was parsed, in its place and under its keyword, prints each optional part exactly when it was there without taking another part away, keeps every character of names and literals, and never fails to be printed.",
 ["inputs"], "every parsed expression, query, INSERT, UPDATE and DELETE, whatever parts it has", "Round-trip tests sample node kinds; some kinds and most combinations of optional parts have no sample.",
 ["sqlparser/ast.go", "sqlparser/tracked_buffer.go", "sqlparser/parser.y"], [("Format methods", "sqlparser/ast.go"), ("uses of sqlparser.String", "schema/parser.go:132,248,382,403,408")], ["sqlparser.String output", "generated DDL"])
prop("C21", "The compiled grammar is the grammar in the source",
 "The parser that is compiled into the commands is exactly the one its grammar source describes: same tables, same rules, same semantic actions.",
 ["inputs", "programs"], "every grammar rule", "A divergence affects only inputs reaching the divergent rule.",
 ["sqlparser/parser.go", "sqlparser/parser.y"], [("generated tables and actions", "sqlparser/parser.go")], ["Parse* results"])
prop("C22", "Result sets and transactions are always released",
 "Every result set opened while dumping is closed and every transaction begun is committed or rolled back on every path, including every error path, and none is used after it was closed.",
 ["fault_sequences", "inputs"], "every path through every function that opens one", "Leaks and late uses appear on error paths that tests never take.",
 ["adapter/database.go"] + ADA, [("defer rows.Close()", "adapter/*"), ("Rollback/Commit", "adapter/database.go")], ["driver calls"])

prop("C23", "Words, operators, quotes and comments are read as the right tokens",
 "Every keyword is recognised in any letter case and is the token of its name, and every token the grammar uses has a word or an operator that gives it. Any other word is an identifier with its text unchanged. Of several operators that begin alike the longest is taken. Which quotes make a string and which a name follows the dialect, and a quoted text ends at its own closing quote (doubled quotes belong to it). Numbers with a point or an exponent are not taken for integers. A comment to the end of the line ends with the line, and a block comment at its \"*/\".",
 ["inputs", "configurations"], "every text of a schema file, in every dialect", "Tests read a few hundred statements; a keyword, an operator or a quoting in none of them can silently become something else.",
 ["sqlparser/token.go", "sqlparser/parser.y"], [("keywords, keywordStrings", "sqlparser/token.go"), ("Scan", "sqlparser/token.go Tokenizer.Scan"), ("scanIdentifier, scanNumber, scanString, scanLiteralIdentifier, scanCommentType1/2", "sqlparser/token.go")], ["tokens given to the parser"])

NA = []
def na(id, title, statement, over, text, why, files, reason):
    prop(id, title, statement, over, text, why, files, [])
    NA.append(dict(property=id, reason=reason))
na("C30", "Applying the plan makes a second run find nothing to do",
 "After a plan has been applied successfully, dumping the database again and planning against the same schema file yields an empty plan.",
 ["histories", "inputs"], "every pair of schemas on every server version", "Needs the servers' own normalisation of definitions.",
 [GEN], "Convergence depends on how each database server normalises and prints definitions after executing the statements; the source under analysis does not contain that behaviour, so no static argument about this code base can decide it. Its decidable necessary parts (equal definitions generate nothing; added objects carry all attributes) are claimed as C12 and C13.")
na("C31", "Tables are created in an order that satisfies references between them",
 "Tables that reference each other are created, altered and dropped in an order the database accepts.",
 ["inputs"], "every graph of references", "Reference graphs are unbounded.",
 [GEN], "The planner keeps the order of the schema file by design and does not claim to sort; whether a given order is acceptable is a property of the input file and the server, not of a construct in the source.")
na("C32", "Every valid DDL statement of each dialect is accepted by the parser",
 "Every CREATE TABLE/INDEX/VIEW/TRIGGER/POLICY statement valid in a dialect is parsed.",
 ["inputs"], "every valid statement", "The dialects' grammars are external.",
 ["sqlparser/parser.y"], "There is no oracle in the repository for the dialects' grammars, and the project documents that it supports a subset; language inclusion between the vendor grammars and this LALR grammar is not decidable by an analysis in reach.")
na("C33", "Concurrent schema changes by other clients do not corrupt a run",
 "If another client changes the schema between dumping and applying, the run fails or applies a correct plan.",
 ["schedules", "histories"], "every interleaving with other clients", "Needs concurrent clients of real servers.",
 ["sqldef.go", "adapter/database.go"], "The dump is deliberately taken outside the transaction and there is no locking in the source; the outcome is decided by the servers' isolation and DDL semantics, which are outside the analysed program.")

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    from checks import CHECKS, NOTES
    claimed = {c["property"] for c in CHECKS}
    nas = list(NA) + [dict(property=p["id"], reason="check not built yet") for p in P
                      if p["id"] not in claimed and p["id"] not in {n["property"] for n in NA}]
    m = dict(version=1, setup_cmd="bash ./setup.sh", checks=CHECKS, not_applicable=nas, notes=NOTES)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    for p in P: assert len(p["title"]) <= 80, p["title"]
