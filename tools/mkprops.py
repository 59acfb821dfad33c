#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


PARSER = ["miniquery/miniquery.peg", "miniquery/miniquery.peg.go", "miniquery/tree.go", "miniquery/parse.go", "miniquery/node.go"]
GORM = ["gormq/miniquery.go", "miniquery/tree.go", "miniquery/parse.go", "miniquery/join.go"]
ENTSQL = ["entmq/entsql.go", "entmq/entsql_util.go", "miniquery/tree.go"]
ENTQL = ["entmq/entql.go", "miniquery/tree.go"]

prop("C01", "Parsing any text ends with exactly one of a complete tree or an error",
     "For every input text, parsing returns without crashing, and returns either an error and no tree, or no error and one complete tree: every node is of a documented kind, carries the parts that kind requires, and nothing is missing or shared. The error can always be printed, and an accepted tree can always be printed and turned back into text.",
     ["inputs"], "all byte strings: random bytes, invalid UTF-8, token soup, mutated valid queries, deep nesting and long chains",
     "The tests parse about 45 hand-written valid texts and one invalid one; crashes on hostile text, half-built trees and trees with missing parts are never looked for.",
     PARSER, [("generated PEG matcher and action replay", "miniquery/miniquery.peg.go"), ("stack actions that assemble nodes", "miniquery/tree.go"), ("Parse error handling", "miniquery/parse.go")],
     ["return values of the parse function", "panics and fatal errors of the process"])

prop("C02", "The accepted language and the tree of every query are those of the grammar",
     "A text is accepted exactly when the documented grammar derives it and every construct in it is supported. The tree of an accepted text has the grouping the text spells out: not covers one comparison, and binds tighter than or, chains group from the left, parentheses are kept, every operator is attached to its own operands.",
     ["inputs", "programs"], "all texts over the query alphabet: queries generated from the grammar at every nesting of constructs, and mutations of them",
     "The parse tests check acceptance of fixed texts only and print the trees without comparing them; the shape of the tree is checked for none of them.",
     PARSER, [("rule order and lookahead of the grammar", "miniquery/miniquery.peg"), ("precedence and reduction actions", "miniquery/tree.go PopLogic, PopNot, PopCompare, PopBetween, PopPredicate, PopFunction")],
     ["accept or reject decision", "the returned tree"])

prop("C03", "Literals and names arrive in the tree exactly as written",
     "A string literal yields exactly the characters between its quotes, an integer literal its exact value or an error when it does not fit, booleans and null themselves, a list its elements in order and nothing else, and a name or dotted path its exact spelling. No literal ever turns into a name or the reverse.",
     ["inputs"], "all literal values: strings over all valid Unicode including quotes, comment markers, control characters and backslashes; integers around every power of two and ten; lists of 0 to thousands of elements; names of every shape",
     "Tests assert the value of one integer literal; no string, list, boundary integer or name value is asserted anywhere in the parser tests.",
     PARSER, [("text capture between quotes", "miniquery/miniquery.peg String, Integer, Array"), ("literal actions", "miniquery/tree.go AddString, AddInteger, AddBoolean, PopArray")],
     ["values in the returned tree and the value accessor"])

prop("C04", "Layout, keyword case and operator synonyms never change the meaning",
     "Two texts that differ only in white space, line ending style, comments between or inside multi-word operators, letter case of case-insensitive keywords, bracket style or trailing comma of a list after in, or the choice among synonymous operators produce equal trees, or are both rejected. The operator normalisation gives every spelling of an operator, in any case and layout, the same canonical name.",
     ["inputs"], "all pairs of layout variants of a query, at every gap between tokens",
     "Tests contain a handful of extra spaces; comments, line ending variants, and comments inside operators appear in no test.",
     PARSER, [("space and comment rules", "miniquery/miniquery.peg _ and __"), ("operator normalisation", "miniquery/tree.go NormalizeOperation")],
     ["trees of both variants"])

prop("C05", "Turning a tree back into text and parsing it again gives the same tree",
     "For every accepted query, the text printed from its tree is accepted again and yields an equal tree, so it means the same. Printing that tree once more yields the same text.",
     ["inputs"], "all accepted queries, including every operator, nesting, function name and string content",
     "The tests only check that the printed text of fixed queries is accepted, not that it still says the same.",
     ["miniquery/node.go", "miniquery/tree.go", "miniquery/miniquery.peg"], [("text builder", "miniquery/node.go Build, buildValue, printPretty")],
     ["printed text and its reparsed tree"])

prop("C06", "Joining queries means the conjunction of exactly the given queries",
     "Joining a list of queries that are each accepted, with at least one that is not blank, yields an accepted query whose meaning is the conjunction of all the non-blank members, each grouped as a unit and in the given order. No member can change how another one is read.",
     ["inputs", "configurations"], "all lists of accepted queries of length 1 to hundreds with blanks in any position",
     "Three fixed lists are joined in tests; members containing or, comments or blanks are not.",
     ["miniquery/join.go", "miniquery/tree.go"], [("wrapping each member in parentheses", "miniquery/join.go Join")],
     ["tree of the joined text"])

prop("C07", "Walking a tree visits every part once, in order, and stops on the first error",
     "A visitor with default handlers visits every node of an accepted query exactly once, in source order, and calls the handler registered for that kind of node. When a handler returns an error the walk returns that same error and calls no further handler, and a handler that takes over a kind sees its whole subtree.",
     ["inputs", "configurations", "fault_sequences"], "all accepted queries, all subsets of overridden handlers, and a failing handler at every position",
     "No test uses the visitor.",
     ["miniquery/visitor.go"], [("default traversal handlers", "miniquery/visitor.go Init"), ("dispatch by kind", "miniquery/visitor.go Visit")],
     ["sequence of handler calls", "returned error"])

prop("C08", "The work of handling a query stays proportional to a low power of its length",
     "The number of executed steps for parsing, printing, walking, joining and translating a query grows at most quadratically with its length for every repetitive shape of text, accepted or rejected. No short text can make the parser backtrack exponentially.",
     ["inputs"], "families of nested and repeated constructs, complete or truncated at the end, with doubling length",
     "Tests use texts of at most 60 characters, where exponential and linear behaviour look the same.",
     PARSER + ["gormq/miniquery.go", "entmq/entsql.go", "entmq/entql.go"], [("grammar without ambiguous repeated prefixes", "miniquery/miniquery.peg")],
     ["execution counters of the code under test"])

prop("C09", "Results depend only on the query given, not on what was handled before",
     "Handling a query never changes its tree, its input values, or anything another query will see, so the same query always yields the same tree, text, SQL and arguments, whatever was parsed, printed or translated before and however often a scope is reused. Trees returned by separate calls share no mutable parts.",
     ["histories", "inputs"], "random interleavings of parse, print, walk and translate operations, including failing ones, over a shared pool of queries, trees and scopes",
     "Each test handles every query once from scratch; reuse, interleaving and mutation are not looked at.",
     PARSER + ["miniquery/visitor.go", "miniquery/join.go", "gormq/miniquery.go", "entmq/entsql.go", "entmq/entql.go"],
     [("per-call parser and builder state", "miniquery/parse.go, gormq/miniquery.go WireMiniQuery, entmq/entql.go Build")],
     ["snapshots of trees and inputs before and after", "results compared with the first ones"])

prop("C10", "Concurrent use is free of data races and gives the sequential results",
     "Any number of goroutines may parse, print, walk, join and translate queries at the same time, sharing parsed trees, scopes and schemas read-only. No data race occurs and every result equals the one obtained sequentially.",
     ["schedules", "histories"], "goroutine interleavings of mixed operations over shared trees, scopes, schema graphs and database handles",
     "All tests are single threaded and the race detector is not part of the test command.",
     PARSER + ["miniquery/visitor.go", "gormq/miniquery.go", "entmq/entsql.go", "entmq/entql.go"],
     [("no shared mutable state between calls", "miniquery/tree.go, gormq/miniquery.go, entmq/entsql.go")],
     ["race detector reports", "results per goroutine"])

prop("C11", "The gorm filter selects exactly the rows the query describes",
     "Applied to a gorm query on a model, a query over the model's own columns returns exactly the rows for which the query is true under SQL rules for null, with the operator grouping of the query language.",
     ["inputs", "configurations"], "all queries over typed columns with every operator, nesting, null, negation and literal kind, against tables with boundary values and nulls",
     "Tests compare three generated WHERE texts and never look at which rows come back.",
     GORM, [("SQL text generation", "gormq/miniquery.go visit, normalizeSQL"), ("column mapping", "gormq/miniquery.go getDBName")],
     ["rows returned by the database"])

prop("C12", "A gorm filter through a relation selects by the one related record",
     "A condition on relation.field is decided on the related record of each row, with null when there is none, and combines with conditions on the model's own columns even when both tables share column names. Every row appears at most once, no row is lost because of the join, and relations that can have many records are refused.",
     ["inputs", "configurations"], "all queries mixing own columns and one-level references to belongs-to, has-one and self relations; with and without missing related rows, soft delete and shared names",
     "One generated text with a single reference is compared; no rows are checked and no relation other than belongs-to appears.",
     GORM, [("join registration and qualification", "gormq/miniquery.go join, mapName")],
     ["rows returned by the database", "errors for refused relations"])

prop("C13", "Literals reach the database only as bound values, never as SQL text",
     "For every accepted query the SQL text produced through gorm depends only on the structure and the columns of the query, never on the content of its literals, and the bound values are exactly the literals in order of appearance. Every name in the text is a quoted column or relation of the model.",
     ["inputs"], "all queries with hostile string content, list lengths, extreme integers and hostile names, over the supported dialect quoting styles",
     "Two bound argument lists are compared for plain values; hostile content is never tried.",
     GORM, [("placeholders for values", "gormq/miniquery.go visit"), ("identifier quoting", "gormq/miniquery.go quote")],
     ["SQL text and arguments handed to the connection"])

prop("C14", "A gorm filter only ever narrows what the surrounding query selects",
     "Combined with other conditions, other filters, soft delete or further members of a query list, the result is exactly the intersection of all of them, in any order of application. No member of a list, however malformed, can widen or escape its own condition.",
     ["inputs", "histories", "configurations"], "all combinations of existing conditions, several filters and query lists including malformed members and unbalanced parentheses",
     "Tests apply a single filter to an otherwise unconditional query.",
     GORM, [("wrapping members and checking each one", "gormq/miniquery.go Scope, miniquery/join.go"), ("conjunction with existing conditions", "gormq/miniquery.go WireMiniQuery")],
     ["rows returned by the database", "errors"])

prop("C15", "A rejected filter never reaches the database through gorm",
     "When a query cannot be parsed, names an unknown column, relation or function, refers through more than one level, or no model is known, the operation carries an error and no statement of it is executed: nothing is selected, counted, updated or deleted. Applying a filter never panics.",
     ["inputs", "fault_sequences"], "all kinds of invalid queries at every position inside valid ones, combined with find, count, first, pluck, update and delete operations",
     "One malformed query is tried with a find in dry-run mode.",
     GORM, [("error recording on the gorm handle", "gormq/miniquery.go WireMiniQuery")],
     ["statements seen by the connection", "error of the operation", "table content"])

prop("C16", "A name in a gorm filter is resolved to the model's own column or refused",
     "A name that equals a column name, a field name, or a field name up to letter case refers to that column of the model, column names taking precedence, including renamed, embedded and keyword-like ones. Any other name, including fields without a column, is refused with an error that mentions it.",
     ["inputs", "configurations"], "all models with renamed, embedded, ignored, colliding and prefixed fields; all spellings of their names and near misses; naming strategies",
     "One model with plain fields is used, with two spellings of two fields.",
     ["gormq/miniquery.go"], [("name lookup", "gormq/miniquery.go getDBName, GetOrParseSchema")],
     ["column used in the SQL text", "error text"])

prop("C17", "The ent SQL filter selects exactly the rows the query describes",
     "Joined into an ent selector, a query over the table's columns returns exactly the rows for which the query is true under SQL rules for null, in conjunction with the other predicates of that selector, with type casting on or off.",
     ["inputs", "configurations"], "all queries over typed columns with every supported operator and nesting, alone and among other predicates, against tables with boundary values and nulls",
     "Thirteen generated texts are compared without ever being executed.",
     ENTSQL, [("SQL generation", "entmq/entsql.go visit"), ("grouping of alternatives and ranges", "entmq/entsql.go Query, visitOperand")],
     ["rows returned by the database"])

prop("C18", "An edge condition in the ent SQL filter is decided on the neighbours",
     "A condition on an edge holds for exactly the rows that have at least one neighbour over that edge satisfying the inner condition, or any neighbour when no condition is given. This holds for one-to-one, one-to-many, many-to-one and many-to-many edges in both directions, edges back to the same table, nested edges, and combined with and, or and not.",
     ["inputs", "configurations"], "all queries with edge conditions up to three levels over schemas with every edge kind and colliding column names",
     "No test uses an edge condition.",
     ENTSQL, [("neighbour subqueries", "entmq/entsql.go has_edge")],
     ["rows returned by the database"])

prop("C19", "Ent SQL text and arguments line up in every dialect and context",
     "In every dialect, the placeholders of the generated text correspond one to one and in order to the returned arguments, which are the literals of the query, with numbering that continues the surrounding statement. The text does not depend on literal content except for a cast wide enough for the value, which integers and booleans outside lists carry exactly when casting is on and the dialect is PostgreSQL; names are quoted, and every argument is a value a database driver accepts.",
     ["inputs", "configurations"], "all queries, three dialects, casting on or off, stand-alone, inside a selector with earlier and later arguments, or written to a given builder",
     "Only one dialect, with casting off and stand-alone, is tested on thirteen texts.",
     ENTSQL, [("argument and placeholder writing", "entmq/entsql.go visit"), ("casts", "entmq/entsql_util.go")],
     ["SQL text and argument list"])

prop("C20", "The ent SQL filter reports what it cannot express and yields no SQL for it",
     "When a query cannot be parsed, uses an unsupported function, operator, path or edge, or an edge with wrong parameters, the builder carries an error, at any nesting depth including inside edge conditions, and contributes no text or arguments. The error also reaches the statement the builder is joined into, and building never panics.",
     ["inputs", "fault_sequences"], "all kinds of unsupported constructs at every position inside supported queries, with and without schema information",
     "No test contains an unsupported construct.",
     ENTSQL, [("error collection", "entmq/entsql.go Query, has_edge")],
     ["builder error", "returned text"])

prop("C21", "The ent predicate built from a query means what the query says",
     "The predicate built for a supported query, evaluated against the schema and executed, selects exactly the rows for which the query is true under SQL rules for null. Its structure has the same operators, operands and grouping as the query.",
     ["inputs", "configurations"], "all supported queries: comparisons, lists, ranges, and, or, not and parentheses at every nesting",
     "Five printed predicates are compared and none is evaluated; not is absent.",
     ENTQL, [("predicate construction", "entmq/entql.go visit, entqlOpMap")],
     ["predicate structure and rows returned by the database"])

prop("C22", "Building ent predicates refuses what it cannot express, and drops nothing",
     "When a query is malformed or contains something the ent predicate language lacks, building returns an error and no predicate; it never panics and never returns a predicate for only part of the query. Applying several queries adds one predicate per non-empty query in order, and stops with an error at the first one refused.",
     ["inputs", "fault_sequences", "histories"], "all kinds of unsupported constructs at every position inside supported queries; lists of queries with a refused one at every position",
     "No test contains an unsupported construct or applies a list.",
     ENTQL, [("error returns", "entmq/entql.go visit, Build, ApplyEntQL")],
     ["returned predicate and error", "predicates received by the target"])

prop("C23", "The description and classification of a tree tell what it is",
     "The description of the tree of any accepted query is produced without failure, is the same for equal trees, and differs for two trees that differ in the kind of a node, an operator, a name, a literal or their arrangement, provided the literals' texts show their type. A node is called a value exactly when it is a literal or a list, and an expression exactly when it is not a literal, list, name, path or operator.",
     ["inputs"], "all accepted queries and pairs of trees that differ in one detail",
     "No test looks at a description or a classification; they appear in error messages and in the decision whether an edge condition is one.",
     ["miniquery/node.go"], [("description", "miniquery/node.go String"), ("classification", "miniquery/node.go IsValue, IsExpression")],
     ["description text", "classification of every node"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
