#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})


prop("C01", "Generated ids are unique and increasing under any clock and concurrency",
     "Every id a generator returns is greater than all ids it returned before, whatever the wall clock does in between (stands still, jumps back or forward) and however many goroutines ask at once. Ids returned to different goroutines are never equal, and generators with different machine ids never return the same id. A provider and its transactions return the ids of the generator they were given, with the times of that generator, and a generator reports the first and the last id it returned.",
     ["schedules", "histories", "inputs"],
     "every sequence of clock readings and calls, from any number of goroutines and generators",
     "The tests run with the real, well-behaved clock and a dozen goroutines; sequence wrap-around, a clock which steps back, and their combination with concurrency are never reached on purpose.",
     ["pkg/flake/flake.go"],
     [("mutex around the whole step", "pkg/flake/flake.go NextID"), ("sequence counter with carry into the time part", "pkg/flake/flake.go NextID")],
     [("elapsedTime, sequence", "last time slot and number in it", "pkg/flake/flake.go Flake")], ["NextID results"])

prop("C02", "An id carries its creation time, sequence and machine id, or creation fails",
     "The time decoded from an id is the time at which it was generated, to one time unit (later only while the generator is catching up with the clock), and its machine part is the configured machine id; the parts of a decomposed id reassemble to the id. An id never overflows the 63-bit layout: a generator which runs over the representable time, starts in the future or has a rejected machine id panics instead of returning a wrong id.",
     ["inputs", "configurations", "histories"],
     "every start time, machine id and clock history",
     "The tests read back one or two ids near the present with the default configuration.",
     ["pkg/flake/flake.go", "prov.go"],
     [("bit layout", "pkg/flake/flake.go toID, Decompose"), ("time offset by the start time", "pkg/flake/flake.go IDTime"), ("settings checks", "pkg/flake/flake.go NewIDGenerator")])

prop("C03", "Every placeholder of a built statement is bound to its own argument",
     "For every sequence of builder calls, the argument list of the statement has exactly one argument per placeholder, and the n-th placeholder of the rendered text is bound to the argument that was passed with the fragment this placeholder comes from. This holds after every call, with clauses added in any order, with nested queries, unions, CTEs, IN lists, multi-row inserts and repeated limits.",
     ["programs"],
     "every sequence of builder calls, nested to any depth, in every dialect",
     "The tests render a few dozen fixed statements, nearly all of them with clauses in their textual order and few with nested arguments in the middle.",
     ["xsql/stmt.go", "xsql/util.go", "xsql/pool.go"],
     [("arguments inserted before those of later clauses", "xsql/stmt.go addChunk"), ("insertAt", "xsql/util.go")],
     [("chunks", "clauses with their argument counts", "xsql/stmt.go Stmt")], ["String()", "Args()"])

prop("C04", "A built statement has exactly the clauses of the calls, in SQL order",
     "The rendered statement contains every fragment passed in, exactly once, inside its own clause, with the clause keyword once and the fragments joined by the clause's separator in call order; clauses appear in SQL order whatever the call order. Line breaks change white space only, scan targets keep the order of the calls, and setting a limit, an offset or a page again replaces the earlier value.",
     ["programs"],
     "every sequence of builder calls; permutations of calls for different clauses",
     "The tests compare fixed statements; the chunk merging and insertion paths depend on the order and number of calls.",
     ["xsql/stmt.go", "xsql/dialect.go"],
     [("position-sorted clause chunks", "xsql/stmt.go addChunk"), ("rendering by chunk", "xsql/stmt.go String")])

prop("C05", "Dialects render the same statement, PostgreSQL with $1..$n",
     "For every program of builder calls the PostgreSQL text equals the default text with the placeholders numbered $1, $2, ... from left to right without gaps, nested queries included, and every escaped question mark turned into a plain one; the arguments are equal in all dialects. SQL Server text equals the default text. The package-level functions build in the default dialect of the moment; setting another default does not change statements begun before.",
     ["programs"],
     "every sequence of builder calls over the three dialects, escaped question marks anywhere",
     "A handful of fixed PostgreSQL statements are tested; numbering across merged chunks, nested queries of another dialect and escapes are not.",
     ["xsql/dialect.go", "xsql/stmt.go"],
     [("placeholder rewriting", "xsql/dialect.go writePg"), ("nested queries rendered in the neutral dialect", "xsql/stmt.go SubQuery, Union")])

prop("C06", "A statement does not depend on the statements built before it",
     "The text, the arguments and the scan targets of an unnamed statement depend only on the calls made on it: other statements that were built, read, cloned, cached or closed before or at the same time, in any dialect, never change it.",
     ["histories", "programs"],
     "every history of statements, including ones made of the same text in another layout or dialect",
     "Each test builds its own statement, and two statements of the same text with another layout never meet.",
     ["xsql/stmt.go", "xsql/pool.go", "xsql/cache.go"],
     [("cache key", "xsql/stmt.go String"), ("reset on reuse", "xsql/pool.go getStmt, reuseStmt")],
     [("cache", "rendered texts per dialect", "xsql/dialect.go Dialect"), ("stmtPool", "closed statements to be reused", "xsql/pool.go")])

prop("C07", "A clone equals its original and is independent of it",
     "A clone renders the same text with the same arguments and scan targets as its original, and any further call has the same effect on the clone as it would have on the original. Calls on one side, and closing it, never change the other one.",
     ["programs", "histories"],
     "every program, every point of cloning, every pair of continuations",
     "The tests clone one statement and extend it once.",
     ["xsql/stmt.go", "xsql/pool.go"],
     [("copy of the buffers", "xsql/stmt.go Clone")])

prop("C08", "Independent values can be used from many goroutines without races",
     "Building, rendering and closing different statements, looking up cached queries, generating ids, reading ids or table descriptions shared by several goroutines, listing tables and keys through one schema provider, and sending queries over one provider are free of data races and give each goroutine the result it would get alone.",
     ["schedules"],
     "every interleaving of goroutines doing these operations",
     "The tests use the packages from one goroutine, except for the id generator, and are not run with the race detector.",
     ["xsql/pool.go", "xsql/cache.go", "id.go", "schema/schema.go", "pkg/flake/flake.go", "prov.go"],
     [("sync.Pool and sync.Map", "xsql/pool.go, xsql/cache.go"), ("mutex", "pkg/flake/flake.go NextID")])

prop("C09", "Named queries are cached by dialect and name",
     "A query stored under a name is returned, unchanged, by every later lookup of that name in the same dialect, and only there: other names and dialects are not affected. Get-or-create calls the create function only when the name is not cached, returns the text that function built, and caches it.",
     ["histories"],
     "every history of lookups, get-or-create calls and named statements over names and dialects",
     "One test stores three names in one dialect.",
     ["xsql/cache.go", "xsql/stmt.go"],
     [("cache by name", "xsql/cache.go GetOrCreateQuery, PutCachedQuery, GetCachedQuery")])

prop("C10", "Executing a statement has the effect its calls describe",
     "A statement executed against a database returns the rows, binds the scan targets, or makes the changes that its calls describe: filters, IN lists, ordering, grouping, limits, pages, multi-row inserts, updates and deletes agree with a direct evaluation over the table's rows. A failing query or scan is reported as an error.",
     ["programs", "inputs"],
     "every table content and every statement over it",
     "The executor tests run a few fixed statements over three small tables.",
     ["xsql/executor.go", "xsql/stmt.go"],
     [("argument and target passing", "xsql/executor.go Query, QueryRow, Exec")])

prop("C11", "Paging by offset visits every row exactly once and ends",
     "For every table and page size, requesting a page, then the page at the offset returned, and so on until no further page is announced, returns the rows of the unpaged query, each exactly once and in order, in at most one request more than there are pages. The next offset is zero exactly when no next page is announced.",
     ["inputs", "histories"],
     "every number of rows, page size and start offset, arguments as list or as query parameters",
     "The tests that reach paging need a live database server, and check one page.",
     ["query.go", "params.go"],
     [("next offset", "query.go ExecuteQueryWithPagination"), ("limit and offset as last arguments", "params.go SetPage")])

prop("C12", "Paging by cursor visits every row once and cursors survive the round trip",
     "Following the cursor of the last row from page to page visits every row of the ordered query exactly once and ends. Decoding an encoded cursor yields the values that were encoded, for any non-empty set of values, including integers of all 64 bits, as their accessors return them; a string which is not a cursor is refused with an error.",
     ["inputs", "histories"],
     "every row set, page size and cursor content; arbitrary strings as cursors",
     "The tests encode one small cursor.",
     ["query.go", "params.go"],
     [("cursor encoding", "query.go EncodeCursor, DecodeCursor"), ("cursor paging", "query.go ExecuteQueryWithCursor")])

prop("C13", "A failing read is never reported as a shorter result, and frees its rows",
     "When the query, any row, any scan or the end of the iteration fails, the row-reading functions return an error instead of a shorter list, and do not set a result. In every outcome the result set is closed, so that the connection can be used again; without a fault they return every row in order.",
     ["fault_sequences", "inputs"],
     "a fault at every position of every result set, for each of the list, page, cursor and single row functions and the statement executor",
     "The tests use healthy databases; a connection which breaks in the middle of a result set is never simulated.",
     ["query.go", "xsql/executor.go"],
     [("error check after the iteration", "query.go ExecuteListQuery; xsql/executor.go Query"), ("deferred close", "query.go ExecuteListQuery")])

prop("C14", "Query parameters keep arguments, flags and names in step",
     "The argument list holds the values in the order they were set, with limit and offset (or cursor and limit) last; positions, enums, flags, page and cursor read back as set, and misuse panics. The name depends only on the current shape of the parameters, equal shapes give equal names and different shapes different names, whenever it is read; a reset makes the parameters like new.",
     ["histories", "inputs"],
     "every history of set, read and reset calls",
     "The tests build a few fixed parameter sets and read the name once at the end.",
     ["params.go"],
     [("name from positions, enums, flags, paging and null columns", "params.go Name"), ("order check", "params.go checkPage")],
     [("hash", "cached name", "params.go QueryParamsBuilder")])

prop("C15", "A transaction is all or nothing, isolated, and usable after either end",
     "Changes made through a transaction become visible all together on commit and not at all after a rollback, a close or a failed commit, and the outer provider keeps working. Nested transactions and commits without a transaction are refused with an error, rolling back or closing a finished transaction is harmless, and the requested transaction options reach the database.",
     ["histories", "fault_sequences"],
     "every history of begin, write, read, commit, rollback and close calls; begin, commit and rollback failing",
     "The tests need a live database server and run one transaction.",
     ["prov.go"],
     [("provider bound to the transaction", "prov.go BeginTx"), ("commit and rollback", "prov.go Commit, Rollback, Close")])

prop("C16", "A provider can be closed at any time, and releases everything",
     "After a provider is closed, repeatedly or not, no goroutine, timer or connection of it is left, further calls return errors instead of crashing, and closing again is harmless. While open it keeps the connection alive, and a failing ping does not stop it.",
     ["histories", "schedules", "fault_sequences"],
     "every history of use and close, including a close at the moment of a ping",
     "The tests never close a provider while its timer is due, and do not look for leaks.",
     ["prov.go"],
     [("keep-alive goroutine", "prov.go keepAlive"), ("Close", "prov.go Close")])

prop("C17", "An id survives text, JSON, YAML and SQL, and other input is refused",
     "For every 64-bit id, its text, JSON, YAML and SQL forms read back as the same id, and the text of an id is always its canonical decimal form, however it was obtained. Text that is not a positive decimal number in range is refused with an error by the parsers (and leaves the id invalid), and copies of an id never change when another copy is set, scanned or reset.",
     ["inputs", "histories"],
     "every id, every input string, every sequence of operations on copies",
     "The tests convert a few ids and a few invalid strings.",
     ["id.go"],
     [("parsing", "id.go Set, UnmarshalJSON"), ("cached text", "id.go idptr.String")],
     [("id", "shared pointer to value and text", "id.go ID")])

prop("C18", "Id arrays behave as ordered sets and survive the SQL round trip",
     "Adding, concatenating, testing and intersecting id arrays agree with the operations on sets: no duplicates, nothing lost, no array other than the result changed. Sorting orders by value, and the SQL form, the text and the lists read back as the same ids in the same order; an empty list given as an array argument is an empty array.",
     ["inputs", "histories"],
     "every array with up to a few hundred ids, built in any way, and every sequence of operations",
     "The tests use arrays of two or three ids.",
     ["id.go"],
     [("duplicate check", "id.go Add, Concat"), ("PostgreSQL array format", "id.go Scan, Value")])

prop("C19", "Values written to a database read back as the same values",
     "For every value of the column types (ids, integers, floats, booleans, times, strings, UUIDs, arrays, metadata, key-value sets), writing it as an SQL argument and reading it back, in every form a driver may return it, gives the same value; the zero value is written as NULL exactly for the nullable types and NULL reads back as zero. A value which does not fit, or is of another kind, is refused with an error instead of being altered.",
     ["inputs"],
     "every value of each type, in each driver representation, including out-of-range and malformed ones",
     "The tests read and write a few samples per type.",
     ["types.go", "id.go", "time.go"],
     [("Scan and Value methods", "types.go, id.go, time.go")])

prop("C20", "Scanning into a used variable gives the same result as into a new one",
     "Reading a column value, NULL included, into a variable depends only on the column value: the result is the same whatever the variable held before, and values read earlier do not change. This covers every column type of the library.",
     ["inputs", "histories"],
     "every sequence of column values read into one variable, for every type",
     "The tests scan into new variables.",
     ["types.go", "id.go", "time.go"],
     [("Scan methods", "types.go, id.go, time.go")])

prop("C21", "Times keep their instant through every conversion",
     "Every time in the supported range keeps its instant through parsing, JSON, SQL and conversion to and from the standard types, to the precision of the form, and comes out in UTC. Addition, comparison and zero tests agree with those of the standard library, and text that is no time gives an error or the zero time, never another time.",
     ["inputs"],
     "every instant, time zone, precision and text form",
     "The tests convert a few fixed times.",
     ["time.go"],
     [("parsing and formatting", "time.go")])

prop("C22", "JSON of the column types round-trips and bad JSON is refused",
     "Marshalling any value of the numeric, boolean, time, id and string types and unmarshalling it gives the value back, inside any structure, quoted and plain number forms being equal. JSON of another kind or out of range gives an error, never a wrong value.",
     ["inputs"],
     "every value of each type and arbitrary JSON scalars",
     "The tests unmarshal a few samples.",
     ["types.go", "id.go", "time.go"],
     [("MarshalJSON, UnmarshalJSON", "types.go, id.go, time.go")])

prop("C23", "Metadata and key-value sets merge like maps and list in order",
     "Merging gives the union in which the merged-in values win, without changing the merged-in map; ordered listings contain every pair exactly once in key order and stop when asked to. The SQL form of metadata, key-value sets and string lists reads back equal, for arbitrary keys and values, from text and from bytes.",
     ["inputs", "histories"],
     "every map, every sequence of merges, arbitrary Unicode keys and values",
     "The tests use maps of two or three ASCII keys.",
     ["types.go"],
     [("Merge, Range, Scan, Value", "types.go Metadata, KVSet, Strings")])

prop("C24", "Merging structures takes every set field and keeps the others",
     "After merging a source into a destination, every field that is set in the source (times, ids and nullable strings included) has the source's value, and every other field keeps its own; the source is unchanged and merging the same source again changes nothing.",
     ["inputs"],
     "every pair of structures with the library's column types and plain fields",
     "The tests merge two fixed structures.",
     ["merge.go"],
     [("transformers by type", "merge.go Transformer")])

prop("C25", "Only a missing row is reported as not found",
     "An error is classified as not found exactly if it is, wraps or carries the text of the database's no-rows error; it then names the table and the id, still wraps the original error, and matches only not-found errors of the same table and id. Any other error keeps its identity, and no error stays no error.",
     ["inputs"],
     "every error chain, table and id",
     "The tests check three errors.",
     ["types.go"],
     [("classification", "types.go CheckNotFoundError"), ("matching", "types.go ErrorNotFound")])

prop("C26", "The connection opened is the one the connection string describes",
     "Parsing a connection string returns exactly its scheme, host, user, password, database and parameters, with escapes decoded, whether given directly, quoted or by environment or file reference. Opening it with a database name connects to that database exactly, with every other parameter unchanged, for names and strings with any characters; what can not be parsed or reached is an error and no connection.",
     ["inputs", "configurations"],
     "every connection URL made of arbitrary components, given in any of the ways, and every database name",
     "The tests parse three URLs; opening needs a live server.",
     ["db.go"],
     [("URL parsing", "db.go ParseConnectionString"), ("database selection", "db.go Open")])

prop("C27", "Schema listing describes exactly the tables and columns that exist",
     "For every database schema, listing tables, views and columns returns each of those selected, and no others, with the database's own names, types, nullability, lengths, positions, indexes (with their columns in the order of the key) and primary key. Schemas and tables are selected by name regardless of case, and hidden filters never drop or add an object.",
     ["inputs", "configurations"],
     "every catalog of schemas, tables, views, columns, indexes and foreign keys, and every selection",
     "The tests need a live database server with one fixed schema.",
     ["schema/provider.go", "schema/postgres.go", "schema/sqlserver.go", "schema/schema.go"],
     [("catalog queries", "schema/postgres.go, schema/sqlserver.go"), ("assembly", "schema/provider.go")])

prop("C28", "Listing with dependencies gives the closure of foreign keys, every time",
     "Listing tables with dependencies returns the selected tables and all tables they reference, directly or through others, each once, with cycles and self references included, and each with the same description as if selected directly. The result of a call depends on its arguments and the database only, not on earlier calls of the same provider.",
     ["inputs", "histories"],
     "every graph of foreign keys and every history of listing calls",
     "The tests need a live server; the fixed schema has no cycles and each provider is used once.",
     ["schema/provider.go"],
     [("discovery of referenced tables", "schema/provider.go")],
     [("cache of tables by name", "tables read so far", "schema/provider.go")])

prop("C29", "Schema listing fails cleanly and passes names safely",
     "When any of the catalog queries fails at any point the listing returns an error, never a partial description, and leaves no open result set behind. Schema, table and column names with any characters, quotes included, select exactly the object of that name and can never change the query.",
     ["fault_sequences", "inputs"],
     "a fault at every query, row and scan of every listing; every object name",
     "The tests never inject a fault, and use plain names.",
     ["schema/provider.go", "schema/postgres.go", "schema/sqlserver.go"],
     [("error handling and closing of rows", "schema/provider.go, schema/postgres.go, schema/sqlserver.go")])

prop("C30", "Generated models compile and read every column into its own field",
     "For every described set of tables the generated code compiles, has one structure per table with one field per column, and the generated table description lists the columns in the order in which its row reader reads them. Reading a row puts every column into the field tagged with that column. When the names of the database collide as Go names the generator fails with an error and writes nothing.",
     ["inputs", "programs"],
     "every set of tables with columns of any type and any valid name, in every mode of the generator",
     "The tests generate code for one fixed schema and do not compile it.",
     ["internal/cli/schema/schema.go", "internal/cli/schema/template.go"],
     [("templates", "internal/cli/schema/template.go"), ("naming", "internal/cli/schema/schema.go")])

prop("C31", "The Go type of a column can hold every value of it",
     "The type that generated code uses for a column can represent every value the SQL type can hold, NULL included when the column is nullable (decimals to the precision of a float, ids not negative), and reads the value the driver delivers for it. Unknown types are reported as an error, and no file is written.",
     ["inputs"],
     "every SQL type with its boundary values, nullable or not, of both database kinds",
     "The tests check the names of the mapped types for a few columns, not that values fit.",
     ["internal/cli/schema/types.go"],
     [("type tables", "internal/cli/schema/types.go")])

prop("C32", "Migration ends at the requested version or reports why not",
     "Migrating brings the database to the requested version, or to the newest one when none is given, applying each step exactly once in order, from a directory of any name; migrating again is no change and no error. A failing step, a missing version or an unreadable source is an error, and forcing a version sets that version and clears the failed state. Each step runs under the database's lock, once also when several processes migrate at the same time; the lock and the connection are given back.",
     ["histories", "fault_sequences"],
     "every set of migrations, every history of migrate calls with and without versions, with steps that fail",
     "The tests need a live server and run one migration.",
     ["migrate/migrate.go"],
     [("version selection", "migrate/migrate.go Migrate")])

prop("C33", "A listener delivers every notification of its channel, once and in order",
     "Every notification on a channel that is being listened to reaches that channel's callback exactly once, in order, with its channel, raw payload and decoded payload, also when several channels are listened to at once; notifications of other channels do not reach it. Cancelling the context ends the delivery and closing the listener ends its work without spinning or leaking.",
     ["histories", "schedules", "inputs"],
     "every sequence of listens, notifications with any payload, cancels and closes",
     "The notifier has no tests.",
     ["pkg/notifier/listener.go"],
     [("delivery loop", "pkg/notifier/listener.go Listen"), ("payload parsing", "pkg/notifier/listener.go parsePayload")])

prop("C34", "Printing shows every object it is given",
     "JSON and YAML printing of any value parses back to an equal value, and the text forms of tables, columns, indexes and foreign keys name every object they are given, in order, with its attributes. A failing writer or an unknown format is an error or a documented default, never a crash.",
     ["inputs"],
     "every set of schema objects and values, every format",
     "The tests print one fixed set.",
     ["pkg/print/print.go", "pkg/print/schema.go"],
     [("formats", "pkg/print/print.go, pkg/print/schema.go")])

prop("C35", "Table descriptions answer consistently about their own columns and keys",
     "Column lists, prefixed and null-replacing column lists, qualified names and key lookups of a table description contain exactly its columns, each once and in order, with the prefix or NULL replacement applied to exactly the requested ones, and do not depend on what was asked before. The SQL builders started from a description address exactly its table.",
     ["inputs", "histories"],
     "every table description, prefix, and set of columns to replace",
     "The tests check one table with four columns.",
     ["schema/schema.go"],
     [("column lists", "schema/schema.go TableInfo")])

prop("C36", "Commands do what their flags say and fail with an error otherwise",
     "Every command line runs the command it names with the provider, database, schema, tables, views and format given by its flags, prints the described objects in that format, writes generated files only where asked to, and releases the provider. A missing, unknown or malformed flag, a failing provider, or output that can not be written ends with an error and no file of a failed generation.",
     ["inputs", "configurations"],
     "every combination of flags, including missing and contradicting ones, with failing providers",
     "The tests run each command once with a mocked provider.",
     ["internal/cli/cli.go", "internal/cli/schema/schema.go", "cmd/xdbcli/main.go"],
     [("flags", "internal/cli/cli.go, internal/cli/schema/schema.go")])

prop("C37", "A call ends when its context ends, and its context reaches the database",
     "Every call which takes a context - queries and statements of a provider, its handle or a transaction, the row-reading functions, the execution of a built statement, beginning a transaction, the schema listings - hands this context to the database. When the context is cancelled or its deadline passes, before the call, while it waits for a connection, in the statement or between rows, the call returns promptly with the error of the context and without a result, nothing is changed, and no result set, transaction or connection stays in use; a transaction whose context has ended can not be used or committed. The end of one context does not affect calls with another one.",
     ["schedules", "inputs"],
     "every call, and every instant at which its context ends",
     "The tests use contexts which never end.",
     ["prov.go", "query.go", "xsql/executor.go", "schema/provider.go", "schema/postgres.go", "schema/sqlserver.go"],
     [("the context of the call is passed on", "prov.go QueryContext, QueryRowContext, ExecContext, BeginTx; query.go; xsql/executor.go; schema/*.go Query*")])

for p in P:
    print(json.dumps(p, ensure_ascii=False))
