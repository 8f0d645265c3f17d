SQLM = ("runtime monitoring of the real engine end to end: generated "
        "statements, outputs judged by a reference evaluator, ASan+UBSan+LSan "
        "builds alongside")
BUILD = ("The 12 stable tests only exercise hash maps; no statement is ever "
         "run by them. ")

prop("Q01", "SELECT over a table returns the right rows, columns and values",
     "A SELECT over one table (or over none) prints a header with the names of its columns and then, in file order, one record for each record of the table for which the WHERE condition is true, limited by TOP; each column holds the value of its expression over that record. `*`, `alias.*`, aliases, bracketed names and header names with any spelling resolve to the columns meant; a name that several columns have stands for the first of them. The library interface returns the same rows with the types the expressions have.",
     ["inputs"], "every table content and every combination of expressions, predicates, stars and aliases",
     BUILD + "Correct results for every combination of expressions and data cannot be sampled by a few fixed statements.",
     ["lib/fqlselect.c", "lib/fqlplan.c", "lib/fqlprocesses.c", "lib/expression.c", "lib/operation.c", "lib/logic.c", "lib/libcsvread.c", "lib/libfql.c", "lib/field.c"],
     [("reading and filtering", "lib/fqlprocesses.c: fql_read, fql_logic"), ("projection", "lib/fqlprocesses.c: fql_select; lib/fqlselect.c"), ("expressions", "lib/expression.c: expression_get_int, expression_get_float, expression_get_stringview"), ("type of an operation", "lib/field.c: field_determine_type")],
     SQLM, "random tables of up to 40 records; floats are multiples of 1/4 so that printing loses nothing")

prop("Q02", "Arithmetic is exact or the statement fails; no wrong number appears",
     "Every arithmetic operator gives the mathematically right integer or the IEEE double of its operands in the type the operands' types determine (INT with FLOAT is FLOAT, a string takes the other side's type, two strings only concatenate), whether the operands come from columns, literals folded at planning, or casts. Overflow, division or modulo by zero, a text that is not a number or is out of range, and operators not defined for a type make the statement fail with a non-zero status; the program never crashes, never wraps around and never prints some other number.",
     ["inputs"], "every pair of operands, notably the limits of 64 bit integers and texts that are almost numbers, for each operator, type pair and place of evaluation",
     BUILD + "The failures sit at single values (the integer limits, -1, 0, odd texts) combined with each operator.",
     ["lib/operation.c", "lib/expression.c", "lib/field.c", "lib/scalarfn.c", "util/util.c"],
     [("operators", "lib/operation.c"), ("typing", "lib/field.c: field_determine_type"), ("text to number", "util/util.c: str2long, str2double; lib/field.c: field_to_int, field_to_float")],
     SQLM, "29 boundary integers, 29 odd texts, random others; operator x type table exhaustive; results beyond 1e300 not judged")

prop("Q03", "String functions count characters, stay within the text, and agree",
     "LEN, LEFT, RIGHT, SUBSTRING, REPLACE, ISNULL, DATALENGTH, concatenation and casts to VARCHAR return what their definition says for any UTF-8 text, counting characters (bytes under --char-as-byte), for any length or start position from the smallest to the largest integer: lengths beyond the text give the rest of it, negative ones fail the statement, NULL gives NULL. The result is the same for literals, columns and nested calls. Text that is not valid UTF-8 makes the statement fail or passes through; nothing is read beyond the text.",
     ["inputs"], "every text, every pattern and every pair of position and length",
     BUILD + "Multi-byte characters at a cut, positions before the text and huge lengths only fail together.",
     ["lib/scalarfn.c", "lib/function.c", "lib/query.c"],
     [("functions", "lib/scalarfn.c: fql_len, fql_left, fql_right, fql_substring, fql_replace, fql_isnull, fql_datalength, fql_cast_*"), ("UTF-8 stepping", "lib/scalarfn.c: _get_byte_count"), ("constant folding", "lib/query.c")],
     SQLM, "CHAR(n) of non-ASCII text is left unspecified (it counts bytes)")

prop("Q04", "LIKE matches exactly the texts its pattern describes",
     "`a LIKE p` holds exactly for texts that p describes in full: % any characters, _ one, [set] and [^set] one of a set with ranges, everything else itself regardless of ASCII letter case, including characters special to regular expressions, quotes and line feeds. A pattern from a column means the same as that pattern as a literal, record by record, and NOT LIKE is its negation. Malformed patterns fail or match nothing but never corrupt memory.",
     ["inputs"], "every pattern over the pattern language and every text",
     BUILD + "Patterns are rewritten to regular expressions by successive replacements; each new combination of special characters can break it.",
     ["lib/like.c", "lib/fqllogic.c"],
     [("pattern rewriting", "lib/like.c: like_to_regex, _extract_character_ranges"), ("pattern from a column", "lib/fqllogic.c: fql_logic_like")],
     SQLM, "_ and sets over ASCII texts only (they count bytes)")

prop("Q05", "Predicates obey logic, and NULL is neither equal nor different",
     "A predicate and its negation split the records of a table between them; AND, OR and NOT obey their laws and precedence; IN is the OR of its equalities; a CASE takes the branch that the same condition as WHERE would select. A missing field is NULL: IS NULL sees it, comparisons with it are not true, operations and functions on it are NULL, ISNULL replaces it, a CASE without a match is NULL, and it prints as an empty field.",
     ["inputs"], "every predicate tree and every table with missing fields",
     BUILD + "Laws over all predicates are relations between runs, which no example pins down.",
     ["lib/logic.c", "lib/fqllogic.c", "lib/inlist.c", "lib/switchcase.c", "lib/expression.c", "lib/scalarfn.c"],
     [("evaluation of trees", "lib/logic.c: logicgroup_eval"), ("comparisons", "lib/fqllogic.c"), ("CASE", "lib/switchcase.c"), ("NULL", "lib/expression.c: try_deref_")],
     "runtime monitoring: metamorphic laws between runs of the real program, and a reference evaluator for NULLs; ASan builds alongside", "as implemented, NOT of a comparison with NULL is true (two-valued logic)")

prop("Q06", "A join returns exactly the matching pairs, however it is executed",
     "An INNER JOIN of two or more tables returns each combination of records for which all ON conditions hold, exactly once; a LEFT JOIN adds each unmatched left record once with NULLs. The result is the same whether the join runs as hash join or as nested loops, whatever the sizes of the tables, the number of duplicate or NULL keys, the spelling of the condition or the side of its operands, through the CLI or stepping through the library interface. Self joins see each alias on its own.",
     ["inputs", "configurations"], "every pair or triple of tables, join condition and join algorithm",
     BUILD + "Hash key typing, collisions, residual conditions and outer rows interact only in particular data.",
     ["lib/fqlprocesses.c", "lib/table.c", "lib/fqlplan.c", "lib/logic.c", "lib/record.c", "util/hashmap.c"],
     [("hash join", "lib/fqlprocesses.c: fql_hash_join; lib/table.c: hashjoin_*"), ("nested loops", "lib/fqlprocesses.c: fql_cartesian_join, fql_left_join"), ("choice of key", "lib/logic.c: logicgroup_get_hashable / joinable conditions")],
     SQLM, "up to 3 tables, up to 60 records each; -C with LEFT JOIN is refused by design")

prop("Q07", "Grouping partitions the records and aggregates each group exactly",
     "GROUP BY puts two records in one group exactly if their key expressions are equal (strings regardless of case and trailing space); COUNT, SUM, MIN, MAX and AVG are those of exactly the group's records that pass WHERE; HAVING keeps the groups for which it holds; DISTINCT keeps one record per distinct row. Aggregates without GROUP BY give one row even over no records; GROUP BY over no records gives none. With --summarize (loose groups), any column may be selected and is that of the group's first record. Grouping works over joins and over any number of groups.",
     ["inputs"], "every table, set of keys, aggregates and conditions",
     BUILD + "Key composition, growth of group tables and numeric typing depend on the data.",
     ["lib/group.c", "lib/aggregate.c", "lib/aggregatefn.c", "lib/fqlprocesses.c", "util/hashmap.c"],
     [("groups", "lib/group.c: group_record"), ("aggregates", "lib/aggregatefn.c"), ("composite keys", "util/hashmap.c: compositemap_*")],
     SQLM, "groups over data without NULLs (an aggregate treats NULL as 0 or '' here)")

prop("Q08", "ORDER BY is a sorted permutation, TOP its prefix",
     "ORDER BY returns exactly the rows the statement returns without it, sorted by its expressions, aliases or ordinals in turn, each ascending or descending, numbers by value and strings as comparisons order them; TOP n takes the first n of that order. This holds for expressions that are not selected, groups, joins, duplicates and NULLs, through the CLI and stepping.",
     ["inputs"], "every table, list of order keys and directions",
     BUILD + "Order over ties, types and several keys needs generated data.",
     ["lib/order.c", "lib/fqlplan.c", "lib/fqlprocesses.c", "lib/fqlselect.c"],
     [("sorting", "lib/order.c: order_sort, order_record"), ("TOP", "lib/fqlselect.c")],
     SQLM, "rows with equal keys may come in any order")

prop("Q09", "Subqueries and unions mean what they would standing alone",
     "UNION ALL returns the rows of its members in turn, brought to common types; a derived table behaves as a file holding its result; `IN (SELECT ...)` tests membership in the subquery's first column; a scalar subquery has the value its single row has, NULL if it has none, and fails the statement if it has several. These compose with filters, joins, groups and each other.",
     ["inputs"], "every combination of statements so composed",
     BUILD + "Composition multiplies the shapes of plans beyond what examples reach.",
     ["lib/fqlplan.c", "lib/fqlselect.c", "lib/subquery.c", "lib/inlist.c", "lib/query.c", "lib/fqlprocesses.c"],
     [("derived tables", "lib/subquery.c; lib/fqlprocesses.c: fql_read_subquery"), ("UNION", "lib/fqlplan.c: _build, union handling"), ("IN", "lib/inlist.c")],
     SQLM, "floats with up to six decimals (derived tables hand floats on as text)")

prop("Q10", "UPDATE and DELETE change exactly the records they name",
     "UPDATE replaces, in each record of its table for which the condition is true, exactly the assigned columns by the values their expressions have over the old record (converted to text, `+=` and its like included), and DELETE removes exactly those records; all other records, the header and the order stay as they were. This holds with aliases and FROM, over joins of any kind (a record is changed once however many matches it has, and left alone if it has none), with conditions that read the same or other tables, and later statements of the same program, its subqueries and derived tables included, see the table as changed. A target that is not among the sources is refused.",
     ["inputs", "histories"], "every table content, statement and sequence of changes and reads in a program",
     BUILD + "What a change must leave alone is only visible by comparing the whole file, after every kind of statement and in sequences.",
     ["lib/fqlupdate.c", "lib/fqldelete.c", "lib/fqlprocesses.c", "lib/fqlplan.c", "lib/operation.c", "lib/table.c", "lib/libcsvwrite.c", "lib/query.c"],
     [("matched and unmatched records", "lib/fqlprocesses.c: fql_update, fql_delete, _filter_step"), ("writing", "lib/fqlupdate.c, lib/fqldelete.c, lib/libcsvwrite.c"), ("plans prepared before a change", "lib/table.c; lib/query.c: query_reset"), ("target", "lib/operation.c: op_match_table_alias")],
     "runtime monitoring: files and output after random programs against a reference interpreter; ASan builds alongside", "up to three joins; where several matches would give different values none is required")

prop("Q13", "Threaded execution returns what unthreaded execution does",
     "With --thread every statement prints and writes exactly what it does without: no record is lost, repeated or out of order, whatever the timing of the threads of the plan, the sizes of the pipes between them and of the tables, through the CLI and the library interface; it always ends; and no two threads access the same memory without order between them.",
     ["schedules", "inputs"], "every schedule of the threads of every plan",
     BUILD + "Lost records need a producer to close a pipe between two instructions of its consumer.",
     ["lib/process.c", "lib/fqlprocesses.c", "util/fifo.c", "lib/record.c", "lib/group.c", "lib/order.c", "lib/subquery.c"],
     [("threads and their waiting", "lib/process.c: _thread_exec, process_disable"), ("closing of pipes", "lib/fqlprocesses.c"), ("recycling of records", "lib/fqlprocesses.c: fqlprocess_recycle"), ("expressions shared by processes", "lib/fqlselect.h: expr_mutex")],
     "runtime monitoring: the statements of the other properties run threaded under ThreadSanitizer and under injected delays at every lock, wait, signal and pipe function, against the reference interpreter", "up to 1200 records; failing statements end the process from a thread, their text is not judged")

prop("Q14", "The pipe factor never changes a result",
     "For every --pipe-factor, from the smallest to values out of range (which are clamped), every statement returns the same rows in the same order and ends, with tables shorter and longer than the pipes, through the CLI and stepping.",
     ["configurations", "inputs"], "every pipe size and statement",
     BUILD + "Records in flight, wrap-around and back pressure only meet at particular sizes.",
     ["lib/fqlprocesses.c", "lib/process.c", "lib/fqlplan.c", "lib/record.c", "util/fifo.c", "lib/libfql.c"],
     [("back pressure", "lib/fqlprocesses.c: fifo_receivable checks"), ("number of records in the roots", "lib/process.c: process_activate; lib/fqlplan.c"), ("clamping", "lib/libfql.c: fql_set_pipe_factor")],
     "runtime monitoring: the statements of the other properties under pipe sizes from two records, against the reference interpreter; ASan builds alongside", "unthreaded; threads are in Q13")

prop("Q19", "Programs: variables and control flow do what they say",
     "DECLARE and SET give a variable exactly the value of the expression brought to the variable's type (INT cuts fractions, BIT is 0 or 1, VARCHAR(n) and CHAR(n) cut or pad, NULL stays), `+=` and its like apply to the old value, and each later use of its name, in any case and in any expression of any statement, reads the value it has then. IF runs exactly one of its branches, WHILE runs its body as long as its condition holds when evaluated afresh, branches have scopes of their own, and all this nests. A variable imported from outside behaves as one declared with that value.",
     ["inputs", "histories"], "every program of declarations, assignments, branches, loops, queries and changes",
     BUILD + "Statements are planned once and run many times; stale state shows only in particular histories.",
     ["lib/fqlbranch.c", "lib/variable.c", "lib/scope.c", "lib/fqlset.c", "lib/expression.c", "lib/query.c", "lib/libfql.c", "lib/antlr"],
     [("typing and storing", "lib/variable.c"), ("use in an expression", "lib/expression.c: expression_set_variable; lib/query.c"), ("branches and loops", "lib/fqlbranch.c; lib/libfql.c; lib/antlr/tsql_listeners.cpp"), ("running again", "lib/query.c: query_reset")],
     "runtime monitoring: output and files of random programs against a reference interpreter; ASan builds alongside", "loops end after at most a few turns; strings up to 2000 bytes")

prop("Q11", "A statement that fails changes no table",
     "When a statement fails, whether over some record, at once, or because nothing more can be written, fql says so by its exit status and on the error output, and every table file holds what it held before that statement, byte for byte, and no new one is left: no UPDATE, DELETE or SELECT INTO is done by half, with threads or without. What earlier statements of the program did stays, later ones are not run. SELECT INTO a file that exists is refused unless overwriting is asked for.",
     ["inputs", "crash_points"], "every point at which a statement can fail: each record, conversion, operator, and each byte at which a write is refused",
     BUILD + "Failures in the middle of a file need particular data or a full disk.",
     ["lib/fqlprocesses.c", "lib/process.c", "lib/fqlplan.c", "lib/fqlupdate.c", "lib/fqldelete.c", "lib/libcsvwrite.c", "lib/operation.c", "lib/schema.c", "lib/libfql.c"],
     [("failing processes", "lib/fqlplan.c: plan execution; lib/process.c: _thread_exec"), ("replacing the table", "lib/operation.c: op_writer handling; lib/libcsvwrite.c"), ("INTO an existing file", "lib/schema.c: _resolve_query")],
     "runtime monitoring with injected faults: data that makes some record fail and limits on file sizes (RLIMIT_FSIZE), files compared byte by byte; ASan builds alongside", "SELECT INTO with ORDER BY over an existing file and what threads leave behind when they fail are known findings")

prop("Q23", "What fql does not implement, or cannot understand, is refused",
     "A program with a part of T-SQL that fql does not implement, with a syntax error, an unknown column, table, function or variable, a wrong number of arguments or columns, a name that does not say which column is meant (one that two joined tables have; under --strict also one that a table has twice), or constants that cannot be computed, is refused as a whole before anything is run: the exit status is 1, a message names the reason, nothing is printed, no file is changed or made, whatever stands before, after or around the part in question. It is never ignored, and never crashes.",
     ["inputs"], "every unsupported construct and mistake, alone, nested and beside statements that would change files",
     BUILD + "A grammar rule without a listener is accepted silently; only running such statements shows it.",
     ["lib/antlr/listenerinterface.cpp", "lib/antlr/treewalker.cpp", "lib/query.c", "lib/schema.c", "lib/libfql.c", "src/fql.c"],
     [("constructs that are not operators", "lib/antlr/treewalker.cpp, lib/antlr/listenerinterface.cpp"), ("names", "lib/schema.c"), ("all plans before any run", "lib/libfql.c: fql_make_plans")],
     "runtime monitoring: generated programs around 190 unsupported or mistaken parts; exit status, output, messages and files checked; ASan builds alongside", "accepted as they are: join hints; UPPER and other functions that are only known by name fail when first called")

prop("Q12", "Nothing given to fql makes it crash, corrupt memory or hang",
     "Whatever the statements, the contents of the files, the schema files and the options are, sensible or not, fql accepts or refuses them and ends by itself (exit status 0 or 1; the library's calls return): no memory outside of its objects, freed or never initialized is used, no arithmetic is undefined, no assertion fails, no signal ends it, and nothing but a loop of the program's own keeps it from ending. After a refused text a handle goes on working.",
     ["inputs", "configurations"], "every text, file, schema and option",
     BUILD + "Memory errors are silent without instrumentation and come from texts nobody writes on purpose.",
     ["lib/antlr/listenerinterface.cpp", "lib/query.c", "lib/fqlplan.c", "lib/libfql.c", "lib/schema.c", "lib/libcsvread.c", "lib/fixedreader.c", "lib/expression.c", "src/fql.c"],
     [("what is not implemented", "lib/antlr/listenerinterface.cpp: _no_impl"), ("building queries", "lib/query.c"), ("planning", "lib/fqlplan.c, lib/schema.c"), ("options", "src/fql.c")],
     "runtime monitoring: fuzzing of statements (tokens changed), of statements of the unsupported part of the dialect, of files, schemas and options; ASan+UBSan builds, exit statuses and a watchdog decide", "--override (which runs what is not implemented) is left out; memory lost on refused statements is not judged; hangs of texts with WHILE are not judged")

prop("Q15", "The dialect of files and output changes no value",
     "Every statement gives the same rows, and changes files in the same way, whatever the delimiter (of one or several characters), line ending, quoting and presence of a last line feed of its files; delimiters, quotes and line feeds within quoted fields are part of the value. The output, and any file written, has the dialect that was asked for: --out-delim, --crlf, --out-std, --no-header, and parses back to the same values. An UPDATE or DELETE keeps the file's own dialect.",
     ["inputs", "configurations"], "every statement, table content and combination of dialect options",
     BUILD + "What a delimiter or a quote does depends on each value and on the path that reads or writes it.",
     ["lib/libcsvread.c", "lib/libcsvwrite.c", "lib/libfql.c", "lib/schema.c", "src/fql.c"],
     [("reading", "lib/libcsvread.c: libcsv_get_record, libcsv_open"), ("writing", "lib/libcsvwrite.c: libcsv_write_record"), ("options", "lib/libfql.c: fql_set_in_delim, fql_set_out_delim, fql_set_crlf_output; src/fql.c"), ("delimiter of a new table", "lib/schema.c")],
     "runtime monitoring: statements of the other properties over files in other dialects, against the reference interpreter; ASan builds alongside", "the CSV parser itself is a stand-in (libcsv is not part of the repository nor installed); fields of several lines only under RFC 4180")

prop("Q16", "The library: any history of calls on a handle",
     "One handle can be used for any number of texts in any way the interface offers: executed at once; planned and executed all together, some at a time (fql_exec_plans), or up to each SELECT (fql_exec_until_select) whose rows are then stepped through; abandoned at any row by fql_reset; refused; with options set and unset and variables imported in between. Each text prints, returns, writes and refuses exactly what it does in a handle of its own: no variable, plan, option, row or file of an earlier one shows. fql_field_count is the number of fields of each row, fql_step returns 0 once nothing is left, an abandoned one has returned the first rows of the whole, and after a reset no descriptor is left open and no memory is lost.",
     ["histories", "inputs"], "every history of calls and every text",
     BUILD + "What an earlier statement leaves behind shows only in some later one, and only if it is not freed.",
     ["lib/libfql.c", "lib/query.c", "lib/variable.c", "lib/scope.c", "lib/process.c", "lib/fqlselect.c", "lib/order.c", "lib/reader.c", "util/hashmap.c"],
     [("histories", "lib/libfql.c: fql_reset, fql_exec_plans, fql_step, fql_exec_until_select"), ("typed rows", "lib/fqlselect.c: fqlselect_connect_api; lib/order.c: _order_select_api"), ("names of variables", "lib/scope.c, lib/variable.c"), ("temporary files", "lib/fqlsig.c; lib/order.c; lib/reader.c")],
     "runtime monitoring: random histories in one handle against each text alone in a new handle (which the other properties compare with a reference interpreter); descriptors counted; ASan and LeakSanitizer builds alongside", "one handle at a time; plans are made for one text at a time")

prop("Q17", "A table name means one file, or is refused",
     "A table name means, in this order, the file of exactly that name, the one that differs in case only, the one whose name without extension is the table's, the same regardless of case; with folders in the name each is looked up where it says. If several files qualify in the same way, or none, or --strict is given and there is no exact one, the statement is refused, nothing printed and no file touched. Statements never read or change any other file.",
     ["inputs", "configurations"], "every name and every set of files in the folder",
     BUILD + "It takes sets of files with similar names to tell the order of the rules.",
     ["lib/schema.c", "util/util.c", "lib/libfql.c"],
     [("resolution", "lib/schema.c: _resolve_file, schema_resolve_file"), ("listing and comparing", "util/util.c: dir_list_files, getnoext, getext")],
     "runtime monitoring: runs among generated sets of files, judged by a model of the resolution order; ASan builds alongside", "letter case of ASCII only; names in folders that do not exist are left out (the listing ends the program)")

prop("Q18", "Schema files: named columns and fixed width mean the same rows",
     "A table with a schema (named in front of it, as --schema, or the default one) has the columns its schema file says: a file without header, given names or `__1`, `__2`, ..., or a fixed-width file given names and widths, gives every statement the same rows as the CSV file with that header. UPDATE, DELETE and SELECT INTO write such a file in its own form, readable again with the same values; a value that does not fit its column is refused and the file left as it was.",
     ["inputs", "configurations"], "every statement, table content and schema",
     BUILD + "Offsets, padding and headers differ on each path that reads and writes a file.",
     ["lib/schema.c", "lib/fixedreader.c", "lib/fixedwriter.c", "lib/libcsvread.c", "lib/libcsvwrite.c", "lib/query.c"],
     [("schema files", "lib/schema.c: schema_resolve, _load_by_name"), ("fixed width reading", "lib/fixedreader.c"), ("fixed width writing", "lib/fixedwriter.c"), ("schema of SELECT INTO", "lib/schema.c, lib/libfql.c")],
     "runtime monitoring: statements of the other properties over files with schemas, against the reference interpreter; ASan builds alongside", "fields beyond a schema's columns are dropped by an UPDATE (not generated)")

prop("Q24", "Row numbers, whole records and line ends mean what they say",
     "In a SELECT's list __rownum numbers the rows that are selected from 1, in each SELECT of a UNION anew and before they are sorted, and in an UPDATE's SET the records that are changed; where there are no rows to number (DELETE, SET, IF, WHILE) it is refused. __rec, alone or with an alias, is the text of the record exactly as it stands in its file, without its end, in select lists, functions, conditions, joins, DISTINCT and GROUP BY; NULL on the missing side of a LEFT JOIN. __lf, __cr and __crlf are these characters in any expression. All are known in any letter case.",
     ["inputs"], "every table and expression",
     BUILD + "What a row's number is depends on which rows have gone by when it is asked for.",
     ["lib/query.c", "lib/expression.c", "lib/fqlselect.c", "lib/fqlupdate.c", "lib/operation.c"],
     [("recognizing them", "lib/query.c: query_add_expression"), ("values", "lib/expression.c: expression_get_*"), ("counting rows", "lib/fqlselect.c: _select_record*; lib/fqlupdate.c")],
     SQLM, "__rownum in WHERE, in aggregates and with DISTINCT is left out; in derived tables and as an ORDER BY key it is wrong (recorded)")

prop("Q20", "Looking without touching: dry runs, plans and counts",
     "With --dry-run (and fql_exec of a handle so set) every statement is accepted or refused as usual but nothing is printed and no file appears or changes, tables to be made by SELECT INTO included; --parse-only tells grammatical text from other text by its exit status, without looking for tables, and touches nothing either. --print-plan and --verbose change nothing of what is printed on the standard output or written; after each executed SELECT, UPDATE and DELETE the number of rows shown is that of the rows printed, written, changed or removed; --quiet says nothing at all and plans are shown only on request.",
     ["inputs", "configurations"], "every statement and option of these",
     BUILD + "That nothing happens shows only when all files are compared after statements of every kind.",
     ["src/fql.c", "lib/libfql.c", "lib/fqlplan.c", "lib/process.c", "lib/fqlprocesses.c", "lib/antlr/parser.cpp"],
     [("dry run", "lib/libfql.c: fql_exec"), ("parsing only", "lib/libfql.c; lib/antlr/parser.cpp"), ("numbers", "lib/libfql.c: _exec_plans_print_footer; lib/process.c: rows_affected"), ("plans", "lib/fqlplan.c: plan_print")],
     "runtime monitoring: statements of the other properties under these options; output, files, exit status and numbers against the reference interpreter; ASan builds alongside", "explicit execution after fql_make_plans is not a dry run; the text of plans is not judged")

prop("Q22", "fql --api steps through the same records",
     "Run with --api, in which each SELECT is stepped through record by record as a program using the library would, every program prints the same records in the same order as without (header lines aside), NULL as nothing, leaves the same files and ends with the same exit status, SELECTs in loops and branches and statements that are not SELECTs in between included; with --dry-run it does nothing.",
     ["inputs", "configurations"], "every program",
     BUILD + "Stepping goes its own way through plans; what it leaves to the next statement shows only when one follows.",
     ["src/fql.c", "lib/libfql.c", "lib/process.c", "lib/fqlselect.c", "lib/order.c"],
     [("the loop over statements", "src/fql.c: main"), ("stepping", "lib/libfql.c: fql_step, fql_exec_until_select"), ("typed fields", "lib/fqlselect.c: _select_record_api; lib/order.c")],
     "runtime monitoring: programs of the other properties, alone and one after the other, run with --api and without, the runs compared (the other properties compare those without with a reference interpreter); ASan builds alongside", "header lines are left out by --no-header; fields are not quoted with --api")

prop("Q21", "Standard input is a table like any other",
     "`__stdin`, spelled in any case, with brackets, alias or schema, reads the records from standard input, and any statement over it gives what it gives over a file of that content in any dialect, with joins to itself excluded: as the left or right side of a join, in a subquery or a loop. It is refused, and nothing run, when it is used more than once, is to be changed, when the statements come from standard input themselves, and through the library unless allowed.",
     ["inputs", "configurations"], "every statement and content",
     BUILD + "Standard input cannot be mapped or read twice, so it takes paths of its own in every process.",
     ["lib/schema.c", "lib/libcsvread.c", "lib/fixedreader.c", "lib/libfql.c", "src/fql.c"],
     [("recognizing it", "lib/schema.c: _resolve_source"), ("reading it", "lib/libcsvread.c, lib/fixedreader.c"), ("allowing it", "lib/libfql.c: fql_set_allow_stdin; src/fql.c")],
     "runtime monitoring: statements of the other properties with one table piped in, against the reference interpreter; ASan builds alongside", "pipes only, no terminals")

prop("Q25", "A text means the same however it is written and given",
     "Keywords and the names of functions and types in any letter case, white space of any kind and amount between the parts of a text, comments (-- to the end of the line and /* */) anywhere between them, and semicolons that are there or not change nothing of what a text prints, writes or is refused for. Nor does it matter whether the text is given by --command, in a file, on the standard input or typed line by line at a terminal, however long it is.",
     ["inputs", "configurations"], "every text, layout and way to give it",
     BUILD + "Each way to give a text reads it with code of its own, and buffers grow only for long ones.",
     ["src/fql.c", "lib/antlr/parser.cpp", "lib/antlr/upperstream.cpp", "lib/antlr/listenerinterface.cpp"],
     [("reading the text", "src/fql.c: main"), ("letter case", "lib/antlr/upperstream.cpp"), ("words", "lib/antlr/TSqlLexer.cpp (generated)"), ("parsing", "lib/antlr/parser.cpp")],
     "runtime monitoring: statements of the other properties written and given in other ways (a pseudo terminal for what is typed), against the reference interpreter; ASan builds alongside", "no tabs or other control characters at terminals")

prop("Q26", "No statement is too large and no data too many: size changes nothing",
     "What a statement gives does not depend on how much of anything there is, as long as memory lasts: records, columns, characters of fields, of quoted fields and the lines in them, groups and different records, join keys and the records that share one, items of IN lists and of IN subqueries, arms of a UNION ALL, joined tables, branches of CASE, nested parentheses, functions, subqueries, NOTs and IFs, variables, statements, turns of a loop, terms of conditions and calculations, keys to group, sort or join by, aggregates, columns set, tables made by one text, statements of one handle, characters of names, literals and paths, and integers up to 64 bits. The only limits are those stated: 128 characters of a table alias or qualifier and 32 of a delimiter or record terminator.",
     ["inputs", "configurations"], "every size, on either side of a power of two and of any buffer's",
     BUILD + "Containers, buffers and pipes grow in steps; what goes wrong in a step shows only at its size, which tests of a few records never reach.",
     ["lib/schema.c", "lib/group.c", "lib/fqlselect.c", "lib/order.c", "lib/fqlplan.c", "lib/expression.c", "util/hashmap.c", "util/vec.c", "util/stringy.c", "util/flex.c", "util/fifo.c"],
     [("growing arrays", "util/vec.c: vec_reserve, vec_resize"), ("growing maps", "util/hashmap.c: _increase_size, _composite_get_entry"), ("growing strings", "util/stringy.c"), ("groups", "lib/group.c"), ("grouped columns found", "lib/schema.c: _map_groups, _op_find_group"), ("the pool of records", "lib/fqlplan.c, util/fifo.c")],
     "runtime monitoring: statements in which one quantity is near a power of two and all others are small, through the command line and the API, judged by results known in closed form; ASan builds alongside", "up to the sizes in vf/props/size.py: 32768 records, 1030 columns, 131072 characters of a field")

prop("Q27", "A table that SELECT INTO makes is a table, and a temporary one goes",
     "SELECT INTO makes a table of the columns and records selected, in the order in which they would have been shown, and from the next statement on it can be selected from, joined, grouped, copied, updated and deleted from like any other. One named by a file is left as a file; one whose name begins with # is gone when fql ends, whether or not a statement failed, and no other file is left behind.",
     ["inputs", "histories"], "every program that makes and uses tables",
     BUILD + "It needs programs of several statements over files that one of them wrote.",
     ["lib/fqlselect.c", "lib/writer.c", "lib/operation.c", "lib/order.c", "lib/fqlsig.c", "lib/libfql.c", "lib/table.c"],
     [("the writer", "lib/writer.c: writer_open, writer_close"), ("sorted into a file", "lib/order.c: _order_select"), ("temporary tables", "lib/writer.c: writer_close, lib/libfql.c: libfql_reset")],
     "runtime monitoring: random programs that make, use and change tables run by the real binary, output and all files left compared with a reference interpreter; ASan builds alongside", "files and temporary tables, from selections, groups, joins, derived tables and constants")

prop("Q28", "An interrupted statement leaves every existing table whole",
     "When fql is interrupted by SIGINT, SIGTERM, SIGHUP or SIGQUIT, at whatever point, every table that existed is as it was before the text or as it is after one of its statements, and all of them as of the same statement; a table the interrupted statement was making may be there in part. Fql ends with exit status 1 and none of its temporary files, those of UPDATE and DELETE, of tables of fixed width or of sorting, is left.",
     ["crash_points", "inputs"], "every program that changes tables and every point at which the signal can come",
     BUILD + "An interruption has to come between one system call and the next, in the middle of a change.",
     ["lib/fqlsig.c", "lib/writer.c", "lib/fixedwrite.c", "lib/order.c", "lib/operation.c", "lib/libfql.c"],
     [("temporary files listed and removed", "lib/fqlsig.c: tmp_push, tmp_remove_file, tmp_remove_node, _signal_handler"), ("put in place", "lib/fixedwrite.c: fixedwriter_close; csv_writer_close (stand-in)"), ("sorted in place", "lib/order.c: _order_select"), ("changes end", "lib/operation.c, lib/libfql.c")],
     "runtime monitoring with fault injection: random programs run by the real binary, a signal raised at the n-th of its calls of fwrite, fflush, fclose, rename, chmod, mmap or munmap; exit status and all files left compared with the states a reference interpreter goes through; ASan builds alongside", "signals come at library calls, not in between; two findings are allowed for (see DESIGN.md)")
