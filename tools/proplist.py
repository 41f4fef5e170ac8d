prop("P01", "No output failure goes unreported",
     "If any write of generated output fails, the library call that produced it returns failure and the program that ran it exits non-zero (with the diff program, with the status documented for errors). No program exits successfully before its buffered output has reached its destination. This holds for every generator, for the diff and SQL-update writers, for the translation tools and for the canonical writer.",
     ["fault_sequences", "configurations"],
     "any single write of any output, at any point of any run of any program on any configuration, fails",
     "the tests never make a write fail, and do not run the C, Rust, manpage or JSON-schema generators at all",
     ["lang-c-source.c", "lang-c-header.c", "lang-c-manpage.c", "lang-nodejs.c", "lang-rust.c", "lang-javascript.c", "lang-json.c", "lang-sql.c", "lang-xliff.c", "writer.c", "writer-diff.c", "lang.c"],
     [("return value of every stdio call is tested and propagated", "all lang-*.c, writer*.c"),
      ("each main() tests the generator's result and flushes standard output", "csource.c, cheader.c, nodejs.c, rust.c, sql.c, sqldiff.c, xliff.c, main.c, maindiff.c")],
     tech="interprocedural path-sensitive dataflow (fault-site tags over return-value signs)",
     note="All paths of all functions reachable from each public function and each main(), one failing write at a time. Trusts the documented failure values of stdio.",
     observe=["exit status", "return value of the public functions"])

prop("P02", "Running out of memory is reported, never crashes or passes silently",
     "If any memory allocation fails while a configuration is parsed, linked, compared, translated, audited or written, the library call returns failure and the program exits non-zero. The failed allocation's null result is never dereferenced.",
     ["fault_sequences", "inputs"],
     "any single allocation, at any point of any run on any input, fails",
     "the tests never make an allocation fail",
     ["config.c", "parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "linker.c", "linker_resolve.c", "linker_aliases.c", "diff.c", "lang.c", "lang-xliff.c", "lang-nodejs.c", "audit.c"],
     [("every allocation is tested before use", "all files"),
      ("parse error state, linker return codes", "parser.c, linker.c, linker_resolve.c")],
     tech="interprocedural path-sensitive dataflow (fault-site tags, null tracking)",
     note="All paths from each public function and main(), one failing allocation at a time; null dereference reported when definite on a failure path. Public functions called by the programs are taken at their contract, which is itself checked.",
     observe=["exit status", "return value of the public functions"])

prop("P03", "Configurations are rejected exactly when an error is diagnosed",
     "Parsing or linking fails if and only if an error diagnostic was recorded: no rejection is silent and no configuration with a recorded error is accepted. Every program prints the diagnostics of a rejected configuration, generates nothing from it, and exits non-zero.",
     ["inputs", "programs"],
     "every input text and every path through the parser and linker, and every program that loads a configuration",
     "tests hold a few hundred rejected inputs, only check that the exit status is non-zero, and cannot show that no other path rejects silently or accepts after an error",
     ["parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "linker.c", "linker_resolve.c", "linker_aliases.c", "log.c"],
     [("error token state set with every diagnostic", "parser.c, log.c"),
      ("return codes of the linker passes", "linker.c, linker_resolve.c"),
      ("diagnostics printed before exit", "all main files")],
     tech="interprocedural path-sensitive dataflow (diagnostic typestate vs. returned status)",
     note="All paths of the parser, linker and of each main(); loops to fixpoint, states joined beyond a limit. Assumes allocations succeed (P02).",
     observe=["diagnostics on standard error", "exit status", "generated output"])

prop("P04", "Truncated or unreadable input is never accepted",
     "A configuration whose text ends within a token, within an open block or before a declaration's closing semicolon is rejected with a diagnostic, and so is one whose reading fails. An accepted configuration has been read to its end.",
     ["inputs", "crash_points"],
     "every prefix of every input, and a read error at every character",
     "tests contain complete files only; every prefix of every file cannot be sampled",
     ["parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c"],
     [("end of input and read errors become sticky token states", "parser.c: parse_next, parse_read_err"),
      ("top level rejects end of input inside a declaration", "parser.c: parse_root")],
     tech="interprocedural dataflow over character classes against an independent reader automaton",
     note="All abstract inputs over 16 character classes, every end-of-input and read-error point, all parser paths; nesting depth exact. Assumes allocations succeed (P02).",
     observe=["exit status", "diagnostics"])

prop("P05", "The parser records what ort(5) says a statement means, and refuses others",
     "Every statement that ort(5) allows is accepted by the parser and recorded as documented: structures, fields with their type, reference, flags, actions, limits and default, queries with their terms, operators and clauses, updates, deletes, inserts, unique statements, role trees and role assignments (one map for each operation and name of a structure), enumerations, bitfields, items, labels and comments. Letter case of keywords and names does not matter. Statements outside the syntax are refused, and so are options that ort(5) forbids for a field's type or beside other options, reserved names, repeated names of structures, enumerations, bitfields, fields, roles, named queries and items, repeated item values, repeated limits, and values outside the documented ranges.",
     ["inputs"],
     "every text: each statement with each combination of its options in each order, any names and numbers, any letter case",
     "the tests hold some hundreds of texts, mostly one option at a time, and check of refused ones only that the exit status is non-zero",
     ["parser.c", "parser_struct.c", "parser_field.c", "parser_enum.c", "parser_bitfield.c", "parser_roles.c", "ort.5", "ort.h"],
     [("statement parsers", "parser_struct.c, parser_field.c, parser_enum.c, parser_bitfield.c, parser_roles.c"),
      ("top level and duplicate names", "parser.c: ort_parse_file, parse_check_dupetoplevel"),
      ("requests handed to the linker", "parser*.c: resolve records")],
     tech="abstract interpretation of the parser against a grammar of ort(5) with semantic actions (product of parser states and grammar states)",
     note="The tokens are those of the grammar with symbolic names, numbers and strings; one statement of a kind between arbitrary others, options in pairs to quadruples, dotted names up to three parts, nested roles up to depth three. The scanner (P04) and the linker are outside. Texts that end early are P04.",
     observe=["acceptance of the input", "recorded configuration"])

prop("P06", "Comparing configurations reports every semantic difference, and only those",
     "The comparison of two configurations lists a difference record for every change of a bitfield, enumeration, role, structure, field, query, update, delete, insert or unique statement or of any of their attributes, naming the old and new items, and marks each enclosing declaration as modified. Items whose attributes are all equal are marked as unchanged, and nothing is reported for attributes that did not change.",
     ["inputs", "configurations"],
     "every pair of configurations: any number of declarations before, between and after the changed one, and every kind of change",
     "the tests compare some seventy fixed pairs, each with one change and little around it",
     ["diff.c", "ort.h"],
     [("pairs are matched by name, compared by attribute and reported", "diff.c: ort_diff and the functions it calls"),
      ("label languages are compared by name, not by index", "diff.c: ort_check_labels")],
     tech="path-sensitive abstract interpretation of the comparison over symbolic pairs of configurations",
     note="One difference at a time in one item at any position in lists of any length (all other items arbitrary), against a table of difference kinds per attribute; loops to fixpoint. Names and texts are compared symbolically.",
     observe=["list of difference records"])

prop("P07", "The diff output and exit status agree with the differences found",
     "Every difference record appears in the output as its own line with the right marker and item word, beneath the lines of the modified declarations that enclose it, and records of different kinds are worded differently. ort-diff exits 0 if there is no difference, 1 if there is any and above 1 on failure.",
     ["inputs", "configurations"],
     "every list of difference records, in any order and number",
     "the tests hold fixed pairs for part of the kinds of differences and cannot show that no record is dropped among others",
     ["writer-diff.c", "maindiff.c"],
     [("one line per record", "writer-diff.c: ort_write_diff_file and the functions it calls"),
      ("exit status", "maindiff.c: main")],
     tech="path-sensitive abstract interpretation with output tracking over symbolic record lists",
     note="One record of each kind at any position among any number of others, with its enclosing records; loops to fixpoint. The order of the lines is not judged beyond enclosure.",
     observe=["diff output", "exit status"])

prop("P08", "The SQL schema has exactly the configured tables, columns, keys and indexes",
     "The generated schema has one table per structure with one column per native field, in the column's SQL type, marked as primary key, NOT NULL or neither as the configuration says; one foreign key per native reference, naming the target's table and column and carrying exactly the declared ON DELETE and ON UPDATE actions; and one unique index per unique field and unique statement, over exactly the named columns. Commas, parentheses and comments are placed so that no column, key or index is lost, whatever else is in the configuration.",
     ["configurations", "inputs"],
     "every configuration: any structures, fields, keys, comments and indexes in any number and order around the one under scrutiny",
     "the tests compare some fixed schemas and cannot show what happens for other combinations and orders of field types, flags, references and actions",
     ["lang-sql.c", "lang.c", "ort.h"],
     [("column type table, flags, keys and indexes", "lang-sql.c: ort_lang_sql and the functions it calls"),
      ("documentation becomes complete comment lines", "lang.c: print_comment")],
     tech="path-sensitive abstract interpretation of the generator with output tracked through a regular language",
     note="One field of each type, flag set and action pair, or one unique statement, at any position among any number of arbitrary others; loops to fixpoint. Names are opaque; the language is written from the manual's description.",
     observe=["generated SQL schema"])

prop("P09", "Schema updates are complete, and refused if they could lose or corrupt data",
     "The update between two configurations is refused, with a message and without any SQL output, if an enumeration, bitfield, item of either, structure or native field was dropped (unless destructive changes were allowed with -d) or if an item's value or a field's type, key status, nullness, actions or native reference changed. Otherwise it holds exactly the statements needed for each difference: new tables, columns with type, key, null and reference clauses and default value, unique indexes created and dropped, and, only with -d, tables dropped and dropped columns noted. Foreign keys are enforced before the first statement. The exit status says whether the update was refused.",
     ["configurations", "histories"],
     "every pair of configurations: each kind of difference among any others, for every field type and flag set",
     "the tests compare some fixed pairs, nearly all without other differences, and do not run every field type, action or flag",
     ["lang-sql.c", "sqldiff.c", "ort.h"],
     [("incompatible differences are counted before anything is written", "lang-sql.c: gen_check_*"),
      ("statements per difference", "lang-sql.c: ort_lang_diff_sql and the functions it calls"),
      ("-d and exit status", "sqldiff.c: main")],
     tech="path-sensitive abstract interpretation with output tracked through regular languages",
     note="One difference of each kind, alone and amid any number of arbitrary others; all field types with selected flag sets, all action pairs; loops to fixpoint. Texts of default strings are not examined character by character.",
     observe=["generated SQL", "messages", "exit status"])

prop("P10", "The canonical writer writes every declaration in documented syntax",
     "The configuration written by ort_write_file holds every structure, field, query, update, delete, insert, unique statement, enumeration, bitfield, item, role and role map of its input, with each of their attributes (type, reference, flags, limits, defaults, actions, operators, modifiers, clauses, names, labels and documentation), once, in the syntax documented by ort(5) and within the declaration that holds it, whatever else is in the configuration. Writing never aborts.",
     ["configurations", "inputs"],
     "every configuration: each kind of statement and attribute at any position among any number of arbitrary others",
     "the tests write some fixed files, compare few attributes, and cannot show that none is lost or misplaced in other combinations",
     ["writer.c", "ort.5", "ort.h"],
     [("declarations and statements are written with all attributes", "writer.c: ort_write_file and the functions it calls"),
      ("keyword tables", "writer.c: ftypes, optypes, rolemapts, upts and the other tables")],
     tech="path-sensitive abstract interpretation of the writer with output tracked through regular languages built from the manual's grammar",
     note="One item of each kind with each attribute value at any position among arbitrary others; loops to fixpoint. Texts of labels, comments and default strings are not examined character by character.",
     observe=["written configuration"])

prop("P11", "Names link to what they name, and ill-typed uses are refused",
     "A parsed configuration that keeps the rules of ort(5) is accepted by the linker, and each name in it (letter case ignored) then refers to the object so named: a reference to the right field of the right structure, of the same type and unique; a structure field to its source's target; an enumeration, bitfield or default item; each step of a dotted name in a query, with the alias of the structure it is in; a field of an update or unique statement; a role, and a role map's operation of its kind or field. Each operation and field has exactly the roles given for it or for all; structures come after all that they contain, and are marked when they contain null references. A configuration is refused if a name is unknown or refers to the wrong kind, if a dotted name passes through a null reference or anything but a structure, if an operator or modifier does not apply to the field's type, if grouping is not by a non-null column together with another of the same structure, if a unique statement repeats a field or another statement in any order, if a role occurs twice in a role map, or if a structure contains itself.",
     ["inputs", "configurations"],
     "every configuration: each kind of use, each field type and operator, names at any place among any number of other structures, fields and statements, in any order",
     "the tests hold one or two configurations of each kind of error, check of those only that the exit status is non-zero, and never look at what names were linked to",
     ["linker.c", "linker_resolve.c", "linker_aliases.c", "ort.h", "ort.5"],
     [("resolution of names", "linker_resolve.c: linker_resolve"),
      ("aliases and recursion", "linker_aliases.c: linker_aliases"),
      ("consistency of queries, unique statements and roles; order of structures", "linker.c: ort_parse_close")],
     tech="path-sensitive abstract interpretation of the linker over families of parsed configurations with pinned names, types and flags, list shapes tracked",
     note="The request under scrutiny, with those it depends on, alone and amid any others, which are taken to succeed or fail; other structures and fields are summarised. Dotted names to three parts; up to three unique statements, three role maps and four nested structures, given in all or several orders.",
     observe=["exit status", "diagnostics", "linked configuration"])

prop("P12", "Generated statements say what each operation is configured to do",
     "In the C, JavaScript and Rust interfaces, each structure has one statement for each unique or row identifier field, query, insert, update and delete, listed in the order of the enumeration that names them. The statement is well formed in the language and, as SQL, does what is configured: it selects the structure's columns with those of every nested structure that is never null, each under its own alias and joined to the one holding it, or the distinct columns or count asked for; has one term for each search term, with the operator and the alias of the field's structure, but none for a password compared by hash; groups, orders, limits and offsets as given; inserts every native column but the row identifier; and sets or modifies each field given, for just the rows constrained.",
     ["configurations"],
     "every configuration: each kind of query and update, field type, operator, modifier and clause, alone and together, in each language",
     "the tests compare no C or Rust output, and a few JavaScript outputs with few clauses; statements are prepared only when the generated program runs",
     ["lang.c", "lang-c-source.c", "lang-nodejs.c", "lang-rust.c", "ort.5"],
     [("statements and their enumeration", "lang.c: gen_sql_stmts, gen_sql_enums"),
      ("both lists run over the structures in one order", "lang-c-source.c: ort_lang_c_source; lang-nodejs.c: ort_lang_nodejs; lang-rust.c: ort_lang_rust")],
     tech="path-sensitive abstract interpretation of the generators; each path's output is read as an expression of the target language and the SQL it denotes tracked through a regular language",
     note="Statements of each kind with each clause, field type and operator; up to three of anything repeated, two levels of nested structures, two statements of each kind. Names are opaque. Whether SQLite then returns the right rows is not decided.",
     observe=["generated statements"])

prop("P13", "Generated operations are open to exactly the roles given for them",
     "In the C, JavaScript and Rust interfaces, when roles are configured, each query, insert, update and delete runs its statement only in a role given for it or in one below such a role (all being every role declared), and aborts or is refused in every other; with no role given, in every role. When no roles are configured nothing is refused. A connection starts in the default role, from which every role can be entered; from another role, only its ancestors and none can; from none, nothing.",
     ["configurations", "states"],
     "every tree of roles and every assignment of roles to an operation, whatever operations precede it",
     "the tests run no generated program with roles, and compare no C or Rust output",
     ["lang-c-source.c", "lang-nodejs.c", "lang-rust.c", "ort.5"],
     [("C: hierarchy and statements of each role", "lang-c-source.c: gen_role_hier, gen_roles, gen_func_rolecases"),
      ("JavaScript", "lang-nodejs.c: gen_rolemap, gen_ortctx_dbrole"),
      ("Rust", "lang-rust.c: gen_rolemap, gen_ortctx_dbrole")],
     tech="path-sensitive abstract interpretation of the generators on pinned role trees, generated code tracked through regular languages",
     note="Five shapes of the role tree, up to three levels; up to three roles given. Enforcement in C is left to sqlbox, which is given the hierarchy and each role's statements.",
     observe=["generated code"])

prop("P14", "Exports hold exactly the fields that may be seen, encoded by type",
     "In the C, JavaScript and Rust interfaces, exporting a row writes each of its fields in order, once, under its name and in its type's encoding (numbers as strings, binary data as base64, nested structures by their own export), or null if it has no value; except that no password is ever written, no field marked noexport, and no field hidden from the role, or from one above the role, in which the row was read. The JSON is well formed whichever fields are left out.",
     ["configurations", "states"],
     "every configuration: each type of field, null or not, exported or not, hidden from any roles, at any position",
     "the tests run no generated export function with hidden fields or roles, and compare no C or Rust output",
     ["lang-c-source.c", "lang-nodejs.c", "lang-rust.c", "ort.5"],
     [("C", "lang-c-source.c: gen_json_out, gen_json_out_field, gen_fill"),
      ("JavaScript", "lang-nodejs.c: gen_strct, gen_query"),
      ("Rust", "lang-rust.c: gen_data_strct, gen_field_to_json, gen_query")],
     tech="path-sensitive abstract interpretation of the generators on pinned structures, generated code tracked through regular languages",
     note="Up to three fields, five shapes of the role tree. How kcgi, JSON.stringify and the base64 crate encode what they are given is not decided.",
     observe=["generated code"])


prop("P15", "Operations bind exactly their arguments and check their passwords",
     "In the C, JavaScript and Rust interfaces, each insertion, update, deletion and query takes one argument for each field or term that needs one, in order, and binds them to the placeholders of its statement: each argument to its own parameter and converted by its type, arguments that may be null as null if they are, passwords that are set as the hash of their argument unless set or compared as strings, and nothing else. Terms on hashed passwords bind nothing; instead a row is given only if each of them checks its own argument against the hash in the row, or, for an inequality, fails to. Each field of a row is read from its own column, by its type, or as null.",
     ["configurations", "states"],
     "every configuration: any type of field, null or not, under any operator or modifier, before, after or between others of any kind",
     "the tests compare no C, JavaScript or Rust output, and run few operations, mostly with one argument",
     ["lang-c-source.c", "lang-nodejs.c", "lang-rust.c", "ort.5"],
     [("C", "lang-c-source.c: gen_insert, gen_update, gen_search, gen_iterator, gen_list, gen_count, gen_checkpass, gen_fill"),
      ("JavaScript", "lang-nodejs.c: gen_insert, gen_update, gen_query, gen_fill"),
      ("Rust", "lang-rust.c: gen_insert, gen_update, gen_query, gen_data_strct")],
     tech="path-sensitive abstract interpretation of the generators on pinned structures, generated code tracked through regular languages",
     note="Up to five fields and four terms. The helper that indents C row reading, character by character, is taken to keep the text. What the libraries do with what they are given is not decided.",
     observe=["generated code"])


prop("P16", "Validators accept exactly the values of a field's type within its limits",
     "In the C and JavaScript interfaces, each field except nested structures has a validator, which refuses values that are not of the field's type (an enumeration's items, 64-bit integers, bit indices and so on) and those that do not meet each of its limits, and accepts all others. Limits apply to the value of numbers and to the length in bytes of texts, e-mail addresses, passwords and binary data. In C, the keys declared in the header are the positions in the table of validators.",
     ["configurations"],
     "every configuration: each type of field, null or not, under any limits, next to others",
     "the tests run no validator at or beyond its limits",
     ["lang-c-source.c", "lang-c-header.c", "lang-nodejs.c", "ort.5"],
     [("C", "lang-c-source.c: gen_valids, gen_valids_field, gen_valid; lang-c-header.c: gen_valid_enums"),
      ("JavaScript", "lang-nodejs.c: gen_ortns_express_valid, gen_ortns_express_valids")],
     tech="path-sensitive abstract interpretation of the generators on pinned structures, generated code tracked through regular languages",
     note="How limits on real numbers are spelled, and what kcgi and validator.js accept as a type, is not decided.",
     observe=["generated code"])
