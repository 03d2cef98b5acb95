"""Writes properties.jsonl (the single source of the property list)."""
import json, pathlib
P = []
WQL = "wiggle_query_language"
CL = f"{WQL}/clauses"
PH = f"{CL}/parsing_helpers"
GR = f"{WQL}/graph"
IX = f"{GR}/database/indexes"
SH = "wiggle_shell/core/select_gdbms"

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "MAKE stores exactly the pattern that was written",
 "Every well-formed MAKE query (one or more statements of comma-separated patterns of one to three nodes joined by directed relationships, with or without a FIND/REPORT) is accepted. Afterwards the stored graph is the graph before it, unchanged, plus exactly one node per written node and one relationship per written relationship, each with the written label or name, typed properties, and direction between the right nodes.",
 ["inputs", "histories"], "All well-formed MAKE queries (pattern shapes, directions, handles, property lists, numbers of patterns and statements) run against all graphs built by earlier queries.",
 "No existing test runs make() or query() at all: tests check single regexes and single parse results on a handful of literals, never the stored graph.",
 [f"{CL}/make/make.py", f"{CL}/make/transform/make_pre.py", f"{CL}/make/parse_make/parse_make_statement.py", "wiggle_shell/core/query/query.py"],
 [("pattern regex to parsed pattern", f"{CL}/parsing_helpers/extract_patterns.py"), ("parsed pattern to pre-nodes with identifiers and directions", f"{CL}/make/transform/make_pre.py:process_parsed_make_list"), ("pre-nodes to stored nodes", f"{CL}/make/make.py:make_nodes")],
 [("database file", "JSON map identifier -> node with owned relationships", f"{GR}/database/database.py")],
 ["query(query_string, gdbms_file_path)", "database JSON file"])

prop("C02", "Property values are stored with exactly the written type and value",
 "A node or relationship property written as an integer, float, boolean, null, quoted string, or a list of these is stored with exactly that type and value, and nothing else is stored under any other property name. In particular the text between the quotes of a string is stored as it is (spaces, the other quote character, digits, commas, colons and words such as true or null inside it included), whatever whitespace surrounds the values. Only a string that is nothing but a reserved word (true, True, false, False, None, none, Null) cannot be stored and is refused.",
 ["inputs"], "All property maps over the documented types and all values and layouts the query syntax can express.",
 "Tests decode about a dozen fixed literals; the property quantifies over all values, quotings, orders and spacings.",
 [f"{PH}/parse_properties.py", f"{CL}/regexes/patterns/properties.py", "models/wql/parsing/properties_pre.py", f"{PH}/parse_statement_checks.py"],
 [("property regex with one group per type", f"{CL}/regexes/patterns/properties.py"), ("per-type conversion", f"{PH}/parse_properties.py:handle_extracted_property"), ("list literal evaluation", f"{PH}/parse_properties.py:handle_list_property")],
 observe=["database JSON file after query()", "get_property_dict(properties_string)"])

prop("C03", "Identifiers are unique and never reused",
 "Over any history of accepted and rejected queries on a database, every stored node and relationship has an identifier that no other stored node or relationship has, and no identifier is ever given out twice. The persisted counter is always greater than every identifier in use and never goes down, so a later query never overwrites or re-identifies an earlier record.",
 ["histories"], "All sequences of MAKE, FIND, rejected and multi-statement queries on one database, including reopening it from its files.",
 "Tests only read and write the counter file with small integers; none runs two queries on the same database.",
 [f"{GR}/state/wiggle_number.py", f"{CL}/make/make.py", f"{CL}/make/transform/make_pre.py", f"{GR}/database/database.py"],
 [("counter read at the start and persisted by each MAKE", f"{CL}/make/make.py:make"), ("one increment per node and relationship", f"{CL}/make/transform/make_pre.py"), ("refusal to add an existing identifier", f"{GR}/database/database.py:add_item_to_database")],
 [("wiggle number file", "next free identifier", f"{GR}/state/wiggle_number.py")],
 ["database JSON file", "wiggle number file"])

prop("C04", "Indexes always agree with the stored graph",
 "After any history of queries, the node-label index is exactly the set of labels of stored nodes, the relationship-name index is exactly the set of names of stored named relationships, and the node-relationship index maps each stored node that owns relationships to exactly the identifiers of those relationships and contains nothing else. The index file is always valid and all three indexes can be loaded.",
 ["histories"], "All sequences of queries on one database, including queries that create no relationships, no new labels, or nothing.",
 "Each index test adds one or two hand-written non-empty sets to one index; no test relates an index to the graph.",
 [f"{IX}/index_helpers.py", f"{IX}/node_relationships_index.py", f"{IX}/node_labels_index.py", f"{IX}/relationship_names_index.py", f"{CL}/make/make.py"],
 [("index maintenance by MAKE", f"{CL}/make/make.py:add_indexes"), ("read-modify-write of the index file", f"{IX}/index_helpers.py:add_items_set_to_index_by_name")],
 [("indexes file", "JSON object with the three indexes", f"{IX}/__init__.py")],
 ["load_node_labels_index", "load_relationship_names_index", "load_node_relationships_index", "indexes JSON file"])

prop("C05", "A rejected query leaves the database untouched",
 "If a query raises an error for any reason to do with its text, the database, index and counter hold exactly what they held before, even when other statements of the same query are valid and come earlier. The database stays readable and the next valid query on it succeeds.",
 ["inputs", "histories"], "All query texts, valid or not (structured mutations and arbitrary text), at any point of a history.",
 "Tests check that individual validators raise on single literals; none looks at the files after a rejected query.",
 ["wiggle_shell/core/query/query.py", f"{CL}/make/make.py", f"{PH}/parse_statement_checks.py", f"{GR}/database/database.py"],
 [("parse everything before executing", "wiggle_shell/core/query/query.py:query"), ("build all nodes before writing", f"{CL}/make/make.py:make"), ("value conversion before writing", f"{PH}/parse_properties.py")],
 observe=["query()", "the three files of the database"])

prop("C06", "Only MAKE writes: FIND and REPORT never change data",
 "A query without a MAKE statement never changes the database, its indexes or its counter. In a query that combines MAKE with FIND and REPORT, on one line or several, in any order, only the patterns of the MAKE statements are created.",
 ["inputs", "histories"], "All FIND/REPORT queries and all MAKE+FIND+REPORT combinations, layouts and orders, on all graphs.",
 "No test executes a query; statement extraction is tested only with every clause on its own line.",
 ["wiggle_shell/core/query/query.py", f"{PH}/extract_statements.py", f"{CL}/regexes/patterns/clause_helpers.py", f"{CL}/find/find.py", f"{CL}/report/report.py"],
 [("statement extraction per clause", f"{PH}/extract_statements.py:extract_all_statements"), ("execution per clause", "wiggle_shell/core/query/query.py:execute_query")],
 observe=["query()", "the three files of the database"])

prop("C07", "FIND never denies matches that exist, nor searches when none can",
 "If the graph contains a match for a FIND pattern (same labels, relationship names, directions), FIND does not answer that there are no results. If none of the pattern's node labels occurs in the graph, or the pattern names relationships and none of those names occurs in the graph, FIND answers that there are no results. The graph of a FIND includes what the MAKE statements written before it in the same query make.",
 ["inputs", "histories"], "All graphs built by MAKE histories and all FIND patterns of one to three labelled nodes, with or without named relationships.",
 "Tests check the two set-membership helpers on fixed sets; the decision that combines them with the stored indexes is never executed.",
 [f"{CL}/find/find.py", f"{CL}/find/short_circuits/find_short_circuits.py", f"{CL}/find/short_circuits/nodes.py", f"{CL}/find/short_circuits/relationships.py"],
 [("index-based short circuit", f"{CL}/find/short_circuits/find_short_circuits.py:find_short_circuit")],
 observe=["find() result", "'No results' message of query()"])

prop("C08", "FIND looks for exactly the pattern that was written",
 "The search built from a FIND statement has exactly the written nodes and relationships in their written places: each with its own handle, label or name and typed required properties, and each relationship attached to the node it starts from. Criteria given for a handle are added to the requirements (wanted and unwanted) of the node or relationship with that handle and to nothing else, whether or not it already has properties.",
 ["inputs"], "All FIND patterns of one to three labelled nodes with every combination of directions, handles and properties, and all criteria over their handles.",
 "Tests only merge criteria into a hand-built object; no test transforms a parsed FIND statement into a search.",
 [f"{CL}/find/transform/find_pre.py", f"{CL}/find/parse_find/parse_find_statement.py", "models/wql/clauses/find/find_pre.py", "models/wql/parsing/parsed_query.py"],
 [("FIND parse", f"{CL}/find/parse_find/parse_find_statement.py"), ("pattern to search", f"{CL}/find/transform/find_pre.py:process_parsed_find"), ("criteria merge", f"{CL}/find/transform/find_pre.py:add_criteria_yes_no_props")],
 observe=["process_parsed_find(parse_find_statement_from_query_string(q), criteria)"])

prop("C09", "Malformed statements are rejected with a WiggleGraph error",
 "A MAKE or FIND statement with an undirected or two-way relationship, a relationship name that is not upper case, an unbalanced bracket, an illegal character (# % & * $), a missing comma or colon between properties, a missing comma in a list, an empty or wrongly-cased value (True, Null), or a handle used twice in one pattern, and a MAKE, FIND or REPORT keyword with its letters transposed, is rejected with a WiggleGraph error. This holds whichever statement, pattern, node or relationship of the query is the malformed one.",
 ["inputs"], "All well-formed queries and every position in them at which one of the listed mistakes can be made.",
 "Tests make each mistake once, in the first and only statement.",
 [f"{PH}/parse_statement_checks.py", f"{PH}/extract_statements.py", f"{PH}/parse_properties.py", "models/wql/parsing/parsed_query.py", f"{CL}/transform_helpers/relationships.py"],
 [("statement validators", f"{PH}/parse_statement_checks.py:validate_statement"), ("keyword spelling check", f"{PH}/parse_statement_checks.py:check_clause_spelling"), ("unique handles", "models/wql/parsing/parsed_query.py:validate_handles")],
 observe=["exception raised by query()"])

prop("C10", "Layout and keyword case never change what a query means",
 "Changing only the case of the clause keywords, the whitespace between tokens (spaces, tabs, line breaks), the length of relationship arrows, whether statements share a line, or the handles of a query changes neither whether it is accepted nor the graph it creates.",
 ["inputs"], "All pairs of layouts of the same query.",
 "Tests use one or two layouts per literal and never compare results across layouts.",
 [f"{CL}/regexes/patterns/patterns_helpers.py", f"{CL}/regexes/patterns/clause_helpers.py", f"{CL}/transform_helpers/relationships.py", "models/wql/parsing/parsed_query.py"],
 [("whitespace-tolerant regexes", f"{CL}/regexes/patterns/patterns_helpers.py"), ("direction from the arrow", f"{CL}/transform_helpers/relationships.py:relationship_is_left_to_right")],
 observe=["graph after query() for each layout"])

prop("C11", "Batching MAKE statements equals running them one by one",
 "Running several MAKE statements as one query, or several patterns as one statement, leaves the same graph, the same indexes and the same number of identifiers consumed as running them as separate queries in the same order.",
 ["inputs", "histories"], "All lists of MAKE patterns and all ways of grouping them into statements and queries.",
 "No test runs a query; parse tests only count statements.",
 [f"{CL}/make/make.py", f"{CL}/make/transform/make_pre.py", f"{PH}/extract_statements.py"],
 [("accumulation over statements and patterns", f"{CL}/make/transform/make_pre.py:process_parsed_make_list"), ("index union over patterns", f"{CL}/make/make.py:add_indexes")],
 observe=["the three files after each grouping"])

prop("C12", "Creating and deleting a DBMS affects only that DBMS",
 "Over any history of creating, listing and deleting DBMSs, the listing shows exactly those created and not deleted, in alphabetical order; a new DBMS has an empty database, empty indexes and counter 0, also when a DBMS of its name existed before: nothing of that one is found in it. Creating a name that exists is refused and leaves its files as they were, deleting removes that DBMS and its files completely, and deleting a name that does not exist is refused; no other DBMS changes, whatever characters the names contain.",
 ["histories", "inputs"], "All sequences of create/list/open/delete/fill operations over all valid names (including names containing glob or JSON special characters, spaces, dots, Unicode, and prefixes of each other).",
 "Tests create and delete one or two fixed alphanumeric names.",
 [f"{SH}/select_gdbms.py", f"{SH}/select_database_file.py", f"{SH}/select_index_file.py", f"{SH}/select_wiggle_number_file.py"],
 [("file creation with existence check", f"{SH}/select_database_file.py:create_new_database"), ("deletion", f"{SH}/select_gdbms.py:delete_gdbms"), ("listing", f"{SH}/select_gdbms.py:list_existing_dbms")],
 [("DBMS folder", "one sub-folder per DBMS holding its three files", "wiggle_shell/__init__.py:DBMS_FOLDER")],
 ["get_new_gdbms_file_paths", "list_existing_dbms", "delete_gdbms", "the folder on disk"])

prop("C13", "No DBMS name reaches outside the DBMS folder",
 "For any string given as a DBMS name, creating or deleting a DBMS never creates, changes or removes anything outside that DBMS's own sub-folder of the DBMS folder. A name that is not a plain folder name (empty, absolute, '.' or '..', containing a path separator, or too long for the names of its files) is refused and changes nothing anywhere.",
 ["inputs"], "All strings as names: empty, absolute paths, dot segments, separators, NUL, very long names.",
 "Tests use four fixed alphanumeric names.",
 [f"{SH}/select_gdbms.py", f"{SH}/select_database_file.py", f"{SH}/select_index_file.py", f"{SH}/select_wiggle_number_file.py"],
 [("path construction from the name", f"{SH}/select_database_file.py"), ("recursive removal", f"{SH}/select_gdbms.py:delete_gdbms")],
 observe=["paths touched by file-system calls", "folder tree before and after"])

prop("C14", "Databases are isolated from each other",
 "For any interleaving of queries on several databases, each database ends up exactly as if only its own queries had been run, in their order, and each query is answered (accepted or rejected, no results or some) as it is then. A query never touches the files of a database it was not sent to.",
 ["histories", "schedules"], "All interleavings of query sequences over two to four databases in one process.",
 "Every test uses a single shared sample database.",
 ["wiggle_shell/core/query/query.py", f"{CL}/make/make.py", "models/wql/clauses/make/make_pre.py", "models/wql/clauses/find/find_pre.py", "models/wigish/dbms.py"],
 [("explicit file paths per query", "models/wigish/dbms.py"), ("fresh state per pattern", "models/wql/clauses/make/make_pre.py")],
 observe=["the files of each database"])

prop("C15", "Adding records is all-or-nothing and never overwrites",
 "Adding a batch of records to a database in which none of their identifiers exists makes loading return the old records plus exactly the new ones, equal in content and order of insertion. If any identifier of the batch already exists the whole batch is refused and the stored content is unchanged; wiping needs explicit confirmation and otherwise changes nothing.",
 ["histories"], "All sequences of add/load/wipe with arbitrary JSON records and overlapping identifier sets.",
 "One test adds one fixed batch twice.",
 [f"{GR}/database/database.py"],
 [("existence check before writing", f"{GR}/database/database.py:add_item_to_database"), ("confirmation flag", f"{GR}/database/database.py:wipe_database")],
 observe=["load_database", "database file"])

prop("C16", "Each index behaves as a growing set, independent of the others",
 "For any history of index additions and wipes, each of the three indexes loads as exactly the union of what was added to it since it was last wiped (per node for the node-relationship index), whatever was done to the other two, also for empty additions. Wiping needs explicit confirmation and otherwise changes nothing; the counter file always reads back the number last written.",
 ["histories"], "All interleavings of add (including empty), load and wipe (confirmed or not) over the three indexes and the counter.",
 "Each test adds two fixed non-empty sets to one index.",
 [f"{IX}/index_helpers.py", f"{IX}/node_relationships_index.py", f"{IX}/node_labels_index.py", f"{IX}/relationship_names_index.py", f"{GR}/state/wiggle_number.py"],
 [("read-modify-write of one key of the index file", f"{IX}/index_helpers.py"), ("per-node union", f"{IX}/node_relationships_index.py:add_items_to_node_relationships_index")],
 observe=["load_* functions", "indexes JSON file"])

prop("C17", "Creation times are the times of creation",
 "Every node and relationship created by a query carries a creation time not before the query was started and not after it returned, and has no update time. Creation times of earlier records never change, and records of a later query never carry an earlier time than those of an earlier one.",
 ["histories"], "All histories of MAKE queries in one process, with any time between them.",
 "No test looks at a creation time.",
 ["models/wql/data/wiggle_metadata.py", f"{CL}/make/make.py"],
 [("default of the creation time", "models/wql/data/wiggle_metadata.py:WiggleGraphMetalData")],
 observe=["created_at and updated_at in the database file"])

prop("C18", "An interrupted MAKE leaves the old graph or the new graph",
 "If the process dies or the disk refuses a write at any point during a MAKE query, the database, index and counter files all remain readable, the stored graph is exactly the one before the query or exactly the one after it, and every stored label and relationship name is still in its index. After the interruption the next MAKE query on the database succeeds without reusing an identifier.",
 ["crash_points", "fault_sequences", "histories"], "Every file-system call of a MAKE query, as a crash point (before it, after it, or half-way through a write) and as a failing call, for generated histories and queries.",
 "No test injects a fault.",
 [f"{CL}/make/make.py", f"{GR}/database/database.py", f"{IX}/index_helpers.py", f"{IX}/node_relationships_index.py", f"{GR}/state/wiggle_number.py"],
 [("order of the writes of a MAKE", f"{CL}/make/make.py:make"), ("how each file is replaced", f"{GR}/database/database.py")],
 observe=["the three files after a fault at each file-system call"])

prop("C19", "Relationships always join two distinct nodes of the same graph",
 "After any history, every stored relationship starts and ends at two different nodes that are stored in the same database, and is stored with the node it starts from. A relationship from a node to itself, or a node carrying a relationship that neither starts nor ends at it, can never be constructed.",
 ["histories", "inputs"], "All histories of queries; all combinations of node and endpoint identifiers offered to the record types.",
 "Tests try one good and one bad pair of identifiers, with a single relationship.",
 ["models/wql/data/node.py", "models/wql/data/relationship.py", f"{CL}/make/transform/make_pre.py", f"{CL}/make/make.py"],
 [("record validators", "models/wql/data/node.py:validate_relationships"), ("endpoint assignment", f"{CL}/make/transform/make_pre.py")],
 observe=["database file", "constructing node and relationship records"])

prop("C20", "Records survive export, storage and rebuild",
 "Exporting any node record, storing it as JSON and building a record from the stored form gives an equal node with equal relationships, also when the export leaves out what is none; the export is keyed by the node's identifier. The exported relationship index of a node lists exactly the identifiers its relationships point to, and its list of relationship names is that of its relationships in order; both are absent when there are none.",
 ["inputs"], "All node records with any properties and any number of outgoing or incoming relationships, named or not.",
 "Tests build a node with one relationship and check only the number of relationships.",
 ["models/wql/data/node.py", "models/wql/data/relationship.py", "models/wql/data/wiggle_metadata.py", f"{GR}/database/database.py"],
 [("export", "models/wql/data/node.py:export_node"), ("relationship export", "models/wql/data/node.py:export_relationship_indexes")],
 observe=["export_node", "load_database", "record constructors"])

prop("C21", "A query has at most one FIND and REPORT, over handles FIND defines",
 "A query with more than one FIND statement or more than one REPORT statement is rejected, on one line or several. A REPORT is accepted when every item is *, a handle of the FIND pattern, a property of such a handle, or wn() of one, and is rejected when any item uses a handle that the FIND pattern does not define.",
 ["inputs"], "All FIND patterns with any subset of handles, all REPORT lists over defined and undefined handles (including handles that are substrings of each other or of the keyword), all layouts.",
 "Tests pass nine fixed REPORT strings with a hand-made handle set in which every handle is always reported.",
 [f"{CL}/report/parse_report/parse_report_statement.py", f"{CL}/find/parse_find/parse_find_statement.py", f"{PH}/extract_statements.py", f"{CL}/regexes/report/report_patterns.py"],
 [("handle check", f"{CL}/report/parse_report/parse_report_statement.py:check_find_report_handles"), ("single statement check", f"{CL}/find/parse_find/parse_find_statement.py")],
 observe=["query() accepted or raised"])

prop("C22", "Nothing written in an accepted MAKE query is silently dropped",
 "For any text, if a query is accepted then every node, relationship, property and list element written in its MAKE statements is in the stored graph with the written value, and nothing else was added; text that cannot be stored completely is rejected as a whole. This includes values outside the supported syntax, such as negative numbers, characters the language does not allow, nested lists, and patterns of more than three nodes.",
 ["inputs"], "All query texts near and far from the grammar: token-level and character-level mutations of well-formed queries and fuzzed text.",
 "Tests feed well-formed literals or one known mistake; none checks what is stored for text that the patterns only partly match.",
 [f"{CL}/make/parse_make/parse_make_statement.py", f"{CL}/regexes/patterns/patterns_helpers.py", f"{CL}/regexes/patterns/properties.py", f"{PH}/parse_properties.py", f"{PH}/extract_statements.py"],
 [("pattern matching over a statement", f"{CL}/parsing_helpers/extract_patterns.py:extract_patterns"), ("property matching over a property map", f"{PH}/parse_properties.py:parse_properties")],
 observe=["query()", "database file"])

prop("C23", "A shell session applies exactly the queries typed, and survives errors",
 "For any sequence of lines typed into the shell, each line up to the one that quits is run as a query on the selected database, exactly once and in order: the database ends as if the lines had been run directly. A line that is rejected prints an error and the session goes on; the session always starts on a fresh or existing database as chosen and ends at q.",
 ["histories", "inputs"], "All sequences of typed lines (valid, invalid, blank, help, containing the word help) and of answers to the database-selection prompts, over sessions that create or reopen databases.",
 "The shell loop and the selection prompts have no test.",
 ["wiggle_shell/wiggleshell.py", f"{SH}/select_gdbms.py", "wiggle_shell/core/query/query.py"],
 [("read-eval loop", "wiggle_shell/wiggleshell.py:start_wiggle_shell"), ("selection prompts", f"{SH}/select_gdbms.py:select_gdbms")],
 observe=["scripted input", "printed output", "database files"])

prop("C24", "Words that look like keywords are plain data inside a pattern",
 "Labels, handles, property names and string values that are, contain, or are anagrams of the clause keywords (make, find, report, porter, Remake, ...), or that read like a value (null, true, ...), are treated like any other word: they never start or end a statement, cause a spelling error or get mistaken for one. A statement's keyword counts only at the start of a statement.",
 ["inputs"], "All well-formed queries whose words are drawn from the keywords, their anagrams and extensions, and the words of values, in every letter case and position.",
 "Tests never use a keyword or an anagram of one as data.",
 [f"{PH}/extract_statements.py", f"{PH}/parse_statement_checks.py", f"{CL}/regexes/report/report_patterns.py", f"{CL}/regexes/patterns/clause_helpers.py"],
 [("keyword regexes", f"{CL}/regexes/patterns/clause_helpers.py"), ("spelling check", f"{PH}/parse_statement_checks.py:check_clause_spelling")],
 observe=["query()", "database file"])

prop("C25", "A database lives in its files: sessions see each other's queries",
 "For any history of queries on a database, however it is spread over sessions (processes that stay open, are closed, or are opened later; one query at a time), every query is accepted or rejected, answered and stored exactly as if one session had run them all. Nothing a session remembers from before hides or undoes what another one stored, and the locale, time zone, hash seed and working directory of a session make no difference. Creation times are right in every time zone.",
 ["histories", "configurations", "schedules"], "All assignments of the queries of a history to one to four sessions of different environments, with sessions closed and opened between any two queries.",
 "The tests run in one process with one environment, and check single functions on a file that nothing else changes.",
 [f"{GR}/database/database.py", f"{IX}/index_helpers.py", f"{GR}/state/wiggle_number.py", f"{GR}/atomic_write.py", "models/wql/data/wiggle_metadata.py"],
 [("every query reads and writes the files", f"{CL}/make/make.py:make"), ("creation time", "models/wql/data/wiggle_metadata.py")],
 observe=["query()", "database file", "indexes file", "wiggle number file"])

prop("C26", "Every text is answered, and size makes no difference",
 "Every query text, well formed or not and whatever is repeated in it, is accepted or rejected in a short time: no text makes a query hang or exhausts the stack. A well-formed query of any size (many patterns, statements, properties or list elements, long strings, words, arrows or whitespace), on a database of any size, is accepted and stored, indexed and found exactly like the same things in small queries.",
 ["inputs", "histories"], "All texts of some thousand characters with any piece repeated, and all large well-formed queries followed by further queries.",
 "The tests use texts of at most a few hundred characters, and databases of a few records.",
 [f"{CL}/regexes/patterns/patterns_helpers.py", f"{CL}/regexes/patterns/properties.py", f"{PH}/parse_properties.py", f"{PH}/parse_statement_checks.py", f"{CL}/make/make.py"],
 [("regexes over the whole text", f"{CL}/regexes/patterns"), ("loops over statements and patterns", f"{CL}/make/transform/make_pre.py:process_parsed_make_list")],
 observe=["query()", "database file", "indexes file", "wiggle number file"])

prop("C27", "An interrupted creation or deletion of a DBMS leaves no half of one",
 "If the process dies or the disk refuses a change at any point while a DBMS is created or deleted, every other DBMS keeps its files as they were, and a DBMS that can be selected afterwards is complete: an empty one after a creation, the one from before the deletion otherwise. The name is never lost: what an interrupted creation left can be created again or deleted, what an interrupted deletion left can be deleted, and a creation that is refused changes nothing.",
 ["crash_points", "fault_sequences", "histories"], "All points in the sequence of file changes of a creation or deletion, all kinds of failure there, followed by selecting, creating, deleting and querying.",
 "The tests create DBMSs only where nothing fails.",
 [f"{SH}/select_gdbms.py", f"{SH}/select_database_file.py", f"{SH}/select_index_file.py", f"{SH}/select_wiggle_number_file.py", f"{GR}/atomic_write.py"],
 [("creation of the three files", f"{SH}/select_gdbms.py:get_new_gdbms_file_paths"), ("deletion file by file", f"{SH}/select_gdbms.py:delete_gdbms")],
 observe=["files below the DBMS folder", "the selection prompt", "query()"])

prop("C28", "The text of a query is data: none of it is executed",
 "Whatever a query holds, in values, list elements, names, labels, handles, criteria and report items or between its statements, running it by call or from the shell never executes any of it as code or as a command, starts no program, opens no connection, reads no file that it names and changes no file but those of its database.",
 ["inputs"], "All texts with fragments of Python, shell, template, format, SQL and path syntax in any place.",
 "The tests hold no such text and see only what is returned.",
 [f"{PH}/parse_properties.py", f"{PH}/parse_statement_checks.py", "wiggle_shell/core/query/query.py", "wiggle_shell/wiggleshell.py"],
 [("lists are read as literals", f"{PH}/parse_properties.py:handle_list_property"), ("the check of lists", f"{PH}/parse_statement_checks.py:check_node_rel_properties")],
 observe=["what is executed, started and opened", "files of the scratch folder", "query()"])

prop("C29", "What a session of the shell accepted stays, however the session ends",
 "What an accepted line makes is in the files of its DBMS when the shell asks for the next line. Whether the session is then ended by q, by the end of its input or by a signal, and whatever folder, locale and time zone it was started in, every later session of the same installation is offered every DBMS under its name, can open it and finds exactly what the accepted lines of all sessions made; the shell changes nothing but the DBMS folder of its installation and its log.",
 ["histories", "crash_points", "inputs"], "All sequences of sessions, one after the other or in turns, their lines, surroundings and ends.",
 "The tests never start the program: the shell, its DBMS folder and its end are not tested.",
 ["wiggle_shell/wiggleshell.py", "wiggle_shell/__init__.py", f"{SH}/select_gdbms.py", "wiggle_shell/core/query/query.py", "project_root.py"],
 [("the loop of the shell", "wiggle_shell/wiggleshell.py:start_wiggle_shell"), ("where the DBMS folder is", "wiggle_shell/__init__.py:DBMS_FOLDER"), ("choosing a DBMS", f"{SH}/select_gdbms.py:select_gdbms")],
 observe=["the program's prompts and status", "files of the installation", "files of the folder it was started in"])

prop("C30", "Sessions at the same moment on different DBMSs, or only reading, do not mix",
 "Whatever other sessions do at the same moment to other DBMSs (queries, wiping, creating, deleting, listing, loading), and in whatever order the accesses to files of all of them interleave, every query, creation and deletion of a DBMS is answered and stored exactly as if its session were alone, and a listing shows every DBMS that is there all the time. A session that only reads a DBMS (FIND, loading its database, an index or its counter) while another one runs queries on it or wipes it is never refused and sees it as it is before or after one of the changes made meanwhile, and does not disturb them.",
 ["schedules", "histories", "inputs"], "All interleavings of the file accesses of two or three processes, and all their operations.",
 "The tests run in one process, one call after the other.",
 [f"{GR}/atomic_write.py", f"{GR}/database/database.py", f"{GR}/database/indexes/index_helpers.py", f"{GR}/database/indexes/node_relationships_index.py", f"{GR}/state/wiggle_number.py", f"{SH}/select_gdbms.py"],
 [("replacing a file", f"{GR}/atomic_write.py:write_file_atomically"), ("reading while it is replaced", f"{GR}/database/database.py:load_database"), ("folders of DBMSs", f"{SH}/gdbms_folder.py")],
 observe=["query()", "load_database()", "list_existing_dbms()", "files of each DBMS"])

prop("C31", "An interrupted change of a database, an index or the counter is made or not made",
 "If the process dies, is interrupted or the disk refuses a write at any point while one of the functions that store (adding records, adding to an index, writing the counter, wiping the database or one index) changes a file, everything loads afterwards either as it was before or as the change makes it, and as the change makes it if the function returned; the file is complete, no other index or file changes, and the next change is made as usual.",
 ["crash_points", "fault_sequences", "histories"], "All points in the sequence of file changes of each storage function, all kinds of failure there, over all earlier changes and with every next one.",
 "The tests store only where nothing fails.",
 [f"{GR}/database/database.py", f"{GR}/database/indexes/index_helpers.py", f"{GR}/database/indexes/node_relationships_index.py", f"{GR}/state/wiggle_number.py", f"{GR}/atomic_write.py"],
 [("replacing a file", f"{GR}/atomic_write.py:write_file_atomically"), ("adding records", f"{GR}/database/database.py:add_item_to_database"), ("wiping", f"{GR}/database/database.py:wipe_database")],
 observe=["load_database()", "load_*_index()", "get_current_wiggle_number()", "files of the DBMS"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
