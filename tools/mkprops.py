import json
T="src/testing/test.rs"; D="src/testing/database.rs"; C="src/testing/calc_eval.rs"; R="src/testing/relation_mgr.rs"
DC="src/decompile/decompiler.rs"; BL="src/burn_script/lexer.rs"; BP="src/burn_script/parser.rs"; CL="src/compile/lexer.rs"; CP="src/compile/parser.rs"
props=[]
def P(id,title,stmt,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    props.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))
STEP="The interpreter runs in-process through the guarded driver hook (cfg burn_verif)."
vm_state=[("call stack","names of the scripts being run, innermost last",T+": TestEnvironment.instruction_ptr"),
          ("variables","one set of variables per script on the call stack",T+": TestEnvironment.variables")]
db_state=[("records","for each table, one value list per field",D+": Table.fields[].records"),
          ("found set / current record","per table occurrence: the record numbers found and the position in them",D+": TableOccurrence.found_set, record_ptr"),
          ("current occurrence","the table occurrence the shown layout is based on",D+": Database.occurrence_handle")]

P("S01","An if chain runs exactly its first true branch",
 "When a test or script runs an if / elif / else chain, exactly the statements of the first branch whose condition is true run, or those of the else branch (if there is one) when none is, and then execution goes on right after the chain. Conditions after the chosen branch have no effect. This holds however deeply chains, loops and script calls are nested inside the branches and whatever they contain.",
 ["programs"],"all scripts built from if chains with any number of elif branches, nested with each other, loops and script calls",
 "The only control-flow test has one flat if/elif/elif/else in one loop; no test nests chains or leaves one without else, so branch skipping by position, depth or remembered outcome is untested.",
 [T,"src/fm_script_engine/fm_script_engine_instructions.rs"],[("skip to the next branch or the end of the chain, counting nested chains",T+": TestEnvironment::step, If/ElseIf/Else/EndIf"),("remembered outcome of the running chain",T+": TestEnvironment.branch_taken")],
 vm_state,["interpreter state after every step"],STEP)
P("S02","Loops repeat and exit at their own loop",
 "A loop repeats its own body until an exit_loop_if inside that body has a true condition, or a go_to_record to the next or previous record with a true exit flag cannot move; either then continues right after the innermost loop that contains it. Enclosing loops and if chains go on unaffected, and loops can be nested to any depth, follow one another and appear in called scripts.",
 ["programs"],"all terminating scripts of nested and consecutive loops, exits at any position and depth, any number of iterations",
 "Tests only run single, un-nested loops with one exit at the top of the body.",
 [T],[("end of loop returns to the start of its own loop",T+": TestEnvironment::step, EndLoop"),("exit goes behind the end of its own loop",T+": TestEnvironment::step, ExitLoopIf and GoToRecordRequestPage")],
 vm_state,["interpreter state after every step"],STEP)
P("S03","A script call runs the callee once and returns to the next step",
 "Performing a script by name runs that script's steps from its first to its last, then continues the caller at the step after the call; this nests and recurses to any depth. Performing a name that no script has does nothing and execution goes on with the next step. A test ends exactly when its own script has run its last step.",
 ["programs"],"all call graphs over defined, empty and undefined script names, calls from inside branches and loops, repeated and recursive calls",
 "No test performs a script at all.",
 [T],[("call pushes a frame after advancing the caller",T+": TestEnvironment::step, PerformScript"),("end of script pops its frame",T+": TestEnvironment::step, script end")],
 vm_state,["interpreter state after every step"],STEP)
P("S04","Variables are local to a script run and hold the last value assigned",
 "Reading a variable gives the value most recently assigned to that name in the same run of the same script, unchanged: a number, a text (of any characters except the double quote) or a truth value. A called script starts without variables and neither sees nor changes its caller's, and the caller finds its own unchanged when the call returns. Assigning one variable changes no other variable, and assigning one again replaces its value.",
 ["programs"],"all sequences of assignments, reads and nested or recursive calls with equal and different variable names",
 "Tests use one script with one or two variables; no test has a call, so scoping is never exercised.",
 [T],[("one variable map per call frame",T+": TestEnvironment.variables, PerformScript, script end"),("assignment",T+": TestEnvironment::step, SetVariable"),("variable lookup",T+": TestEnvironment::get_operand_val")],
 vm_state,["interpreter state after every step"],STEP)
P("T01","A test fails exactly when one of its executed assertions is false",
 "The outcome of a test is Fail if and only if running it reached an assertion whose condition is false, in the test's own script or in any script it performs. A failed assertion stops the test: none of its later steps has an effect. Assertions that are not reached, such as those in branches not taken or after the end, do not count.",
 ["programs"],"all test scripts with assertions at any place, true or false, reached or not",
 "Every test in the suite expects success; no test has a failing assertion, so a runner that never fails, or that keeps going, passes the suite.",
 [T],[("assert step sets the outcome",T+": TestEnvironment::step, Assert"),("run loop stops on a failed test",T+": TestEnvironment::run_tests, run_tests_with_cleanup")],
 [("outcome","pass or fail of the running test",T+": TestEnvironment.test_state")]+vm_state,["test outcome and interpreter state after every step","outcome lines of the command line tool"],STEP)
P("T02","A test's outcome does not depend on the tests run before it",
 "With the clean-up run that the command line tool uses, every test starts with no variables, no records, empty found sets, no find requests, browse mode and the schema's first table occurrence (smallest id), whatever earlier tests did or how they ended. So each test of a suite has the outcome and the final data it has when it is run alone, in any order and any number of times.",
 ["histories","programs"],"all suites of tests over a shared schema, in all orders, with failing tests and tests that stop inside loops, chains, called scripts or find mode",
 "The suite never runs two tests in one environment, so state leaking from one test to the next is invisible to it.",
 [T,D],[("reset of interpreter state",T+": TestEnvironment::load_test"),("reset of data after each test",T+": run_tests_with_cleanup; "+D+": Database::clear_records")],
 vm_state+db_state,["interpreter state after every step of every test of a suite","outcome lines of the command line tool"],STEP)
P("T03","The command line runs every given test once, in order, and reports each",
 "Given a schema (a burn source to compile or an fmp12 file to decompile) and any number of burn test files, the tool runs every test defined in the test files, then those in the schema source, exactly once each and in the order given, and prints exactly one outcome, Success or Fail, for each. With --no-testing it runs none. When there are no tests it still finishes normally.",
 ["configurations","programs"],"all combinations of one schema, several test files with several tests each, and --no-testing",
 "No test starts the program; the whole command line path is untested.",
 ["src/main.rs","src/cli.rs",T],[("collect tests from files",'src/main.rs: main'),("run and report each test",T+": TestEnvironment::run_tests_with_cleanup")],
 [],["standard output and exit status of the program"],None)
P("D01","The record store stays consistent under every operation",
 "After any sequence of record operations (new record, set field, navigation, find, show all, layout changes, field reads), every field of a table has the same number of values, every found set lists existing records of its table once each in creation order, and the current position is inside a non-empty found set. No such operation stops the program, also on tables without records, and none removes or reorders records.",
 ["histories"],"all operation histories over schemas with several tables, several occurrences per table and any record counts including zero",
 "The tests run one fixed history on tables that are never empty when navigated.",
 [D,T],[("append one value to every field",D+": Table::add_blank_record, Database::create_record"),("bounded moves",D+": Database::goto_*"),("found set replacement",D+": Database::update_found_set, reset_found_set")],
 db_state,["database state after every step"],STEP)
P("D02","A new record appears once, in every occurrence of its table, as current record",
 "Creating a record adds exactly one record, with all fields empty, at the end of the table the current layout is based on, and changes no existing record and no other table. Every table occurrence based on that table gets the record at the end of its found set and has it as its current record; occurrences of other tables are unaffected.",
 ["histories"],"all histories that create records, with several occurrences per table and found sets narrowed by earlier finds",
 "One test counts the records of two tables with one occurrence each; found sets and pointers of other occurrences are never observed.",
 [D],[("record creation over all occurrences of the table",D+": Database::create_record")],
 db_state,["database state after every step"],STEP)
P("D03","Setting a field changes exactly one value, and reading a field reads that value",
 "In browse mode, setting occurrence::field stores the given value in that field of the named occurrence's current record and changes no other value, found set or position. Reading occurrence::field in a calculation gives the value stored in that field of that occurrence's current record, also when the occurrence is not the current layout's. With no current record the set has no effect and the read gives an empty value.",
 ["histories"],"all histories of sets and reads through any occurrence, field and current record, with field and table names sharing prefixes",
 "The tests only set and read fields of the record just created, through a single occurrence of each table.",
 [D,T],[("write of one field of one record",D+": get_current_record_by_table_field_mut"),("read of one field of one record",D+": get_current_record_by_table_field; "+T+": get_operand_val")],
 db_state,["database state and variables after every step"],STEP)
P("D04","Navigation moves within the found set and stops at its ends",
 "In browse mode, going to the first, last, next or previous record or to a position number moves only the current layout's occurrence, to the corresponding position in its found set: next and previous move by one, the ends are never left, and a number beyond the end goes to the last. Position numbers count from zero. Navigation changes no data and no found set, and none of it moves anything in find mode.",
 ["histories"],"all navigation sequences over found sets of any size, full or narrowed by a find, from any position",
 "One test walks forward through a list; previous, last, numbers, empty and single-record sets are never checked.",
 [D,T],[("moves",D+": Database::goto_record, goto_first_record, goto_last_record, goto_next_record, goto_previous_record"),("step dispatch",T+": TestEnvironment::step, GoToRecordRequestPage")],
 db_state,["database state after every step"],STEP)
P("D05","A find shows exactly the matching records; show all shows every record",
 "In find mode setting fields of the current layout's occurrence records requests and changes no data. Performing the find makes that occurrence's found set exactly the records in which some requested field equals its requested value, in creation order with the first one current; if none matches, it shows all records. It returns to browse mode, forgets the requests and leaves other occurrences alone; showing all records makes the current occurrence's found set all records of its table.",
 ["histories"],"all sequences of finds with zero, one or several requests (on the same and on different fields, numbers and texts, matching none, some or all records), show-alls and record creations",
 "One test does two single-request finds that match some records, on one table occurrence.",
 [T,D],[("requests and matching",T+": TestEnvironment::step, SetField in find mode, PerformFind"),("found set replacement",D+": Database::update_found_set, reset_found_set")],
 db_state+[("requests","field and value pairs entered in find mode",T+": TestEnvironment.find_criteria")],["database state after every step"],STEP)
P("D06","Going to a layout makes exactly its table occurrence current",
 "Going to a layout by name makes the table occurrence that layout is based on the current one, keeping every occurrence's own found set and current record; a name that no layout has changes nothing. New records, finds and navigation then act on that occurrence, and coming back to a layout finds its found set and position as they were, apart from records created meanwhile. Layouts and occurrences may have the same or different names, and any ids.",
 ["histories","configurations"],"all layout switching histories over schemas with several layouts per occurrence, layouts named unlike their occurrence, and ids with gaps",
 "The tests use two layouts whose occurrences, names and ids nearly coincide.",
 [T,"src/testing/layout_mgr.rs",D],[("layout name to occurrence",'src/testing/layout_mgr.rs: LayoutMgr::lookup'),("current occurrence",D+": Database::set_current_occurrence")],
 db_state,["database state after every step"],STEP)
P("R01","Relationship paths are found whenever they exist, and are shortest",
 "Between two different table occurrences a path is reported exactly when they are connected by relationships, in either direction. A reported path starts and ends at the two occurrences, follows only existing relationships, and no shorter path exists. The answer does not depend on the order in which relationships were added or on adding one twice.",
 ["inputs","configurations"],"all undirected relationship graphs (cycles, components, parallel relationships), insertion orders and occurrence pairs",
 "The one test asks three questions of one small tree; it has no cycle, so shortest path and termination on cycles are not exercised.",
 [R],[("breadth-first search",R+": RelationMgr::get_path"),("both directions added once",R+": RelationMgr::add_relation")],
 [("relationship graph","adjacency of table occurrences",R+": RelationMgr.graph")],["returned path"],STEP)
P("R02","A related value follows every relationship's fields and operator",
 "Reading a field of a related table occurrence starts at the current record of the current occurrence and, along a shortest relationship path, goes at each hop to the records whose match field compares with the left record's match field by that relationship's operator (equal, not equal, less, less or equal, greater, greater or equal, or all records), each read in the direction travelled. The result is the field's value in the first record reached, in creation order per left record. It is an error, not a wrong value, when there is no path or no related record.",
 ["inputs","histories"],"all chains and trees of relationships of any operator and orientation, over number or text match fields with duplicate and missing matches",
 "One test reads one equality relationship one hop away with a single record on each side.",
 [D,T],[("hop by hop matching",D+": Database::get_related_record_field"),("mirrored operator in the other direction",D+": Database::generate_from_fmp12"),("comparison",T+": TestEnvironment::evaluate")],
 db_state,["returned value"],STEP)
P("E01","Arithmetic follows precedence, left associativity and parentheses",
 "A calculation of numbers, variables and fields with + - * / and parentheses evaluates with * and / before + and -, operators of equal rank from left to right, and parenthesised parts first, to any length and nesting depth. Results that a double-precision number holds exactly are exact, including decimals and integers far beyond 2^24. Spacing between symbols makes no difference.",
 ["inputs"],"all arithmetic expressions over non-negative literals, variables and fields (also negative values), any operator sequence and parenthesis structure, whose intermediate results are exact",
 "The tests evaluate eleven fixed expressions; operator chains such as 8-3-2, 2*3/4*5 or deep mixed nesting have only samples.",
 [T,C],[("precedence climbing",C+": Parser::parse_expr, parse_term, parse_factor"),("evaluation",T+": TestEnvironment::evaluate, Binary"),("tokens",T+": TestEnvironment::eval_calculation")],
 [],["value assigned by a set_variable step"],STEP)
P("E02","Comparisons order numbers by value and texts by character",
 "Each of == != < <= > >= compares two numbers by numeric value and two texts character by character (by code point, a prefix being smaller), whatever expression produced them: literals, variables, fields, arithmetic or concatenation; the answer is a truth value. A comparison binds weaker than arithmetic and concatenation. The six operators are mutually consistent: one of <, ==, > holds, and the others are their combinations.",
 ["inputs"],"all pairs of numbers (different lengths, signs, decimals) and of texts (empty, prefixes, digits, spaces, non-ASCII), all six operators, operands of all kinds",
 "The tests mainly compare with == and only equal values; ordering of numbers with different digit counts is never tested.",
 [T,C],[("comparison",T+": TestEnvironment::evaluate"),("parsing",C+": Parser::parse_comparison")],
 [],["value assigned by a set_variable step"],STEP)
P("E03","Text is carried and joined without loss",
 "A text literal denotes exactly the characters between its quotes, whatever they are: spaces, commas, brackets, operators, digits only, non-ASCII, or none. The & operator gives the left operand's characters followed by the right's, where a number operand contributes its decimal notation, and it binds weaker than arithmetic and stronger than comparison. Any number of & can be chained.",
 ["inputs"],"all chains of text literals, text and number variables and fields and arithmetic, with texts over all characters except the double quote",
 "Tests join two or three fixed words; texts that look like numbers, are empty or contain syntax characters never occur.",
 [T,C],[("literal tokens",T+": TestEnvironment::eval_calculation"),("concatenation",T+": TestEnvironment::evaluate; "+C+": Parser::parse_concatenation")],
 [],["value assigned by a set_variable step"],STEP)
P("E04","Function calls take all their arguments and combine like any value",
 "Abs(x) is the magnitude of x, Min(...) the smallest of all its one or more number arguments, Char(n) the one-character text with code point n, and Get(AccountName) the text Admin. Each argument is a full expression that may itself contain operators, parentheses and calls, and a call can be used wherever a number or text can, with operators before and after it.",
 ["inputs"],"all calls with one to many arguments of nested expressions, at any position in an expression",
 "One test uses one Min of two arguments at the end of an expression; nothing follows a call anywhere.",
 [T,C],[("argument parsing",C+": Parser::parse_args, parse_primary"),("functions",T+": TestEnvironment::evaluate, Call")],
 [],["value assigned by a set_variable step"],STEP)
P("L01","A script's source becomes its steps, one for one and in order",
 "Compiling script source gives, for every defined script in order, its name, its arguments and its steps in source order: each known step call one step of that kind, each loop a Loop ... EndLoop pair and each if chain If, ElseIf and Else steps with one EndIf, properly nested around the steps of their bodies. Spaces, tabs and line breaks between symbols make no difference. Nothing is dropped, duplicated or moved, to any nesting depth, and unknown steps are left out.",
 ["programs"],"all scripts over the known steps with any nesting of loops and if chains, any layout of white space, several scripts per block",
 "One test parses one script with one loop and one if/else.",
 [BL,BP,"src/fm_script_engine/fm_script_engine_instructions.rs"],[("tokens",BL+": Lexer::get_tokens"),("blocks and steps",BP+": Parser::parse")],
 [],["compiled script steps"],STEP)
P("L02","A step's arguments are its source text split at top-level commas",
 "The arguments of a step are the text between its parentheses split at commas that are outside nested parentheses and outside double-quoted text, each without surrounding white space and otherwise verbatim, including white space, brackets and commas inside nested parentheses and quoted text. Their number and order are kept.",
 ["inputs"],"all argument texts over any characters with balanced parentheses and closed quotes, in steps, if and elif conditions",
 "Tests use arguments of a few simple expressions; no quoted comma or parenthesis, no nested call with a quoted argument.",
 [BL],[("argument scanning",BL+": Lexer::get_tokens, '(' arm")],
 [],["compiled script steps"],STEP)
P("L03","Every top-level definition in a burn source is kept under its own id",
 "Compiling a burn source keeps every table, table occurrence, value list, relationship, script and test it defines, with its name (for a relationship the two table names; for a table occurrence its table's name), in source order under distinct ids, in any mixture and order of definitions. No definition replaces or renames another, and field lists, calculations and option lists inside a definition do not change the definitions after it.",
 ["programs"],"all sources mixing any number of definitions of the six kinds in any order, with varied bodies and layout",
 "One test counts the components of one source with at most two of each kind.",
 [CL,CP],[("tokens",CL+": tokenize"),("component parsing and numbering",CP+": Parser::parse_program")],
 [],["compiled schema"],STEP)
P("L04","A source with a malformed definition is refused as a whole",
 "Compiling a burn source (with -c, or as a test file with -t) in which a definition is malformed ends with a failure and leaves no schema listing and no fmp12 file, whatever sound definitions stand before or after it. Malformed is: table, table_occurence, value_list or test without a name after it (an identifier, not a keyword, number or text); relationship or script without a colon after it, or a script block without its opening bracket; an end that is not followed by the definition's own keyword and a semicolon; in a table occurrence, table without a colon and a name after it; in a test, script without a colon and a bracketed block after it, or a block with more or fewer than one script; a known script step that is not ended by a semicolon; an if or elif condition without an opening brace; anything else than a definition at top level; a source that stops inside a text, a calculation or a script block or right where one of these has to follow. A source in which nothing is malformed is compiled.",
 ["programs"],"all sources with any such flaw in any definition between any sound ones, and all places where a source can stop",
 "No test compiles a malformed source.",
 [CP,CL,"src/burn_script/parser.rs"],[("what has to follow what",CP+": Parser::parse_program"),("steps and blocks",'src/burn_script/parser.rs: Parser::parse'),("ends of texts, calculations and blocks",CL+": tokenize")],
 [],["exit status","files left behind"],STEP)
P("F01","Chunk decoding consumes each chunk exactly and tracks the directory path",
 "Decoding a sector's chunk stream yields the chunks that were written: each chunk's kind, key, segment number and payload are exactly the bytes its code prescribes, and decoding continues at the byte right after it. Directory pushes and pops (including the deferred pop flag) keep the path equal to the directories open at that point. A code outside the format is an error and never a hang.",
 ["inputs"],"all sequences of chunks of every code in the format with any payload sizes and nesting of directories, and all other first bytes",
 "No test decodes single chunks; the suite only reads one file whose chunks use part of the codes.",
 ["src/chunk.rs","src/encoding_util.rs"],[("per code extents",'src/chunk.rs: get_chunk_from_code')],
 [("offset","position in the sector",'src/chunk.rs: offset argument'),("path","open directories",'src/chunk.rs: path argument')],["decoded chunk, offset and path after each call"],STEP)
P("F02","Decompiling recovers all tables and fields however they are laid out in sectors",
 "Decompiling an fmp12 file gives exactly the tables and fields its catalog directories define, each under its own id with its own name, and each field's description, type and creator texts where present. The sectors are read in chain order wherever they lie in the file, and a directory that is closed and opened again, in the same or a later sector, adds to what was already read and loses nothing.",
 ["inputs","configurations"],"all catalogs of tables and fields (any ids, names in any language), written in any order, split into any number of sectors in any physical order",
 "The suite reads one file; it has two tables, its sectors are in one fixed order.",
 [DC,"src/decompile/sector.rs","src/chunk.rs"],[("sector chain",DC+": decompile_fmp12_file; src/decompile/sector.rs: get_sector"),("table and field directories",DC+": decompile_fmp12_file, [x].[3].[5].[y] and [3].[16].[5].[x]")],
 [],["decompiled schema"],STEP)
P("F03","Decompiling recovers occurrences, relationships and layouts under their own ids",
 "Decompiling an fmp12 file gives every table occurrence with its id, name and table; every relationship once under its id with its two occurrences (in the direction first listed), its two match fields and its comparison operator; and every layout with its id, name and table occurrence. They refer to each other by these ids, which may have gaps and any order.",
 ["inputs","configurations"],"all graphs of occurrences, relationships of all seven operators and layouts, with any ids below 128 and any listing order",
 "The suite reads one file with two occurrences, one relationship and few layouts whose ids coincide with their order.",
 [DC],[("occurrence graph",DC+": [3].[17].[5].[0]"),("relationship criteria",DC+": [3].[251].[5].[x].[3]"),("layouts",DC+": [4].[1].[7].[x]")],
 [],["decompiled schema"],STEP)
P("F04","Decompiling recovers every script's steps in order with their kinds",
 "Decompiling an fmp12 file gives every script under its id with its name and, in stored order, one step per stored instruction whose code is in the documented instruction list, with that kind and its step number; unknown codes are left out. A perform-script step names the script it refers to, set-variable and calculation arguments go to their own step, and code stored as one value or as numbered segments (joined in segment order) reads the same.",
 ["inputs","configurations"],"all scripts over all instruction codes 1 to 211, stored inline or in segments in any order, with arguments for any step, calls between scripts",
 "The suite reads one file and checks no script step.",
 [DC,"src/fm_script_engine/fm_script_engine_instructions.rs"],[("instruction table",'src/fm_script_engine/fm_script_engine_instructions.rs: INSTRUCTIONMAP'),("inline and segmented code, step arguments",DC+": [17].[5].[x] and below")],
 [],["decompiled schema"],STEP)
P("F05","Decompiled calculations have the meaning of the stored bytecode",
 "The text recovered for a stored calculation consists of the stored tokens in stored order and nothing else: text literals with exactly their characters between quotes, variable names, small integers, the operators + - * / & == != < <= > >=, parentheses and the functions Abs, Get, Acos and Char. White space stored between tokens adds no token and removes none, and text that happens to contain operator byte values stays text.",
 ["inputs"],"all token sequences over the documented calculation codes with any text, white space and integers 0 to 99",
 "No test decompiles a calculation.",
 [DC],[("bytecode translation",DC+": decompile_calculation")],
 [],["argument texts of decompiled script steps"],STEP)
P("F06","Decompiling recovers external data sources under their own ids",
 "Decompiling an fmp12 file gives every external data source its catalog defines once, under its own id with its own name and creator name, whatever order the name index lists them in, and the kind, directory path and file name of its location exactly as stored, for paths of ASCII characters of any length, with parent directories.",
 ["inputs"],"all sets of data sources with ids 1 to 380, names of any text, ASCII paths of up to 60 stored bytes, with any index order",
 "No test reads a data source.",
 [DC,"src/component.rs"],[("data source directory",DC+": decompile_fmp12_file ([32].[5])"),("stored location","src/component.rs: SourceFileLocation::from_bytes")],
 [],["decompiled schema"],STEP)
P("N01","Integer and text codecs are inverse to each other",
 "Writing an integer and reading it back gives the same integer, for four-byte integers and for directory numbers, and the written bytes are the big-endian ones the format documents. Masked text decodes to exactly the text that was masked, for any UTF-8 text. Double-byte encoded names of letters, spaces and underscores decode to the same name in lower case.",
 ["inputs"],"all four-byte integers below 2^31 (sampled densely, all below 2^16), all directory numbers, all texts",
 "Tests check about a dozen constants.",
 ["src/encoding_util.rs","src/dbcharconv.rs"],[("integers",'src/encoding_util.rs: get_int, put_int, get_path_int, put_path_int'),("text",'src/encoding_util.rs: fm_string_encrypt, fm_string_decrypt; src/dbcharconv.rs: encode_text, decode_bytes')],
 [],["encoded bytes and decoded values"],STEP)
P("A01","An assembled fmp12 file decodes as a whole and lists its tables",
 "The fmp12 file assembled from a compiled burn source whose catalog fits in one 4 KB sector and whose names have at most 100 characters (FileMaker's limit) is named after the source, carries that name in its header and has a valid sector chain. Its chunk stream decodes from start to end without error, closes every directory it opens, and contains exactly the directories the assembler opened, in order. Its table index lists every table's name (in double-byte code) with its id, and their number, its occurrence index every occurrence's name and id, all in id order. Decompiling it gives the ids of all tables of the source and no others.",
 ["programs","inputs"],"all schemas whose catalog fits in one sector: many tables with short names to few with names of 100 letters, any number of occurrences, scripts and tests",
 "No test assembles a file.",
 ["src/compile/assembler.rs","src/compile/header.rs","src/dbcharconv.rs"],[("chunk emission",'src/compile/assembler.rs: emit_*, push_directory, pop_directory'),("sector layout",'src/compile/assembler.rs: assemble_fmp12, append_blank_chunk')],
 [],["bytes of the assembled file","decompiled schema of the assembled file"],STEP)
P("A02","Compiling the same source always gives the same file and the same results",
 "Compiling one burn source twice, in one process or in separate ones, gives byte-identical fmp12 files and identical schemas, and decompiling one file twice gives identical schemas. Tables, occurrences and scripts appear in id order in the output.",
 ["inputs","programs"],"all sources; repeated runs in fresh processes",
 "A test in one process cannot see differences between processes, and none compares two outputs.",
 ["src/compile/assembler.rs","src/file.rs","src/main.rs"],[("ordered components",'src/file.rs: FmpFile'),("emission in map order",'src/compile/assembler.rs: emit_table_metadata, emit_relationship_data')],
 [],["bytes of output files of repeated runs"],None)
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import re
for p in props:
    jsonschema.validate(p,s)
    n=len(re.findall(r'[.](?:\s|$)',p['statement']))
    if n>3: print(p['id'],n)
print(len(props))
