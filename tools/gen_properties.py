#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

VH = "cargo feature `verif` re-exports the private item"
p("C01", "Integer and directory-number encodings are lossless",
  """Every 32-bit record number written in the file format's integer encoding, and every directory number its directory-number
  encoding can hold, reads back as the same number, and numbers below 128 take one byte while larger directory numbers take two.
  Reading the one, two, three and four byte forms found in files gives the number the format defines for those bytes.""",
  ["inputs"], """All directory numbers 0..31871 and all one- and two-byte encodings (enumerated), sampled three- and four-byte
  encodings, and 32-bit integers drawn with emphasis on byte boundaries.""",
  "The tests pin about twenty values; carry, sign and width mistakes show only at values they never try.",
  ["src/encoding_util.rs"], [("path integer codec", "src/encoding_util.rs get_path_int/put_path_int"), ("integer codec", "src/encoding_util.rs get_int/put_int")],
  ["return values of the codecs"], VH)
p("C02", "Text and name encodings are lossless",
  """Any text stored in the file format's scrambled string form reads back unchanged, byte for byte and for every language's characters.
  Any name over the supported name alphabet stored in the two-bytes-per-character name form reads back as the same name in lower case,
  different lower-case names never share an encoding, and the bytes are those the format assigns to each character.""",
  ["inputs"], "Unicode strings of any length up to several hundred characters, and strings over the name alphabet in either case.",
  "Tests try five fixed strings and two names; loss or collision depends on which characters and positions occur.",
  ["src/encoding_util.rs", "src/dbcharconv.rs"], [("scrambled strings", "src/encoding_util.rs fm_string_encrypt/decrypt"), ("name table", "src/dbcharconv.rs ENCODING_MAPPING")],
  ["return values of the codecs"], VH)
p("C03", "Chunk decoding recovers exactly the stored chunks",
  """Reading a stream of well-formed chunks of every kind yields, in order, exactly the chunks that were written: same kind, same key,
  segment number and long key, same payload bytes, and the same directory path after each.
  Each read consumes exactly the bytes of that chunk, whatever surrounds it, and an undefined chunk code is reported as an error.""",
  ["inputs", "histories"], """Chunk sequences of up to a hundred chunks over every chunk code the format uses, with arbitrary payloads, lengths, keys and
  directory nesting, including chunks flagged to leave their directory, placed at any offset.""",
  "No test decodes a chunk directly; one sample file exercises a fraction of the codes, lengths and nestings.",
  ["src/chunk.rs"], [("chunk reader", "src/chunk.rs get_chunk_from_code")],
  ["decoded chunk, advanced offset and directory path"], VH)
p("C04", "Decompiling a file recovers its schema",
  """Decompiling a file gives exactly the tables, fields, table occurrences, relationships, layouts and data sources stored in it, under their
  own identifiers and with their own names, attributes, keys and comparisons.
  The result depends neither on how the content is divided into sectors, nor on where the sectors lie in the file, nor on unrelated content around it.""",
  ["inputs"], """Files synthesised from generated schemas (several tables with sparse ids, fields with attributes, occurrences, relationships of every comparison,
  layouts, data sources, any text) under arbitrary chunk encodings, sector boundaries, sector orders and noise.""",
  "The tests decompile one sample file and look at a handful of values; which component is lost depends on ids, sizes and where sector boundaries fall.",
  ["src/decompile/decompiler.rs", "src/decompile/sector.rs", "src/component.rs", "src/chunk.rs"],
  [("directory matching", "src/decompile/decompiler.rs decompile_fmp12_file"), ("sector chain", "src/decompile/sector.rs get_sector"), ("data source location", "src/component.rs SourceFileLocation::from_bytes")],
  ["the decompiled model"], VH)
p("C05", "Decompiling a file recovers its scripts",
  """Decompiling a file gives every stored script under its own id and name, with its steps in stored order, each with its own operation, step number and arguments
  (variable names, values, called scripts and calculations attached to the step they belong to).
  This holds whether the steps are stored inline or cut into segments at arbitrary places, and steps with an unknown operation are skipped without disturbing their neighbours.""",
  ["inputs"], "Files synthesised from generated scripts over all known operations, with arbitrary step numbers, arguments, segment cuts and sector boundaries.",
  "The sample file has five scripts and no test checks their steps; attachment and reassembly errors depend on step numbers, segment cuts and sector boundaries.",
  ["src/decompile/decompiler.rs", "src/fm_script_engine/fm_script_engine_instructions.rs"],
  [("step records and arguments", "src/decompile/decompiler.rs decompile_fmp12_file"), ("operation table", "src/fm_script_engine/fm_script_engine_instructions.rs INSTRUCTIONMAP")],
  ["the decompiled scripts"], VH)
p("C06", "Decompiled calculations read as they were written",
  """A stored calculation is decompiled to the text it stands for: the same operators, parentheses, functions, variables, numbers, string literals and whitespace, in the same order.
  Nothing is dropped, reordered, merged or invented, whatever characters its strings and names contain.""",
  ["inputs"], "Token sequences over every supported calculation token, with numbers 0..255, and strings and names of any text up to 255 bytes.",
  "The sample file holds nine calculations and no test compares their text.",
  ["src/decompile/decompiler.rs"], [("calculation bytecode", "src/decompile/decompiler.rs decompile_calculation")],
  ["argument text of decompiled script steps"], VH)
p("C07", "Compiling a burn file keeps every declaration",
  """Compiling a burn program gives exactly the declared tables, table occurrences, relationships, value lists, scripts and tests: each once, in declaration order, with its own name and the names it refers to.
  Interleaving, whitespace, line breaks and the number of declarations of each kind do not matter, nor do the fields, options, entries and criteria listed in them, whatever their texts and calculations hold.""",
  ["programs"], "Generated programs of up to thirty declarations of all kinds in any order, with varied names, bodies and layout.",
  "Tests compile programs holding a single test declaration and nothing else; loss or overwriting shows only with several declarations of different kinds.",
  ["src/compile/lexer.rs", "src/compile/parser.rs"], [("tokeniser", "src/compile/lexer.rs tokenize"), ("declaration parser", "src/compile/parser.rs parse_program")],
  ["the compiled model"], VH)
p("C08", "Burn scripts compile to the steps that were written",
  """Compiling a script gives its name, its parameters and exactly the written steps in order, every block closed where it was closed in the source, and every argument as written apart from surrounding blanks.
  Punctuation of any kind inside a string literal, and commas, semicolons and parentheses inside a call nested in an argument to any depth, never split or end an argument, a block or the script.""",
  ["programs"], "Generated scripts with nested loops and if / elif / else chains to depth five, every step name, calls and parentheses nested to depth nine and string literals holding any punctuation, in any whitespace.",
  "Two fixed scripts are compiled in the tests; misplaced block ends and split arguments depend on nesting and on punctuation inside literals.",
  ["src/burn_script/lexer.rs", "src/burn_script/parser.rs", "src/compile/lexer.rs", "src/fm_script_engine/fm_script_engine_instructions.rs"],
  [("script tokeniser", "src/burn_script/lexer.rs get_tokens"), ("block structure", "src/burn_script/parser.rs parse")],
  ["the compiled scripts"], VH)
p("C09", "Calculations evaluate to their arithmetic value",
  """A calculation evaluates to its ordinary meaning: multiplication and division before addition and subtraction, then text concatenation, then comparison, operators of one level from left to right, and parentheses and function arguments first.
  Numbers are compared as numbers and text as text, variables and fields stand for their current value wherever they occur, and spacing does not matter.""",
  ["programs", "inputs"], "Generated well-typed expressions to depth six over numbers, strings, variables, fields, all operators and the supported functions, rendered with minimal or redundant parentheses and arbitrary spacing.",
  "A dozen fixed expressions are evaluated in the tests; precedence, associativity and operand-kind errors depend on which operators meet.",
  ["src/testing/calc_eval.rs", "src/testing/test.rs"], [("calculation parser", "src/testing/calc_eval.rs Parser"), ("evaluator", "src/testing/test.rs eval_calculation/evaluate")],
  ["value of the calculation, dialog output"], VH)
p("C10", "Blocks, branches and loops run the right steps",
  """A script runs its steps in the order its block structure dictates: the first branch of an if chain whose condition holds and no other, loop bodies repeatedly until an exit, and an exit leaves exactly the innermost loop around it.
  This holds for every nesting of blocks within blocks and for a go-to-record step that leaves its loop at the last record.""",
  ["programs"], "Generated terminating scripts with loops and if / elif / else chains nested to depth five, exits inside branches, empty blocks, steps before and after each block.",
  "One test has a single loop with one if chain; nesting, exits inside branches and consecutive blocks are not reached.",
  ["src/testing/test.rs"], [("step dispatch", "src/testing/test.rs TestEnvironment::step")],
  ["dialog output and variables as the script runs"], VH)
p("C11", "Calling a script keeps its variables and place apart",
  """Performing a script runs it to its end, or to the exit-script step that ends it, and then continues right after the call, to any call depth.
  Each call starts with no variables and its variables never affect, nor are affected by, those of its caller or of any other call; calling a script that does not exist only continues.""",
  ["programs", "histories"], "Generated sets of scripts calling each other (from loops and branches, several times, bounded recursion, missing scripts), with overlapping variable names.",
  "No test performs a script that exists.",
  ["src/testing/test.rs"], [("call stack", "src/testing/test.rs instruction_ptr/variables")],
  ["dialog output as the scripts run"], VH,
  [("instruction_ptr", "one entry per active script", "src/testing/test.rs"), ("variables", "one scope per active script", "src/testing/test.rs")])
p("C12", "Tests report the right outcome independently of each other",
  """A test passes exactly if no assertion it executes is false, it stops at the first false assertion, and every test of a run is executed and reported once, in order.
  When tests are run one after another with cleanup, the outcome and output of each is the one it has when run alone: nothing of an earlier test (outcome, records, found set, layout, variables, pending find) is visible to it.""",
  ["histories", "programs"], "Generated sequences of up to six tests that create records, change layout, enter find mode, set variables, call scripts and fail at arbitrary points.",
  "Every existing test runs one test that passes.",
  ["src/testing/test.rs", "src/testing/database.rs", "src/main.rs"], [("test loop", "src/testing/test.rs run_tests_with_cleanup/load_test"), ("assert step", "src/testing/test.rs step")],
  ["reported outcomes and dialog output"], VH)
p("C13", "Records, found sets and finds behave like the model",
  """Creating records, setting fields, switching layouts, moving between records, finding and showing all always leave each table with exactly the records created in it and the last value set in each field, and leave each layout on the record that navigation dictates.
  A find that matches leaves exactly the records matching any of its criteria, in creation order, with the first current; reading a field gives the value in the current record of the named occurrence.""",
  ["histories"], "Generated histories of up to sixty steps over several tables with several occurrences and layouts each.",
  "One fixed history over two tables is tested.",
  ["src/testing/database.rs", "src/testing/test.rs", "src/testing/layout_mgr.rs"], [("found sets", "src/testing/database.rs TableOccurrence"), ("steps", "src/testing/test.rs step")],
  ["field values shown by the script, records of each table"], VH,
  [("found_set", "record numbers an occurrence shows", "src/testing/database.rs"), ("record_ptr", "current position in the found set", "src/testing/database.rs")])
p("C14", "Related values follow the relationships",
  """Reading a field through a chain of relationships gives the field of a record that each relationship's comparison really relates to the current record, evaluated in the direction travelled; with a single relationship it is the earliest created such record, and it is an error exactly if no such record or no chain exists.
  The chain used is a shortest one, visits no occurrence twice and is found whenever the occurrences are connected.""",
  ["inputs", "histories"], "Generated relationship graphs of up to ten occurrences, all comparisons, generated records with numeric and text keys, every pair of occurrences.",
  "One graph with three path queries and one related read are tested.",
  ["src/testing/relation_mgr.rs", "src/testing/database.rs"], [("path search", "src/testing/relation_mgr.rs get_path"), ("related records", "src/testing/database.rs get_related_record_field")],
  ["related field values, paths"], VH)
p("C15", "A compiled database file is well formed and keeps its tables",
  """Compiling a burn program to a database file gives a file of whole, linked sectors that starts with the header of an fmp12 database of that name and can be read to the end, its content a sequence of valid chunks with the directories every database has and every directory that is opened closed again.
  Decompiling that file gives back exactly the declared tables under the same ids and names, and the occurrence and table name lists and the counts in it are those declared, however many sectors the content takes.""",
  ["programs"], "Generated schemas of up to six hundred tables and occurrences, with any text as table names and occurrence names over the supported name alphabet; content of up to some twenty sectors.",
  "One helper of the writer is tested; no test reads a written file.",
  ["src/compile/assembler.rs", "src/compile/header.rs", "src/decompile/decompiler.rs"], [("file writer", "src/compile/assembler.rs assemble_fmp12")],
  ["the bytes of the written file, its decompilation"], VH)
p("C16", "The same input always gives the same output",
  """Compiling or decompiling the same input gives byte-identical inspection output and database file in every run of the program and whatever was processed before in the same process.
  Running the same tests gives the same outcomes and dialogs every time.""",
  ["inputs", "histories"], "Generated burn programs and synthesised database files, each processed repeatedly, in one process and in separate processes.",
  "Tests run once and compare values, never whole outputs of two runs.",
  ["src/main.rs", "src/file.rs", "src/component.rs"], [("ordered model", "src/file.rs FmpFile"), ("output", "src/main.rs main")],
  ["inspect_output files, written .fmp12, console output"], VH)
p("C17", "The command line does what it is asked and nothing else",
  """Compiling writes the inspection output and the database file named after the source, decompiling writes the inspection output, header printing saves the input's bytes, and each shows exactly the model the library gives for that input.
  Given tests run and report in order unless testing is switched off; inputs are never modified, nothing else is written, and unusable arguments are refused with a nonzero exit and no output files.""",
  ["configurations", "inputs"], "Generated inputs under every combination of compile / decompile, test files, header printing and testing switched off, plus invalid argument combinations.",
  "No test runs the program.",
  ["src/main.rs", "src/cli.rs"], [("argument handling", "src/cli.rs CLI"), ("driver", "src/main.rs main")],
  ["exit status, console output, files in the working directory"])
p("C18", "Damaged files are rejected and unlinked content is ignored",
  """Decompiling a file whose bytes were damaged in any way ends with a result or a clean rejection, never with a crash of the process; a sector chain that loops or leaves the file, and content that runs past the end of its sector, are rejected.
  Sectors that are not linked into the chain, whatever they contain, and damage confined to them never change the result.""",
  ["inputs", "fault_sequences"], "Synthesised and sample files with random bit flips, overwritten ranges, truncations, rewired sector links, and garbage in unlinked sectors.",
  "Only one intact file is read by the tests.",
  ["src/decompile/decompiler.rs", "src/decompile/sector.rs", "src/chunk.rs"], [("sector chain walk", "src/decompile/decompiler.rs decompile_fmp12_file"), ("chunk reader errors", "src/chunk.rs get_chunk_from_code")],
  ["result or rejection of decompiling"], VH)
p("C19", "Malformed burn programs are refused or reported, never misread silently",
  """A burn program is refused, with an error exit and nothing written, if it is cut off inside a declaration, if a declaration lacks its keyword, name, table, required colon, opening bracket, end, closing keyword or final semicolon or has a wrong one, if an occurrence, relationship or test names other than one table, one pair of tables or one script, or if anything stands between its declarations.
  A script that lacks a semicolon, brace, parenthesis or name, closes a block twice or holds an else without its if, or anything that is no step, is refused or at least reported on the error output.
  A step that does not exist is reported and everything else in the program is compiled as written; whatever the text, compiling it ends, with a program or a refusal.""",
  ["programs"], """Generated programs of up to twelve declarations, each with one such flaw at any place, including the text cut off after any character, in any layout and before and after any other declarations; and programs scrambled at random.""",
  "No test compiles a malformed program; whether a flaw is noticed depends on which declaration it is in and on what follows.",
  ["src/compile/parser.rs", "src/compile/lexer.rs", "src/burn_script/parser.rs", "src/burn_script/lexer.rs", "src/main.rs"],
  [("declaration parser", "src/compile/parser.rs parse_program"), ("script parser", "src/burn_script/parser.rs parse")],
  ["refusal or result of compiling, error output, exit status and files of the program"], VH)
p("C20", "The inspection output shows the whole model",
  """The inspection output holds every component of the model under its id with every attribute, argument and step unchanged, whatever characters its texts contain, so that reading it back gives the model again.
  What the program writes for a database file or a burn program therefore shows everything stored or declared in it and nothing else.""",
  ["inputs"], """Generated models with up to eight components of every kind and generated text in every attribute, and synthesised database files and generated burn programs given to the program itself.""",
  "No test looks at the inspection output.",
  ["src/component.rs", "src/file.rs", "src/main.rs", "src/fm_script_engine/fm_script_engine_instructions.rs"],
  [("serialised model", "src/component.rs, src/file.rs"), ("output", "src/main.rs main")],
  ["inspect_output/test_compile and test_decompile"], VH)
p("C21", "A database's scripts do what is stored when tests call them",
  """A test run against a database file performs the scripts stored in it, called by name or by one another, each with exactly its stored steps in order, its own variables, calculations, branches, loops and calls.
  The dialogs shown and the outcome of every test are those the stored steps and the test dictate, however the scripts are laid out in the file.""",
  ["inputs", "histories"], """Generated databases of up to ten scripts calling one another, stored inline or in segments with bytecode calculations, run by generated burn tests through the library and through the program.""",
  "The tests run hand-written steps; none runs a script read from a database.",
  ["src/decompile/decompiler.rs", "src/main.rs", "src/fm_script_engine/fm_script_engine_instructions.rs", "src/burn_script/parser.rs", "src/testing/test.rs"],
  [("stored steps", "src/decompile/decompiler.rs decompile_script_steps"), ("stored calculations", "src/decompile/decompiler.rs decompile_calculation"), ("script runner", "src/testing/test.rs step")],
  ["dialogs and test report of burn_fm -d FILE -t TESTS"], VH)
p("C22", "Success is reported only when everything was read and written",
  """A run of the program that reports success has read all of its inputs and written all of its outputs completely, in however many pieces the operating system takes and gives their bytes.
  If an input cannot be opened or read to its end, or an output or its directory cannot be created or written to its end, the run ends with a nonzero exit status, and inputs and all other files stay as they were.""",
  ["fault_sequences", "inputs"], """Generated calls of the program in which reading and writing goes in pieces, or opening, reading, writing or making the directory fails from some time on with any of the usual errors, on any one of the files; directories, files and dangling links in the way.""",
  "No test runs the program, and none meets an error of the file system.",
  ["src/main.rs", "src/decompile/decompiler.rs", "src/compile/assembler.rs"],
  [("reading of inputs, inspection output", "src/main.rs main"), ("database and header log", "src/compile/assembler.rs emit_assembly, src/decompile/decompiler.rs decompile_fmp12_file_with_header")],
  ["exit status and files after a run"], VH)
p("C23", "Killed and simultaneous runs do no lasting harm",
  """A run of the program that is killed at whatever moment leaves its inputs and every file that is not an output of its own as they were, and the same run made after it ends, reports and writes exactly what it does when nothing went before.
  Runs that take place at the same time, in one directory or in several, each end, report their tests and write their database files as they do alone.""",
  ["crash_points", "schedules"], """Generated calls of the program killed one to four times at any of their operations on files, also in the middle of a write, and then repeated; two to four generated calls at once with generated delays before their operations on files.""",
  "No test runs the program, kills it or runs two at once.",
  ["src/main.rs", "src/decompile/decompiler.rs", "src/compile/assembler.rs"],
  [("reading of inputs, inspection output", "src/main.rs main"), ("database and header log", "src/compile/assembler.rs emit_assembly, src/decompile/decompiler.rs decompile_fmp12_file_with_header")],
  ["files after a killed run and the one after it", "exit status, reports and files of simultaneous runs"], VH)
p("C24", "The helper scripts decode what the file format holds",
  """For the bytes of a number of one, two or four bytes, of a name in the two-bytes-per-character form, or of a scrambled text of printable ASCII, the decoding scripts give exactly the number, name or text the program's format assigns to them.
  For a dump of chunks they print every text stored under key 16 with its directory, in order, and no other.""",
  ["inputs"], """Generated numbers, names, texts and dumps of chunks given to the scripts.""",
  "No test runs the scripts.",
  ["scripts/decode_int.py", "scripts/decode_2byte_string.py", "scripts/decode_fmstring.py", "scripts/decode_all_strings.py"],
  [("numbers", "scripts/decode_int.py get_int"), ("names", "scripts/decode_2byte_string.py decode"), ("texts", "scripts/decode_fmstring.py string_decrypt, scripts/decode_all_strings.py decode_file")],
  ["what the scripts return and print"], VH)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
print(len(P), "properties")
