AI = "path-partitioned abstract interpretation (effect/provenance dataflow) over go/ssa"
TB = "Assumes go/types+go/ssa, the abstract interpreter, and the AVM tables in tool/oracle; loops are widened, so results quantify over all inputs of the analysed function."

PROPS = [
 dict(id="P01", title="Every known opcode line yields exactly the instruction it names",
  statement="For every opcode the assembler supports and every list of immediate arguments, a source line that the parser accepts yields exactly one instruction, of the kind the mnemonic names, with as many immediates as that form of the opcode takes; every other argument count is rejected with a diagnostic and yields no instruction. Every opcode of the language up to the supported version is recognised, and no other word is.",
  over=["inputs", "programs"], forall="every mnemonic in the opcode registry x every number of immediates x every immediate text",
  why="TestParser samples about 20 lines; the registry has over 190 opcode names, each with its own parser and its own argument counts.",
  files=["process.go", "parser.go", "expr.go"],
  mech=[("opcode registry", "process.go Ops/opsList"), ("per-opcode parsers", "process.go op*"), ("argument readers", "process.go mustRead*, parser.go")],
  observe=["Process result listing and diagnostics"],
  technique=AI + "; every registered parser interpreted with k symbolic immediates, emitted instruction and its printed mnemonic compared with the AVM opcode table",
  note="Proof by exhaustive abstract interpretation of each registered parser for each argument count up to the largest any form takes plus one, with symbolic argument text. " + TB),
 dict(id="P04", title="Named fields denote the right field and are gated by version",
  statement="Wherever an opcode takes a named field (transaction, global, asset, app, account, block, curve, encoding and similar fields), a field name or number is accepted exactly when that opcode's field group contains it, it denotes the same field the AVM assigns to it, and a diagnostic is produced exactly when the declared program version is below the one that introduced the field (with array fields accepted only where an index is given).",
  over=["inputs", "programs"], forall="every opcode with a field immediate x every field name of any group, every numeric form x every declared version",
  why="Tests touch a handful of fields (Sender, CreatableApplicationID, ...); there are about 150 field names over 14 groups, each with its own introduction version.",
  files=["go_algorand.go", "parser.go", "process.go"],
  mech=[("field name tables", "go_algorand.go"), ("field readers", "parser.go read*Field, process.go mustRead*Field"), ("version lint", "process.go")],
  observe=["Process diagnostics", "instruction field of the listing"],
  technique=AI + "; each field reader interpreted with every constant field name/number and symbolic version; outcome facts compared with the AVM field table",
  note="Enumerates the finite set of names and numbers; version and other immediates stay symbolic. " + TB),
 dict(id="P05", title="Numeric immediates are never truncated, wrapped or silently changed",
  statement="A numeric immediate reaches the instruction with exactly the value written in the source: every accepted value lies in the range the opcode's encoding can hold, every value outside it is rejected with a diagnostic, and no value is reduced modulo a smaller integer type. This holds for the program-version pragma as well.",
  over=["inputs"], forall="every opcode with a numeric immediate x every decimal, hexadecimal or octal text x every 64-bit value",
  why="Tests use a few small literals; truncation shows only for values beyond the encoded width (256, 65536, 2^63...).",
  files=["process.go", "parser.go"],
  mech=[("number readers", "process.go mustReadInt/mustReadUint8/mustReadInt8, parser.go")],
  observe=["Process listing and diagnostics"],
  technique=AI + " with affine/interval facts: each accepted path's value term must be the untruncated token value with its range implied by the path facts",
  note="Range facts are proved per path with an interval/affine domain; the values themselves are symbolic. " + TB),
 dict(id="P07", title="The printed form of every instruction re-parses to the same instruction",
  statement="Printing any instruction the parser produced gives one line with the opcode's own mnemonic followed by its immediates in source order, each in a form the parser reads back to the same value. No immediate is lost, reordered, duplicated or printed in a form that would be read as something else.",
  over=["inputs", "programs"], forall="every opcode form x every accepted immediate value",
  why="TestParser checks a few round trips; the printers are one hand-written method per instruction type.",
  files=["expr.go", "process.go"],
  mech=[("instruction printers", "expr.go String methods"), ("parsers", "process.go")],
  observe=["String() of each listing entry"],
  technique=AI + "; parser's emitted value is fed symbolically to its printer and the resulting string term is split into words whose provenance must be the source tokens in order",
  note="The string produced is compared term by term with the source tokens; literal decoding functions are trusted as inverse pairs where the repo uses the standard library. " + TB),

 dict(id="P08", title="Simulated instructions have the opcode's exact stack effect",
  statement="For every accepted instruction other than the branching ones, executing it in the simulator removes exactly the values the AVM opcode pops and pushes exactly the values it pushes, in order and with the AVM value types; values below those are untouched; copies (dup, dig, cover, swap, ...) are of the very values the AVM copies; and an instruction whose operands are missing or of the wrong type stops that branch with an error instead of continuing.",
  over=["inputs", "programs", "histories"], forall="every opcode form x every admissible typing of its operands x every stack beneath x every immediate",
  why="Only a few programs are simulated by the tests; there are over 190 hand-written Execute methods.",
  files=["expr.go", "vm.go"],
  mech=[("Execute methods", "expr.go"), ("stack primitives", "vm.go VmBranch.push/pop/...")],
  observe=["Vm.Branch.Stack after Vm.Step"],
  technique=AI + "; the parsed instruction's Execute is interpreted on a stack of symbolic typed values with a symbolic unknown tail and the resulting stack term compared with the AVM stack signature",
  note="Stack depth and immediates are symbolic where the effect is fixed; depth-indexed instructions are enumerated over small immediates. " + TB),
 dict(id="P09", title="Simulated cost of every instruction equals the AVM's",
  statement="Each simulated instruction is charged exactly the AVM's cost for it: once, to the branch that executed it, including costs that depend on an immediate or on the length of an operand; a branch whose remaining budget does not cover the next instruction ends without executing it, and no instruction executes for free.",
  over=["inputs", "programs", "histories"], forall="every opcode form x every accepted immediate x every branch state",
  why="TestCostly compares one program; most opcodes are never costed by a test and a wrong cost is invisible until a budget runs out.",
  files=["expr.go", "vm.go"],
  mech=[("Cost methods", "expr.go"), ("budget accounting", "vm.go Step")],
  observe=["Vm.Branch.Budget after Vm.Step"],
  technique=AI + "; Cost of each parsed instruction interpreted and compared with the AVM cost table; Step interpreted with an unknown instruction to show it charges that cost once",
  note="Length-dependent costs are compared for operand lengths 0..130. " + TB),

 dict(id="P10", title="Simulated control flow follows the AVM",
  statement="Every simulated instruction continues exactly where the AVM would: the next line, the line of its label, one branch per possible target for the conditional ones, the end of the program for return and err. callsub remembers the line, stack height and name to return to; frame_dig and frame_bury address values relative to that height; retsub restores them, leaving exactly the declared results in place of the arguments when the subroutine has a prototype and the stack untouched otherwise; accesses outside the frame, and frame instructions outside a subroutine, are errors.",
  over=["inputs", "programs", "histories"], forall="every opcode form x every branch state; every call with small argument/result/local counts and frame indices x all stack values",
  why="No test simulates subroutine frames or multi-way branches.",
  files=["expr.go", "vm.go"],
  mech=[("branch primitives", "vm.go VmBranch.jump/fork/call/exit/prepare"), ("Execute methods", "expr.go")],
  observe=["Vm.Branches, VmBranch.Line/Stack/Frames after Vm.Step"],
  technique=AI + "; successor lines, created branches, frames and stack of each instruction and of call/return sequences compared with the AVM's",
  note="Frame sequences: up to 4 values below, 3 arguments, 2 results, 3 locals, frame indices -4..3; values symbolic. " + TB),
 dict(id="P18", title="Execution branches are isolated from each other",
  statement="When the simulator forks at a conditional branch, each new branch gets a fresh identifier and an equal but independent copy of the stack, scratch space, call frames, trace and budget; later execution of one branch never changes another. An instruction changes nothing but its own branch's line, stack and (for store/stores with a known slot) exactly the addressed scratch slot.",
  over=["programs", "histories", "schedules"], forall="every branching instruction x every branch state; every other instruction's effect on all debugger state",
  why="Aliasing bugs need particular capacity/append histories across several branches to show.",
  files=["vm.go", "expr.go"],
  mech=[("fork", "vm.go VmBranch.fork"), ("scratch", "vm.go VmScratch/store")],
  observe=["Vm.Branches"],
  technique=AI + " with heap-cell aliasing: memory reachable from the new branches must be disjoint; frame conditions for all other instructions",
  note="Sharing is decided on abstract heap cells (backing arrays included). " + TB),
 dict(id="P19", title="A simulator step is contained, fair and stops where it must",
  statement="Stepping never crashes the host: a failing instruction is reported in the error of that step, and the next step starts with a clean error. A step executes exactly one instruction, on the current branch; afterwards the branch stands at the next executable line or has ended, the next live branch in turn becomes current only when the current one ends, and exactly the breakpoints at the reached line are reported. Run stops exactly at the end of all branches, an error, or a breakpoint. Selecting a branch selects exactly the one asked for; only executable lines inside the program can carry breakpoints.",
  over=["programs", "histories", "schedules"], forall="every instruction effect x every set of up to three branches x every skip pattern of up to four lines x every breakpoint line",
  why="Tests never step a program with several branches, breakpoints or failing instructions.",
  files=["vm.go"],
  mech=[("Step/Run", "vm.go"), ("skipNops", "vm.go"), ("SetBreakpoints/Switch", "vm.go")],
  observe=["Vm.Error, Vm.Branch, Vm.Triggered after Step/Run"],
  technique=AI + "; Step/Run/Switch/SetBreakpoints interpreted with the instruction's effect replaced by an arbitrary one, over enumerated branch/listing patterns",
  note="Patterns enumerated: up to 3 branches, 4 following lines, 4 steps of Run; stacks, budgets and names symbolic. " + TB),
 dict(id="P02", title="Version and mode gating of opcodes is exact",
  statement="A line using an opcode is flagged with a version error exactly if the program version in force at that line (the last valid '#pragma version' before it, 1 if none) is below the version that introduced the opcode in the program's mode, and with a mode error exactly if the AVM does not offer the opcode in that mode. The flags are errors located at the mnemonic, the list of required versions names the right version and line, and the declared version and mode (application unless the comment '#pragma mode logicsig' is present) reach the result unchanged.",
  over=["inputs", "programs"], forall="every opcode x both modes x every 64-bit declared version, present or absent",
  why="Tests declare two or three versions and no mode; a gate that is off by one version, or wrong in logic-signature mode only, shows for one opcode at one version.",
  files=["process.go", "linter.go", "langspec.go"],
  mech=[("opcode table", "process.go opsList/Ops"), ("version and mode lint", "process.go Process, linter.go")],
  observe=["Process result Diagnostics, Versions, Version, Mode"],
  technique=AI + "; Process interpreted per opcode and mode with a symbolic version, the presence of each diagnostic must coincide with the path facts bounding the version",
  note="The tokeniser is replaced by its result and the argument parser by an accepting stub. " + TB),
 dict(id="P11", title="Every source line has its own entry and its own errors",
  statement="For every source text, processing terminates without crashing and yields exactly one listing entry and one token line per source line, at that line's index. What a line yields depends on that line only: an error on one line never removes, shifts or changes the entry of another line. A malformed line (unknown word, missing or superfluous values, malformed label or pragma) carries an error located on that line and never a partial instruction that would be executed; a well-formed line carries none.",
  over=["inputs", "programs"], forall="every sequence of up to two (thorough: three) lines of the line kinds, longer pseudo-random sequences x every immediate text, comment and token position",
  why="The tests process well-formed programs; recovery after each kind of error in each position is not sampled.",
  files=["process.go", "parser.go"],
  mech=[("line loop and recovery", "process.go Process"), ("parserContext", "process.go")],
  observe=["Process result Listing, Lines, Diagnostics"],
  technique=AI + "; whole Process interpreted over every sequence of line kinds with symbolic tokens, each line's entry, tokens and diagnostics compared with what the line yields alone",
  note="All sequences of 2 (3) lines and a fixed set of longer ones; the tokeniser is replaced by its result. Version-dependent flags belong to P02. " + TB),
 dict(id="P12", title="Tokenisation of source text is exact",
  statement="For every source text, tokenising ends without crashing and yields, in order, exactly the words, string literals, comments and line breaks of the text, each with its text and the line and the begin and end column it occupies. Words are separated by spaces and tabs only; a line ends with a newline, a carriage return, or the pair of them; a comment runs from a double slash that starts a token to the end of its line; a string literal runs from a double quote that starts a token to the next quote without a backslash, on the same line. A string literal that is not closed is reported as an error on its own line and changes nothing about the lines after it.",
  over=["inputs"], forall="every text of up to five (thorough: six) arbitrary ASCII characters, and longer texts of words, strings, comments and line breaks with arbitrary characters in them",
  why="TestLexer and TestImmLexer tokenise a few lines; every state of the reader meets every character, at every column and at the end of the text.",
  files=["lexer.go", "process.go"],
  mech=[("tokeniser", "lexer.go Lexer"), ("grouping by line", "process.go readTokens")],
  observe=["tokens and diagnostics of the lexer", "Process result Lines"],
  technique=AI + " with a character domain: the tokeniser is interpreted on strings of unknown characters, splitting only where the code asks; tokens, positions and errors compared with an independent formulation of the rules",
  note="Characters are ASCII (columns count bytes); text length is bounded. " + TB),
 dict(id="P13", title="Symbols and references are exact",
  statement="The symbols reported for a program are exactly its label lines, in order, each with the label's name, line and position, the comment lines since the previous label as documentation and the prototype that follows it as signature. The references are exactly the label immediates, in source order and with their positions; the missing references are exactly those whose label is defined nowhere; the reference counts are the true counts.",
  over=["inputs", "programs"], forall="every program of up to three (thorough: four) lines over 12 line kinds with two labels, and longer pseudo-random programs with more labels x every token position",
  why="TestSymOrRefAt looks at one program; duplicates, forward and repeated references, multi-target branches and comments interact.",
  files=["process.go", "symbols.go", "linter.go"],
  mech=[("symbol collection", "process.go Process"), ("missing references", "process.go")],
  observe=["Process result Symbols, SymbolRefs, MissRefs, RefCounts"],
  technique=AI + "; whole Process interpreted over every small program with symbolic positions, the result lists compared with an independent formulation",
  note="All programs of 3 (4) lines over two label names, and a fixed set of longer ones. " + TB),
 dict(id="P14", title="Lint findings are exactly those the rules define",
  statement="The findings on a program are exactly those its lint rules define: every duplicate label, unused label, unreachable instruction, redundant branch, reference to a missing label, escape-free loop and late version pragma is reported once, with the rule's identifier, its fixed severity, and the extent of the offending line, and nothing else is; the lines offered for removal are exactly the unused labels and redundant branches. Every rule reported is registered with a unique identifier and a description. Linting the program's listing alone (Listing.Lint) finds the same.",
  over=["programs"], forall="every program of up to three (thorough: four) lines over 13 line kinds with two labels, and longer pseudo-random programs with more labels",
  why="Two tests check one finding each; the rules interact through shared label counts and reachability.",
  files=["linter.go", "process.go"],
  mech=[("lint rules", "linter.go Lint*Rule"), ("Linter.Lint", "linter.go")],
  observe=["Process result Diagnostics, Redundants"],
  technique=AI + "; whole Process interpreted over every small program, findings compared with an independent formulation of the rules",
  note="All programs of 3 (4) lines over two label names, and a fixed set of longer ones; token positions symbolic. " + TB),
 dict(id="P20", title="Every language-server request gets exactly one reply",
  statement="Every request a client sends to the language server is answered exactly once, with the request's own id, the protocol version and either a result or an error; a notification is never answered. This holds for unknown methods, for missing or malformed parameters, for documents that are not open and for ids of every JSON kind, and after any such message the server still answers the next request.",
  over=["inputs", "histories"], forall="every request and notification of the protocol x every missing or malformed part of its parameters x every id",
  why="lsp has one test, of the line splitter; no message is ever sent to the server by a test.",
  files=["lsp/lsp.go"],
  mech=[("message loop", "lsp/lsp.go Run"), ("dispatch and handlers", "lsp/lsp.go handle")],
  observe=["messages written by the server"],
  technique=AI + "; whole sessions of the server interpreted on abstract JSON messages; replies per request counted on every path",
  note="Message shapes are enumerated (each parameter absent, null, of another kind); texts and numbers are symbolic. " + TB),
 dict(id="P21", title="The language server stops exactly when it is told to",
  statement="The language server runs until it receives an exit notification or its input ends, and handles nothing after that. Its exit code is 0 when a shutdown request preceded the exit notification and 1 otherwise; no other message, malformed or not, ends it.",
  over=["inputs", "histories"], forall="every order of shutdown, exit, requests and malformed messages (up to four messages)",
  why="No test runs the server.",
  files=["lsp/lsp.go"],
  mech=[("message loop", "lsp/lsp.go Run"), ("shutdown/exit", "lsp/lsp.go handle")],
  observe=["return value of Run", "messages read and written"],
  technique=AI + "; whole sessions of the server interpreted on abstract messages until Run returns on every path",
  note="Bounded to four messages per session. " + TB),
 dict(id="P22", title="Answers about a document reflect its latest text only",
  statement="After any sequence of open, change, save and close notifications and requests, the language server answers about a document from the last text the client sent for that very document. Texts of other documents and earlier texts have no influence, and a document that is not open is answered with an error.",
  over=["histories"], forall="every sequence of up to three (thorough: four) of 15 events on two documents and four texts",
  why="No test opens a document.",
  files=["lsp/lsp.go", "lsp/doc.go"],
  mech=[("document store", "lsp/lsp.go docs"), ("document cache", "lsp/doc.go")],
  observe=["documentSymbol replies"],
  technique=AI + "; whole sessions interpreted over every short event sequence, the reported labels compared with those of the latest text",
  note="Bounded to 3 (4) events; token positions symbolic. " + TB),
 dict(id="P23", title="Announced capabilities and commands are those implemented",
  statement="The capabilities the language server announces are exactly the requests it answers with results, switched by the client's options exactly as the options say. The announced commands are exactly those it accepts and that its code actions name, and each command of a code action, sent back as it is, leads to one workspace edit.",
  over=["inputs", "configurations"], forall="every setting of the four options (true, false, absent) x every capability and command",
  why="No test initialises the server.",
  files=["lsp/lsp.go"],
  mech=[("initialize", "lsp/lsp.go"), ("executeCommand, codeAction", "lsp/lsp.go")],
  observe=["initialize reply", "codeAction and executeCommand replies"],
  technique=AI + "; whole sessions interpreted for every option set, announced capabilities compared with the methods answered by a result on every path",
  note="Code actions are taken from one program with every kind of action. " + TB),
 dict(id="P25", title="Navigation and renaming of labels are exact",
  statement="For every position in a document, go to definition, highlighting, preparing and performing a rename act on exactly the label or label reference whose extent contains the position, and on nothing if there is none. Definition yields exactly the definitions of that label; highlight and rename cover exactly its definitions and all its references, each by the extent of the name alone, and rename replaces them by the new name and touches nothing else. Outline symbols are exactly the labels with their extents, and reference lenses carry the true counts.",
  over=["inputs", "programs"], forall="every program of up to three lines over 12 line kinds x every indentation x every position",
  why="TestSymOrRefAt asks about one position; an off-by-one at the edge of a token, or on one kind of reference, is not sampled.",
  files=["lsp/lsp.go", "process.go", "range.go", "symbols.go"],
  mech=[("request handlers", "lsp/lsp.go definition/highlight/rename"), ("position queries", "process.go SymOrRefAt, SymbolsWithin, SymbolRefsWithin")],
  observe=["replies of the language server"],
  technique=AI + "; whole sessions interpreted with symbolic indentation and column, reply ranges compared on every path with an independent formulation",
  note="Bounded to 3 lines (three-line programs over 5 kinds; thorough: all kinds). " + TB),
 dict(id="P26", title="Semantic highlighting is exact",
  statement="The semantic tokens of a document, decoded as the protocol defines, are exactly the tokens of its valid lines, each once, in document order, at the token's own position and length: mnemonics as keywords, labels as methods, comments as comments, pragmas as macros, numeric immediates (named integer constants included) as numbers and all other immediates as strings, all in the announced legend. On invalid lines nothing is highlighted twice or at a place where there is no token.",
  over=["inputs", "programs"], forall="every opcode form and line kind x every token position; every list of up to three classified tokens in every order of positions",
  why="TestSemantics encodes one list of tokens; each opcode's immediates are classified by separate code.",
  files=["semantics.go", "lexer.go", "process.go", "lsp/lsp.go"],
  mech=[("relative encoding", "semantics.go Encode"), ("token classification", "process.go Process"), ("legend", "lsp/lsp.go initialize")],
  observe=["semanticTokens/full replies", "SemanticTokens.Encode"],
  technique=AI + "; the encoding decoded again and compared with the tokens on every path; classes compared per opcode form",
  note="Four tokens on concrete lines (thorough: five). Classes of base32/base64/address texts are not fixed (their decoding is not modelled). " + TB),
 dict(id="P27", title="Every debug-adapter request gets exactly one response",
  statement="Every request a client sends to the debug adapter is answered by exactly one response, carrying the request's sequence number and command; known commands with well-formed arguments succeed, before and after a program is launched, and everything else fails with a message. Responses and events are numbered in strictly increasing order; initialize, launch, pause, next and continue cause exactly their events, after the response. Messages that are no requests are never answered, no message ends or crashes the adapter, and it ends with code 0 when its input ends.",
  over=["inputs", "histories"], forall="every command x every missing or malformed argument x 12 states of the session; every kind of malformed message",
  why="dbg has no tests at all.",
  files=["dbg/dbg.go"],
  mech=[("message loop", "dbg/dbg.go Run"), ("dispatch and commands", "dbg/dbg.go dispatch/handle")],
  observe=["messages written by the adapter", "return value of Run"],
  technique=AI + "; whole sessions of the adapter interpreted on abstract JSON messages; responses and events per request counted on every path",
  note="Message shapes are enumerated; numbers and texts symbolic. " + TB),
 dict(id="P28", title="The debugger shows the simulator's actual state",
  statement="After every step, the debug adapter reports exactly the existing branches as threads, and for each its call frames innermost first, each named after the routine it is in and at its current or call line in the client's line and column base, its remaining budget, its whole stack top first, exactly its written scratch slots and its executed instructions, with true counts and honouring the requested range. A step executes the thread asked for, and the stopped event names the thread that is current afterwards. Unknown threads, frames and references yield empty lists.",
  over=["inputs", "programs", "histories"], forall="11 programs (calls, nested calls, prototypes, forks, multi-way branches, scratch, end of program) x every step x four orders of stepping x six base settings x ten ranges",
  why="dbg has no tests at all.",
  files=["dbg/dbg.go", "vm.go"],
  mech=[("threads, stackTrace, scopes, variables, next", "dbg/dbg.go handle"), ("names and frames", "vm.go VmBranch.skipNops/call")],
  observe=["responses and events of the debug adapter"],
  technique=AI + "; whole debug sessions interpreted and every answer compared with an independent reference simulator",
  note="The programs are fixed; token positions are symbolic. " + TB),
 dict(id="P29", title="Breakpoints are verified and hit exactly",
  statement="Setting breakpoints replaces all earlier ones of the program, and answers them in order, verified exactly if the line is an executable line of the program. Continuing stops at the first step in which some branch reaches a line with a verified breakpoint, reporting that branch and that breakpoint and the branch that was asked for if it is among them; otherwise it runs to the end of all branches or to the first error, which is reported as an exception.",
  over=["inputs", "programs", "histories"], forall="11 programs x every set of one or two breakpoint lines inside and around the program x both line bases",
  why="dbg has no tests at all.",
  files=["dbg/dbg.go", "vm.go"],
  mech=[("setBreakpoints, continue", "dbg/dbg.go handle"), ("SetBreakpoints, Run, updateBreakpoints", "vm.go")],
  observe=["responses and events of the debug adapter"],
  technique=AI + "; whole debug sessions interpreted and every stop compared with an independent reference simulator",
  note="The programs are fixed; one known finding (breakpoints of other files). " + TB),
 dict(id="P30", title="The scanner's report is complete and exact",
  statement="Scanning a file, or a directory with everything below it, prints one SARIF report which lists exactly the programs scanned (the named file, or every file with the extension .teal) as artifacts, every registered rule once, and exactly the findings of each program as results: with the finding's rule, the level of its severity (error, warning, or note for information and hints), its text, its one-based line and column and the location and artifact index of the file it was found in. If anything cannot be read the scan fails and prints no report.",
  over=["inputs", "fault_sequences"], forall="given trees of files and directories with every kind of entry and unreadable ones, any number of findings with arbitrary positions, rules and texts and each severity",
  why="The scanner has no tests.",
  files=["cmd/tealsarif/main.go", "internal/sarif/sarif.go"],
  mech=[("report", "cmd/tealsarif/main.go run"), ("levels", "cmd/tealsarif/main.go ToSarifLevel"), ("format", "internal/sarif/sarif.go")],
  observe=["the JSON printed and the exit status"],
  technique=AI + "; the scanner's main function interpreted with file system and findings as symbolic inputs, the encoded report compared with an independent formulation",
  note="The trees are fixed (thorough: every selection of six entries); the findings are arbitrary. What the findings are is P02, P11, P12 and P14. " + TB),
 dict(id="P31", title="Reported diagnostics are exactly the findings on the latest text",
  statement="The diagnostics the language server reports for an open document are, one for one, the findings on its latest text: none is lost, added, or reported twice, and each keeps its line, extent, severity and message. The message of a finding names the label, opcode, word or version it is about.",
  over=["inputs", "programs"], forall="all programs of one or two lines over every kind of line with arbitrary token positions, and 14 kinds of findings for the messages",
  why="No test asks the server for diagnostics; the messages of most findings are not tested.",
  files=["lsp/lsp.go", "process.go", "linter.go", "diag.go"],
  mech=[("textDocument/diagnostic", "lsp/lsp.go handle, doDiagnostic"), ("Process, Linter", "process.go, linter.go")],
  observe=["textDocument/diagnostic replies"],
  technique=AI + "; whole sessions interpreted and compared with the interpretation of Process",
  note="That the findings themselves are right is P02, P04, P05, P11 and P14. " + TB),
 dict(id="P32", title="Inlay hints, code actions and their edits are exact",
  statement="For every range of a document, the inlay hints and code actions are exactly those about something that intersects the range: the name of a field given by number, the text of a hex bytes immediate that is printable ASCII (as the client's options say), replacements for both, a label to create for a missing one, a redundant line to remove, a version to update to. Each command leads to one edit, of that document only, which replaces exactly the extent concerned by text that is read back as the same value, or inserts the label or version pragma on a line of its own.",
  over=["inputs", "programs"], forall="all programs of one or two lines over 11 kinds of lines, with arbitrary indentation, and all ranges with arbitrary columns; every field number of every opcode and every byte value",
  why="There are no tests of hints, actions or commands.",
  files=["lsp/lsp.go", "process.go", "range.go"],
  mech=[("inlayHint, codeAction, executeCommand", "lsp/lsp.go handle"), ("InlayHints, ArgFieldName, OpValFieldNames", "process.go"), ("Intersects", "range.go")],
  observe=["textDocument/inlayHint and codeAction replies, workspace/applyEdit requests"],
  technique=AI + "; whole sessions interpreted with symbolic positions and compared with an independent formulation whose open cases are split",
  note="Programs of up to two lines (three in thorough runs). " + TB),
 dict(id="P34", title="Literals denote exactly the value written",
  statement="Every byte, integer and method-signature literal denotes exactly the value written in the source text. A quoted string denotes its characters, with the escapes n, r, t, backslash, quote and x with two hex digits replaced by what they stand for; 0x notation the bytes of its digit pairs; base64 and base32 notation, in either the bracketed or the two-word form, the decoded bytes (base64 padded, base32 with or without padding). An integer is decimal or has one of the prefixes 0x, 0b, 0o and 0, and int also takes the names of transaction types and completion actions. A malformed literal is rejected with a diagnostic, a well-formed one never is, and each constant of a list keeps its place.",
  over=["inputs"], forall="every string literal of up to three (thorough: four) arbitrary characters and longer ones with arbitrary characters in them, every hex digit string of up to two arbitrary digits, every notation; byte, pushbytes, bytecblock, pushbytess, int, pushint, intcblock, pushints, method",
  why="TestParser accepts or rejects a few example files; it never looks at the decoded value.",
  files=["lexer.go", "process.go", "go_algorand.go", "parser.go"],
  mech=[("escape decoding", "go_algorand.go parseStringLiteral"), ("notations", "process.go parseBytes"), ("integers", "parser.go readInt, readConstInt"), ("quotes", "lexer.go readValue")],
  observe=["Process result Listing and Diagnostics"],
  technique=AI + " with a character domain: Process is interpreted on source lines with unknown characters; the recorded constant is compared with an independent formulation whose open cases are split",
  note="Characters are ASCII; texts are bounded; base64 and base32 are decided on known texts only (the library's decoders are part of the trusted base), and addresses not at all. " + TB),
 dict(id="P35", title="Building programs in Go compiles to exactly what was built",
  statement="Compiling an expression built with the Go API yields exactly the instructions built, in order: lists, blocks and functions at any depth are flattened left to right (a function as its label, its frame declaration if it has one, and its body), each predefined instruction and each constructor is the TEAL instruction it is named after with its own arguments in their order, and the composite helpers (Plus, Minus, AssertEq, AssertLen, AssertLtEq, AssertInRange, Itxn, MatchLabels, Call) surround their operands with the instructions they stand for. A program is an expression like a list, and is flattened like one. The printed program has one line per instruction, and a string literal of any characters is printed so that it is read back as the same bytes.",
  over=["programs", "inputs"], forall="all constructors with arbitrary arguments, all trees of three levels with up to two children over lists, blocks and functions, all programs of up to three lines over eight kinds of lines, all string literals of up to four arbitrary printable characters and every ASCII character between arbitrary ones",
  why="No test builds a program.",
  files=["expr.go", "compiler.go"],
  mech=[("Compile, Program.Compile, Listing.String", "compiler.go"), ("constructors and String methods", "expr.go")],
  observe=["Compile(...) listings and their printed form"],
  technique=AI + "; the constructors, the compiler and the String methods interpreted with symbolic arguments and characters, the printed terms compared with an independent table",
  note="Fields are printed by their own String methods, which P07 covers. Only ASCII characters in literals. " + TB),
 dict(id="P15", title="The same input always gives the same result",
  statement="Processing the same source twice, in one process or in two, gives the same result: the same tables, diagnostics in the same order, symbols and versions; the language server, the debugger and the scanner send the same answers for the same requests, list items in the same order. Nothing observable depends on the order in which Go happens to iterate a map, on goroutine scheduling, the clock or random numbers.",
  over=["inputs", "schedules"], forall="programs with several findings of every kind, every list-valued LSP request on them, completions of every opcode's arguments, stepped debugging sessions, and the scanner",
  why="Map iteration is random, so a test passes on the runs it happens to see; editors and CI diff reports between runs.",
  files=["process.go", "linter.go", "vm.go", "lsp/lsp.go", "dbg/dbg.go", "cmd/tealsarif/main.go"],
  mech=[("label findings", "linter.go"), ("OpArgVals, ArgVals", "process.go"), ("completion", "lsp/lsp.go")],
  observe=["Process's result", "exported tables", "server replies", "scanner report"],
  technique=AI + "; relational: every case interpreted under two opposite map iteration orders and compared, plus a scan of all functions for goroutines, select, clock and randomness",
  note="Two opposite orders are compared, not all permutations; an order-dependent result that is the same forwards and backwards would be missed. " + TB),
 dict(id="P16", title="The commands serve where and how their command line says",
  statement="tealsp runs the language server, tealsp dbg and tealdbg run the debug adapter: on standard input and output, or, if an address is given, on a connection to that address over the given network (tcp by default). A trace file is created exactly if one is named, and the server then traces to it. The process ends with the server's exit code. If the connection, the trace file, the server's creation or the server itself fails, or the command line is malformed, it does not end with code 0, and no server is run after a failed preparation.",
  over=["configurations", "fault_sequences"], forall="every combination of the options in both spellings with arbitrary values, with and without the dbg word; every preparation failing; the server ending with code 0, 1 or another, or with an error",
  why="No test starts a command, and tests do not make connections or files fail.",
  files=["cmd/tealsp/main.go", "cmd/tealdbg/main.go"],
  mech=[("main, runLsp, runDbg", "cmd/tealsp/main.go"), ("main, run", "cmd/tealdbg/main.go")],
  observe=["which server is run, on which streams", "files and connections made", "exit code"],
  technique=AI + "; the main functions interpreted for every command line, with flag parsing, network and files modelled and the creation and run of the servers recorded",
  note="The flag package is modelled (string options). Values of options are arbitrary non-empty texts or empty. " + TB),
 dict(id="P36", title="Optimising a listing keeps what the program does",
  statement="Listing.Optimize keeps the behaviour of every valid program: along every path from the start the optimised listing executes the same instructions in the same order, with the same branch targets, calls, returns and ends as the original; it never drops a label that is still used, it keeps the pragmas, and it leaves the original listing as it was.",
  over=["programs"], forall="all listings of up to four lines over 17 kinds of lines (labels, jumps, branches, calls, tables, returns, frames, comments, pragmas), and 2500 longer ones (thorough: 40000)",
  why="The optimiser has no test; whether a line may go depends on the whole program around it.",
  files=["compiler.go", "expr.go"],
  mech=[("Optimize and its passes", "compiler.go"), ("Labels, IsNop", "expr.go")],
  observe=["the listing Optimize returns"],
  technique=AI + "; the optimiser interpreted on every shape, and the control flow graphs before and after compared by a bisimulation",
  note="Listings are bounded; every label is defined once and every target is defined. Whether the result is smaller is not judged. " + TB),
 dict(id="P33", title="Hover, completion and signature help are right for every opcode",
  statement="Hovering over an opcode explains that opcode, over a field immediate (by name or number) names the field and its number, and elsewhere nothing. Completion of the first word offers exactly the opcodes available in the program's version and mode that start with it, with a placeholder per argument; completion of an argument offers exactly the names that may stand there in the program's version, with their values, or the program's labels. Signature help shows the opcode of the line with its parameters and marks the one at the position.",
  over=["inputs", "programs"], forall="every opcode and form, arbitrary indentation and column; every field by name and number; program versions 1-12 and both modes",
  why="Only TestDocs and TestIntArgVals touch two points of this.",
  files=["lsp/lsp.go", "process.go", "go_algorand.go"],
  mech=[("hover, completion, signatureHelp", "lsp/lsp.go handle"), ("DocAt, ArgAt, ArgVals, OpArgVals, Ops", "process.go")],
  observe=["textDocument/hover, completion and signatureHelp replies"],
  technique=AI + "; whole sessions interpreted with symbolic positions and compared with the AVM's opcode and field tables",
  note="The wording of the documentation is not judged, only that it is the same everywhere and present. " + TB),

    dict(id="P17", title="Language features answer for every text and position",
         statement="For every document, whatever its text, and every position or range in it, before it, after it or across it, each feature request of the language server (symbols, lenses, tokens, diagnostics, formatting, rename, definition, highlight, completion, hover, signature help, hints, inline values, code actions) is answered with a result: never with an error, and without crashing or hanging.",
         over="inputs", forall="for all document texts, requests and positions or ranges",
         why="texts, positions and ranges are unbounded, and each opcode and line form takes its own path",
         files=["lsp/lsp.go", "process.go"],
         mech=[("request handlers", "lsp/lsp.go:(*lsp).handle"), ("queries", "process.go:ProcessResult methods")],
         observe=["JSON-RPC responses"],
         technique=AI + "; whole sessions interpreted for every kind of line (arbitrary texts) and every opcode with every number of immediates, with arbitrary columns; every path must send a result",
         note="Documents of up to four lines; what the results say is P25, P26, P31, P32 and P33. " + TB),
    dict(id="P24", title="Messages of both servers are framed exactly",
         statement="Both servers read every message with exactly the number of bytes its header announces, so that consecutive messages never run into each other, and write every message as a Content-Length header with the exact byte length of the body, an empty line and the body, flushed, with nothing else on the output, whether or not the server traces to a file. A missing, malformed or negative length, a malformed header, a body that is no JSON or the end of input in a message neither crashes a server nor keeps it from answering the requests that follow, and it ends when its input ends.",
         over="histories", forall="for all sequences of well-formed and broken messages",
         why="it must hold for every sequence of messages and every content length; tests of the servers do not exist",
         files=["lsp/lsp.go", "dbg/dbg.go"],
         mech=[("reading", "lsp/lsp.go:(*lsp).Run, dbg/dbg.go:(*dbg).Run"), ("writing", "lsp/lsp.go:(*lsp).write, dbg/dbg.go:(*dbg).write")],
         observe=["bytes written"],
         technique=AI + "; whole sessions of both servers interpreted on every short sequence of message and defect kinds; the written byte terms are matched with the frame grammar, lengths compared as terms",
         note="Sequences of up to 3 (4) messages; lengths symbolic. The standard library's header reader is trusted. " + TB),
]

NOT_APPLICABLE = [
 dict(id="P37", title="Addresses are accepted exactly if their checksum is right",
  statement="The immediate of addr is accepted exactly if it is the 58-character base32 form of a 32-byte key followed by the last four bytes of the key's SHA-512/256 digest, and denotes that key.",
  over=["inputs"], forall="all texts", why="Tests sample a few addresses.", files=["process.go"],
  mech=[("addr", "process.go")], observe=["the recorded instruction", "diagnostics"],
  reason="The condition is a cryptographic digest over arbitrary input: no abstract domain in reach relates a text to its SHA-512/256 checksum, so a static argument could only restate which library call is made."),
 dict(id="P38", title="Processing and simulation finish quickly on every program",
  statement="Processing a source and simulating it to its end take time and memory proportional to a small polynomial of the program's size.",
  over=["programs"], forall="all programs", why="Tests use short programs.", files=["process.go", "vm.go", "linter.go"],
  mech=[("Vm.Run", "vm.go"), ("Linter", "linter.go")], observe=["running time"],
  reason="A bound on a run-time quantity; the simulator forks at every conditional branch, so the number of branches is exponential in the program by design, bounded only by each branch's budget. Termination of a step and of Process on the analysed shapes is covered by P11 and P19."),
 dict(id="P39", title="Formatting a document keeps its meaning",
  statement="The text offered by textDocument/formatting assembles to the same program as the document.",
  over=["inputs", "programs"], forall="all texts", why="There is no test of formatting.", files=["lsp/lsp.go"],
  mech=[("formatting", "lsp/lsp.go handle")], observe=["the edit offered"],
  reason="The formatter is an external module (dragmz/tealfmt), not code of this repository; only the call and the extent of the edit are here, and those are covered by P17 and P22."),
]
