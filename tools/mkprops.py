#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Results do not depend on how concurrent output work is interleaved",
  "For every program and command line, the output files, the temp listing, the symbol file, the set of diagnostics with their source positions, and the success result are the same under every interleaving of the assembler's concurrent work as when that work runs one piece after the other. No interleaving deadlocks, livelocks or crashes the process. This also holds when some of the outputs cannot be opened or written.",
  ["schedules", "programs", "fault_sequences"],
  "every interleaving of the encode, listing and symbol work x every accepted program x every combination of failing outputs",
  "The tests run each program once under whatever interleaving the OS picks, mostly with no symbol file, and compare only the binary; a race that needs a particular preemption is never seen.",
  ["Core/Assembler.cpp", "Core/Misc.cpp", "Core/SymbolData.cpp", "Core/Allocations.cpp", "Commands/CommandSequence.cpp", "Archs/MIPS/MipsElfFile.cpp"],
  [("three concurrent pieces of work over one immutable command tree", "encodeAssembly in Core/Assembler.cpp"), ("per-command addresses captured during validation", "Validate methods of all commands")],
  ["bytes of every file after the run", "returned error list", "stdout", "return value"],
  [("current source position", "file and line used to tag diagnostics and listing lines", "Global.FileInfo"), ("diagnostic store", "errors and flags shared by all work", "Logger statics")])

p("C02", "Success is reported only if every output was written completely",
  "Whenever a run reports success, every output file, temp listing and symbol file it was asked for exists and is byte-identical to what the same run produces when no system call fails. Consequently a permanent failure (full disk, I/O error, failed open, failed copy, failed close) while any of these is opened, written, extended, copied or closed makes the run report failure.",
  ["fault_sequences", "programs"],
  "every single or repeated permanent failure of any output-side system call, at any occurrence, in every program that writes files",
  "No test makes a write fail; the suite runs on a healthy disk only.",
  ["Core/FileManager.cpp", "Core/FileManager.h", "Util/FileClasses.cpp", "Util/ByteArray.cpp", "Core/ELF/ElfFile.cpp", "Core/SymbolData.cpp", "Core/Misc.cpp"],
  [("write result propagation", "GenericAssemblerFile::write / FileManager::write"), ("open and copy checks", "GenericAssemblerFile::open"), ("ELF save", "ElfFile::save")],
  ["return value / exit code", "bytes of every output file"])

p("C03", "Input that cannot be read in full never yields a successful wrong result",
  "If reading the contents of a source, included file, binary import, encoding table, object file, ELF or copy source fails or stops short of the file's end at any point, the run either reports failure or produces exactly the outputs of the fault-free run. It never reports success with outputs built from partial input.",
  ["fault_sequences", "programs"],
  "every read-side system call failing or returning premature end of file, at any occurrence, in every program that reads files",
  "No test injects a read error or a file that shrinks while being read.",
  ["Util/FileClasses.cpp", "Util/ByteArray.cpp", "Commands/CDirectiveFile.cpp", "Util/EncodingTable.cpp", "Core/ELF/ElfFile.cpp", "Core/ELF/ElfRelocator.cpp", "Core/ExpressionFunctions.cpp", "Parser/Parser.cpp"],
  [("text reader buffering", "TextFile::bufFillRead/readCharacter"), ("whole-file loads", "ByteArray::fromFile"), ("size re-check at encode time", "CDirectiveIncbin::Encode")],
  ["return value / exit code", "bytes of every output file"])

p("C04", "Failing system calls end the run promptly with a diagnosed failure",
  "Under any sequence of failing file system calls a run finishes within a bounded number of steps and returns normally to its caller: it does not hang, abort, throw or die on a signal. If a failure prevented the run from doing its work, it returns failure and has issued at least one error diagnostic.",
  ["fault_sequences", "programs"],
  "every failing file-system call (open, read, write, seek, stat, copy, remove, close), singly and in sequences, at any occurrence",
  "The only failures tests reach are a missing file and copying a file onto itself.",
  ["Util/FileClasses.cpp", "Core/FileManager.cpp", "Util/ByteArray.cpp", "Core/Common.cpp", "Core/ExpressionFunctions.cpp", "Main/CommandLineInterface.cpp", "Commands/CDirectiveFile.cpp"],
  [("error-code based file queries", "users of fs::exists / fs::file_size / fs::current_path"), ("end-of-input detection", "TextFile::readLine"), ("diagnostics", "Logger")],
  ["process status", "steps executed", "return value", "returned error list"])

p("C05", "A rejected program leaves every file as it was",
  "If a run is rejected because of errors in the program (or warnings treated as errors), every file that existed before has the same contents afterwards and no file has appeared or disappeared, however many outputs the program names. If such a run is killed at any moment, no file that existed before has been changed or removed.",
  ["programs", "crash_points", "fault_sequences"],
  "every program with at least one error placed anywhere, every state of the output files beforehand, and every kill point",
  "Tests with expected errors compare messages only and never look at what happened to output files, and nothing kills the process.",
  ["Core/Assembler.cpp", "Core/FileManager.cpp", "Core/Misc.cpp"],
  [("check-only opening during validation", "GenericAssemblerFile::open(onlyCheck=true)"), ("error gate before encoding", "encodeAssembly in Core/Assembler.cpp")],
  ["whole file tree before and after the run or kill"])

p("C06", "Only the files a program names as outputs are ever modified",
  "Whatever a run does - succeed, fail, meet failing system calls or be killed - the only files and directories it creates, changes or removes are the files named as output by the program or command line (opened, created or copied-to files, ELF outputs, temp listing, symbol file). Sources, includes, imported binaries, tables, objects and copy sources keep their contents, and nothing is left behind under any other name.",
  ["programs", "fault_sequences", "crash_points"],
  "every program, every fault sequence, every kill point",
  "Tests never inspect inputs or directory contents after a run and inject no fault.",
  ["Core/FileManager.cpp", "Util/FileClasses.cpp", "Util/ByteArray.cpp", "Core/ELF/ElfFile.cpp"],
  [("open modes per directive", "GenericAssemblerFile::open, TextFile::open, ByteArray::toFile")],
  ["every mutating system call and its path", "whole file tree afterwards"])

p("C07", "Re-running after a kill gives the result of an uninterrupted run",
  "If a run is killed at any moment and the same command is then run again to completion, its success result and diagnostics are the same as if the first run had never been started and, if it succeeds, so are all output files. This holds for programs that create, copy or patch raw files, provided the program does not import, or open for patching, a file it also creates or copies to.",
  ["crash_points", "programs", "histories"],
  "every kill point in the I/O history of every such program, including repeated kills",
  "No test kills the assembler or starts from a half-written output.",
  ["Core/FileManager.cpp", "Core/Assembler.cpp", "Util/FileClasses.cpp"],
  [("outputs depend on inputs only; patching rewrites fixed ranges", "GenericAssemblerFile::open / write / seek")],
  ["whole file tree, result and diagnostics of the second run"])

p("C08", "Partial and interrupted system calls are invisible",
  "However the operating system splits reads and writes into shorter ones, and however often it interrupts them, the run's result, diagnostics and every output byte are the same as when each call completes in full.",
  ["fault_sequences", "programs"],
  "every pattern of short reads, short writes and interrupted calls over every file the run touches",
  "On a local disk reads and writes always complete in full, so tests never see a short one.",
  ["Util/FileClasses.cpp", "Util/FileClasses.h", "Util/ByteArray.cpp", "Core/FileManager.cpp", "Core/ExpressionFunctions.cpp"],
  [("stream-based I/O that loops until done", "TextFile, ByteArray, GenericAssemblerFile")],
  ["result, diagnostics, output bytes"])

p("C09", "A run's outcome is independent of earlier runs in the same process",
  "For every sequence of runs in one process - successful, rejected, or failed because of I/O errors, with any mix of architectures, tables, options and modes - each run's result, diagnostics, statistics and output files are the same as if it were the first run of a fresh process working on the same files in the same directory (the -root option, which changes the working directory of the process, is outside this property).",
  ["histories", "programs", "fault_sequences"],
  "every finite history of preceding runs, each with or without injected faults",
  "The suite does run several programs per process, but in one fixed order and the harness here runs each test in its own process; leaks that need a particular predecessor are not reached.",
  ["Core/Assembler.cpp", "Core/Allocations.cpp", "Util/EncodingTable.cpp", "Core/Misc.cpp", "Archs/ARM/Arm.cpp", "Archs/MIPS/Mips.cpp", "Parser/Tokenizer.cpp", "Core/SymbolTable.cpp", "Core/FileManager.cpp"],
  [("reset of all global state at the start of a run", "runArmips in Core/Assembler.cpp")],
  ["return value, returned errors, stdout, output bytes of each run"],
  [("global assembler state", "symbol table, equs, tables, allocations, architecture state, open file, logger flags", "Global, Logger, Allocations, Arm, Mips, g_fileManager")])

p("C10", "Results depend only on the inputs, not on memory layout or time",
  "For fixed input files and command line, the result, diagnostics, statistics and every output byte are the same whatever addresses the allocator hands out, whatever memory contains before it is first written, and whatever the clock reads.",
  ["configurations", "programs"],
  "every heap layout and ordering, every initial memory content, every clock value",
  "A test run samples one allocator behaviour; ordering by address or reading uninitialised memory happens to give the same answer each time.",
  ["Core/Allocations.cpp", "Core/Allocations.h", "Core/FileManager.cpp", "Core/SymbolTable.cpp", "Commands/CDirectiveArea.h", "Core/ELF/ElfRelocator.h", "Util/ByteArray.cpp"],
  [("initialised members; keys that do not expose addresses", "command classes, Allocations::Key")],
  ["return value, returned errors, stdout, output bytes"],
  [("file identity", "key for area bookkeeping of an open file", "FileManager::getOpenFileID")])

p("C11", "Output files contain exactly what the program's file operations wrote",
  "A program made of well-formed file, position, data, fill, alignment, area, region, import, macro and conditional directives is accepted, and for every accepted program each file it opened for patching keeps all bytes the program did not write, each created file starts empty, each copied file starts as its source, and every data, fill, alignment, area-fill or binary-import byte is at the file position given by the current address minus the header size in force, with later writes replacing earlier ones and gaps reading as zero. Parts placed in regions automatically lie in the unused space of a region, within the range they were given, never on top of each other, and unused space of a region with a fill value is filled; the usage statistics agree with that. Closing, reopening, switching and seeking within several files in any order preserves this.",
  ["histories", "programs", "fault_sequences"],
  "every history of create/open/copy/close/org/orga/headersize/skip/fill/align/area/data/incbin operations over several files, with transparent I/O faults and any heap layout",
  "Tests hold a handful of fixed single-file programs with one expected image each; multi-file histories, re-opening and header changes are barely touched.",
  ["Core/FileManager.cpp", "Commands/CDirectiveFile.cpp", "Commands/CDirectiveData.cpp", "Commands/CDirectiveArea.cpp", "Core/Assembler.cpp"],
  [("seek/write positions", "GenericAssemblerFile::seekVirtual/seekPhysical/write"), ("open modes", "GenericAssemblerFile::open"), ("directive encoders", "CDirectivePosition/AlignFill/Skip/HeaderSize/Incbin/Area/Data::Encode")],
  ["bytes of every output file"],
  [("current address", "virtual address and header size of the open file", "GenericAssemblerFile")])

p("C12", "Binary, listing and symbol file agree, even if imported files change mid-run",
  "Whenever a run reports success, every label the program places in the binary appears in the symbol file and in the listing at the address at which its bytes lie in the binary (symbols of imported objects: in the symbol file), labels defined by value appear with the value the binary has where they are used, every reference to a label assembled into the binary, by data, instructions or the relocations of imported objects, is that same address (an import of well-formed objects whose references are all in reach succeeds), function sizes in the symbol file end where the function's bytes end, sizes that depend on addresses have settled to what the source says, and every line of data or literal pool in the listing carries the address its bytes have and is an entry of that size in the symbol file. Neither listing nor symbol file keeps anything it contained before the run. This holds for every interleaving, and also when another process replaces, grows or shrinks an imported binary file while the run is in progress: data following the import keeps its computed address or the run fails.",
  ["schedules", "histories", "programs"],
  "every program with labels, every interleaving of the concurrent work and every moment at which another process modifies an imported file",
  "Tests do not compare listing or symbol file with the binary and nothing modifies files during a run.",
  ["Commands/CDirectiveFile.cpp", "Commands/CAssemblerLabel.cpp", "Core/SymbolData.cpp", "Core/Misc.cpp", "Commands/CDirectiveArea.cpp"],
  [("layout fixed in validation, encoders write exactly the validated sizes", "Validate/Encode pairs"), ("import size re-check", "CDirectiveIncbin::Encode")],
  ["marker bytes in the binary, symbol file lines, listing lines"])

p("C13", "An embedding host's output object is driven correctly",
  "In memory mode, every run that opens the host-supplied output object for writing closes it again exactly once, writes to it only between those two calls, and every byte is written at the address the program computed, the same bytes file mode would write; a program without directives that open or close files is accepted if and only if file mode accepts it. A program with errors never opens it. If the object refuses to open, or refuses a write, the run reports failure.",
  ["fault_sequences", "histories", "programs"],
  "every program and every pattern of refusals by the host object, over repeated runs",
  "The test suite never uses memory mode.",
  ["Core/Assembler.cpp", "Core/FileManager.cpp", "Core/FileManager.h"],
  [("host object seam", "AssemblerFile interface"), ("open/close bracketing", "encodeAssembly, runArmips")],
  ["sequence of calls on the host object", "return value"])

p("C14", "Diagnostics are delivered exactly once and match the result",
  "Every diagnostic of a run (from the point where its command line has been accepted) appears exactly once in the returned error list and exactly once on the console (unless silenced), in the same order. The run reports failure if and only if at least one of them is an error, or a warning while warnings are treated as errors. This holds under every interleaving and every failing system call.",
  ["schedules", "fault_sequences", "programs"],
  "every program (with and without errors), every interleaving in which concurrent pieces of work report failures, every failing system call",
  "Tests check expected messages of fixed programs in silent mode, never the console, and never concurrent failures.",
  ["Core/Misc.cpp", "Core/Misc.h", "Core/Assembler.cpp", "Main/CommandLineInterface.cpp"],
  [("diagnostic queue and flags", "Logger::printError / queueError / printQueue / setFlags"), ("result computation", "runArmips")],
  ["returned error list", "stdout", "return value / exit code"])

p("C15", "Text input means the same in every encoding, line-end style and read pattern",
  "However a program's text is stored and delivered - source, included and table files in UTF-8, UTF-16 of either byte order, Shift-JIS or ASCII, with or without byte order mark (the encoding named in the directive or recognised by its mark), LF or CRLF line ends, text at any offset of a file of any length, reads returning any number of bytes or being interrupted - its characters are the same: every message shows its text and line number, .sjis and table string directives emit the bytes that Shift-JIS or the user's table assigns (longest match first), every line of every file is read once, and the result is the same. If a read fails, the run fails or nothing changes.",
  ["fault_sequences", "inputs", "programs"],
  "every text of characters of the Basic Multilingual Plane that the chosen encoding can represent, every choice of encoding per file, every way in which reads are cut into pieces",
  "Tests contain a few short files in UTF-8; internal buffers are never crossed, other encodings and short reads never occur.",
  ["Util/FileClasses.cpp", "Util/FileClasses.h", "Util/EncodingTable.cpp", "Commands/CDirectiveData.cpp", "Parser/Tokenizer.cpp"],
  [("byte order mark detection, buffered decoding, CRLF folding", "TextFile::open / readCharacter / bufFillRead"), ("table trie", "EncodingTable::load / encodeString")],
  ["message texts and positions", "output bytes"])

p("C16", "Damaged input files are refused or used safely, never crash or hang a run",
  "If input files - sources, tables, object files, libraries, PSX objects, ELF executables - were left cut short or partly zeroed at any position, as by a crash or a full disk while they were written, a run using them finishes within a bounded number of steps, returns normally, and a failure comes with an error diagnostic. Its result, diagnostics and outputs do not depend on memory outside of the files' contents. If an object file, library or ELF executable was cut short, success means outputs identical to those with the intact file (unless what is left is a complete library with fewer members or a complete sequence of PSX object records).",
  ["crash_points", "inputs", "programs"],
  "every program, every input file of it, every position at which the file ends or is zeroed",
  "Tests import complete files only.",
  ["Core/ELF/ElfFile.cpp", "Core/ELF/ElfRelocator.cpp", "Archs/MIPS/PsxRelocator.cpp", "Archs/MIPS/MipsElfFile.cpp", "Util/ByteArray.cpp", "Util/FileClasses.cpp", "Util/EncodingTable.cpp"],
  [("archive and PSX library reader", "loadArArchive / loadPsxLibrary"), ("ELF tables and names", "ElfFile::load / loadSectionNames / getSymbol / getStrTableString"), ("PSX records", "PsxRelocator::parseObject")],
  ["termination", "result and diagnostics", "output bytes"])

na = [
 ("C20", "Every accepted instruction is encoded as the architecture manual says", "For every supported mnemonic and every operand combination that is accepted, the emitted bytes are the encoding the target architecture defines, in the selected byte order; operands that do not fit are rejected.", ["Archs/MIPS/MipsOpcodes.cpp", "Archs/ARM/ArmOpcodes.cpp", "Archs/ARM/ThumbOpcodes.cpp", "Archs/SuperH/ShOpcodes.cpp"], "instruction tables and immediate checks"),
 ("C21", "Expressions evaluate as in C with the documented types and functions", "Every constant expression evaluates to the value the documentation gives it, for all operators, literals and built-in functions, and invalid ones are rejected.", ["Core/Expression.cpp", "Core/ExpressionFunctions.cpp", "Parser/ExpressionParser.cpp"], "expression evaluator"),
 ("C22", "Labels and equs resolve by the documented scoping rules", "A reference to a global, static or local name resolves to the definition the documentation prescribes, or the program is rejected.", ["Core/SymbolTable.cpp", "Parser/Tokenizer.cpp"], "symbol table keyed by file and section"),
 ("C23", "Layout iteration ends in a consistent layout or an error", "For every program, repeated layout passes end after a bounded number of passes, and an accepted layout satisfies every branch, pool and size constraint it was encoded with.", ["Core/Assembler.cpp", "Archs/ARM/Pool.cpp"], "validation loop with pass limit"),
 ("C24", "Regions and areas never overlap or overflow silently", "Auto-allocated content lies inside a declared region within the requested range, no two allocations overlap, and content exceeding its area is rejected.", ["Core/Allocations.cpp", "Commands/CDirectiveArea.cpp"], "area allocator"),
 ("C25", "Imported object code is relocated correctly", "Every relocation in an imported object or library is applied as its ABI defines for the chosen load address, or the import is rejected.", ["Core/ELF/ElfRelocator.cpp", "Archs/MIPS/MipsElfRelocator.cpp", "Archs/ARM/ArmElfRelocator.cpp", "Archs/SuperH/ShElfRelocator.cpp"], "relocators"),
 ("C27", "Macros and conditionals expand as documented", "Macro bodies, parameters, unique label renaming and conditional blocks expand to the token sequence the documentation prescribes, with bounded nesting.", ["Parser/Parser.cpp", "Commands/CDirectiveConditional.cpp"], "macro expansion"),
 ("C28", "MIPS load-delay and delay-slot hazards are detected", "For targets with load delays, every sequence that uses a loaded register too early is reported or fixed, and instructions invalid in a delay slot are reported.", ["Archs/MIPS/CMipsInstruction.cpp", "Archs/MIPS/Mips.cpp"], "hazard state machine"),
]
for id, t, s, files, m in na:
    p(id, t, s, ["inputs", "programs"], "every program; a pure function of the program text", "Tests sample a fixed list of programs.", files, [(m, files[0])], ["output bytes and diagnostics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
