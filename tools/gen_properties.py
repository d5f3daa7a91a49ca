#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

X = "at-x64/src/"
# ------------------------------------------------------------------ x64 encoder
p("E01", "Encoded register/immediate instructions mean exactly what was asked",
  "For every mov (register to register, immediate to register), push, pop, ret and syscall the encoder can be given, the bytes it produces decode, under the Intel/AMD 64-bit manual, to exactly that operation with exactly those operands and operand width, and nothing is left over. An immediate is carried with exactly the bits given, at the operand's width. A concatenation of encodings therefore decodes back to the same instruction sequence.",
  ["inputs", "histories"], "all 16 registers in each width (all ordered pairs), every immediate of each width, all sequences of such instructions",
  "The unit tests compare two or three hand-picked operand pairs per form with literal bytes; wrong REX bits, wrong opcodes or truncated immediates for the other pairs and values go unseen.",
  [X+"instruction/mov.rs", X+"instruction/push.rs", X+"instruction/pop.rs", X+"instruction/ret.rs", X+"instruction/syscall.rs", X+"encoder/mod.rs", X+"encoder/bytecode.rs", X+"reg.rs"],
  [("instruction encoder (prefix, REX, opcode, ModRM, immediate assembly)", X+"encoder/mod.rs Encoder::encode; "+X+"encoder/bytecode.rs ByteCode::to_bytes"),
   ("register numbers and extension bits", X+"reg.rs register_code/is_extended")],
  ["bytes returned for an instruction"])
p("E02", "Memory operands address exactly base + index*scale + displacement",
  "For every memory operand the encoder can be given ([reg + disp], [rip + disp], [base + index*2^scale + disp], with the documented special cases for rbp/r13, rsp/r12, a missing base and rsp as 'no index'), a store or address computation using it encodes to an instruction whose effective address is exactly the requested sum, the displacement taken as a 32-bit two's complement number. The register operand and operand width are also exactly those requested, and the bytes decode with nothing left over. A scale beyond 3 is refused.",
  ["inputs"], "every base, index, scale, register operand, and every 32-bit displacement",
  "The tests exercise about ten operands with displacements 0 and 42; the special registers, the 8-bit/32-bit displacement boundary and extended index/base registers are not sampled.",
  [X+"mem.rs", X+"encoder/mod.rs", X+"encoder/bytecode.rs", X+"instruction/mov.rs", X+"instruction/lea.rs"],
  [("ModRM/SIB/displacement selection for memory operands", X+"encoder/mod.rs impl RegMemLike for Mem64 (mode, rm, sib, disp_bytes, rex_b, rex_x)")],
  ["bytes returned for mov [mem], reg64 and lea reg64, [mem]"])
p("E03", "The reported immediate offset is where the immediate really is",
  "For every mov of an immediate to a 32- or 64-bit register, the offset reported for the immediate is the position of the immediate's bytes inside the encoded instruction, and they run to its end. Overwriting those bytes with any other value gives exactly the encoding of the same instruction with that value.",
  ["inputs"], "every 32/64-bit register and every pair of immediates",
  "The tests check the offset arithmetic for two registers per width by length only; relocations rely on it for all registers and all values.",
  [X+"instruction/mov.rs"],
  [("immediate offset computation", X+"instruction/mov.rs Mov<Reg32,u32>::offset_to_imm_bytes, Mov<Reg64,u64>::offset_to_imm_bytes")],
  ["offset value and encoded bytes"])
p("E04", "Register names, widths and numbers are mutually consistent",
  "Every register of every width prints as its standard Intel name, and names are pairwise distinct across all widths. Widening a 16- or 32-bit register yields the register whose low part it is, with the same hardware number and extension flag, and each (number, extension) pair belongs to exactly one register of a width.",
  ["inputs"], "all 64 registers in four widths, all pairs",
  "No test looks at printing, widening or at the number of more than a handful of registers.",
  [X+"reg.rs"],
  [("name, widening and number tables", X+"reg.rs Display impls, to_reg32/to_reg64, register_code, is_extended, rex_r_bit/rex_b_bit, reg_bits/rm_bits/mode_bits")],
  ["printed names, widened registers, register codes"])
p("E05", "The fixed-capacity byte buffer behaves as a bounded byte string",
  "A buffer built from an array or from an integer holds exactly those bytes (integers little-endian), reports exactly that length and emptiness, and reads back what is written through it. Two buffers are equal exactly when their contents are equal. Building one longer than its capacity is refused instead of truncating or overflowing.",
  ["inputs", "histories"], "all integers, array lengths, capacities up to 15 and write sequences",
  "No unit test covers the buffer; it is only exercised indirectly at a few lengths.",
  [X+"bytes.rs"],
  [("bounded buffer", X+"bytes.rs BytesAtMost")], ["slice views, len, is_empty, equality, panics on oversize"])

p("E06", "Carried out by a processor, encoded instructions have their documented effect",
  "Every instruction the encoder builds, carried out by an x86-64 processor from any state of its registers, does what the instruction named by the call is documented to do and nothing else: a mov between registers or from an immediate, a store to memory, a lea, a push, a pop, a ret, a syscall. The destination gets the value (a 32-bit destination clears the upper half, a 16-bit one keeps the rest), the store goes to base + index * scale + displacement or to the end of the instruction + displacement, immediates are sign extended where documented, the stack pointer moves by the operand's size, no flag changes, no other register or byte of memory changes, and execution goes on right behind the bytes that were encoded.",
  ["inputs", "histories"], "all register, width, addressing and immediate combinations, from any register contents",
  "The tests compare a few encodings with bytes written by hand; nothing is ever carried out.",
  [X+"instruction/mov.rs", X+"instruction/lea.rs", X+"instruction/push.rs", X+"instruction/pop.rs", X+"instruction/ret.rs", X+"instruction/syscall.rs", X+"encoder/mod.rs", X+"mem.rs", X+"reg.rs"],
  [("opcode and operand order of each instruction", X+"instruction/*.rs"), ("prefix, REX, ModRM, SIB, displacement and immediate", X+"encoder/mod.rs Encoder::encode")], ["registers, flags, memory and instruction pointer after each encoded instruction"])

# ------------------------------------------------------------------ mach-o records
M = "at-mac/src/"
allmac = [M+"header.rs", M+"nlist.rs", M+"reloc.rs", M+"load_command/segment64.rs", M+"load_command/symtab.rs", M+"load_command/dysymtab.rs", M+"load_command/build_version.rs", M+"load_command/mod.rs", M+"io.rs"]
p("M01", "Every Mach-O record reads back as it was written",
  "For every Mach-O record kind the library models (header, segment, section, symtab, dysymtab, build version and tool entries, symbol entry, relocation entry, whole load command) and every valid value of its fields, writing it yields exactly the documented number of bytes. Reading those bytes back in native byte order yields an equal value, consuming exactly those bytes even when more data follows. A record one field of which holds a value its place cannot (a symbol number above 24 bits, a relocation type above 4 bits, a name over 16 bytes or with a NUL or non-ASCII character) is refused, never written as a different record. The bytes are the same whatever pieces the destination takes; one that fails before the last byte makes the write fail.",
  ["inputs", "fault_sequences"], "all field values of all records: every enumerator, any set of flags/attributes collected in any order, names of 0..16 ASCII bytes, the full integer ranges",
  "One hand-written value per record is round-tripped, mostly small numbers, no flags, one enumerator; truncation, wrong masks and missing enumerators elsewhere are invisible.",
  allmac, [("per-record read/write pairs", M+"*: read_from / read_from_in / write_into"), ("enum and flag-set conversions", M+"header.rs Flags, "+M+"load_command/segment64.rs SectionAttrs/SectionType, "+M+"nlist.rs NTypeField, "+M+"reloc.rs bit packing")],
  ["bytes written, value read back, bytes consumed"])
p("M02", "Record bytes follow the Mach-O file format definition",
  "The bytes written for any record are those the Mach-O format (mach-o/loader.h, nlist.h, reloc.h) prescribes for its field values on this machine: each field at its documented offset, width and byte order, names NUL-padded to 16 bytes, and the documented numeric constants for commands, file types, flags, section types and attributes, symbol types, relocation kinds, platforms and tools. The numeric conversions of these enumerations agree with those constants in both directions.",
  ["inputs"], "all field values of all records, all enumerators",
  "The tests only compare the library with itself (write then read), so any error made on both sides, or in a constant, passes.",
  allmac, [("field order, widths and constants", M+"*: write_into and enum discriminants")],
  ["bytes written"])
p("M03", "Opposite-endian files read as the same values",
  "For every record, reading the image of its value in the opposite byte order, with the byte order announced by a byte-swapped header magic, yields the same field values as reading the native image, including the mirrored bit-field layout of relocation entries. The header reader reports native order for native magics and the opposite order for swapped magics.",
  ["inputs"], "all field values of all records, both byte orders",
  "No test reads anything in the non-native byte order.",
  allmac, [("endianness dispatch", M+"io.rs read_in!, Endian; "+M+"header.rs Header64::read_from; "+M+"reloc.rs read_from_in; "+M+"load_command/mod.rs read_from_in")],
  ["values read from byte-swapped images"])
p("M04", "Foreign record bytes are read losslessly or refused, never misread",
  "Given the bytes of a record produced elsewhere: if every coded field has a value the library models (and sizes are consistent), the record is read and writing the value again reproduces the same bytes. If some coded field has a value the library does not model, a declared size is inconsistent, or the bytes end early, the read is refused; it never returns a value that stands for different bytes.",
  ["inputs", "fault_sequences"], "arbitrary bytes for each record kind: valid encodings, mutations of them, unmodelled codes, every truncation length",
  "The tests never feed bytes the library did not write itself, nor truncated or unsupported ones.",
  allmac, [("checked enum decoding and size assertions", M+"* from_u32/from_u8 and assert_eq! on cmd/cmdsize; "+M+"io.rs unwrap on short reads")],
  ["value or refusal; bytes after rewriting; bytes consumed"])
p("M05", "String-table offsets always give back the strings stored there",
  "After any sequence of ASCII strings is appended to a string table, offset 0 is the empty string, each string (and each suffix of it) is returned at the offset where it was stored, enumeration yields the strings in order, and the raw bytes are one NUL followed by each string and its NUL. A table rebuilt from those raw bytes behaves identically. Text that is not ASCII or contains a NUL, and raw data not framed by NULs, are refused.",
  ["histories", "inputs"], "all sequences of strings, including empty, repeated and suffix-related ones, and raw tables",
  "The tests store a single string.",
  [M+"string_table.rs"], [("string table", M+"string_table.rs StringTable")],
  ["get, iter, len, as_ref"])
p("M06", "A stream of load commands is walked back command by command",
  "Any sequence of load commands written one after another (each with its sections or tool entries) reads back, in either byte order, as the same sequence, each read consuming exactly the command's declared size. The command code and size reported for each equal the first two words of its bytes.",
  ["histories", "inputs"], "all sequences of load commands, 0..N sections/tools each, both byte orders",
  "Whole load commands, sections attached to segments, tool lists and sequences are not tested at all.",
  [M+"load_command/mod.rs", M+"load_command/segment64.rs", M+"load_command/build_version.rs"],
  [("command dispatch and nested entries", M+"load_command/mod.rs LoadCommand::read_from_in/write_into/cmd/cmd_size")],
  ["values read, bytes consumed per command"])

p("M07", "Whole files, also those of other tools, are read as what they hold",
  "Read with the record library from the header on, every Mach-O file this toolkit writes comes back as what it was made of (sections with sizes, addresses and contents, symbols with names and values, relocations with places and targets). A 64-bit little-endian file of another assembler or linker is read as the values other readers show for it: the header, each load command at the place the declared sizes give, its sections and tool entries, each section's relocations, and each symbol with its name. Every record so read is written again as the very bytes of the file. A header, command, section or symbol holding a code the library does not model is refused, and everything else in the file can still be read.",
  ["inputs"], "objects of this toolkit; objects, programs, libraries and bundles of another toolchain, for two processors, with and without debugging information",
  "The tests read single records made by hand for the test; no file, whether of this toolkit or of another one, is ever read.",
  allmac, [("reading a file record by record", M+"header.rs Header64::read_from; "+M+"load_command/mod.rs LoadCommand::read_from_in; "+M+"nlist.rs, reloc.rs, string_table.rs")],
  ["values read, bytes consumed, bytes written again"])

# ------------------------------------------------------------------ object writer
O = ["at-obj/src/macho.rs", "at-obj/src/object.rs", "at-obj/src/num.rs"]
p("O01", "Every object file written is structurally well-formed Mach-O",
  "For every in-memory object, the file produced is a self-consistent x86-64 Mach-O relocatable object: the header's command count and total size match the commands, and every offset, count and size in the commands describes a range inside the file. Those ranges (commands, section contents, relocation entries, symbol table, string table) do not overlap, entry tables are 8-byte aligned, and the file ends exactly where the string table does. The segment covers its sections in memory and in the file, never claiming more file bytes than memory bytes, and every symbol's name offset and section number and every relocation's symbol index is in range. Sections keep their declared alignment, the segment is readable, writable and executable, and file and segment flags and reserved fields are zero. An object that needs file positions beyond 32 bits or addresses beyond 64 bits is refused, not written with truncated numbers.",
  ["inputs"], "all combinations of present/absent text, data and bss, contents and sizes, symbols and relocations",
  "at-obj has no tests at all; the end-to-end script needs macOS and four fixed programs.",
  O, [("layout arithmetic repeated in several places", "at-obj/src/macho.rs gen_header64, gen_segment_command64, gen_section64s, gen_symtab_command, write_section_data_into, gen_string_table"), ("alignment helpers", "at-obj/src/num.rs")],
  ["the object file's bytes"])
p("O02", "Section contents and placement survive into the object file",
  "For every in-memory object, each of text, data and bss that has content or symbols appears exactly once, in the order text, data, bss, under its Mach-O name and segment, with its size, and with its attributes: text marked as pure instructions, bss zero-fill with no file content or offset, others regular, and relocation attributes and counts exactly where there are relocations. The bytes at a text or data section's file offset are exactly its contents. Sections are laid out contiguously in memory from address 0, and sections with neither content nor symbols are absent.",
  ["inputs"], "all contents and sizes of the three sections, empty ones included, bss sizes beyond 4 GiB",
  "No test builds an object with more than nothing in it.",
  O, [("section iteration and records", "at-obj/src/object.rs Sections::iter, SectionRef; at-obj/src/macho.rs gen_section64_from_*")],
  ["section records and file bytes"])
p("O03", "The symbol table lists exactly the object's symbols with right values",
  "For every in-memory object, the file's symbol table has exactly one entry per symbol, in section order and then insertion order, whose name is byte-for-byte the symbol's name. A defined symbol is recorded in its section with value section address plus its offset, an absolute one with its value and no section, an undefined one with value 0 and no section. Each is external exactly when marked so (undefined ones always), and carries no description flags. The object's own enumeration of its symbols lists exactly these in this order. An object with a symbol whose value exceeds 64 bits, or whose name has a NUL or non-ASCII character, is refused.",
  ["inputs"], "all symbol lists: names sharing prefixes or suffixes, empty, long and repeated names, many symbols, all three kinds",
  "No test writes a symbol table.",
  O + [M+"string_table.rs", M+"nlist.rs"], [("symbol entries and string offsets", "at-obj/src/macho.rs gen_nlist64s, gen_string_table, gen_symtab_command")],
  ["symbol and string table of the file"])
p("O04", "Relocations keep their place, width, kind and target",
  "For every in-memory object whose relocations name symbols of that object, each section's relocation table has exactly that section's relocations in order: same offset, same width, same pc-relative flag, external, absolute-address type, and a symbol index that denotes the symbol with exactly that name. A relocation naming a symbol the object does not have is refused rather than written with some other target, and so is one whose symbol index exceeds 24 bits or whose width code exceeds 3.",
  ["inputs"], "all relocation lists over all symbol lists in text and data, including similarly named symbols",
  "No test writes a relocation table.",
  O + [M+"reloc.rs"], [("name to symbol-index lookup", "at-obj/src/macho.rs gen_relocation_infos"), ("table placement", "at-obj/src/macho.rs gen_section64s")],
  ["relocation entries of the file"])
p("O05", "Output is complete or the failure surfaces, whatever the sink does",
  "Writing an object, a Mach-O record or an assembled program to a sink that accepts data in arbitrary small pieces or is interrupted delivers exactly the same bytes as writing it to memory. If the sink fails or stops accepting data at any byte position, the write does not return normally and what was delivered is a prefix of the full output.",
  ["fault_sequences", "inputs"], "all objects, records and programs; every split of the writes; a failure at every byte position",
  "All existing tests write to a growing vector that never fails or splits a write.",
  O + [M+"io.rs", "at-asm/src/assembler.rs"], [("write_all + unwrap on every write", M+"io.rs WriteExt; at-obj/src/macho.rs write_into; at-asm/src/assembler.rs write_into")],
  ["bytes delivered to the sink; panic or return"])
p("O06", "Standard tools accept and correctly link the objects produced",
  "Every object file assembled from a valid program is accepted as well-formed by an independent Mach-O reader and by a standard Mach-O linker. In the linked image every section's bytes are those assembled, every label is at its place in its section, and every instruction operand that named a label holds that label's final address.",
  ["inputs", "programs"], "all valid programs with any mix of sections, labels, exports and references",
  "The repository's only such test needs macOS's ld, is not run here, and covers four programs.",
  O + ["at-asm/src/assembler.rs"], [("whole pipeline", "at-asm/src/assembler.rs, at-obj/src/macho.rs, at-mac/src/*")],
  ["exit status and output image of the external tools"])

# ------------------------------------------------------------------ assembler
A = "at-asm/src/"
p("A01", "Assembled instructions do what the source line says",
  "For every sequence of valid mov, push, ret and syscall lines, the text section decodes to exactly that sequence of operations, one per line, with the registers, widths and values written. A number pushed that is below 2^31 is pushed exactly, and a larger 32-bit one keeps its low 32 bits.",
  ["programs", "inputs"], "all register names and pairs of equal width, all in-range immediates, all sequences of instruction lines",
  "Six mov lines are compared with the encoder; push, ret, syscall and sequences are not tested in the assembler.",
  [A+"parsers/instruction/mod.rs", A+"parsers/instruction/mov.rs", A+"parsers/instruction/push.rs", A+"parsers/reg.rs", A+"parsers/line.rs", A+"assembler.rs"],
  [("opcode dispatch and operand classification", A+"parsers/instruction/*"), ("register name tables", A+"parsers/reg.rs")],
  ["text section of the object file"])
p("A02", "Data directives emit exactly the bytes they denote",
  "A db/dw/dd/dq line, with or without a label, appends the items in order to the current section: each number as a little-endian value of the unit's width, each quoted string as its UTF-8 bytes, zero-padded to a whole number of units. Everything between the quotes is data, including commas, semicolons, colons, whitespace and keywords.",
  ["inputs", "programs"], "all units, item lists, numbers in range and string contents without quotes or newlines, in text and data",
  "Nine literal lines are checked; padding for only one length, no dq, no special characters, and nothing through to the object file.",
  [A+"parsers/data.rs", A+"parsers/line.rs", A+"assembler.rs"], [("data line splitting, number/string encoding", A+"parsers/data.rs"), ("comment stripping", A+"parsers/line.rs")],
  ["section contents of the object file"])
p("A03", "Labels mark their position; exported exactly when declared global",
  "For every valid program, each label (a name with a colon, or the name in front of a data directive) appears exactly once in the symbol table, in the section it was written in, at the offset of whatever follows it in that section, however the source switches between sections and even if nothing follows. It is external exactly when some global line anywhere in the source names it.",
  ["programs"], "all programs: label forms, section switches, global lines before and after the definition, labels at section ends and in bss",
  "No test assembles a program.",
  [A+"assembler.rs", A+"parsers/line.rs", A+"parsers/global_symbol.rs", A+"parsers/section.rs", "at-obj/src/macho.rs", "at-obj/src/object.rs"],
  [("label bookkeeping and export marking", A+"assembler.rs read_from")], ["symbol table of the object file"],
  [("current section, exported names", "where the next statement goes and which labels to export", A+"assembler.rs Assembler")])
p("A04", "Once linked, a label operand holds that label's final address",
  "For every valid program and any placement of its sections in memory, after applying the object's relocations as the Mach-O format defines, each mov that names a label loads exactly that label's final address (64-bit or 32-bit by the register), whether the label is defined before or after, in the same or another section. No other byte of the sections is changed by relocation. A program with a label operand at a place a relocation cannot denote (beyond 2 GiB of its section) is refused.",
  ["programs", "configurations"], "all programs with label references, all section placements",
  "No test produces a relocation from source; the one end-to-end program with a reference needs macOS.",
  [A+"parsers/instruction/mov.rs", A+"assembler.rs", "at-obj/src/macho.rs", X+"instruction/mov.rs"],
  [("local relocation offset plus section size", A+"assembler.rs read_from; "+A+"parsers/instruction/mov.rs"), ("symbol lookup", "at-obj/src/macho.rs gen_relocation_infos")],
  ["relocated section contents"])
p("A05", "Numbers and sums in source have their mathematical value",
  "Every decimal or 0x-hexadecimal literal (either letter case, leading zeros allowed) denotes its value wherever a number is allowed, and 'a + b' or 'a - b' in a mov denotes the sum or difference modulo 2^64. The value used in the emitted code or data is exactly that value, for every operand width it fits.",
  ["inputs"], "all 64-bit literals in both notations, all pairs with + and -, in mov, push and data lines",
  "Three small sums and a few small literals are tested; wrap-around, large values and letter case are not.",
  [A+"parsers/num.rs", A+"parsers/expr.rs", A+"parsers/data.rs", A+"parsers/instruction/mov.rs", A+"parsers/instruction/push.rs"],
  [("number and expression parsing", A+"parsers/num.rs, "+A+"parsers/expr.rs")], ["immediates and data bytes of the object file"])
p("A06", "Layout, comments and line endings never change the object file",
  "Changing only the presentation of a valid program leaves the object file byte-for-byte identical: spaces or tabs around tokens and commas, indentation, blank and comment lines, trailing comments with any text, LF or CRLF line endings, and a missing final newline. Naming the initial text section explicitly, or repeating the current section line, also changes nothing.",
  ["programs", "inputs"], "all valid programs and all presentational rewrites of them",
  "No test varies presentation; lines are parsed in one fixed style.",
  [A+"parsers/line.rs", A+"parsers/data.rs", A+"parsers/instruction/mov.rs", A+"reader.rs", A+"parsers/section.rs"],
  [("comment stripping, tokenising, trimming", A+"parsers/*"), ("line reader", A+"reader.rs")], ["object file bytes"])
p("A07", "Malformed programs are rejected with the line, never assembled",
  "If any line of a source file is not a valid statement (unknown opcode, directive or section, missing, malformed or superfluous operands or tokens, unterminated string, malformed number, operand of the wrong kind), or writes into bss, or refers to an undefined label, or defines a label twice, the assembler exits with a failure status and produces no object. For a malformed line the diagnostic names that line's 1-based number, and the first such line if several. (A single word as the source of a mov to a 32- or 64-bit register that is neither a number nor a register of that width counts as a label.)",
  ["inputs", "programs"], "all kinds of malformed line at every position in valid programs",
  "Two malformed section lines are tested at parser level; nothing checks exit status, line numbers or other statements.",
  [A+"parsers/line.rs", A+"parsers/instruction/*", A+"parsers/data.rs", A+"parsers/expr.rs", A+"assembler.rs", A+"main.rs"],
  [("parser errors and exit", A+"assembler.rs read_from"), ("unresolved relocation target", "at-obj/src/macho.rs get_sym_idx")], ["exit status, standard error, output file"])
p("A08", "A number is accepted exactly when it fits its operand",
  "In db/dw/dd/dq items, in mov to a 16-, 32- or 64-bit register (after evaluating the expression), and in push, a number is accepted if it fits in 8/16/32/64, 16/32/64, and 32 bits respectively, and the program is rejected otherwise. No out-of-range number is ever silently truncated.",
  ["inputs"], "all numbers around every width boundary, up to beyond 64 bits, in both notations and as expression results",
  "No test uses a number that does not fit.",
  [A+"parsers/data.rs", A+"parsers/expr.rs", A+"parsers/num.rs", A+"parsers/instruction/mov.rs", A+"parsers/instruction/push.rs"],
  [("range checks", A+"parsers/data.rs write_num; "+A+"parsers/expr.rs as_u32/as_u16; "+A+"parsers/num.rs")], ["exit status and emitted bytes"])
p("A09", "Output depends only on the source text, not on how it is delivered",
  "Assembling a source delivered in reads of any sizes, or with interrupted reads, or line-wise split over several successive inputs to the same assembler, gives the same object file as delivering it at once, for lines and files of any length. Writing the result repeatedly, or assembling again in a fresh assembler or process, gives identical bytes, whatever other assemblers of the process, on this or other threads, do in the meantime. An input that cannot be read to its end (a read fails, at any byte, other than by interruption) is not assembled: reading or writing does not return normally.",
  ["inputs", "histories", "schedules"], "all valid programs, all splits of the byte stream, all splits at line boundaries, repeated writes",
  "No test uses the reader or the assembler object.",
  [A+"reader.rs", A+"assembler.rs"], [("buffered line reader", A+"reader.rs"), ("accumulating state across inputs", A+"assembler.rs")], ["object file bytes"])
p("A10", "The command line writes just the requested output, or fails visibly",
  "On success the command writes the object to the path after -o (given before or after the input), or to the input path with its extension replaced by .o; exactly the assembled object is in that file whatever it held before, no other file changes, and the status is 0. If the arguments are wrong, the input cannot be read or assembled, or the output cannot be fully written, the status is non-zero; when assembling fails, an existing output file is left as it was and none is created.",
  ["configurations", "inputs", "fault_sequences"], "all argument orders and path shapes, prior output contents longer or shorter than the new object, valid and invalid sources, unreadable inputs and unwritable outputs",
  "The binary has no tests; the shell script uses one argument order, fresh outputs, and needs macOS.",
  [A+"main.rs", A+"assembler.rs"], [("argument parsing and output replacement", A+"main.rs Config::init, main")], ["exit status, files before and after"])
p("A11", "Interleaving sections never mixes or reorders their contents",
  "For every valid program, each section's contents are the concatenation, in source order, of what was written while that section was current, the initial section being text. Regrouping the program so that each section's statements come together, without changing the order inside a section, yields an object with identical sections, symbols and references.",
  ["programs"], "all programs with any number of section switches among text, data and bss",
  "No test assembles a program with a section switch.",
  [A+"assembler.rs", A+"parsers/section.rs"], [("current-section dispatch", A+"assembler.rs cur_sect_mut, SectionMut")], ["sections and symbols of the object file"],
  [("current section", "section that receives the next statement", A+"assembler.rs Assembler.cur_sect")])
p("A12", "A whole program is translated faithfully, as NASM would",
  "For every valid program over the supported language (mov, push, ret, syscall, data directives, labels, section and global lines, numbers, sums and label operands, in any combination and size), the object file contains exactly the instructions, data, symbols, exports and references the source states and nothing else. On the subset NASM also supports, it is equivalent to the object NASM makes from the same source.",
  ["programs"], "all valid programs of up to thousands of lines",
  "No test assembles a program; interactions between statements are never exercised.",
  [A+"assembler.rs", A+"parsers/*", "at-obj/src/macho.rs"], [("whole pipeline", A+"assembler.rs")], ["object file"])
p("A13", "A label names one place: defining it twice is refused",
  "A program that defines the same label a second time is rejected with a diagnostic naming the line of the second definition, and yields no object: with a colon or in front of a data directive, in the same or another section, however far apart, before or after a global line for it, in one or in several inputs given to the same assembler. Names that differ in any character, letter case included, are different labels: a program defining both is assembled with each at its own place.",
  ["programs", "histories"], "all valid programs with one label defined again or with similarly named labels",
  "No test defines a label twice or uses two similar ones.",
  [A+"assembler.rs", A+"parsers/line.rs", A+"parsers/data.rs"], [("label definitions", A+"assembler.rs define_label, read_from")], ["exit status, diagnostic, symbols of the object file"],
  [("defined labels", "set of all label names seen so far", A+"assembler.rs Assembler.labels")])
p("A14", "An assembled program does on the processor what its lines say",
  "When the object of a valid program has been linked at any addresses and loaded, carrying out its text statement by statement changes registers, memory, flags and the stack as each line says, makes the system calls it says, and a label operand is the address at which the labelled instruction or datum really is. Every statement begins where the one before it ended, and nothing else is in the sections.",
  ["programs"], "all valid programs, placed at any addresses that their operand widths can express",
  "No test assembles a program, and none carries one out.",
  [A+"assembler.rs", A+"parsers/*", "at-obj/src/macho.rs", X+"encoder/mod.rs"], [("whole pipeline, from source to behaviour", A+"assembler.rs")], ["registers, memory, flags and system calls of the running program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
