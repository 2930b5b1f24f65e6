#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
T = "The only existing test samples fourteen alignment values; nothing executes this code, and "
H="src/blf4/isa/handlers.rs"; B="src/blf4/mod.rs"

p("C01","Register file aliasing is exact",
  "The byte and wide views of the register file always agree: r1-r5 expose their low and high byte separately without disturbing the other half, r6-r10 expose the low byte and clear the high byte when written as a byte, r0 always reads zero and ignores writes, and no write changes any other register. The special registers rs, rl, rf, rp and rh are five further independent 16-bit registers reachable as wide registers 11-15.",
  ["inputs"],"all register numbers, all previous register contents, all written values",
  T+"the property ranges over every (register, old contents, value) triple, 16*16*2^176*2^16 of them.",
  [B,"src/blf4/register_type.rs"],[("read_br/write_br/read_wr/write_wr",B)])
p("C02","Add, subtract, logic and shift instructions compute the exact result and flags",
  "For every register selection and operand values, add, sub, and, or, xor, shl, asr and lsr in byte and wide form write exactly the documented two's complement result to the destination and set carry to the unsigned overflow/borrow, overflow to the signed overflow (both false for logic and shifts), sign to the result's top bit and zero to whether the result is zero. Nothing else in the machine changes except the program counter, which moves past the instruction.",
  ["inputs"],"all operands, register selections (including source = destination) and prior states; for shifts, all amounts below the operand width give the exact shift and larger amounts only must not crash",
  T+"flag errors appear only at rare operand combinations.",
  [H],[("binop_b/binop_w and the add..lsr handlers",H)])
p("C03","Multiply and divide instructions compute both halves exactly",
  "mul writes the high half of the full double-width product to the first destination and the low half to the second, with carry and overflow set exactly when the high half is non-zero and zero/sign describing the low half. div writes quotient then remainder and leaves the flags alone, and a zero divisor always raises the zero-division trap without writing any register.",
  ["inputs"],"all operands and register selections, including overlapping destinations and sources",
  T+"the property ranges over all 2^32 wide operand pairs and 2^16 register selections.",
  [H],[("mul_b/mul_w/div_b/div_w",H)])
p("C04","Jumps, calls and returns transfer control exactly as documented",
  "Each conditional jump is taken exactly when its documented flag condition holds and otherwise falls through to the next instruction. call stores the address of the following instruction in the link register before jumping, ret adds its immediate to the stack pointer and jumps to the link register, and jmp goes to the immediate or to the register; apart from these nothing changes.",
  ["inputs"],"all flag combinations, targets, stack pointers and instruction addresses, including address wrap-around",
  T+"wrong conditions show only for particular flag combinations.",
  [H],[("jez..jbe, jif, call, ret, ldi_w (jump form)",H)])
p("C05","Loads, stores, pushes and pops move exactly the addressed bytes",
  "load and store access exactly the bytes at base plus offset modulo 2^16 (wide values little-endian, the second byte at the next address modulo 2^16), push decrements the stack pointer before writing, pop reads before incrementing, and ldi writes the immediate. No other register, flag or memory byte changes.",
  ["inputs"],"all addresses, offsets (including those that act as negative ones), values, registers and memory contents",
  T+"address arithmetic errors show only at wrap-around or for aliasing register choices.",
  [H,B],[("store_*/load_*/push_*/pop_*/ldi_*",H),("read_wide/write_wide/pushw/popw",B)])
p("C06","Instruction decoding is total and exact",
  "Every opcode consumes exactly the number of bytes its documented operands occupy and selects registers from the high nibble first; every undocumented opcode and every documented instruction whose unused nibble is not zero raises the invalid-instruction trap without changing registers or memory. The decoder never reads memory beyond the instruction.",
  ["inputs"],"all 256 opcodes, all operand bytes, all instruction addresses",
  T+"an undocumented opcode or a reserved nibble is never exercised.",
  ["src/blf4/isa/mod.rs","src/blf4/isa/handlers.rs"],[("OP_HANDLERS, arg_pair, arg_imm_*","src/blf4/isa/handlers.rs")])
p("C07","No machine state or instruction bytes can crash the emulator",
  "Executing one instruction from any machine state and any memory contents either completes, delivers a trap to the installed handler, or reports a trap to the caller; it never panics, overflows or hangs. This includes program counters, stack pointers and addresses at either end of the address space.",
  ["inputs"],"all register, flag and memory contents, direct and virtual mode",
  T+"the failing corner states (top-of-memory, huge shifts, faults during trap delivery) are not sampled.",
  [B,H],[("execute_instruction",B),("all instruction handlers",H)])
p("C08","User mode cannot escape its sandbox",
  "While the machine is in user mode, no instruction other than one that traps can leave user mode, change the virtual-mode setting, the page-table pointer or the trap-handler pointer, use the physical-memory instructions, or read, write or execute a page whose mapping lacks the user flag. Privileged instructions and privileged register accesses raise the illegal-operation trap with no other effect on memory.",
  ["inputs"],"all instructions, register values, page tables and memory contents in user mode",
  T+"isolation has to hold for every instruction encoding against every page table.",
  [B,H],[("read_entry/addr_resolve user checks",B),("read_wr/write_wr guards on rp, rh",B),("usr/vmon/vmoff/pstore/pload",H)])
p("C09","Virtual addresses translate exactly per the two-level page tables",
  "With virtual mode on, an access reaches exactly the physical byte given by the two-level table walk, provided both entries are present, both carry the user flag when in user mode, and both grant the access kind; otherwise the trap naming the first failing condition is raised (the conditions taken in that order, the first level before the second) and no memory outside the tables' flag bytes changes. A successful write sets the dirty flag of both entries it used and changes nothing else in the tables; reads and fetches change nothing. With virtual mode off, addresses are used unchanged.",
  ["inputs"],"all page-table contents, table locations, virtual addresses and access kinds",
  T+"the walk has to be right for every combination of entry flags.",
  [B],[("addr_resolve/read_entry",B)])
p("C10","Traps deliver full state and the handler return restores it",
  "When a handler is installed, a trap of any kind (including one raised while fetching the instruction) saves the registers, flags and program counter of the interrupted program on the stack, enters the handler in supervisor mode with the trap flag set and the trap code in r1; when none is installed the trap is reported to the caller. Returning from the handler restores exactly these (with the trap flag cleared), and outside a trap the return instruction itself traps.",
  ["inputs","histories"],"all trap causes, register and flag contents, stack positions",
  T+"the round trip involves every register and every flag.",
  [B,H],[("execute_instruction trap path, push_registers/pop_registers, flag conversions",B),("reth/ctf",H)])
p("C11","Physical memory behaves as the documented map",
  "Reads return the last value written to that physical address (zero if never written) throughout RAM over the whole 24-bit space, the ROM window returns the supplied image (zero beyond its end) and ignores writes, and the lowest page goes to the I/O device with its address and value unchanged. No write affects any other address.",
  ["inputs","histories"],"all 24-bit addresses, all write/read sequences within the bound, all ROM images",
  T+"the property relates arbitrary pairs of addresses.",
  ["src/mem.rs"],[("LazyMain::read/write/with_rom","src/mem.rs")])
p("C12","Loading a program maps exactly its segments with the right permissions",
  "After loading an object, every byte of every segment is readable at its virtual address through the page tables and holds the object's value; text is executable (readable only with the flag), read-only data is not writable, data, heap and stack are readable and writable, and addresses on no segment, heap or stack page are not mapped. Execution starts in user mode with virtual memory on at the object's entry point with the stack pointer at the top.",
  ["inputs"],"segment offsets, sizes, contents, heap/stack sizes and flags within the bounds",
  T+"page-boundary placements and overlapping pages are never loaded.",
  ["src/blf4/std_kernel/load_user_binary.rs","src/blf4/std_kernel.rs"],[("load_user_binary","src/blf4/std_kernel/load_user_binary.rs"),("MmapBuilder::add_segment/map/map_wr_pages, allocate_page","src/blf4/std_kernel.rs")])
p("C13","The emulated kernel services traps without leaking privilege",
  "A system call performs exactly its documented effect (read one input byte into r1's low byte, write r2's low byte to output, set the error handler from r2), halt stops the machine, unknown calls and unhandled traps are reported, and a handled trap resumes at the error handler with the trap code in r1. After every serviced trap the program is back in user mode with the trap flag clear and its other registers and memory unchanged.",
  ["inputs","histories"],"all register contents, trap causes and error handler settings",
  T+"privilege must return to user level after each of the trap causes.",
  ["src/blf4/std_kernel.rs","src/machine/mod.rs"],[("handle_trap","src/blf4/std_kernel.rs"),("execute_once/run_until_abort","src/machine/mod.rs")])
p("C14","The assembler encodes every instruction as the machine decodes it",
  "For every mnemonic and every well-typed operand list, the assembler emits the opcode the machine executes as that instruction, register nibbles in operand order with unused nibbles zero, and little-endian immediates, so executing the emitted bytes performs the written instruction. Instructions with wrong operand kinds or counts are rejected.",
  ["inputs","programs"],"all mnemonics, registers and immediate values; all operand kinds up to five operands",
  T+"each mnemonic/operand-shape pair has its own encoding path.",
  ["src/source/mod.rs"],[("inner_parse_line, parse_ins, DataOperand, write_data_operand","src/source/mod.rs")])
p("C15","Literals, strings and data directives produce exactly the written bytes",
  "Numeric literals in every radix and size suffix, character literals, string escapes and the byte, wide and string directives assemble to exactly the written value (two's complement for negative ones) whenever it fits its destination; a trailing b or w is the size suffix. Malformed literals, and literals whose suffix contradicts their place or their value, are rejected or treated as names, never silently mis-valued. No literal text makes the assembler crash.",
  ["inputs"],"all literal texts up to the length bound",
  T+"literal parsing has to be right for every text.",
  ["src/source/mod.rs"],[("parse_number, parse_bytechar, directives","src/source/mod.rs")])
p("C16","Labels resolve to the address where their code or data ends up",
  "In every accepted program each label's address equals its segment's start plus the number of bytes emitted before it in that segment; the used segments follow each other in the order data, read-only data, text, heap, each on the first page boundary after the end of the one before, the first at page one; and the recorded segment sizes equal the bytes actually emitted. References (in instructions and in data words) and the entry point designate exactly these addresses.",
  ["programs"],"programs up to the line bound over a statement alphabet covering every directive and operand shape",
  T+"layout depends on the whole sequence of statements.",
  ["src/source/mod.rs","src/source/symbols.rs","src/bin/tc.rs"],[("process, inner_process, ProcessState","src/source/mod.rs"),("Symbols","src/source/symbols.rs")])
p("C17","Erroneous sources are rejected and no source text crashes the assembler",
  "A program with an undefined or doubly defined label, a second entry point, an unknown instruction, directive or segment, or code outside any segment is rejected with an error, as is a program that does not fit the address space, a missing include or a label both defined and declared as reference; a program without such errors is accepted. Whatever bytes the source contains, the assembler finishes with success or an error and never crashes.",
  ["inputs","programs"],"all source texts up to the length bound; statement sequences up to the line bound",
  T+"crashes hide behind unusual text.",
  ["src/source/mod.rs","src/source/err.rs"],[("inner_process, parse_next_line","src/source/mod.rs")])
p("C18","Object files round-trip",
  "Writing any object and reading it back, at any file offset and behind any prefix without the magic, yields the same entry point, flags, stack and heap sizes, segments, symbols and relocations; an object that cannot be represented is refused with an error rather than written corrupted.",
  ["inputs"],"all objects within the size bounds, with each optional part present or absent",
  T+"each optional section and value combination must survive.",
  ["src/aalv/mod.rs","src/aalv/obj.rs","src/aalv/obj/sec_impl.rs"],[("AalvReader/AalvWriter","src/aalv/mod.rs"),("Section implementations","src/aalv/obj/sec_impl.rs")])
p("C19","Reading untrusted object files never crashes",
  "Whatever bytes a file contains, reading it as an object returns an object or an error; it never panics or loops. A file that is cut short or has a duplicate section, an unknown reserved section (name starting with an underscore) or a malformed one is reported as an error rather than silently misread, and a well-formed file gives exactly the values it contains.",
  ["inputs","fault_sequences"],"all file contents up to the byte bound, all truncations and single-section corruptions of well-formed files",
  T+"untrusted input space.",
  ["src/aalv/mod.rs","src/aalv/obj.rs","src/aalv/obj/sec_impl.rs"],[("read_magic, read_section_headers, from_aalv_reader","src/aalv/mod.rs")])
p("C20","Archives keep every member object intact and in order",
  "Reading an archive made from any sequence of object files yields exactly those objects in the same order and then ends; a file without the archive magic or with a member cut short is reported as an error. The archive tool makes such an archive from its input files in the order given.",
  ["inputs"],"member sequences and contents within the bounds",
  T+"no archive is ever built by the tests.",
  ["src/aalv/savn.rs","src/bin/tar.rs"],[("read_archive, Iter::next","src/aalv/savn.rs"),("tar_main","src/bin/tar.rs")])
p("C21","The linker concatenates segments and patches every reference",
  "In the linked output each segment is the concatenation of the inputs' segments of that type in input order, segments start at aligned, non-overlapping addresses after the first page, every symbol keeps designating the same byte it designated in its input, and every relocated word holds the address of the symbol it refers to; all other bytes are unchanged. The entry point designates the same instruction as in the input that defined it.",
  ["inputs","programs"],"all object sets within the bounds: segment contents, offsets, symbols, relocations",
  T+"relocation arithmetic must hold for every layout.",
  ["src/bin/tl.rs"],[("tl_main","src/bin/tl.rs")])
p("C22","Symbol resolution across objects is exact",
  "References to a global symbol resolve to its single definition regardless of input order, internal symbols of different objects never interfere even when equally named, two definitions of one global symbol are an error, and an executable is refused if a reference stays undefined or no entry point exists. When linking fails no success is reported.",
  ["inputs","programs"],"all assignments of names, visibility and definedness for the object sets within the bounds",
  T+"resolution depends on order and visibility combinations.",
  ["src/bin/tl.rs"],[("tl_main symbol loop, undefined_references","src/bin/tl.rs")])
p("C23","Linking against archives pulls in exactly the needed members",
  "Linking against archives whose members define different symbols includes a member exactly when a chain of undefined references leads to it (or it references what the inputs define), so every symbol an archive can supply to the program is supplied and unneeded members are left out.",
  ["inputs","programs"],"all definition/reference patterns of up to three members and the input object over three names",
  T+"transitive selection depends on the whole reference graph.",
  ["src/bin/tl.rs"],[("read_archives, DefinedMap","src/bin/tl.rs")])
p("C24","Stripping never changes what a program does",
  "Stripping an object leaves its entry point, flags, sizes, segments and file prefix unchanged; partial stripping also leaves relocations, global symbols and every symbol's location unchanged so it still links identically, and full stripping without an entry point is refused unless forced. A failed strip leaves the file as it was.",
  ["inputs"],"all objects within the bounds, all option combinations",
  T+"no tool is ever run by the tests.",
  ["src/bin/tstrip.rs"],[("inner_main","src/bin/tstrip.rs")])
p("C25","Disassembly shows exactly the instruction in memory",
  "Disassembling at any address reports the instruction's documented length, its exact bytes, correct block-end and nesting marks, and, for a well-formed encoding of an instruction the assembler knows, a mnemonic and operands which assemble back to the same bytes. The machine state and memory are unchanged afterwards.",
  ["inputs"],"all opcodes, operand bytes and addresses (outside the I/O page), with and without a label for the target",
  T+"each opcode has its own formatting path.",
  ["src/disassemble.rs"],[("disassemble_instruction","src/disassemble.rs")])
p("C26","The compiler tool writes the object the source describes",
  "For every accepted source the compiler tool writes an object whose segments, symbols, visibility, relocations and entry are exactly those of the source, each relocation designating the two bytes of the label reference in the segment; for a rejected source it reports failure and leaves no object file claiming success.",
  ["programs","inputs"],"programs up to the line bound over a statement alphabet covering every operand shape with a label",
  T+"relocation positions depend on operand shape and layout.",
  ["src/bin/tc.rs"],[("t_main","src/bin/tc.rs")])
p("C27","Separate, staged and one-shot builds behave identically",
  "A program assembled from one source, split over several objects and linked at once, or linked in stages (including with internal symbols erased) ends with the same machine-visible segments, addresses and entry.",
  ["programs","histories"],"all splits of the bounded program family and all linking orders/stagings covered",
  T+"requires relating several tool runs for every program.",
  ["src/bin/tl.rs","src/bin/tc.rs"],[("tl_main","src/bin/tl.rs"),("t_main","src/bin/tc.rs")])
p("C28","Page allocation never hands out a page in use",
  "Pages handed out by the emulated kernel's allocator are page aligned, never overlap a page already handed out and not yet freed, and a freed page is handed out again zero-filled; the free list survives any order of allocation and freeing.",
  ["histories"],"all allocation/free sequences up to the bound with arbitrary page contents",
  T+"the property is over histories.",
  ["src/blf4/std_kernel.rs"],[("allocate_page/free_page","src/blf4/std_kernel.rs")])
p("C29","Alignment and nibble packing are exact for every value",
  "Rounding an address down or up to a power-of-two alignment gives the nearest aligned address not above respectively not below it, for every address whose rounded value is representable, and leaves aligned addresses alone. Packing two nibbles into a byte and unpacking is the identity in both directions.",
  ["inputs"],"all addresses and all power-of-two alignments; all bytes",
  "The existing test samples fourteen addresses with one alignment.",
  ["src/lib.rs","src/u4.rs"],[("align_start/align_end","src/lib.rs"),("U4::pair/paired","src/u4.rs")])
p("C30","Running a program through the emulator tool reports its outcome faithfully",
  "The emulator tool runs an executable until it stops, delivers its output bytes unchanged and in order, feeds it the input bytes in order, exits successfully exactly when the program halted (or the termination point was requested), and refuses objects without an entry point with an error instead of running them.",
  ["programs","inputs"],"short programs with symbolic data and instruction bytes within the step bound",
  T+"no tool is ever run by the tests.",
  ["src/bin/t.rs","src/machine/mod.rs","src/mem.rs"],[("t_main","src/bin/t.rs"),("run_until_abort","src/machine/mod.rs"),("StdIo","src/mem.rs")])
p("C31","The object dump shows what the object contains",
  "The object dump tool lists the symbols of every well-formed object with their visibility, segment and location, disassembles the code reachable from its entry and global symbols with the exact bytes and, on request, the relocations in them, succeeds exactly when every file could be read, and never modifies a file.",
  ["inputs"],"objects within the bounds",
  T+"no tool is ever run by the tests.",
  ["src/bin/tobjdump.rs"],[("tobjdump main","src/bin/tobjdump.rs")])
p("C32","The interactive debugger steps the same machine the emulator runs",
  "Stepping a program in the debugger performs exactly the machine steps the emulator performs, and printing commands do not change the machine.",
  ["histories","inputs"],"all command sequences",
  T+"the debugger has no tests.",
  ["src/bin/tdbg.rs"],[("tdbg main","src/bin/tdbg.rs")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
