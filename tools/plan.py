"""What each property's check runs."""
DEFAULTS = {"budget": 240, "merge": 64, "samples": 4}
MAX_SAMPLES = 12
ASSUME = ["rustc's LLVM IR (opt-level 1, overflow and debug assertions on) has the meaning of the source",
          "the engine's IR semantics (cross-checked by native replay of sampled paths and by its self test) and z3",
          "operating system calls behave as modelled (files, standard streams, no interference)"]
PLAN = {}


def prop(id, runs, bounds="", outside="", assumptions=None):
    PLAN[id] = {"runs": runs, "bounds": bounds, "outside": outside}
    if assumptions:
        PLAN[id]["assumptions"] = ASSUME + assumptions


def R(h, *args, covers=(), tools=(), thorough=None, thorough_only=False, args_thorough=None, **opts):
    r = {"h": h, "args": list(args), "covers": list(covers), "tools": list(tools), "opts": opts}
    if thorough:
        r["thorough"] = thorough
    if thorough_only:
        r["thorough_only"] = True
    if args_thorough is not None:
        r["args_thorough"] = list(args_thorough)
    return r


MACH = "one step from every state: all register, flag, program counter and memory contents symbolic (2^16 addresses, no bound on values)"
prop("C01", [R("h_regfile", covers=["assert:byte-view", "assert:wide-view"])],
     "one write (either view, any register, any value) followed by a read of any register in either view, over every register file contents; any longer sequence follows by induction on the file's contents",
     "nothing")
prop("C02", [R("h_step", 2, covers=["done", "trap", "assert:flags"])], MACH + "; opcodes 41-50", "shift amounts at or above the width: only absence of a crash; virtual mode is C09")
prop("C03", [R("h_step", 3, covers=["done", "trap"])], MACH + "; opcodes 51-54", "virtual mode is C09")
prop("C04", [R("h_step", 4, covers=["done"])], MACH + "; opcodes 20, 25, 26, 2f-3a, 40", "virtual mode is C09")
prop("C05", [R("h_step", 5, covers=["done", "trap"])], MACH + "; opcodes 21-24, 27-2e, 3f, 40", "virtual mode is C09")
prop("C06", [R("h_step", 6, covers=["done", "trap"])], MACH + "; all 256 opcodes", "virtual mode is C09")
prop("C07", [R("h_total", 0, covers=["completes-or-handled", "reported"]), R("h_total", 1, covers=["completes-or-handled", "reported"])],
     "one step from every register, flag and program counter value, direct and virtual mode, handler installed or not; memory answers every read with an arbitrary byte (over-approximates all memory contents and I/O), including the 34 stack writes of a trap delivery",
     "nothing for a single step; longer runs follow by induction since every state is covered")
prop("C08", [R("h_userstep", covers=["ok", "trap"]), R("h_vstep", 1, 0, 256, covers=["done", "data-trap", "fetch-trap", "trap", "illegal"])],
     "one step in user mode, all 256 opcodes, every register value; page tables of one fixed placement with all 528 flag bytes symbolic (placement and aliasing of tables are arbitrary in C09), all mapped memory symbolic",
     "writes made by trap delivery itself (they run in supervisor mode); the invariant is per step, so any history follows by induction")
prop("C09", [R("h_vaccess", 0, covers=["read", "trapped"]), R("h_vaccess", 1, covers=["written", "trapped"]), R("h_vaccess", 2, covers=["read", "trapped"]),
             R("h_vstep", 0, 0, 256, thorough_only=True, budget=1500)],
     "one read, write or fetch at any address with any 24-bit-reachable table contents, any table pointer (also unaligned, aliasing tables), any mode", "accesses made of several bytes are sequences of these; the thorough tier also checks whole instructions")
prop("C10", [R("h_deliver", covers=["delivered", "returned"]), R("h_vdeliver", 0, covers=["fetch", "syscall", "invalid", "returned"]), R("h_vdeliver", 1, covers=["fetch", "syscall", "invalid", "returned"])],
     "direct mode: any registers, flags, stack and handler address, memory symbolic; causes: undefined opcode, halt, system call, stray reth, privileged instruction, zero division. Virtual mode: stack pointer at four positions, all flag bytes of the tables symbolic, causes: every fetch fault, system call, undefined opcode; handler clobbers every general register and flag, then reth",
     "handlers that move the stack pointer; traps raised while delivering a trap are only shown not to crash (C07)")
prop("C11", [R("h_physmem", 2, thorough={"budget": 3000}, args_thorough=[3], covers=["device-write", "device-read", "rom", "ram"])],
     "two writes (thorough: three) and a read at any 24-bit addresses with any values; ROM absent or with an image of 0, 1, all but one or all bytes (six bytes symbolic, the rest a filler)", "longer histories; initial contents other than zeros")
prop("C12", [R("h_load_one", k, thorough_only=k > 3) for k in range(6)] + [R("h_load_many"), R("h_load_top")],
     "one segment of any type at 15 placements around page and table boundaries with 8 sizes up to 257 bytes, contents symbolic, 4 stack sizes, 6 heap sizes, all flag settings; three or four segments sharing pages and tables; segments ending at the end of the address space. After loading every page of the address space is compared at a symbolic offset",
     "other placements and sizes; objects whose segments do not fit the address space")
prop("C13", [R("h_kernel", covers=["done", "halt", "handled", "read", "unhandled", "unknown", "write"]), R("h_kernel_vm", covers=["read", "write"])],
     "one instruction (18 opcodes covering every trap cause, all operand bytes, all register and memory contents) with no error handler or after a system call that set one to any address; system calls also from virtual memory", "the debug system call 0 prints only; other opcodes raise no trap kind not covered (C06)")
prop("C28", [R("h_pages", 6, args_thorough=[8], thorough={"budget": 1800}, covers=["reused"])],
     "every sequence of 6 (thorough: 8) allocations and frees, pages filled with arbitrary bytes in between, any memory contents", "longer histories; exhaustion of physical memory")
prop("C29", [R("h_align")], "all addresses, all 16 power-of-two alignments, all bytes", "addresses whose rounded value exceeds 16 bits")
prop("C14", [R("h_instr", 5, budget=300, covers=["encoded", "rejected", "assert:jump-to-r0-rejected"])],
     "one line with each of the 41 mnemonics and up to 3 operands of every kind (byte register, wide register, byte literal, wide literal, plain number, label) with symbolic register and value; 4 operands with one of any of three other kinds, 5 operands of one width; all emitted bytes compared with an independent encoding table",
     "the instructions the assembler does not know (usr, vmon, vmoff, pstore, pload); spelling variants of literals (C15)")
prop("C15", [R("h_lit_any", 3, args_thorough=[4], covers=["rejected", "value"]), R("h_lit_form", 4, args_thorough=[6], thorough={"budget": 1200}, covers=["rejected", "value"]), R("h_string", 4, args_thorough=[6], thorough={"budget": 2000}, covers=["bad-string", "string"])],
     "every literal text of up to 3 (thorough 4) printable characters in .byte, .wide, .word and both ldi forms; every radix prefix, sign, up to 4 (thorough 6) digit characters and suffix; every string of up to 4 (thorough 6) printable characters; compared with an independent reading of the literal syntax",
     "longer texts; non-ASCII characters; the truncation of plain numbers that do not fit (the statement leaves it open); trailing blanks of a .string line, which are not part of the string")
LAB = ["accepted", "entry", "resolved"]
prop("C16", [R("h_lines", 3, merge=0, args_thorough=[4], thorough={"budget": 3000}, covers=LAB + ["assert:label-address", "assert:reference"]),
             R("h_lines_after", 3, merge=0, args_thorough=[4], thorough={"budget": 2000}, covers=LAB + ["assert:label-visibility"]),
             R("h_layout", 2, merge=0, args_thorough=[3], thorough={"budget": 1500}, covers=["accepted", "resolved"]), R("h_big", merge=0, covers=["accepted", "too-big"]),
             R("h_names", 5, merge=0, args_thorough=[8], thorough={"budget": 1500}, covers=["first", "second", "reference", "accepted"])],
     "every sequence of 3 (thorough 4) lines of 14 kinds (segments, label, word, call and load references, entry, global, ref, string, instruction, byte) after any of five beginnings, and after a function with a call; one-letter names (both cases), string and byte contents symbolic, so all patterns of equal and different names; four names of up to 5 (thorough 8) characters each in a program of two labels, a reference and a declaration; segments of 0, 1, 127, 128, 129 bytes in every order of 2 (thorough 3); programs around the end of the address space",
     "longer programs and names; names beginning with a digit or the letter r in the program of four names; the tool that writes the object is C26")
prop("C17", [R("h_lines", 3, merge=0, args_thorough=[4], thorough={"budget": 3000}, covers=["accepted", "bad-line", "undefined", "contradicting"]),
             R("h_lines_after", 3, merge=0, covers=["accepted", "undefined", "contradicting"]), R("h_big", merge=0, covers=["accepted", "too-big"]),
             R("h_names", 5, merge=0, args_thorough=[8], thorough={"budget": 1500}, covers=["accepted", "rejected"]),
             R("h_include", 1, merge=0, args_thorough=[2], thorough={"budget": 1500}, covers=["accepted", "bad-line", "undefined"]),
             R("h_crash", 4, merge=0, args_thorough=[6], thorough={"budget": 3000}, covers=["accepted", "rejected"])],
     "the line sequences of C16 plus erroneous and blank lines among the first two; a program with an included file (present, missing, or the program itself); any 4 (thorough 6) bytes after each of 15 beginnings, also bytes that are no text",
     "longer texts; exhaustion of stack or memory by huge sources")
prop("C18", [R("h_roundtrip", k, merge=0, covers=["written"]) for k in (0, 1, 3, 4)] + [R("h_roundtrip", 2, merge=0, covers=["written", "refused"]), R("h_large", merge=0, covers=["largest", "refused"])],
     "objects with every combination of optional parts, up to 2 segments of every type pair with up to 2 bytes, up to 2 symbols with names of up to 2 ASCII characters (blank and NUL included), up to 3 relocations, mixtures of these; all numbers, bytes and characters symbolic; behind a prefix of 0, 1, 7 or 9 arbitrary bytes, over arbitrary old contents; sections of 65534 to 65537 bytes of each variable kind",
     "more and larger parts within the format's limits; names with non-ASCII characters")
prop("C19", [R("h_read_any", 0, 8, merge=0), R("h_read_any", 1, 3, merge=0, covers=["read", "error"]), R("h_read_any", 2, 4, merge=0, args_thorough=[2, 8], covers=["read", "error"])]
     + [R("h_read_section", k, 6, merge=0, args_thorough=[k, 14], covers=["read", "error"]) for k in range(7)]
     + [R("h_damaged", k, merge=0, covers=["read"] if k == 4 else ["error"]) for k in range(5)],
     "any 8 bytes; magic and any 3 bytes; magic, any section name with any of 12 lengths and any bytes up to 3 after it; every section kind with any contents of up to 6 (thorough 14) bytes against an independent reader; a complete object (7 section orders) cut at every place, with any section doubled, with an unknown section of any two-character name, with the wrong length in front, with other bytes before and after",
     "longer contents; several corruptions at once")
prop("C20", [R("h_archive", 2, merge=0, args_thorough=[3], covers=["end", "not-an-archive", "damaged-member"]), R("h_archive_tool", 2, merge=0, args_thorough=[3], tools=["tar"], covers=["end"])],
     "archives of up to 2 (thorough 3) members of three shapes with symbolic contents, built byte by byte or by the archive tool; any other byte in the magic; cut at every place", "larger members and more of them")
TL = ("tl", "tar")
prop("C21", [R("h_link_layout", 2, merge=0, args_thorough=[3], thorough={"budget": 3000}, tools=TL, covers=["entry", "linked", "undefined-kept", "assert:global-designates-same-byte", "assert:relocation-kept"]),
             R("h_link_names", 2, 1, merge=0, tools=TL, covers=["linked", "undefined-kept"]), R("h_link_names", 3, 16, merge=0, tools=TL, covers=["linked", "undefined-kept"]),
             R("h_link_big", merge=0, tools=TL, covers=["too-big", "full"])],
     "two (thorough three) objects: segments of every kind with 0 to a few bytes at symbolic places, symbolic contents, defining and referring symbols (global, internal, undefined) at every place, relocations in text and data, an entry point; compared byte by byte with the concatenation and with every reference recomputed; outputs that just fit and that exceed the address space",
     "larger segments; relocations outside their segment or of missing symbols, on which the tool stops with a panic and writes nothing")
prop("C22", [R("h_link_names", 2, k, merge=0, tools=TL, covers=[] if k == 2 else ["linked"]) for k in (0, 1, 2, 3, 4, 7, 11, 15)]
     + [R("h_link_names", 3, 16, merge=0, tools=TL, covers=["linked"]), R("h_link_names", 3, 0, merge=0, budget=3000, tools=TL, thorough_only=True),
        R("h_link_fail", merge=0, tools=TL)]
     + [R("h_link_words", 4, e, merge=0, args_thorough=[6, e], tools=TL, covers=["linked", "duplicate"] + (["undefined"] if e else ["undefined-kept"])) for e in (0, 1)],
     "two objects (three with fewer kinds; thorough: three with all) in every order: every assignment of undefined, global and internal to symbols with equal and different names and their references, entry in either object, on the command line or absent, with -e, -S, -E; unreadable and missing inputs, unwritable outputs; three objects with a reference, an internal symbol and two definitions of any names of up to 4 (thorough 6) printable characters",
     "more objects and names")
prop("C23", [R("h_link_archives", 2, 2, 0, merge=0, tools=TL, covers=["all", "none", "some"]), R("h_link_archives", 2, 1, 1, merge=0, tools=TL),
             R("h_link_words_archive", 3, 0, merge=0, args_thorough=[5, 0], tools=TL, covers=["both", "one", "none"]), R("h_link_words_archive", 3, 1, merge=0, args_thorough=[5, 1], tools=TL, covers=["both", "one", "undefined"]),
             R("h_link_archives", 3, 3, 0, merge=0, budget=400, tools=TL, covers=["all", "none", "some"]),
             R("h_link_archives", 3, 1, 0, merge=0, budget=1500, tools=TL, thorough_only=True), R("h_link_archives", 3, 1, 1, merge=0, budget=1500, tools=TL, thorough_only=True)],
     "an object and archives made by the archive tool with two or three members: every pattern of which member references which of the others, the object referencing any of them, archives before or after the object, executable or not; compared with the reachable set; also with any names of up to 3 (thorough 5) printable characters",
     "members that define the same symbol; more members")
prop("C24", [R("h_strip", k, merge=0, tools=["tstrip"]) for k in range(5)] + [R("h_strip_several", merge=0, tools=["tstrip"]), R("h_strip_relink", merge=0, tools=["tstrip", "tl"])],
     "the objects of C18 (every optional part, symbolic numbers, bytes and names) with every option combination; several files with failing ones among them; linking before and after a partial strip",
     "larger objects; failures of the operating system while writing")
prop("C25", [R("h_disasm", 0, 256, 0, merge=0, budget=500, covers=["reassembled"]), R("h_disasm", 37, 65, 1, merge=0, covers=["reassembled", "assert:label-shown"]),
             R("h_disasm_any", 0, 1, merge=0, covers=["shown"]), R("h_disasm_any", 1, 0, merge=0, covers=["shown", "fault"])],
     "every opcode with every operand byte at any address of memory holding it, with and without a label for the target; the text shown is assembled again with the real assembler and compared with the bytes; every opcode around page boundaries and the end of the address space in direct and virtual mode",
     "instructions the assembler does not know and encodings with unused bits set are only compared in length, bytes and marks; code in the I/O page")
prop("C26", [R("h_compile", 2, merge=0, args_thorough=[3], thorough={"budget": 1500}, tools=["tc"]), R("h_compile_after", 1, merge=0, args_thorough=[2], thorough={"budget": 2500}, tools=["tc"]),
             R("h_compile_many", 2, merge=0, args_thorough=[3], thorough={"budget": 1500}, tools=["tc"]), R("h_compile_forms", merge=0, tools=["tc"])],
     "every sequence of two (thorough three) of the lines of C16 after any of its beginnings and after a function with a call; one, two or several source files with and without -o; every instruction and directive form that holds a label reference; all against an independent assembler in the harness",
     "longer programs")
prop("C27", [R("h_staged", merge=0, budget=400, tools=["tc", "tl"])],
     "a program of two or three parts with symbolic data, references between any of them, global or internal labels, an entry in any part: assembled as one source, split over objects, linked at once and in stages with and without -S",
     "larger programs and more stages")
prop("C30", [R("h_run", 3, 0, merge=0, args_thorough=[4, 0], thorough={"budget": 1500}, tools=["t"], covers=["halted", "trapped", "shown", "starved"]),
             R("h_run", 3, 1, merge=0, args_thorough=[4, 1], thorough={"budget": 1500}, tools=["t"], covers=["halted", "trapped", "shown", "starved"]), R("h_refuse", merge=0, tools=["t"])],
     "programs of up to 3 (thorough 4) steps that write any byte or copy input to output, up to two input bytes, ending in halt, two undefined instructions, zero division, an unknown system call or a page fault; as an executable (with and without a prefix, symbols, and at several places) and as a raw binary; with and without -t; truncated and missing files and objects without entry",
     "longer programs (the machine's steps are C02-C13); -f, graphics and timing; what is still buffered when the tool panics")
prop("C31", [R("h_dump_symbols", 2, merge=0, args_thorough=[3], thorough={"budget": 2000}, tools=["tobjdump", "tar"], covers=["listed"]), R("h_dump_code", merge=0, tools=["tobjdump"], covers=["disassembled"]),
             R("h_dump_several", merge=0, tools=["tobjdump"])],
     "up to 2 (thorough 3) symbols of every kind, segment and location, in a file or an archive; a disassembly with relocations of six instructions and four block ends at five places up to the end of the address space; several files with unreadable ones among them",
     "-D (an unknown name panics); larger listings")
NA = {"C32": "the debugger reads commands from an interactive terminal loop and prints free text; its stepping is Machine::execute_once, decided under C02-C13"}
