"""The properties, once: tools/gen.py turns them into properties.jsonl and MANIFEST.json."""
STEP_T = "TLA+ specification of the CPU; TLC trace validation of recorded executions"
TAB_T = "TLA+ specification; TLC validates exhaustive operand tables and recorded executions"
CTL_T = "TLA+ control model explored exhaustively by TLC, every transition replayed into the code; TLC trace validation"
PROPS = []
def P(id, title, statement, quant, why, files, mech, observe, technique, note, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, observe=observe,
                      technique=technique, note=note, state=state))

CPU_ST = [("registers", "main, alternate, index, SP, PC, MEMPTR, I, R", "src/z80.rs struct Z80"),
          ("interrupt state", "IFF1/IFF2, interrupt mode, halted, after-EI latch, pending prefix", "src/z80.rs struct Z80")]
EXE = "Cpu::execute_next / execute_instruction results, CPU accessors, calls received by the host Memory, Io and Clock"

P("C01", "8-bit arithmetic, logic, rotates and bit operations compute the documented value",
  "For every operand and every prior flag state, each 8-bit ADD/ADC/SUB/SBC/AND/XOR/OR/CP/INC/DEC/NEG/CPL/DAA, rotate, shift, RLD/RRD and BIT/RES/SET leaves exactly the result and the eight flag bits (including the undocumented bits 3 and 5) that a Z80 produces. "
  "The result is the same in every addressing form (register, index half, immediate, (HL), (IX+d), (IY+d)) and lands only in the instruction's destination.",
  (["inputs"], "all accumulator, operand, carry and flag values; all addressing forms; all three flavours"),
  "The unit tests check selected operands of each helper; they do not reach most operand/flag combinations, nor each addressing form.",
  ["src/z80/ops.rs", "src/z80/internal.rs", "src/z80/instructions.rs", "src/cpu/flags.rs"],
  [("arithmetic helpers", "src/z80/ops.rs"), ("operand dispatch", "src/z80/internal.rs op8, r_op_w_mem8, instr_inc_dec8, bitops, bitops_qq")],
  [EXE], TAB_T,
  "Every ALU, INC/DEC, rotate, BIT, DAA, CPL, NEG, SCF/CCF, RLD/RRD operand and flag combination is enumerated in one addressing form and judged by TLC; every other form is compared with it on all operands; whole transitions in all forms are trace-validated on sampled states.")
P("C02", "16-bit arithmetic computes the documented value and flags",
  "For every pair of operands and every carry, ADD HL/IX/IY,rr, ADC HL,rr, SBC HL,rr, INC rr and DEC rr leave exactly the 16-bit result and flags of a Z80, and change nothing else.",
  (["inputs"], "all 16-bit operand pairs, carries and register choices"),
  "Unit tests sample some operand pairs of the helpers; 2^33 combinations and every register pairing are out of their reach.",
  ["src/z80/ops.rs", "src/z80/internal.rs", "src/z80/instructions.rs"],
  [("16-bit helpers", "src/z80/ops.rs add16, adc16, sbc16"), ("dispatch", "src/z80/internal.rs op16_reg16")],
  [EXE], TAB_T, "Operand pairs are sampled with a bias to carry, sign and half-carry edges (not exhaustive); all register pairings are covered.")
P("C03", "Block instructions advance pointers, counters, flags and repetition correctly",
  "LDI/LDD/LDIR/LDDR, CPI/CPD/CPIR/CPDR, INI/IND/INIR/INDR and OUTI/OUTD/OTIR/OTDR move or compare exactly one byte per execution, step HL/DE/BC or B in the right direction with wrap-around, set every flag as a Z80 does, and re-execute themselves exactly while their continuation condition holds. "
  "Each repetition is a separately interruptible execution.",
  (["inputs", "histories"], "all operand bytes, counters, pointer positions and repetition lengths"),
  "Tests run a handful of block operations with fixed counters; flag formulas, wrap-around, pointer aliasing and the last iteration are not swept.",
  ["src/z80/internal.rs", "src/z80/ops.rs", "src/z80/instructions.rs"],
  [("block engine", "src/z80/internal.rs block_transfer, block_search, block_in, block_out"), ("flags", "src/z80/ops.rs ldx, cpx, iox")],
  [EXE], TAB_T, "Flag tables are enumerated over all bytes; pointer and counter edges and aliasing are sampled.")
P("C04", "Loads, exchanges, stack and port transfers move exactly the right data",
  "Every LD, PUSH, POP, EX, EXX, IN and OUT moves the value between the operands its encoding names, low byte at the lower address, with addresses wrapping at 64K, and changes no other register, flag or memory cell; IN r,(C) sets the documented flags and keeps carry.",
  (["inputs"], "all encodings, register contents, addresses (including the wrap at 0xFFFF) and port values"),
  "Tests exercise most mnemonics once with ordinary operands; they check neither the untouched state nor address wrap-around.",
  ["src/z80/instructions.rs", "src/z80/internal.rs", "src/z80/macros.rs"],
  [("load, stack and exchange helpers", "src/z80/internal.rs pop16, push16, ex_sp_nn, write_mem16_addr16, read_mem16_addr16"), ("port transfers", "src/z80/internal.rs io_a_inp_an, io_a_out_an, io_r_inp_bc, io_r_out_bc")],
  [EXE], STEP_T, "All encodings in all flavours; register and address values sampled with an edge bias.")
P("C05", "Jumps, calls, returns and restarts go to the right place when they should",
  "For every flag state, each JP/JR/DJNZ/CALL/RET/RETI/RETN/RST transfers control exactly when its condition holds, to exactly the specified target (modulo 64K), pushes or pops exactly the right return address, and otherwise continues with the next instruction.",
  (["inputs"], "all conditions, flag states, displacements, targets, stack positions"),
  "Tests take a few jumps each way; they do not cover each condition against each flag state, negative displacements and wraps of PC and SP.",
  ["src/z80/instructions.rs", "src/z80/macros.rs", "src/cpu/parse.rs"],
  [("conditions", "src/cpu/parse.rs Condition::is_satisfied"), ("relative target", "src/z80/macros.rs relative_jump_address")],
  [EXE], STEP_T, "All encodings in all flavours; flags, displacements and addresses sampled with an edge bias.")
P("C06", "Prefixes and undocumented opcodes are decoded as on real hardware",
  "A DD or FD prefix affects exactly the next instruction and only its HL, H, L and (HL) operands; a later DD/FD replaces it and an ED cancels it; DDCB/FDCB results are also copied into the named register. "
  "Every undocumented encoding (index halves, SLL, duplicate ED codes, ED no-operations, OUT (C),0, IN F,(C)) acts as its documented equivalent, for every byte sequence.",
  (["inputs", "programs"], "all byte sequences as programs"),
  "The mnemonic and cycle tests decode each listed encoding once; they do not run arbitrary prefix chains or check that unaffected operands stay unprefixed.",
  ["src/z80/instructions.rs", "src/z80/opcodes.rs", "src/z80.rs", "src/z80/internal.rs"],
  [("main decoder", "src/z80/instructions.rs run_mnemonic"), ("prefix state", "src/z80.rs execute_instruction, execute_next"), ("DDCB page", "src/z80/internal.rs bitops_qq")],
  [EXE], STEP_T, "Every opcode of every page with each prefix, and streams of random program bytes.")
P("C07", "Each instruction takes exactly the documented sequence of clock cycles",
  "For every instruction, condition outcome, repetition and interrupt acceptance, the host clock receives exactly the machine cycles a Z80 performs: the same kinds (opcode fetch, memory, I/O, interrupt acknowledge, internal), in the same order, each with the bus address and length of the hardware, whatever the clock does with them.",
  (["inputs", "programs"], "all instructions, operands, conditions, flavours, contention patterns"),
  "The cycle tests compare total counts for one execution of each mnemonic; order, bus address and contention of individual cycles are not observable in a total.",
  ["src/z80/instructions.rs", "src/z80/internal.rs", "src/z80/macros.rs", "src/z80.rs"],
  [("cycle emission", "src/z80/internal.rs and src/z80/macros.rs: tsc.add_*")],
  ["calls received by the host Clock", "final timestamp"], STEP_T, "The clock of the harness stretches cycles by address and kind, so a wrong address shows also in the total.")
P("C08", "The host sees every access, in order, with the right address, data and time",
  "Every memory read, opcode fetch, write, port access, interrupt acknowledge and RETI notification of an instruction reaches the host exactly once, in the order of the hardware bus cycles, with the right address, data, refresh address and the clock's timestamp of that cycle; no access is invented, repeated or dropped.",
  (["inputs", "programs"], "all instructions, operands and contention patterns"),
  "Tests look at memory after the fact and at total cycle counts; nothing checks order, duplicates or per-access timestamps.",
  ["src/z80/instructions.rs", "src/z80/internal.rs", "src/z80/macros.rs", "src/host.rs"],
  [("accesses", "src/z80/internal.rs fetch_next_opcode, fetch_next_imm8, fetch_next_imm16, push2, pop16, block_*")],
  ["calls received by the host Memory and Io, in order"], STEP_T, "Recorded with a stretching clock, so timestamps are not implied by the number of cycles.")
P("C09", "The memory refresh register counts exactly as on hardware",
  "The refresh register R grows by one per opcode fetch (two for CB/ED-prefixed and DD/FD-prefixed, two for DDCB/FDCB, one per interrupt acknowledge and per halted cycle), wraps within its low seven bits and keeps bit 7, over every history of execution, and the refresh address I:R presented with each fetch is the one of that moment.",
  (["inputs", "histories"], "all instruction streams, interrupts, halts, prefixes and both execution interfaces"),
  "No test checks R beyond single instructions; the counter is kept in two parts and cached during limited runs.",
  ["src/z80.rs", "src/z80/internal.rs", "src/z80/instructions.rs", "src/z80/macros.rs"],
  [("refresh counter", "src/z80.rs inc_r, add_r, get_r, execute_with_limit_loop"), ("fetch", "src/z80/internal.rs fetch_next_opcode")],
  ["Cpu::get_r, the refresh address given to Memory::read_opcode"], STEP_T, "All opcodes, interrupt acceptance, random streams and limited runs.",
  [("r", "refresh counter and its preserved top bit", "src/z80.rs struct Z80")])
P("C10", "MEMPTR follows the documented rules for every instruction",
  "After every instruction and interrupt the hidden MEMPTR register has exactly the documented value for the CPU's flavour, so that BIT n,(HL) shows the right undocumented flags after any history.",
  (["inputs", "histories"], "all instructions, operands, flavours and instruction streams"),
  "Tests check MEMPTR for a few instructions; most update rules and their wrap-around are not covered.",
  ["src/z80/instructions.rs", "src/z80/internal.rs", "src/z80/flavours.rs"],
  [("MEMPTR updates", "src/z80/internal.rs, src/z80/instructions.rs"), ("flavour rule", "src/z80/flavours.rs memptr_mix")],
  ["get_memptr, flags of BIT n,(HL)"], STEP_T, "All opcodes and interrupt entries, operands sampled with an edge bias, and random streams.")
P("C11", "Flavours differ exactly in Q, SCF/CCF, OUT (C),0, MEMPTR mix and LD A,I/R",
  "On NMOS and BM1, SCF and CCF take bits 3 and 5 from A when the previous instruction changed flags and from A OR F otherwise; on CMOS always from A. OUT (C),0 writes 0 on NMOS and BM1 and 0xFF on CMOS, BM1 clears the high MEMPTR byte where the others mix in A, and only NMOS loses P/V in LD A,I/R under a pending interrupt; in every other respect, over every history, the three flavours behave identically.",
  (["inputs", "histories", "configurations"], "all flavours, all predecessor instructions and interrupts, all A and F"),
  "The flavour test runs a fixed sequence; whether each possible predecessor marks or clears Q is not covered.",
  ["src/z80/flavours.rs", "src/z80.rs", "src/z80/instructions.rs", "src/z80/ops.rs"],
  [("Q latch", "src/z80/flavours.rs begin_instruction, flags_modified, get_q"), ("users", "src/z80/ops.rs scf, ccf; src/z80/internal.rs io_r_out_bc, instr_ld_a_from_ir")],
  ["flags after SCF/CCF, port writes, MEMPTR"], STEP_T, "The Q state after every opcode and interrupt in every flavour, plus streams of instructions.",
  [("q", "whether the last instruction changed flags", "src/z80/flavours.rs NMOS, BM1")])
P("C12", "A maskable interrupt is accepted exactly when allowed and served by its mode",
  "An interrupt request is accepted exactly when IFF1 is set and neither a prefix nor a just executed EI is pending; acceptance clears both flip-flops, ends HALT, acknowledges once, and then executes the vector byte as an instruction (mode 0), calls 0x38 (mode 1) or calls the address in the table at I:vector (mode 2), pushing the address of the instruction that would have run next. "
  "A request that is not allowed changes nothing.",
  (["inputs", "schedules", "histories"], "every control state, mode, vector byte and request timing"),
  "Tests accept a few interrupts in common states; combinations with HALT, prefixes, EI, mode 0 vectors and odd states are not covered.",
  ["src/z80.rs", "src/z80/internal.rs"],
  [("acceptance", "src/z80.rs is_int_allowed, irq, execute_next"), ("service", "src/z80/internal.rs irq_no_check")],
  [EXE], CTL_T, "The control model is exhaustive over its abstract state; data values are sampled.", CPU_ST)
P("C13", "A non-maskable interrupt is accepted exactly when allowed and served at 0x66",
  "An NMI is accepted exactly when neither a prefix nor a just executed EI is pending, whatever the flip-flops; acceptance clears IFF1, keeps IFF2, ends HALT, pushes the address of the next instruction and continues at 0x66 with the cycles of the hardware. "
  "A refused NMI changes nothing.",
  (["inputs", "schedules", "histories"], "every control state and request timing"),
  "Tests issue NMI in a couple of states only.",
  ["src/z80.rs", "src/z80/internal.rs"], [("acceptance", "src/z80.rs nmi"), ("service", "src/z80/internal.rs nmi_no_check")],
  [EXE], CTL_T, "The control model is exhaustive over its abstract state; data values are sampled.", CPU_ST)
P("C14", "EI's shadow and a pending prefix defer interrupts for exactly one instruction",
  "No interrupt, maskable or not, is taken between EI and the end of the instruction after it, nor between a DD/FD prefix and the instruction it belongs to; after that instruction interrupts are possible again. "
  "This holds for every chain of EIs and prefixes and for every way of executing (single stepping, single instructions, runs with a limit).",
  (["programs", "schedules", "histories"], "all instruction streams and request timings"),
  "Tests cover EI followed by one instruction; chains, prefixes, interrupts raised inside a limited run and EI as an interrupt vector are not.",
  ["src/z80.rs", "src/z80/instructions.rs"], [("latches", "src/z80.rs is_int_allowed, execute_with_limit_loop"), ("EI, prefixes", "src/z80/instructions.rs")],
  [EXE, "is_after_ei, is_after_prefix, is_irq_allowed, is_nmi_allowed"], CTL_T, "Exhaustive control model plus random interrupt-heavy streams and limited runs.", CPU_ST)
P("C15", "HALT keeps PC, burns refresh cycles, and ends only by interrupt or reset",
  "From HALT on, the program counter stays, every step is one opcode-fetch cycle with refresh and no host memory access, and nothing but an accepted interrupt or a reset resumes execution, at the instruction after HALT; an allowed interrupt always wakes the CPU, however it was halted. "
  "The caller is told once, when the HALT is executed.",
  (["inputs", "schedules", "histories"], "all halted states, interrupt timings and limits"),
  "Tests halt in a few states; waking from every combination with EI, prefixes and the API calls, and the batch interface's fast path for HALT, are not covered.",
  ["src/z80.rs", "src/z80/internal.rs", "src/z80/instructions.rs"],
  [("halted step", "src/z80.rs execute_next, execute_with_limit"), ("wake", "src/z80/internal.rs irq_no_check, nmi_no_check")],
  [EXE, "is_halt"], CTL_T, "Exhaustive control model plus recorded halted runs under every interrupt timing.", CPU_ST)
P("C16", "Running to a limit equals single stepping",
  "A run with a clock limit leaves the CPU, the clock, the memory and every host access exactly as single stepping until the clock first reaches the limit at a step boundary or a step breaks, for every program, interrupt schedule and limit. "
  "If the limit has already been reached nothing happens.",
  (["programs", "schedules", "inputs"], "all programs, interrupt lines over time, contention, limits at, before and after every step boundary"),
  "One test compares the two interfaces on one program; interrupts, EI, prefixes, HALT and contention inside a run are not compared.",
  ["src/z80.rs"], [("batch loop", "src/z80.rs execute_with_limit, execute_with_limit_loop"), ("single step", "src/z80.rs execute_next")],
  [EXE, "Cpu::execute_with_limit"], STEP_T, "Runs of up to some tens of instructions with limits around every boundary; the specification of a run is the iteration of the specification of a step.")
P("C17", "Requested breaks are reported once, after their instruction, and runs resume",
  "When the host asks for a break on a port write or on RETI, that execution ends with exactly that cause right after the whole instruction took effect, exactly once per request; no request is lost and no break is invented. "
  "Calling again continues as if there had been no break.",
  (["programs", "histories", "schedules"], "all programs with break requests at any occurrence, in single steps, interrupt vectors and limited runs"),
  "Tests trigger single breaks; breaks inside limited runs, repeated OTIR, mode-0 vectors and resumption are not covered.",
  ["src/z80.rs", "src/z80/instructions.rs", "src/z80/internal.rs", "src/host.rs"],
  [("break propagation", "src/z80.rs execute_with_limit, execute_instruction; src/z80/instructions.rs main_loop breaks")],
  [EXE], STEP_T, "Break patterns of up to 30 requests per run.")
P("C18", "Wait states requested by the host are inserted exactly once, at their access",
  "Wait states returned by the host for a port read, a port write or an interrupt acknowledge are passed to the clock exactly once, unchanged, with the bus address of that access and right after it, before any later cycle; no wait states are inserted when none are requested.",
  (["inputs", "programs"], "all port instructions and acknowledges, all wait counts"),
  "Tests request no or constant wait states in a few places.",
  ["src/z80/internal.rs", "src/host.rs"], [("insertion", "src/z80/internal.rs irq_no_check, io_*, block_in, block_out")],
  ["calls received by the host Clock"], STEP_T, "Counts of 0, small, 255, 300 and 1000.")
P("C19", "IFF1, IFF2 and the interrupt mode change only by the documented events",
  "EI sets and DI clears both flip-flops, RETN and RETI copy IFF2 to IFF1, interrupt acceptance clears, NMI clears IFF1 only, IM 0/1/2 set the mode (including undocumented encodings), and nothing else changes them over any history. "
  "LD A,I and LD A,R show IFF2 in P/V.",
  (["programs", "histories"], "all instruction streams and interrupt sequences"),
  "Tests look at single events; arbitrary histories are not covered.",
  ["src/z80.rs", "src/z80/instructions.rs", "src/z80/internal.rs"],
  [("flip-flops", "src/z80.rs enable_interrupts, disable_interrupts, restore_iff1"), ("LD A,I/R", "src/z80/internal.rs instr_ld_a_from_ir")],
  ["get_iffs, get_im, flags"], CTL_T, "Exhaustive control model, exhaustive LD A,I/R table, and random streams.", CPU_ST)
DIS_T = "TLA+ specification of the instruction text; TLC validates recorded listings and debugger reports"
P("C20", "Disassembly and the debugger show exactly the instruction that is executed",
  "For any memory content, a listing names each instruction with the address, the prefix, the bytes and the operands the CPU would use when executing it, covers the bytes without gap or overlap, includes every instruction that fits entirely and no other, and stops when asked to. "
  "An attached debugger reports the executed instruction in the same way, in decimal and in every hexadecimal text format.",
  (["inputs", "programs"], "all opcodes with all operands, prefix chains, truncated tails, address wrap-around"),
  "Tests list a few fixed programs; most opcode/operand/format combinations and truncations are never looked at.",
  ["src/disasm.rs", "src/cpu/debug.rs", "src/z80/debug.rs", "src/z80/instructions.rs", "src/z80/macros.rs"],
  [("disassembler", "src/disasm.rs; src/z80/instructions.rs disasm_next"), ("text", "src/cpu/debug.rs"), ("report", "src/z80/debug.rs, src/z80/macros.rs")],
  ["disasm_memory, disasm_memory_once, disasm_memory_write_text", "CpuDebug passed to the debugger callback"], DIS_T,
  "Every opcode of every page with random operands; random chunks of up to 60 bytes.")
P("C21", "Z80Any behaves as the flavour it holds, and conversions keep the CPU state",
  "A run-time selected CPU (Z80Any) behaves exactly as the statically typed CPU of the flavour it holds, in stepping, limited runs, interrupts and every accessor. "
  "Converting between flavours, or between the static and the run-time type, keeps every register and the whole interrupt state, and the flavour's memory of flag changes as far as the target flavour has one.",
  (["inputs", "programs", "histories"], "all opcodes, all control states, all pairs of flavours and conversion routes"),
  "Tests convert a few CPUs and run no program through the run-time type.",
  ["src/z80/any.rs", "src/z80/flavours.rs", "src/z80.rs"],
  [("dispatch", "src/z80/any.rs impl Cpu for Z80Any"), ("conversions", "src/z80/any.rs, src/z80.rs into_flavour, from_flavour; src/z80/flavours.rs From")],
  [EXE, "Z80Any conversions, tag, with_tag"], STEP_T, "Sampled states over every opcode; conversions along random histories.", CPU_ST)
P("C22", "Saving and restoring a CPU loses nothing and accepts every documented format",
  "Serializing a CPU in any reachable state and restoring it, in a textual or binary format, as any flavour or as the run-time type, gives a CPU with the same registers and interrupt state that behaves the same from then on. "
  "The documented variations of the input (missing optional fields, other spellings of names and register values) are accepted with the documented meaning, and malformed input is rejected with an error.",
  (["inputs", "histories"], "all CPU states; all flavours; all formats and spellings"),
  "Tests restore a few fixed states.",
  ["src/z80/serde.rs", "src/cpu/registers.rs", "src/z80/flavours.rs", "src/z80/any.rs"],
  [("cpu", "src/z80/serde.rs"), ("registers", "src/cpu/registers.rs")],
  ["Serialize, Deserialize of Z80 and Z80Any"], "TLA+ specification of the saved form; TLC validates recorded saves and restores", "Sampled CPU states.", CPU_ST)
P("C23", "Accessors read and write exactly the register they name, over any history",
  "Every setter, getter, exchange, reset, and control method of a CPU affects exactly the documented part of its state and leaves everything else alone: writing a register or a pair and reading it, or any register overlapping it, gives the value written; R counts in its low 7 bits and keeps bit 7; reset gives the documented state. "
  "This holds for any sequence of calls, in any state.",
  (["inputs", "histories"], "all sequences of accessor calls with all values, on every flavour and the run-time type"),
  "Tests set and read a few registers; overlaps, index halves, alternates and the lazily evaluated R are not swept.",
  ["src/z80.rs", "src/cpu.rs", "src/cpu/registers.rs", "src/z80/any.rs"],
  [("accessors", "src/z80.rs impl Cpu for Z80"), ("pairs", "src/cpu/registers.rs")],
  ["all Cpu accessors"], "TLA+ specification of the register file; TLC validates recorded call sequences", "Random call sequences from random states.", CPU_ST)
P("C24", "Clocks, default hosts and forwarding wrappers do exactly what they document",
  "The ready-made clock counts the documented number of cycles for every kind of machine cycle, with the documented time stamps, wrapping at the width of its counter, and reports a limit as passed exactly when it is reached. "
  "A host that implements nothing behaves as documented (floating bus, no interrupts, no waits), and a host built with the forwarding macros behaves exactly as the one it wraps.",
  (["inputs", "histories"], "all cycle sequences, counter values and widths; all host calls"),
  "Tests use the clock only through whole programs and do not use the defaults or the forwarders.",
  ["src/host.rs", "src/macros.rs"],
  [("clock", "src/host.rs TsCounter"), ("defaults", "src/host.rs Io, Memory"), ("forwarding", "src/macros.rs forward_host_*")],
  ["Clock, Io and Memory methods"], STEP_T, "Random cycle sequences; forwarding hosts replaced under the step checks.")
P("C25", "Register, condition, prefix and flag names and codes map to each other exactly",
  "Every conversion between instruction codes, names and the enumerations of registers, register pairs, conditions, prefixes, interrupt modes and break causes is exact: codes decode to the documented operand and back, other codes are rejected, and text parses and prints consistently. "
  "The flag and register-pair helpers compute what they document.",
  (["inputs"], "all 256 codes and all values of every table; all 8 and 16-bit operands of the helpers"),
  "Tests look at a few entries of some tables.",
  ["src/cpu/parse.rs", "src/cpu/flags.rs", "src/cpu/registers.rs", "src/cpu/debug.rs", "src/z80/opcodes.rs"],
  [("codes", "src/cpu/parse.rs"), ("flags", "src/cpu/flags.rs"), ("pairs", "src/cpu/registers.rs")],
  ["TryFrom, FromStr, Display and the helper functions"], "TLA+ definition of every table; TLC compares the complete recorded tables", "All tables are complete.")
P("C26", "Attaching a debugger changes nothing",
  "Execution with a debugger attached has exactly the same effect on the CPU, the clock, the memory and the host as without, for every instruction, interrupt and run. "
  "The debugger is called exactly once per executed instruction, never for a halted cycle or an idle step, with the address and bytes of that instruction.",
  (["programs", "inputs", "schedules"], "all opcodes, prefix states, interrupts and instruction streams"),
  "Tests attach a debugger to a few programs and look only at the text.",
  ["src/z80.rs", "src/z80/macros.rs", "src/z80/debug.rs", "src/z80/instructions.rs"],
  [("debugged loop", "src/z80.rs execute_next, execute_instruction, irq; src/z80/macros.rs")],
  [EXE, "debugger callback"], STEP_T, "The same specification judges executions with and without a debugger.", CPU_ST)

P("C27", "A user-defined flavour is consulted exactly as the Flavour trait documents",
  "A CPU with a flavour implemented by the user calls begin_instruction exactly once for every executed instruction and accepted interrupt (maskable or not) and flags_modified by every instruction that changes flags; "
  "SCF and CCF take bits 3 and 5 from get_q of the accumulator and the flags, memptr_mix and CONSTANT_OUT_DATA and ACCEPTING_INT_RESETS_IFF2_EARLY decide exactly the cases they document, and reset resets the flavour; everything else is as in the flavours provided.",
  (["programs", "inputs", "histories"], "all opcodes, interrupts, resets and instruction streams; single steps and limited runs"),
  "Tests use only the flavours provided.",
  ["src/z80/flavours.rs", "src/z80/internal.rs", "src/z80/opcodes.rs", "src/z80/instructions.rs", "src/z80.rs"],
  [("trait", "src/z80/flavours.rs Flavour"), ("calls", "src/z80/opcodes.rs execute_instruction; src/z80/internal.rs nmi_no_check, instr_*; src/z80/instructions.rs SCF, CCF; src/z80/macros.rs flags_op")],
  [EXE, "the flavour's own state"], STEP_T, "One user-defined flavour, which differs from the provided ones in every hook and counts the calls modulo 64.", CPU_ST)
P("C28", "Every step returns, after bounded work, in exactly its documented time",
  "From every state and for every answer of the host, every way of executing or interrupting returns without a panic or arithmetic overflow, makes at most five host accesses, and takes in total exactly the number of T-states documented for it (at least four, at most 23 for an instruction, plus what the host adds). "
  "A refused interrupt takes none. Hence every limited run ends, having reached its limit or at a break.",
  (["inputs", "programs", "schedules"], "all opcodes, prefixes, interrupts and host answers, from all states, in particular at the ends of the address space"),
  "Tests visit few states near the wrap-around of addresses and counters and compare few execution times.",
  ["src/z80.rs", "src/z80/internal.rs", "src/z80/instructions.rs", "src/z80/ops.rs", "src/z80/macros.rs", "src/z80/any.rs"],
  [("steps", "src/z80.rs impl Cpu for Z80"), ("limited run", "src/z80.rs execute_with_limit")],
  [EXE], "TLA+ specification whose bounds TLC checks over all opcodes; TLC trace validation of recorded executions",
  "The bounds and the total times are checked on the specification against an independent table, for every opcode; the code is bound by sampled states with a bias to wrap-around, built with overflow checks.", CPU_ST)

RAL_F = "examples/ral1243/src/"
RAL_T = "TLA+ specification of the example computer; TLC trace validation of recorded histories of bus calls"
P("C29", "The example computer's memory shows the right bank after any history",
  "After any history of opcode fetches, writes, cartridge selections, insertions and ejections, every byte and word read from the ral1243 memory is the one its memory map gives: the ROM below 2000h (writes ignored, a short ROM padded with FFh), "
  "at 2000h the kernel's RAM if the last opcode came from the ROM and otherwise the selected cartridge (FFh if there is none), user RAM of the configured size from 4000h and FFh beyond it; a word is its two bytes, also across banks and at FFFFh. "
  "RAM keeps what was last written to it, and a cartridge is never written to.",
  (["histories", "configurations"], "all addresses, RAM sizes, ROM lengths, up to 256 cartridges; histories of calls"),
  "The one test reads back a single pattern with no cartridge inserted and no swap.",
  [RAL_F + "memory.rs", RAL_F + "bus.rs"],
  [("banking", RAL_F + "memory.rs read_opcode, exrom_to_bank1, write_ctrl, attach_exrom, eject_exroms"), ("word access", RAL_F + "memory.rs read_mem16")],
  ["z80emu::Memory and MemoryControl of the bus"], RAL_T, "Histories are random, with addresses biased to the ends of banks.",
  [("memory map", "ROM, kernel RAM, user RAM, cartridges, selected cartridge, what bank 1 shows", RAL_F + "memory.rs struct Memory")])
P("C30", "The example's PIO and daisy chain deliver each interrupt once, in priority order",
  "Whatever the order of port accesses, opcode fetches, interrupt polls, acknowledges, RETI and resets, a ral1243 port access reaches exactly the device its port bits select, each PIO channel follows the handshake of its mode with its peripheral (no byte lost, duplicated or given twice), and interrupts enabled take effect at the next opcode fetch. "
  "Requests are acknowledged in the order of the chain (CTC 0-3, PIO A, PIO B) with the programmed vector, each once; a device being served holds back itself and all behind it until RETI.",
  (["histories", "configurations"], "all port wirings allowed by with_port_bits; all control words except those documented as unsupported; histories of calls"),
  "Nothing tests the PIO or the chain.",
  [RAL_F + "pio.rs", RAL_F + "pio_device.rs", RAL_F + "bus.rs", RAL_F + "ctc.rs"],
  [("PIO", RAL_F + "pio.rs Channel"), ("peripherals", RAL_F + "pio_device.rs"), ("chain", RAL_F + "pio.rs, ctc.rs is_irq, irq_data, reti")],
  ["z80emu::Io and BusDevice of the bus", "calls the PIO peripherals receive"], RAL_T, "Histories are random; peripherals answer arbitrarily.",
  [("PIO channel", "mode, ready, data, interrupt enable and request, vector", RAL_F + "pio.rs struct Channel"), ("in service", "ieo of CTC and PIO", RAL_F + "ctc.rs, pio.rs")])
P("C31", "The example's CTC counts every T-state and edge, and is never late",
  "After any history of control words, time constants, trigger edges, counter reads and polls, at whatever moments they come, each ral1243 CTC channel has counted exactly the T-states (divided by its prescaler) or the active edges since it was started: counter reads, the times of the zero count pulses, and the interrupt requests seen by the first poll after each zero count are those. "
  "A channel chained to another counts each of its pulses once, edges that came while it was not counting do not count, and an emulated second going by changes nothing.",
  (["histories", "schedules"], "all control words and time constants, edges and polls at arbitrary times, chained and separate channels"),
  "Nothing tests the CTC; what it does depends on when it is polled.",
  [RAL_F + "ctc.rs", RAL_F + "ctc_trigger.rs"],
  [("channel", RAL_F + "ctc.rs Channel::process, write_control"), ("skipping idle channels", RAL_F + "ctc.rs process_channels, next_ts_hint"), ("triggers", RAL_F + "ctc_trigger.rs")],
  ["z80emu::Io and BusDevice of the bus", "zero count pulses on the trigger lines"], RAL_T,
  "The specification brings every channel up to date at every poll and so does not know the code's scheme of skipping idle channels. Histories keep within the documented capacity of the pulse collector.",
  [("CTC channel", "mode, prescaler, count, time constant, armed or running since", RAL_F + "ctc.rs struct Channel")])
RUN_T = "TLA+ trace validation (TLC) against an executable specification of the runner and debugger over the CPU specification"
P("C32", "The example's frames and debugger run exactly the CPU's steps, losing no time",
  "However frames, single debug steps, runs to an interrupt, a return or a breakpoint, NMIs and resets of a ral1243 FrameRunner are mixed, the CPU executes exactly the steps that stepping it would, on an emulated time that loses nothing: every call reports the T-states it took, each frame ends at the first step at or after its length and is announced to the devices once, and a second is taken off clock, limit and devices together, when the clock has passed two. "
  "Each debug call stops at the first step that satisfies it or at the end of the frame, and shows the instruction executed there with its address, bytes and text (a mode 2 interrupt as such, a useless prefix at its own address); the preview shows what memory holds next.",
  (["histories", "configurations"], "frame and clock rates; arbitrary programs, interrupts, wait states and histories of calls"),
  "Nothing tests the runner; how it behaves depends on where frames and seconds end in the program.",
  [RAL_F + "runner.rs", RAL_F + "debug.rs", RAL_F + "clock.rs"],
  [("frames and seconds", RAL_F + "runner.rs step, clock.rs check_wrap_second"), ("debug calls", RAL_F + "debug.rs debug_step, debug_runto_int, debug_runto_ret, run_until_brkpt, debug_preview"), ("texts", RAL_F + "debug.rs format_debug, format_preview")],
  ["results of the calls", "accesses, frame ends and seconds seen by the devices"], RUN_T,
  "Histories are random. The address of an instruction executed as an interrupt vector in mode 0 or 1, and previews of chained prefixes (documented as inexact), are open.",
  [("runner", "clock, frame limit", RAL_F + "runner.rs struct FrameRunner")])
