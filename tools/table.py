NOTE = ("TLA+ specifications in spec/, checked with TLC; every check builds the simulators from /repo's "
        "working tree, records executions of the real programs through their command console and has TLC "
        "decide whether each recorded step is a step of the specification.")
TV = "TLA+ specification, TLC trace validation of recorded executions of the real simulator"
ISA_NOTE = ("Every recorded instruction is decided by the TLA+ instruction-set specification; operands are sampled "
            "(all opcodes, boundary-biased values), not exhausted. Trusted: TLC, the console's memory dump and "
            "register variables.")
ISA_WHY = ("The baseline tests compare a few compiled programs' VCD output on one CPU; no test enumerates opcodes "
           "against operand values, flags, wrap-around addresses and memory effects.")
ISA_FORALL = "all defined opcodes, for all register, flag, operand and memory values and code addresses"


DBG_NOTE = ("Random programs and command histories are recorded from the real simulator; TLC replays each against "
            "spec/Dbg.tla and every answer (stop, address, ticks, breakpoint table, counters, registers, memory) must be "
            "the specified one. Programs come from a small instruction vocabulary assembled for several CPUs.")


MEM_NOTE = ("Random histories over small memories of several widths on the real console; after every command the contents of "
            "all spaces and chips must be the specified ones. Cells nothing decodes have no specified content.")


def isa(id, cpu, title, extra, files, mech, techextra=""):
    return dict(id=id, title=title,
                statement=("Executing any documented %s instruction has exactly the documented effect: the registers and "
                           "flags, the memory cells written (no other cell changes), and the next program counter%s." % (cpu, extra)),
                over=["inputs", "programs"], forall=ISA_FORALL, why=ISA_WHY, files=files, mech=mech,
                observe=["console step, expression read-back of registers, full memory dumps"],
                technique=TV + techextra, note=ISA_NOTE)


PROPS = [
    isa("I01", "MCS-51", "MCS-51 instructions have their documented effect and duration",
        "; it takes the documented number of machine cycles and PSW.P always shows the parity of ACC",
        ["src/sims/s51.src/arith.cc", "src/sims/s51.src/mov.cc", "src/sims/s51.src/logic.cc", "src/sims/s51.src/jmp.cc",
         "src/sims/s51.src/bit.cc", "src/sims/s51.src/inc.cc", "src/sims/s51.src/uc51.cc"],
        [("instruction implementations", "src/sims/s51.src: instruction_xx methods"),
         ("parity", "src/sims/s51.src/uc51.cc cl_uc51_cpu::write")]),
    isa("I02", "STM8", "STM8 instructions have their documented effect",
        "; all prefixed (72, 90, 91, 92) forms, the 24 bit far instructions and code above 64k included (HALT, WFI, WFE, "
        "JRIL, JRIH and stack wraparound are left out)",
        ["src/sims/stm8.src/inst.cc", "src/sims/stm8.src/stm8.cc", "src/sims/stm8.src/stm8mac.h"],
        [("operand addressing", "src/sims/stm8.src/inst.cc fetchea, get_dest, operandw"),
         ("instruction implementations", "src/sims/stm8.src/inst.cc inst_xx"),
         ("instruction decoding", "src/sims/stm8.src/stm8.cc cl_stm8::exec_inst")]),
    isa("I03", "Z80", "Z80 instructions have their documented effect",
        "; prefixed (CB, ED, DD, FD, DDCB, FDCB) and repeated block instructions included; R counts every opcode fetch; "
        "block I/O and IN/OUT move the byte of the port selected by the low address byte (undocumented flag bits and the "
        "IFF2 copy of LD A,I/R are left open)",
        ["src/sims/z80.src/inst.cc", "src/sims/z80.src/inst_cb.cc", "src/sims/z80.src/inst_ed.cc",
         "src/sims/z80.src/inst_xxcb.cc", "src/sims/z80.src/z80mac.h", "src/sims/z80.src/z80.cc"],
        [("unprefixed instructions", "src/sims/z80.src/inst.cc"),
         ("flag macros", "src/sims/z80.src/z80mac.h"),
         ("block instructions", "src/sims/z80.src/inst_ed.cc")]),
    isa("I04", "6502 and 65C02", "6502 and 65C02 instructions have their documented effect",
        "; decimal arithmetic, page zero wraparound, BRK and RTI, and for the 65C02 types its new instructions, addressing modes "
        "and NOPs, for the 65C02S the bit instructions too (flags the 6502 leaves undefined in decimal mode, decimal "
        "arithmetic of invalid BCD, the JMP ($xxFF) fault, WAI and STP are left open)",
        ["src/sims/mos6502.src/ialu.cc", "src/sims/mos6502.src/imove.cc", "src/sims/mos6502.src/ibranch.cc",
         "src/sims/mos6502.src/inst.cc", "src/sims/mos6502.src/mos6502.cc", "src/sims/mos6502.src/mos65c02.cc",
         "src/sims/mos6502.src/mos65c02s.cc"],
        [("operand addressing", "src/sims/mos6502.src/mos6502.cc zpg, abs, indX, ..."),
         ("instruction implementations", "src/sims/mos6502.src/ialu.cc, imove.cc, ibranch.cc, inst.cc")]),
    isa("I05", "8080 and 8085", "8080 and 8085 instructions have their documented effect and duration",
        "; for the 8085 its additional instructions too; it takes the documented number of clocks (I/O and interrupt "
        "instructions, HLT, and the V and X5 flags of the 8085 after arithmetic are left open)",
        ["src/sims/i8085.src/ialu.cc", "src/sims/i8085.src/imove.cc", "src/sims/i8085.src/ibranch.cc",
         "src/sims/i8085.src/i8080.cc", "src/sims/i8085.src/i8085.cc", "src/sims/i8085.src/glob.cc"],
        [("arithmetic", "src/sims/i8085.src/ialu.cc"), ("8085 extensions", "src/sims/i8085.src/i8085.cc"),
         ("durations", "src/sims/i8085.src/glob.cc tick_tab_8080, tick_tab_8085")]),
    isa("I06", "6800, 6801 and 68HC11", "6800, 6801 and 68HC11 instructions have their documented effect and duration",
        "; for the 6801 and the 68HC11 their additional instructions and prefixed codes too; it takes the documented number of "
        "clocks (WAI, SWI, STOP and TEST, N and V of CPX of the 6800, V after DAA, D after a division without quotient, and "
        "bits S and X of the 68HC11 are left open)",
        ["src/core/motorola.src/ialu68.cc", "src/core/motorola.src/imove68.cc", "src/core/motorola.src/ibranch68.cc",
         "src/core/motorola.src/inst68.cc", "src/core/motorola.src/m6800.cc", "src/core/motorola.src/m6801.cc",
         "src/core/motorola.src/m68hc11.cc"],
        [("arithmetic", "src/core/motorola.src/ialu68.cc"), ("6801 extensions", "src/core/motorola.src/m6801.cc"),
         ("68HC11 extensions and durations", "src/core/motorola.src/m68hc11.cc")]),
    isa("I07", "AVR", "AVR instructions have their documented effect and duration",
        "; it takes the documented number of cycles, and a skip covers the whole next instruction (the classic core: "
        "multiplications other than MUL, MOVW, LPM with operands, ELPM, SPM and extended jumps are not simulated)",
        ["src/sims/avr.src/arith_inst.cc", "src/sims/avr.src/logic_inst.cc", "src/sims/avr.src/move_inst.cc",
         "src/sims/avr.src/jump_inst.cc", "src/sims/avr.src/bit_inst.cc", "src/sims/avr.src/avr.cc"],
        [("arithmetic", "src/sims/avr.src/arith_inst.cc"), ("data memory and pointers", "src/sims/avr.src/move_inst.cc"),
         ("jumps, calls, skips", "src/sims/avr.src/jump_inst.cc")]),
    isa("I08", "HC08", "HC08 and HCS08 instructions have their documented effect and duration",
        "; on the HCS08 it takes the documented number of bus cycles (the simulator counts HCS08 cycles for both)",
        ["src/sims/m68hc08.src/inst.cc", "src/sims/m68hc08.src/m68hc08.cc", "src/sims/m68hc08.src/hc08mac.h"],
        [("instructions and addressing", "src/sims/m68hc08.src/inst.cc"), ("decoding", "src/sims/m68hc08.src/m68hc08.cc")]),
    isa("I09", "LR35902 (Game Boy)", "LR35902 instructions have their documented effect and duration",
        "; it takes the documented number of clock periods (HALT and STOP are left out)",
        ["src/sims/z80.src/inst_gb80.cc", "src/sims/z80.src/gb80.cc", "src/sims/z80.src/glob_gb80.cc", "src/sims/z80.src/inst.cc"],
        [("LR35902 instructions", "src/sims/z80.src/inst_gb80.cc"), ("decoding", "src/sims/z80.src/gb80.cc cl_gb80::exec_inst"),
         ("durations", "src/sims/z80.src/glob_gb80.cc gb_ttab_00, gb_ttab_cb")]),
    isa("I10", "6809", "6809 instructions have their documented effect",
        "; page 2 and 3 codes and all indexed modes included (H after subtraction, V after DAA, EXG and TFR with undefined "
        "register codes, SYNC, CWAI and the durations are left open)",
        ["src/sims/m6809.src/m6809.cc", "src/sims/m6809.src/m6809cl.h"],
        [("indexed addressing", "src/sims/m6809.src/m6809.cc cl_m6809::index2ea"),
         ("arithmetic", "src/sims/m6809.src/m6809.cc inst_add8, inst_add16, inst_asl, ..."),
         ("pages", "src/sims/m6809.src/m6809.cc inst_page1, inst_page2, inst_30")]),
    isa("I11", "Padauk PDK13/14/15", "Padauk PDK13, PDK14 and PDK15 instructions have their documented effect",
        "; every instruction word form of the three cores on its data RAM and I/O registers (durations, MULRH, LDT16, STT16, "
        "LDSPTL and LDSPTH, C, AC and OV of NADD and interrupts are left open)",
        ["src/sims/pdk.src/pdk13.cc", "src/sims/pdk.src/pdk14.cc", "src/sims/pdk.src/pdk15.cc", "src/sims/pdk.src/pdk.cc",
         "src/sims/pdk.src/inst.cc"],
        [("decoding and execution", "src/sims/pdk.src/pdk13.cc, pdk14.cc, pdk15.cc exec_inst"),
         ("flags", "src/sims/pdk.src/pdk.cc cl_fpp::add_to, sub_to, inst.cc")]),
    isa("I12", "MCS-48 8048/8049/8050 and 8021", "MCS-48 and MCS-21 instructions have their documented effect",
        "; every defined opcode of the 8050 and the 8021 with ports, expander ports, BUS, test pins, register and memory banks and the "
        "stopped timer (EN I, interrupts, counting of the timer, the low half of P2 after expander instructions, BUS after MOVX and the "
        "bank MOVP3 reads above 0x7ff are left open)",
        ["src/sims/i8048.src/i8020.cc", "src/sims/i8048.src/i8048.cc", "src/sims/i8048.src/arith.cc", "src/sims/i8048.src/branch.cc",
         "src/sims/i8048.src/move.cc", "src/sims/i8048.src/decode.h", "src/sims/i8048.src/port.cc"],
        [("decoding", "src/sims/i8048.src/decode.h, aliases.h"),
         ("arithmetics and jumps", "src/sims/i8048.src/arith.cc, branch.cc"),
         ("ports", "src/sims/i8048.src/port.cc cl_pext, cl_qport")]),
    isa("I13", "PicoBlaze KCPSM3 and KCPSM6", "PicoBlaze instructions and interrupts have their documented effect",
        "; every defined instruction of KCPSM3 and KCPSM6 (register banks, ports, scratch pad, return stack, shifts, interrupt entry and "
        "RETURNI, restart of KCPSM6 when its stack overflows or underflows; codes that are no instruction change nothing; program memory of "
        "1K words, STAR with a constant is left open)",
        ["src/sims/pblaze.src/inst.cc", "src/sims/pblaze.src/glob.cc", "src/sims/pblaze.src/pblaze.cc", "src/sims/pblaze.src/stack.cc"],
        [("decoding", "src/sims/pblaze.src/glob.cc disass_pblaze3, disass_pblaze6"),
         ("instructions", "src/sims/pblaze.src/inst.cc"),
         ("interrupts and stack", "src/sims/pblaze.src/pblaze.cc do_interrupt, stack.cc")]),
    isa("I14", "ST7", "ST7 instructions have their documented effect",
        "; every instruction of ST7 under every legal prefix (90, 91, 92), with direct, indexed, indirect and indirect indexed operands, pointers "
        "in page 0, the stack in its page; JRIH, JRIL, TRAP, WFI and HALT are left open)",
        ["src/sims/st7.src/inst.cc", "src/sims/st7.src/st7.cc", "src/sims/st7.src/st7mac.h"],
        [("decoding", "src/sims/st7.src/st7.cc exec_inst"),
         ("addressing", "src/sims/st7.src/inst.cc fetchea, get_dest"),
         ("instructions", "src/sims/st7.src/inst.cc")]),
    isa("I15", "P1516 and P2223", "P1516 and P2223 instructions have their documented effect",
        "; every instruction of both 32 bit processors (-t P1516, -t P2223) under every condition, every addressing mode of loads and stores "
        "(register and constant offset, update before and after), byte access, special registers, R15 as the program counter; "
        "reserved codes and the version register are left open)",
        ["src/sims/p1516.src/p1516.cc", "src/sims/p1516.src/p2223.cc", "src/sims/p1516.src/p2223cl.h"],
        [("P1516", "src/sims/p1516.src/p1516.cc exec_inst, inst_alu, inst_ad, cond"),
         ("P2223", "src/sims/p1516.src/p2223.cc exec_inst, inst_alu, inst_alu_1op, inst_mem, inst_ext, inst_call, cond")]),
    isa("I16", "68HC12", "68HC12 instructions have their documented effect",
        "; every instruction of both pages with every addressing mode (the indexed and indirect postbytes, automatic increment and decrement), "
        "the loop primitives, TFR/EXG, MOVB/MOVW, CALL/RTC with PPAGE, the extended arithmetic, the X bit, SWI and TRAP; WAI, STOP, BGND, "
        "the fuzzy logic instructions other than MEM, falling segments of TBL/ETBL and PC relative operands followed by further operand bytes are left open)",
        ["src/sims/m68hc12.src/m68hc12.cc", "src/sims/m68hc12.src/ialu.cc", "src/sims/m68hc12.src/imov.cc", "src/sims/m68hc12.src/ibranch.cc",
         "src/sims/m68hc12.src/iother.cc", "src/sims/m68hc12.src/decode12.h", "src/core/motorola.src/ialu68.cc"],
        [("addressing", "src/sims/m68hc12.src/m68hc12.cc naddr, xb_type"),
         ("decoding", "src/sims/m68hc12.src/decode12.h, m68hc12.cc exec_inst"),
         ("instructions", "src/sims/m68hc12.src/ialu.cc, imov.cc, ibranch.cc, iother.cc")]),
    isa("I17", "OISC", "Instructions of the one instruction computers have their documented effect",
        "; URISC, MISC16 and extended MISC16 (-t URISC, MISC16, EM): a move between any two of the special addresses and memory, with the "
        "arithmetic, the conditional jumps, the indirect and the stepping operands at the special addresses, whether or not anything was displayed "
        "before; special addresses documented as unused are left open)",
        ["src/sims/oisc.src/oisc.cc", "src/sims/oisc.src/urisc.cc", "src/sims/oisc.src/misc16.cc", "src/sims/oisc.src/em.cc"],
        [("move", "src/sims/oisc.src/oisc.cc exec_inst, cl_op_pass"),
         ("special addresses", "src/sims/oisc.src/urisc.cc, misc16.cc, em.cc: read, write, init_alu")]),
    dict(id="C05", title="Fetch breakpoints stop execution exactly when they are hit",
         statement=("A started simulation stops at a fetch breakpoint exactly when the address of an enabled breakpoint is "
                    "reached for the hit-count-th time and its condition (if any) holds - never earlier, never later, never "
                    "elsewhere, on every simulated CPU - before the instruction there executes, with reason 104 and the PC at the breakpoint. A "
                    "temporary breakpoint is deleted when accepted; commands attached to the breakpoint where execution "
                    "stops are executed; break/tbreak/clear/delete/commands maintain the numbered list as documented "
                    "(duplicates refused, too big hit values refused, numbers restart when the list is empty)."),
         over=["histories", "programs"],
         forall="all programs and all command histories of break/tbreak/clear/delete/commands/run/step/next",
         why="The tests never use breakpoints; the property ranges over interleavings of breakpoint commands and execution.",
         files=["src/core/sim.src/brk.cc", "src/core/cmd.src/cmd_bp.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc",
                "src/core/cmd.src/cmd_exec.cc"],
         mech=[("hit count and condition", "src/core/sim.src/brk.cc cl_brk::do_hit, condition"),
               ("stop decision", "src/core/sim.src/uc.cc cl_uc::do_inst, check_events; sim.cc cl_sim::step"),
               ("list", "src/core/sim.src/brk.cc brk_coll; uc.cc rm_brk/put_breaks")],
         observe=["stop message, info breakpoints, state, registers and memory after every command"],
         technique=TV, note=DBG_NOTE),
    dict(id="C06", title="Event breakpoints stop after exactly the matching memory accesses",
         statement=("An event breakpoint on a memory cell counts exactly the reads (writes) of this cell made by the executed "
                    "program, stops the simulation after the instruction that makes the hit-count-th matching access while the "
                    "condition holds, reports that access, and neither changes the values read or written nor reacts to "
                    "console accesses; deleting it removes every effect it had."),
         over=["histories", "programs"],
         forall="all programs and all histories of event breakpoints, memory edits and execution commands",
         why="No test sets an event breakpoint; the property covers hit counts over access sequences and attach/detach orders.",
         files=["src/core/sim.src/mem.cc", "src/core/sim.src/brk.cc", "src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_bp.cc"],
         mech=[("access operators", "src/core/sim.src/mem.cc cl_read_operator, cl_write_operator, cl_cell8::del_operator"),
               ("event list", "src/core/sim.src/uc.cc cl_uc::check_events")],
         observe=["Event messages, stop reason 112, breakpoint counts, cell values"],
         technique=TV, note=DBG_NOTE),
    dict(id="C07", title="run, step and next execute exactly the requested instructions",
         statement=("step n executes exactly n instructions unless a breakpoint stops it earlier; step n clk/fclk/rclk/wclk/vclk "
                    "executes instructions until the named counter has advanced by at least n and not further than the "
                    "instruction that reaches it; next executes one instruction, or a whole subroutine call; run continues "
                    "from the given address to the given address or to the first accepted breakpoint. The resulting "
                    "machine state is that of executing the same instructions one by one, whatever the mix of commands."),
         over=["histories", "programs"],
         forall="all programs and all histories of execution commands, PC changes, resets and memory edits",
         why="The tests run programs from start to end only; the property compares arbitrary ways of slicing an execution.",
         files=["src/core/sim.src/sim.cc", "src/core/cmd.src/cmd_exec.cc", "src/core/sim.src/uc.cc"],
         mech=[("stepping", "src/core/sim.src/sim.cc cl_sim::step, start, stop"),
               ("commands", "src/core/cmd.src/cmd_exec.cc run, step, next"),
               ("limits", "src/core/sim.src/uc.cc do_inst, stop_when")],
         observe=["machine state and counters after every command"],
         technique=TV, note=DBG_NOTE),
    dict(id="C08", title="Clock, access counters and user timers account every executed instruction",
         statement=("The elapsed clock equals the sum of the durations of the executed instructions; fetch/read/write counters "
                    "equal the accesses made; a started timer advances (or, counting down, falls) by exactly the ticks of the "
                    "instructions executed while it runs; a stopped timer keeps its value; timer add/delete/start/stop/set "
                    "act on the named or numbered timer only; reset clears the predefined timers."),
         over=["histories", "programs"],
         forall="all programs and histories of timer commands, execution commands and resets",
         why="No test reads a timer; the property quantifies over histories of timer commands interleaved with execution.",
         files=["src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_timer.cc"],
         mech=[("tick", "src/core/sim.src/uc.cc cl_uc::tick_hw, cl_ticker"),
               ("commands", "src/core/cmd.src/cmd_timer.cc")],
         observe=["timer list and state after every command"],
         technique=TV, note=DBG_NOTE),
    dict(id="C01", title="Memory cells keep exactly what was written last, truncated to their width",
         statement=("A cell of a memory chip, or of an address space that decodes to it, reads back the value written to it "
                    "last, truncated to the width of the memory; a write changes that cell only, however it is seen (through "
                    "every address that decodes to it and the chip). Addresses outside of a memory neither read nor write "
                    "anything; set memory, fill, dump, expressions and cell listings agree on the content."),
         over=["inputs", "histories"],
         forall="all memory widths, sizes and start addresses, and all histories of writes, fills and reads",
         why="The tests never look at memory contents; the property ranges over geometries and write histories.",
         files=["src/core/sim.src/mem.cc", "src/core/sim.src/memcl.h", "src/core/cmd.src/cmd_mem.cc", "src/core/cmd.src/cmd_set.cc",
                "src/core/cmd.src/cmd_uc.cc"],
         mech=[("cells", "src/core/sim.src/mem.cc cl_address_space, cl_memory_chip, cl_cell8/16/32/bit_cell"),
               ("commands", "src/core/cmd.src: set memory, fill, dump, memory")],
         observe=["dump of every space and chip after every command"],
         technique=TV + "; TLC model checking of the specification", note=MEM_NOTE),
    dict(id="C02", title="Address decoders, bankers and bit banders map addresses as defined",
         statement=("Each address of a space is answered by exactly the cell the most recently defined decoder, banker or "
                    "bander covering it designates - directly, through the bank selected by the current value of the bank "
                    "selector, or bit by bit; a new definition takes over exactly its own area and leaves the mapping of the "
                    "rest of an overlapped decoder unchanged; a bank follows every change of its selector; removing a chip "
                    "removes every mapping to it and nothing else; wrong definitions are refused without effect."),
         over=["inputs", "histories"],
         forall="all histories of decoder, banker, bank and bander definitions, chip removals and writes to selectors",
         why="The decoder splitting and bank switching logic is only exercised by fixed processor set-ups in the tests.",
         files=["src/core/sim.src/mem.cc", "src/core/cmd.src/cmd_mem.cc", "src/core/sim.src/uc.cc"],
         mech=[("splitting", "src/core/sim.src/mem.cc cl_decoder_list, cl_address_space::undecode_area, cl_address_decoder::shrink_out_of_area/split"),
               ("bank switching", "src/core/sim.src/mem.cc cl_banker, cl_bank_switcher_operator"), ("bits", "cl_bander")],
         observe=["dump of every space and chip and cell listings after every command"],
         technique=TV + "; TLC model checking of the specification", note=MEM_NOTE),
    dict(id="C10", title="Console expressions have the value and effects of C expressions",
         statement=("For every expression over numbers (decimal, hex, octal, binary, character), memory cells, registers, bits, bit "
                    "fields and variables, the printed value is the one given by C's operator precedence and semantics, the cells "
                    "named on the left of assignments, ++ and -- change as C says and no other cell changes; bits and fields are read "
                    "and written in place, cells wrap to their width; each requested output format shows that value; division by zero "
                    "and malformed input are reported, print 0 and change nothing."),
         over=["inputs", "histories"],
         forall="all expressions, output formats and histories of variable definitions and assignments",
         why="No test evaluates an expression; the property quantifies over all expression trees and memory contents.",
         files=["src/core/cmd.src/cmdpars.y", "src/core/cmd.src/cmdlex.l", "src/core/cmd.src/newcmd.cc", "src/core/cmd.src/cmd_exec.cc"],
         mech=[("grammar and evaluation", "src/core/cmd.src/cmdpars.y"),
               ("words, names", "src/core/cmd.src/cmdlex.l uc_yy_check_id"),
               ("formats", "src/core/cmd.src/newcmd.cc cl_console_base::print_expr_result")],
         observe=["printed values and errors", "all cells of the memory windows and the registers after every command"],
         technique=TV, note=DBG_NOTE),
    dict(id="C11", title="A name given to cells or bits stands for exactly these bits",
         statement=("After every history of `var` and `rmvar` commands, a name defined on a cell, on one bit or on a range of bits (given as "
                    "`SPACE addr [high low]`, `SPACE[addr]`, `SPACE[addr].bit`, `SPACE[addr][high:low]`, by another name, or as a free cell of the "
                    "`variables` space) stands for exactly these bits until it is redefined or removed: expressions read them, assignments, `set "
                    "bit`, `set memory` and `fill` through the name change them and no other bit, `dump` and `info var` show every name with the "
                    "place and the value it stands for and no other, `pc` goes there. A definition with an invalid name, address or bit number is "
                    "refused and changes nothing. `set memory` echoes exactly the cells it wrote."),
         over=["histories"],
         forall="all histories of definitions, redefinitions, removals, aliases, overlapping bit ranges, reads and writes through names",
         why="The tests define no names; aliases, overlapping ranges and removal orders combine freely in two sorted lists that must agree.",
         files=["src/core/sim.src/var.cc", "src/core/sim.src/mem.cc", "src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/cmd.src/cmd_set.cc", "docs/cmd_general.html"],
         mech=[("names by name and by address", "src/core/sim.src/var.cc cl_var_list"),
               ("labels in dumps", "src/core/sim.src/mem.cc cl_memory::dump"),
               ("commands", "src/core/cmd.src/cmd_uc.cc cl_var_cmd, cl_rmvar_cmd"),
               ("interpretation of places", "src/core/sim.src/uc.cc cl_uc::symbol2address, bitname")],
         observe=["values of expressions", "dumps of cells and bits", "info var", "contents of the memory windows after every command"],
         technique=TV, note=DBG_NOTE),
    dict(id="C09", title="The execution history holds exactly the instructions last executed",
         statement=("After every history of steps, runs to breakpoints, jumps and history commands, `history list n` shows the addresses "
                    "of the last n records in order of execution, one record for instructions repeated at one address with the number "
                    "of repetitions, at most 10000 records of the latest instructions, and nothing executed before the last `history "
                    "clear`; `history info` shows the number of records and of the instructions in them; an instruction that a "
                    "breakpoint kept from being executed is not among them."),
         over=["histories"],
         forall="all programs of jumps and straight code, step counts, breakpoints, list lengths and wrap-arounds of the buffer",
         why="The tests never look at the history; wrap-around, repetition and breakpoints combine freely.",
         files=["src/core/sim.src/uc.cc", "src/core/cmd.src/cmd_exec.cc", "docs/cmd_exec.html"],
         mech=[("ring of run-length coded records", "src/core/sim.src/uc.cc cl_exec_hist"),
               ("recording", "src/core/sim.src/uc.cc cl_uc::do_inst"),
               ("commands", "src/core/cmd.src/cmd_exec.cc cl_hist_list_cmd")],
         observe=["answers of history list and history info"],
         technique=TV, note=DBG_NOTE),
    dict(id="C16", title="Execution errors are reported exactly for the classes that are on",
         statement=("For every setting of the tree of error classes (on, off, or unset: as the parent is), `show error` shows own and "
                    "effective state of every class, and execution of any instructions reports an error exactly when an instruction makes "
                    "one (stack overflow by limit or wrap-around, unknown code, invalid address) whose class is on: the report names the "
                    "address of that instruction, the instruction is completed and simulation stops after it with reason 108; errors of "
                    "classes that are off leave execution as it is without them."),
         over=["inputs", "histories"],
         forall="all settings of the classes, stack limits and pointers, and instruction sequences",
         why="The tests never change error classes; settings, inheritance and stack positions combine freely.",
         files=["src/core/utils.src/error.cc", "src/core/sim.src/uc.cc", "src/core/sim.src/stack.cc", "src/core/cmd.src/cmd_set.cc"],
         mech=[("class tree", "src/core/utils.src/error.cc cl_error_class::is_on"),
               ("report and stop", "src/core/sim.src/uc.cc cl_uc::check_errors"),
               ("detection", "src/sims/s51.src/uc51.cc stack_check_overflow and the same of the other simulators")],
         observe=["reports, stop reasons, PC and SP of run and step; show error"],
         technique=TV, note=DBG_NOTE),
    dict(id="C14", title="Value change dumps record and replay exactly the watched changes",
         statement=("For every history of runs, console writes and dumper commands, an output VCD file records exactly the writes "
                    "made, between start and stop and outside of pauses, to each cell or bit field watched at the time - value of "
                    "the field and time of the writing instruction in the units of the file - begins with the values at the start, "
                    "shows the variables as unknown in a pause (of at most the pause limit) and with their values after it; an "
                    "input VCD file sets the named cells and bits, and nothing else, to the values of the file, each change after "
                    "the first instruction ending later than its time (moved by starttime and by pauses), stopping the simulation "
                    "there if asked to; any number of dumpers work independently."),
         over=["inputs", "histories"],
         forall="all histories of watched fields, writes, instructions, pauses, limits, units and input files",
         why="The tests replay two fixed scripts against a recorded file; fields, units, limits, deletions, several dumpers and input layouts are unbounded.",
         files=["src/core/sim.src/vcd.cc", "src/core/sim.src/vcdcl.h", "docs/vcd.html"],
         mech=[("recording operator", "src/core/sim.src/vcd.cc cl_vcd_var::write, cl_vcd::report"),
               ("commands, file header, pauses", "src/core/sim.src/vcd.cc cl_vcd::set_cmd"),
               ("replay", "src/core/sim.src/vcd.cc cl_vcd::tick, parse_header")],
         observe=["parsed VCD files", "cell values after every instruction", "PC at the stop"],
         technique=TV, note=DBG_NOTE),
    dict(id="C15", title="The simulator interface obeys its command protocol",
         statement=("For every history of reads and writes of a simulator interface cell, by the simulated program and from the "
                    "console, and whatever it is mixed with (moving the interface, opening and closing its files): a command is "
                    "started by writing its character, takes exactly its number of parameters, gives exactly its answer byte by "
                    "byte and then the cell is ready again; print, write and read commands move exactly the named bytes to the "
                    "console and files, stop and reset act at that instruction, and an execution limit stops the run after that "
                    "many instructions; cells the interface is not at behave as plain memory."),
         over=["inputs", "histories"],
         forall="all histories of interface accesses on six processor families",
         why="No test uses the interface beyond a detection; the protocol state depends on the whole history of accesses.",
         files=["src/core/sim.src/simif.cc", "src/core/sim.src/simifcl.h", "src/core/sim.src/sim.cc"],
         mech=[("commands and answers", "src/core/sim.src/simif.cc cl_sif_command"),
               ("cell operator", "src/core/sim.src/simif.cc cl_simulator_interface::read/write"),
               ("execution limit", "src/core/sim.src/sim.cc cl_sim::set_limit")],
         observe=["values read by the program and the console", "console output", "written files", "PC at the stop"],
         technique=TV, note=DBG_NOTE),
    dict(id="C13", title="Searching a memory reports exactly the matching addresses",
         statement=("where / Where list exactly the addresses where the given byte sequence occurs (overlapping occurrences "
                    "included; where ignores the case of ASCII letters), and hole lists exactly the maximal areas holding "
                    "the given value that are long enough, for every memory and start address."),
         over=["inputs"], forall="all memory contents, widths, start addresses and search patterns",
         why="No test uses the search commands.",
         files=["src/core/sim.src/mem.cc", "src/core/cmd.src/cmd_mem.cc", "src/core/cmd.src/cmd_uc.cc"],
         mech=[("search", "src/core/sim.src/mem.cc cl_memory::search_next"), ("commands", "src/core/cmd.src where, hole")],
         observe=["where, Where and hole output"], technique=TV, note=MEM_NOTE),
    dict(id="C03", title="Loading a file puts exactly the data of its valid records into the memory",
         statement=("file, download and the other load commands store every data byte of a valid Intel hex, S19, OMF-51, p2h or asc "
                    "record at its address in the selected memory (moved by the given offset, limited to the given range, bytes "
                    "low-byte-first in wider cells, banks behind the end of a banked space) and change no other location; records "
                    "with bad checksums and unknown types are skipped; check reports exactly the locations whose memory content "
                    "differs from the file, and changes nothing."),
         over=["inputs", "histories"],
         forall="all record sequences, targets, cell widths, offsets, ranges and memory layouts",
         why="Tests load a few compiler-made hex files into the program memory of an 8-bit processor.",
         files=["src/core/sim.src/uc.cc", "src/core/utils.src/fio.cc", "src/core/cmd.src/cmd_uc.cc"],
         mech=[("loaders", "src/core/sim.src/uc.cc read_hex_file, read_s19_file, read_omf_file, read_p2h_file, read_asc_file, set_rom"),
               ("specifier", "cl_inspec: file@memory:offset#range")],
         observe=["dump of every chip and space after every command", "differences reported by check"],
         technique=TV, note=MEM_NOTE),
    dict(id="C04", title="Dumps show the memory as it is and can be loaded back unchanged",
         statement=("dump shows exactly the requested, existing locations with their content in every format (hex with any number "
                    "of items per line, Intel hex, escaped strings, continued dumps); the Intel hex dump is a valid file that, "
                    "loaded back into a memory, gives the dumped content; dumping changes nothing."),
         over=["inputs"], forall="all memory contents, widths, ranges, line lengths and layouts",
         why="No test dumps memory; the round trip crosses the dumper, the file system and the loader.",
         files=["src/core/sim.src/mem.cc", "src/core/cmd.src/cmd_mem.cc", "src/core/cmd.src/cmd_uc.cc", "src/core/sim.src/uc.cc"],
         mech=[("dumps", "src/core/sim.src/mem.cc cl_memory::dump, dump_i, dump_s")],
         observe=["dump output, files written by redirected dumps, memory after loading them"],
         technique=TV, note=MEM_NOTE),
]

HW_NOTE = ("Random programs (register writes, port instructions, RETI, idle) with pin changes between the instructions are "
           "recorded; TLC computes every machine cycle of timers, UART and ports and every interrupt decision from the specification "
           "Mcs51Hw and compares PC, all SFRs, internal RAM, port latches and pins and elapsed clocks after each instruction. "
           "An 8052 (-t C52); resets come at random points. The watchdog is P06; PCA and the other peripherals of derivatives are not specified.")


def hw51(id, title, st, files, mech):
    return dict(id=id, title=title, statement=st, over=["histories", "programs"],
                forall="all programs and pin change histories of an 8052",
                why="No test of the 8051 family is stable here; the behaviour depends on interleavings of instructions, timer "
                    "overflows, pin changes and interrupt services.",
                files=files, mech=mech, observe=["console step, SFR and RAM dumps, port and register variables, UART output file"],
                technique=TV, note=HW_NOTE)


PROPS += [
    hw51("P01", "MCS-51 interrupts are accepted and served as documented",
         "After every instruction an 8052 accepts an interrupt exactly when one is requested, enabled (its bit and EA in IE) and of "
         "higher priority than the service in progress: the highest priority level first, within a level in the order INT0, T0, INT1, "
         "T1, UART, T2; not directly after RETI or a write of IE or IP. Acceptance pushes the PC, jumps to the vector, takes two machine "
         "cycles (timers run), clears the request flag of INT0/INT1/T0/T1 only, and ends Idle mode; RETI ends the service. A reset ends all services and Idle mode "
         "and puts every special function register to its reset value, and leaves internal RAM and pins alone. "
         "External requests are set by a falling pin edge when IT=1 and follow the (low) pin level when IT=0.",
         ["src/sims/s51.src/uc51.cc", "src/sims/s51.src/interrupt.cc", "src/core/sim.src/itsrc.cc"],
         [("acceptance", "src/sims/s51.src/uc51.cc cl_51core::do_interrupt, accept_it"),
          ("external requests", "src/sims/s51.src/interrupt.cc cl_interrupt::tick, happen")]),
    hw51("P02", "MCS-51 timers 0, 1 and 2 count, reload, capture and flag as documented",
         "Timers 0, 1 (modes 0-3, GATE, C/T, TR) and 2 (auto reload, up/down counting (DCEN), capture, baud rate generator, EXEN2, C/T2) of an 8052 hold the "
         "documented count after every instruction: they advance once per machine cycle (also in Idle mode and during interrupt "
         "acceptance) or, as counters, once per falling pin edge while enabled; overflow sets the right flag and reloads; a reset stops them "
         "with their counts, modes and flags cleared.",
         ["src/sims/s51.src/timer0.cc", "src/sims/s51.src/timer1.cc", "src/sims/s51.src/timer2.cc", "src/core/sim.src/uc.cc"],
         [("timers 0 and 1", "src/sims/s51.src/timer0.cc do_mode0..3, timer1.cc"), ("timer 2", "src/sims/s51.src/timer2.cc"),
          ("cycles", "src/core/sim.src/uc.cc tick_hw")]),
    hw51("P03", "MCS-51 ports separate latches from pins",
         "Instructions that read a port as a source operand see latch AND pins; read-modify-write instructions (ANL/ORL/XRL to direct, "
         "JBC, CPL, INC, DEC, DJNZ, MOV/CLR/SETB bit) and the address of MOVX @Ri use the latch; writes change only the latch (or the addressed bit of it); the "
         "port's value is always latch AND pins, and edges of it - made by the program or by the environment - reach timers and "
         "interrupts exactly once.",
         ["src/sims/s51.src/port.cc", "src/sims/s51.src/uc51.cc", "src/sims/s51.src/bit.cc", "src/sims/s51.src/logic.cc"],
         [("port", "src/sims/s51.src/port.cc cl_port::read, write, set_pin"), ("operands", "src/sims/s51.src: get vs read of cells")]),
    hw51("P04", "MCS-51 UART sends and receives bytes in the documented time",
         "A write of SBUF sends that byte (and no other) to the output after 8, 10 or 11 bit times of the mode and then sets TI; with REN "
         "set each input byte is received in the same time, put into SBUF and signalled by RI, in order and without loss of bytes. The bit time is a "
         "machine cycle in mode 0, 64 or 32 (SMOD) clocks in mode 2, and 32 or 16 (SMOD) timer 1 overflows or 16 timer 2 overflows "
         "(RCLK, TCLK: separately for the directions) in modes 1 and 3. A reset abandons the transmission in progress; "
         "a byte it interrupts the reception of is received again from its start.",
         ["src/sims/s51.src/serial.cc", "src/core/sim.src/serial_hw.cc", "src/sims/s51.src/timer2.cc"],
         [("bit clock, transmitter, receiver", "src/sims/s51.src/serial.cc tick, serial_bit_cnt, happen")]),
    dict(id="P05", title="MCS-48 timer, event counter and interrupts work as documented",
         statement=("The timer of an 8050 or 8021 advances by one for every 16 x 32 clocks of its dividers in timer mode (STRT T clears "
                    "the prescaler), by one for every falling edge of T1 in counter mode, and not at all when stopped; its overflow sets the timer flag "
                    "and, when EN TCNTI is in force, requests an interrupt. After every instruction an 8050 that serves no interrupt accepts "
                    "an enabled request, the external one (INT low, EN I) first, by pushing PC and PSW and jumping to 3 or 7; the timer request is "
                    "cleared by that (and by DIS TCNTI), jumps and calls stay in the lower 2K of the program until RETR ends the service."),
         over=["histories", "programs"], forall="all programs and pin histories of an 8050 and (timer and counter) of an 8021",
         why="No test of the MCS-48 simulator exists; the behaviour depends on interleavings of instructions, overflows, pins and services.",
         files=["src/sims/i8048.src/timer.cc", "src/sims/i8048.src/i8048.cc", "src/sims/i8048.src/i8020.cc", "src/sims/i8048.src/branch.cc"],
         mech=[("timer and counter", "src/sims/i8048.src/timer.cc cl_timer, i8020.cc cl_i8020_cpu::conf_op"),
               ("interrupts", "src/sims/i8048.src/i8048.cc make_irq_sources, accept_it, RETR")],
         observe=["console step, expression read-back of registers and peripheral variables, memory dumps"],
         technique=TV, note=("Random instructions with the timer close to overflow, T1 edges between instructions and INT low are recorded; TLC "
               "computes timer, requests and acceptance from I48Int (on top of I8048) and compares registers, memory and peripheral "
               "variables after each instruction. The enable of the external interrupt and the service state are tracked by the "
               "specification alone. 8041 and 8022 are not covered.")),
    dict(id="P06", title="The MCS-51 watchdog resets the device exactly when it was not fed in time",
         statement=("On a 51R or 89C51R the watchdog is off after a reset of any kind; writing 1EH and then E1H to WDTRST, with no other write of "
                    "it in between, starts it or sets it back to zero, nothing else does; it counts every machine cycle, in Idle mode too, not in "
                    "Power Down mode; at its overflow (more than 16383 cycles) and at no other time it resets the device: execution "
                    "goes on at 0 in normal mode with SFRs at their reset values and the watchdog off."),
         over=["histories", "programs"], forall="all histories of feeding (right and wrong), running, idling, power down and resets",
         why="No test uses the watchdog; the overflow depends on the exact number of cycles since the last right feeding sequence.",
         files=["src/sims/s51.src/wdt.cc", "src/sims/s51.src/uc51.cc", "src/sims/s51.src/uc51r.cc", "src/sims/s51.src/uc89c51r.cc", "src/core/sim.src/uc.cc"],
         mech=[("watchdog", "src/sims/s51.src/wdt.cc cl_wdt::write, tick, reset"), ("Idle mode", "src/sims/s51.src/uc51.cc do_inst, idle_pd"),
               ("reset", "src/core/sim.src/uc.cc cl_uc::reset")],
         observe=["PC, SP and the counter of the watchdog after every command"],
         technique=TV, note=("Random histories (runs of NOPs up to and around the overflow, instructions of 1, 2 and 4 cycles, right and wrong feeding "
                             "sequences, Idle, Power Down, reset) are recorded on both devices; TLC computes PC, SP and counter from Wdt and compares "
                             "them after every command, and checks the invariant of the specification. The program is NOPs with single instructions.")),
]
