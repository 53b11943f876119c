import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"state":state or [],"mechanism":mech,"observe_at":obs or [],"hook_needed":hook}}
    assert stmt.count('. ')<=2,(id,stmt.count('. ')); assert len(title)<=80
    P.append(d)
def m(n,w): return {"name":n,"where":w}
def s(n,me,w): return {"name":n,"meaning":me,"where":w}
STEP="after every executed instruction: pc, x0-x31, privilege level, CSRs, the declared memory windows (guarded step hook)"
HK="cfg(carron_verif): before-step callback in the emulation loop, raw CSR/privilege/pc access"
T8="The 8 existing tests cover DRAM byte access, a dozen decodings and one C.LI; "

p("C01","Base integer computation matches the RV32I/RV64I semantics",
"For every register-register and register-immediate integer instruction of RV32I and RV64I (including LUI, AUIPC, shifts, comparisons and the W forms), the destination register receives exactly the value the ISA defines for the operand values and XLEN, on RV32 computed modulo 2^32 with only the low 5 shift bits used. x0 always reads as zero, and no other register, memory byte, CSR or privilege state changes.",
["inputs","programs"],"all operand values, immediates, register choices (rd=rs1, rd=rs2, x0) and both XLENs",
T8+"no test executes an ALU instruction, so operand corner cases (sign boundaries, shift >= 32, aliasing) are never reached.",
["src/cpu/execution/inst_32/base_i.rs","src/cpu/decode/inst_32/base_i.rs","src/cpu/reg.rs"],
[m("base_i::exec","src/cpu/execution/inst_32/base_i.rs"),m("parse_imm/parse_rs1/parse_rs2/parse_rd","src/cpu/decode/inst_32/base_i.rs"),m("Register::read/write","src/cpu/reg.rs")],
[s("regs","integer register file","src/cpu/reg.rs")],[STEP],HK)

p("C02","Multiply and divide match the M extension for all operands",
"MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU and their W forms return exactly the value the M extension defines for every operand pair and XLEN, including division by zero and signed overflow, and never trap. Whenever the divisor is nonzero and there is no signed overflow, quotient*divisor+remainder equals the dividend and the remainder has the dividend's sign or is zero.",
["inputs"],"all pairs of 32/64-bit operands, both XLENs",
T8+"no M-extension instruction is executed by any test; 2^128 operand pairs.",
["src/cpu/execution/inst_32/m_extension.rs","src/cpu/decode/inst_32/m_extension.rs"],
[m("m_extension::exec","src/cpu/execution/inst_32/m_extension.rs"),m("mulhu_64","src/cpu/execution/inst_32/m_extension.rs")],None,[STEP],HK)

p("C03","Compressed instructions behave as their 32-bit expansions",
"Executing any defined non-reserved RV32C or RV64C integer instruction has the same effect on registers, memory, control flow and traps as its standard 32-bit expansion, except that the sequential or link address is pc+2. This covers every scrambled immediate and compact register field, stack-pointer forms, C.JR/C.JALR clearing bit 0 of the target, C.EBREAK, and the all-zero encoding being illegal.",
["inputs","programs"],"all 2^16 compressed encodings on both XLENs, all register values",
T8+"the decode_16 test compares a handful of encodings and only one (C.LI) is executed.",
["src/cpu/decode/inst_16/c_extension.rs","src/cpu/execution/inst_16/c_extension.rs","src/cpu/execution/inst_16.rs"],
[m("parse_opecode/parse_imm","src/cpu/decode/inst_16/c_extension.rs"),m("c_extension::exec","src/cpu/execution/inst_16/c_extension.rs")],None,[STEP],HK)

p("C04","AMO instructions are correct atomic read-modify-writes",
"Each AMO.W/AMO.D loads the addressed word, writes the ISA-defined combination of it and rs2 (signed or unsigned min/max, add, swap, and, or, xor) back to the same address, and returns the original memory value (sign-extended for .W) in rd, even when rd, rs1 and rs2 coincide. A misaligned or faulting AMO raises the store/AMO exception for that address and changes neither memory nor rd.",
["inputs","programs"],"all operand/memory values, register aliasing, alignment, regions and both XLENs",
T8+"no atomic instruction is executed by any test.",
["src/cpu/execution/inst_32/a_extension.rs","src/cpu/decode/inst_32/a_extension.rs"],
[m("atomic_memory_operations_32/64","src/cpu/execution/inst_32/a_extension.rs")],None,[STEP],HK)

p("C05","SC succeeds only under a live matching reservation",
"SC.W/SC.D stores and returns 0 exactly when the most recent LR since the last SC and since the last scheduling-batch boundary reserved that same address; otherwise it stores nothing and returns 1. Every completed SC, successful or not, consumes the reservation, so no SC can succeed twice on one LR, and LR or SC accesses that fault leave memory and registers unchanged.",
["histories","programs"],"all interleavings of LR, SC (.W/.D), plain loads/stores/AMOs, traps and batch boundaries over several addresses",
T8+"reservation behaviour is a property of histories and no test executes LR or SC.",
["src/cpu/execution/inst_32/a_extension.rs","src/lib.rs"],
[m("OP_LR_*/OP_SC_*","src/cpu/execution/inst_32/a_extension.rs"),m("reservation_set = None at batch end","src/lib.rs")],
[s("reservation_set","physical address reserved by the last LR","src/cpu.rs")],[STEP,"Cpu::reservation_set"],HK)

p("C06","Control transfers go exactly to the architected target",
"After JAL, JALR, a taken branch or their compressed forms, the next pc is exactly the architected target (JALR target with bit 0 cleared, any offset including zero, so a jump to itself loops forever) and the link register receives the sequential address computed before the target register is overwritten. After every other completed non-trapping instruction, including an untaken branch, pc advances by exactly the instruction's size (2 or 4).",
["inputs","programs"],"all branch offsets, operand values, link/base register aliasing, 2-byte-aligned code placement, both XLENs",
T8+"no branch or jump is executed by any test.",
["src/cpu/execution/inst_32/base_i.rs","src/cpu/execution/inst_32.rs","src/cpu/execution/inst_16.rs","src/cpu/execution/inst_16/c_extension.rs"],
[m("exe_inst/exe_cinst pc advance","src/cpu/execution/inst_32.rs"),m("add2pc/update_pc","src/cpu.rs")],[s("pc","program counter","src/cpu.rs")],[STEP],HK)

p("C07","Loads and stores access exactly the addressed bytes, little-endian",
"A load returns the little-endian value of the addressed bytes as last written, sign- or zero-extended as the opcode says, and a store changes exactly the addressed 1, 2, 4 or 8 bytes and nothing else, for every base, offset, width and XLEN. A misaligned halfword, word or doubleword access (including SP-relative compressed ones) instead raises the load or store/AMO address-misaligned exception with the faulting address and has no effect.",
["inputs","histories","programs"],"all addresses, widths, values, offsets (negative, wrap-around) and write/read histories",
T8+"the DRAM tests poke the device directly with a few constants and never go through an instruction, an offset or an alignment check.",
["src/cpu/execution/inst_32/base_i.rs","src/cpu/execution/inst_16/c_extension.rs","src/bus/dram.rs","src/cpu.rs"],
[m("OP_L*/OP_S*","src/cpu/execution/inst_32/base_i.rs"),m("trans_addr alignment check","src/cpu.rs"),m("Dram load/store","src/bus/dram.rs")],[s("dram","guest physical memory","src/bus/dram.rs")],[STEP],HK)

p("C08","Undefined encodings raise illegal-instruction, precisely and only then",
"Every 16- or 32-bit encoding that no implemented extension defines (unused opcodes, funct fields, RV64-only instructions on RV32, the all-zero halfword) raises an illegal-instruction exception whose trap value is the faulting instruction bits, with no other architectural effect. Every defined IMAC, Zicsr, Zifencei or privileged encoding is accepted and never reported as an unknown encoding.",
["inputs"],"the whole 32-bit and 16-bit encoding space on both XLENs (reserved-but-aliased encodings that the ISA leaves unspecified are excluded)",
T8+"the decode tests check about a dozen accepted encodings and no rejected one.",
["src/cpu/decode/inst_32.rs","src/cpu/decode/inst_32/base_i.rs","src/cpu/decode/inst_16/c_extension.rs","src/cpu/decode.rs"],
[m("parse_opecode","src/cpu/decode/inst_32/*.rs"),m("only_rv64","src/cpu/decode.rs"),m("extension","src/cpu/decode/inst_32.rs")],None,[STEP],HK)

p("C09","Traps are precise: a faulting instruction has no effect of its own",
"When an instruction raises a synchronous exception, destination registers, memory, device state, the reservation and CSRs other than the trap CSRs keep the values they had before it, xepc is the address of that instruction, and xcause and xtval identify the actual fault (faulting virtual address, instruction bits, or zero for ECALL). Returning to xepc after the handler removes the cause re-executes the instruction with its normal result.",
["programs","histories","fault_sequences"],"all instructions that can fault, in every privilege mode, under every translation and protection setup, including fault-fix-retry sequences",
T8+"no test takes a trap.",
["src/cpu.rs","src/cpu/trap.rs","src/cpu/fetch.rs","src/lib.rs","src/cpu/execution/inst_32/a_extension.rs"],
[m("exec_one_cycle error path -> Cpu::trap","src/lib.rs"),m("trans_addr before register write","src/cpu.rs")],[s("xepc/xcause/xtval","trap CSRs","src/cpu/csr.rs")],[STEP],HK)

p("C10","Trap entry: delegation, status stack and vector are as specified",
"A trap goes to S-mode exactly when it is taken in S or U mode and its cause is set in medeleg (exceptions) or mideleg (interrupts), and to M-mode otherwise; a trap never lowers the privilege level. On entry xPIE receives xIE, xIE becomes 0, xPP receives the interrupted privilege, xcause receives the cause (interrupt flag in bit XLEN-1), the other mode's trap CSRs are untouched, and pc becomes the xtvec base, plus 4*cause only for interrupts in vectored mode.",
["programs","histories","configurations"],"all causes x privilege levels x delegation masks x status values x vector modes, and all nestings of traps",
T8+"no test takes a trap; nesting and delegation combine into large state spaces.",
["src/cpu/trap.rs","src/cpu/csr.rs"],
[m("Cpu::trap","src/cpu/trap.rs"),m("get_deleg","src/cpu/trap.rs"),m("write_xstatus","src/cpu/csr.rs")],[s("priv_lv","current privilege","src/cpu.rs"),s("mstatus","status stack","src/cpu/csr.rs")],[STEP],HK)

p("C11","Only sufficiently privileged code executes MRET, SRET and SFENCE.VMA",
"MRET is legal only in M-mode; SRET only in M-mode, or in S-mode with TSR=0; SFENCE.VMA only in M-mode, or in S-mode with TVM=0; each is an illegal-instruction exception otherwise, with no other effect. A legal xRET sets pc to xepc, privilege to xPP, xIE to xPIE, xPIE to 1 and xPP to U, so a trap followed by its return restores the interrupted pc, privilege and interrupt enable.",
["programs","histories","configurations"],"all privilege levels x TSR/TVM x MPP/SPP x enable bits; all balanced trap/return nestings",
T8+"no test executes a privileged instruction.",
["src/cpu/execution/inst_32/priv_extension.rs","src/cpu/csr.rs"],
[m("priv_extension::exec","src/cpu/execution/inst_32/priv_extension.rs")],[s("priv_lv","current privilege","src/cpu.rs")],[STEP],HK)

p("C12","CSR access is confined by privilege, read-only and counter-enable rules",
"An access to a CSR from a privilege level below the one encoded in CSR address bits 9:8, a write to a CSR whose address bits 11:10 are both set, an S-mode access to satp while TVM=1, or a U/S-mode access to a user counter not enabled by mcounteren (and, for U, scounteren) raises an illegal-instruction exception and changes no CSR and no register. CSRRS and CSRRC with rs1=x0 (or zero immediate) count as reads only, so they succeed on read-only CSRs.",
["inputs","configurations"],"all 4096 CSR addresses x 6 CSR instructions x 3 privilege levels x counter-enable/TVM settings, both XLENs",
T8+"no test executes a CSR instruction; an isolation guarantee ranges over every CSR address.",
["src/cpu/execution/inst_32/zicsr_extension.rs"],
[m("check_accessible","src/cpu/execution/inst_32/zicsr_extension.rs")],[s("csrs","CSR file","src/cpu/csr.rs")],[STEP],HK)

p("C13","CSR read-modify-write semantics, restricted views and legal values",
"CSRRW/S/C and their immediate forms return the old CSR value in rd and write, set or clear exactly the requested writable bits. sstatus, sie and sip are views of mstatus, mie and mip that expose and modify only the supervisor-visible bits and leave every other bit as it was, ustatus exposes only the user bits, xepc reads with the low bit (or two, without C) clear, unsupported satp modes and reserved MPP encodings are never installed, and the XLEN fields and bits absent on RV32 are not changeable.",
["inputs","histories"],"all CSR values and operands, sequences of accesses through different views, both XLENs",
T8+"no test touches a CSR.",
["src/cpu/csr.rs","src/cpu/execution/inst_32/zicsr_extension.rs"],
[m("CSRs::read/write/bitset/bitclr","src/cpu/csr.rs"),m("smask/umask/mask_warl","src/cpu/csr.rs")],[s("csrs","CSR file","src/cpu/csr.rs")],[STEP],HK)

p("C14","Interrupts are taken exactly when pending, enabled and not masked",
"Before each instruction an interrupt is taken if and only if some cause is pending in mip, enabled in mie, and globally enabled for its target mode: non-delegated ones when below M-mode or mstatus.MIE=1, delegated ones in U-mode, or in S-mode with SIE=1, and never in M-mode. Among takeable causes, non-delegated ones win over delegated ones and the order is MEI, MSI, MTI, SEI, SSI, STI; the interrupted instruction has not executed and xepc is its address.",
["schedules","histories","configurations"],"all mip/mie/mideleg/status/privilege combinations and all arrival points between instructions",
T8+"no test raises an interrupt.",
["src/cpu/trap.rs","src/cpu.rs"],
[m("check_interrupt","src/cpu/trap.rs")],[s("mip/mie/mideleg","interrupt CSRs","src/cpu/csr.rs")],[STEP],HK)

p("C15","The machine timer raises and clears the timer interrupt as time passes",
"mtime advances by 50 for every 5000 executed instructions (and the time CSR with it), is readable and writable at its CLINT address, and otherwise never changes. The timer-interrupt pending bits are set before an instruction exactly when mtime >= mtimecmp as 64-bit unsigned values, so raising mtimecmp above mtime withdraws a pending timer interrupt and lowering it raises one.",
["histories","programs"],"all mtime/mtimecmp values (including 32-bit halves written separately and wrap-around) and all programs across batch boundaries",
T8+"no test advances time.",
["src/cpu.rs","src/cpu/trap.rs","src/bus/clint.rs","src/lib.rs"],
[m("timer_increment","src/cpu.rs"),m("mtime >= mtimecmp comparison","src/cpu/trap.rs"),m("emulation batch loop","src/lib.rs")],[s("mtime/mtimecmp","CLINT registers","src/bus/clint.rs")],[STEP,"CLINT registers"],HK)

p("C16","Sv32/Sv39 translation and page permissions are enforced exactly",
"With paging on, every U/S-mode fetch, load and store (and M-mode data access under MPRV) reaches exactly the physical address given by the page tables, at every level including superpages, or raises the page fault of its access type when an entry is invalid, misaligned, lacks the R/W/X, U/SUM, MXR, A or D permission it needs, or the Sv39 address is not canonical. M-mode fetches and Bare mode are untranslated, and page-table entries are never modified by the walk.",
["inputs","configurations","histories"],"all PTE flag combinations x levels x privilege x access type x SUM/MXR/MPRV, all virtual addresses, and table updates over time",
T8+"no test enables paging.",
["src/cpu/mmu.rs","src/cpu.rs","src/cpu/fetch.rs"],
[m("Mmu::trans_addr","src/cpu/mmu.rs"),m("check_leaf_pte","src/cpu/mmu.rs"),m("Cpu::trans_addr","src/cpu.rs")],[s("satp","root table and mode","src/cpu/csr.rs")],[STEP],HK)

p("C17","Physical memory protection is enforced on every access",
"When PMP entries are active, the lowest-numbered entry whose TOR, NA4 or NAPOT region contains the physical address decides an access: S/U-mode accesses need its R, W or X permission, M-mode ones only if the entry is locked, and denied accesses raise the access fault of their type. If no active entry matches, M-mode accesses succeed and S/U-mode ones fault; with no active entry at all PMP imposes no restriction.",
["configurations","inputs"],"all 16 entries, address-matching modes, permission/lock bits, region layouts and overlaps, privilege levels, access types, both XLENs (accesses wholly inside or outside each region)",
T8+"no test configures PMP.",
["src/cpu/mmu/pmp.rs","src/cpu/mmu.rs"],
[m("Mmu::pmp","src/cpu/mmu/pmp.rs")],[s("pmpcfg/pmpaddr","PMP CSRs","src/cpu/csr.rs")],[STEP],HK)

p("C18","The memory map routes each address to one device or faults",
"Every physical address belongs to exactly one of boot ROM (read-only), CLINT, PLIC, UART and DRAM, or to none, and accesses outside every device, writes to the ROM and access widths a device does not support raise the access fault of their type (instruction, load, store/AMO) with the faulting address and change nothing. The first and last locations of each device behave like its others, and the address just past its end is unmapped.",
["inputs"],"all physical addresses (device boundaries above all) x widths x access types, both XLENs",
T8+"the DRAM tests never go through the bus, and no boundary address is tried.",
["src/bus.rs","src/bus/mrom.rs","src/bus/clint.rs","src/bus/dram.rs","src/bus/plic.rs","src/bus/uart.rs"],
[m("Bus::load*/store* routing","src/bus.rs"),m("in_range/addr2index of each device","src/bus/*.rs")],None,[STEP],HK)

p("C19","PLIC claim/complete delivers each interrupt once, highest priority first",
"A claim returns the pending, enabled, unclaimed source of highest nonzero priority for that context (lowest id on ties), or 0 if there is none, and a claimed source is not returned again until it is completed or its line has dropped. After a completion a source whose line is still high can be claimed again; completing a source that is not enabled, or an id out of range, has no effect; priority, enable and threshold registers read back what was written within their width, with source 0 never enabled.",
["histories","schedules"],"all sequences of line raise/lower, priority/enable/threshold writes, claims and completions over several sources (each enabled in one context)",
T8+"no test touches the PLIC.",
["src/bus/plic.rs"],
[m("context_claim/context_best_pending","src/bus/plic.rs"),m("context_enable_write/set_interrupt_level","src/bus/plic.rs")],
[s("pending/claimed/enable/priority/level","PLIC gateway state","src/bus/plic.rs")],["PLIC register reads by the guest"],HK)

p("C20","External interrupt pending bits follow the PLIC",
"Just before each instruction, the external-interrupt pending bit of the mode a PLIC context serves (MEIP for context 0, SEIP for context 1) reflects that context's latest state change: set if it has an enabled pending unclaimed source with priority above the context's threshold, clear otherwise (until then also cleared by taking that interrupt). A change in one context never raises or withdraws the other context's interrupt.",
["histories","schedules"],"all sequences of line changes, register writes, claims, completions and interrupt entries, one context change per instruction",
T8+"no test touches the PLIC or mip.",
["src/bus/plic.rs","src/cpu/trap.rs"],
[m("context_update -> mip_mask/mip_value","src/bus/plic.rs"),m("check_interrupt merges them into mip","src/cpu/trap.rs")],[s("mip_mask/mip_value","last PLIC update","src/bus/plic.rs")],["mip before each instruction"],HK)

p("C21","The UART transmits and receives every byte once, in order",
"Each byte the guest writes to the transmit register (DLAB=0, no loopback) appears on standard output unchanged, exactly once and in order, and input bytes, or loopback bytes while the 64-byte queue has room, are read from the receive register once each in arrival order, with line-status data-ready set exactly while input remains. With DLAB=1 offsets 0 and 1 access the divisor latch instead and leave data and queue alone; a FIFO-control clear-receive write empties the queue, and other registers read back what was written.",
["histories","schedules","inputs"],"all sequences of register accesses (byte loads signed and unsigned), input arrivals and clock ticks, all byte values",
T8+"no test touches the UART.",
["src/bus/uart.rs","src/bus/uart/io.rs"],
[m("store8_with_plic/load8_with_plic","src/bus/uart.rs"),m("rx_byte/tx_byte/update_interrupt","src/bus/uart/io.rs"),m("tick","src/bus/uart.rs")],[s("rx_queue","received bytes","src/bus/uart.rs")],["stdout bytes","guest register reads"],HK)

p("C22","UART interrupts are raised exactly while their condition holds",
"After any access to the UART that can change it, and after each input arrival, the UART's interrupt line into the PLIC (source 1) is high if and only if the receive interrupt is enabled and data is ready, or the transmit interrupt is enabled (the transmitter is always empty), and the interrupt-identification register shows the corresponding pending cause or none. Reading the last received byte or disabling the enables lowers the line.",
["histories","schedules"],"all sequences of IER/LCR/MCR/FCR writes, data reads and writes, loopback and input arrivals",
T8+"no test touches the UART or PLIC.",
["src/bus/uart/io.rs","src/bus/uart.rs","src/bus/plic.rs"],
[m("update_interrupt","src/bus/uart/io.rs"),m("set_interrupt_level","src/bus/plic.rs")],[s("IER/IIR/LSR","UART interrupt registers","src/bus/uart.rs")],["guest register reads","PLIC pending state"],HK)

p("C23","Host-interface requests get exactly one correct response",
"Whenever the guest leaves an even tohost word whose low 32 bits are not zero, the emulator performs that one system call after the instruction, clears tohost, stores the result in the first argument slot leaving the other seven as they were, and sets fromhost to the request's low 16 bits with bit 0 set if fromhost was zero; an odd tohost word or the exit call ends the process with that status. Without both tohost and fromhost symbols nothing is intercepted.",
["histories","programs"],"all sequences of tohost writes, argument-block locations and syscalls, on RV32 and RV64 guests",
T8+"no test runs the frontend server.",
["src/fesvr.rs","src/lib.rs","src/elfload.rs"],
[m("check_tohost/handle_syscall","src/fesvr.rs"),m("get_host_addr","src/elfload.rs")],[s("tohost/fromhost","mailbox words in guest memory","src/fesvr.rs")],["guest memory","process exit status"],HK)

p("C24","Proxied file calls behave like the host's, on a private descriptor table",
"openat returns the lowest free guest descriptor, 0-2 denote the standard streams, close frees exactly its descriptor, and operations on a closed or never-opened descriptor fail with -EBADF without touching any other file. read, write, pread, pwrite, lseek, fstat and fstatat transfer exactly the requested guest bytes or fields, return what the host call returned (the negated errno on failure, leaving guest buffers untouched), and keep per-descriptor offsets as POSIX defines.",
["histories","fault_sequences"],"all sequences of open/close/read/write/seek/stat calls with valid and invalid descriptors, lengths and offsets",
T8+"no test issues a system call.",
["src/fesvr.rs","src/fesvr/syscall.rs"],
[m("fd_alloc/fd_dealloc/fd_lookup","src/fesvr.rs"),m("openat/close/lseek/read/write/pread/pwrite/fstat","src/fesvr/syscall.rs")],[s("fd_table","guest to host descriptor map","src/fesvr.rs")],["guest argument slot and buffers","files in a scratch directory"],HK)

p("C25","Program segments and boot images are loaded faithfully",
"After construction from a well-formed ELF (32- or 64-bit), DRAM begins at the first loadable segment's physical address, holds the file bytes of every loadable segment at its physical address, the kernel image at its fixed offset and the initrd just below the end of DRAM when given, and zero elsewhere. The XLEN follows the ELF class and the tohost and fromhost symbol values are found wherever the symbols are in the symbol table.",
["inputs","configurations"],"all segment counts, orders, sizes and placements, non-loadable segments, symbol tables, kernel/initrd options",
T8+"the only ELF loaded by tests is HelloWorld and its contents are not checked.",
["src/elfload.rs","src/elfload/elf_64/program_header.rs","src/elfload/elf_32/program_header.rs","src/bus/dram.rs"],
[m("Dram::new","src/bus/dram.rs"),m("ElfLoader::try_new/get_host_addr","src/elfload.rs")],None,["guest memory and XLEN after construction"],None)

p("C26","Reset state and boot hand-off reach the program with a valid device tree",
"Execution starts in M-mode at the boot ROM (or the requested initial pc) with zeroed registers, and the boot code enters the program at the start of DRAM with a0 = hart id 0 and a1 = the address of a well-formed flattened device tree in ROM. That tree describes the machine actually emulated: DRAM base and 2 GiB size, the XLEN's ISA string, CLINT, PLIC and UART addresses and interrupt wiring consistent by phandle, and the initrd range.",
["configurations"],"both XLENs, all DRAM bases, with and without initrd, kernel and explicit pc",
T8+"no test boots or parses the generated device tree.",
["src/bus/mrom.rs","src/bus/device_tree/dts.rs","src/bus/device_tree/dtb/generate.rs","src/bus/device_tree/dtb/parser.rs","src/cpu.rs"],
[m("Mrom::new reset vector","src/bus/mrom.rs"),m("load_dtb/make_dtb","src/bus/device_tree.rs"),m("Cpu::new/CSRs::init","src/cpu.rs")],None,["state on program entry","ROM bytes"],HK)

p("C27","Breakpoint triggers fire exactly on their address, access type and mode",
"An address-match trigger (type 2, exact match) configured through any of the 8 trigger slots raises a breakpoint exception, before the access takes effect and with that address as trap value, exactly when an access of an enabled kind (execute, load, store) in an enabled privilege mode hits its address. Other slots, disabled kinds or modes never fire or suppress a trigger, tselect never leaves the implemented range, and unsupported trigger types are inert.",
["configurations","histories"],"all trigger slots and configurations, selection orders, privilege levels and access kinds",
T8+"no test configures a trigger.",
["src/cpu/csr/breakpoint.rs","src/cpu.rs"],
[m("check_breakpoint","src/cpu/csr/breakpoint.rs"),m("update_triggers","src/cpu/csr/breakpoint.rs")],[s("tselect/tdata1/tdata2","trigger registers","src/cpu/csr/breakpoint.rs")],[STEP],HK)

p("C28","No guest program can crash or corrupt the emulator",
"Whatever instructions, CSR values, page tables, PMP and trigger settings and device accesses a guest uses, the emulator process never panics or aborts: every such instruction either completes or raises an architectural trap, and emulation continues. (Host system-call requests are excluded.)",
["programs","inputs","histories"],"all guest programs: arbitrary instruction words, register and CSR contents, addresses in and around every device, all privilege modes",
T8+"panics hide in unusual encodings, addresses and CSR values that no test uses.",
["src/cpu.rs","src/bus.rs","src/cpu/decode/inst_32.rs","src/cpu/mmu.rs","src/bus/plic.rs","src/cpu/csr/breakpoint.rs","src/bus/uart/io.rs"],
[m("error returns instead of panics on every guest-reachable path","src/cpu.rs")],None,["process survival over random and adversarial guests"],HK)

p("C29","Independent instructions compose: whole programs run as the ISA prescribes",
"For every program and initial machine state, the sequence of architectural states after each instruction (registers, pc, privilege, CSRs, memory) is the one the ISA and this machine's memory map define, with interrupts recognised only between instructions and no effect of one instruction depending on hidden state left by earlier ones. In particular, stores to instruction memory, page tables, satp, status and PMP registers take effect for the very next instruction.",
["programs","histories","schedules"],"all programs mixing integer, compressed, atomic, CSR, trap, translation and device instructions, with timer and external interrupts arriving at any point",
T8+"no test runs more than one instruction.",
["src/lib.rs","src/cpu.rs","src/cpu/fetch.rs","src/cpu/trap.rs"],
[m("Emulator::emulation","src/lib.rs"),m("exec_one_cycle","src/cpu.rs")],None,[STEP],HK)

p("C30","getmainvars hands the guest a correct argument vector",
"The getmainvars call writes, at the given guest address, argc, argc pointers to consecutive NUL-terminated copies of the command-line arguments (proxy kernel path first if used, then the program, then its arguments), a null argv terminator and a null environment terminator, and returns 0. If that block does not fit in the given limit it returns -ENOMEM and writes nothing.",
["inputs"],"all argument counts, lengths and limits around the exact size",
T8+"no test issues a system call or parses arguments.",
["src/fesvr/syscall.rs","src/cmdline.rs"],
[m("getmainvars","src/fesvr/syscall.rs"),m("Arguments::new main_args","src/cmdline.rs")],None,["guest memory after the call"],HK)
p("C31","The log level only adds text",
"Whatever log level (--loglv nolog, diff, info, debug, trace) the emulator is started with, it does the same: the same architectural states after each instruction, the same device and host interactions, the same exit status. The only difference allowed is log text on standard output, in which the program's own output appears complete and in order.",
["configurations","programs","histories"],"all log levels crossed with all programs: instructions, traps, translation, devices, system calls, exit",
T8+"no test sets a log level, and a log message can hide an evaluation, an early return or a panic.",
["src/log.rs","src/cmdline.rs","src/cpu/trap.rs","src/cpu/mmu.rs","src/fesvr/syscall.rs"],
[m("log macros evaluate without effect","src/log.rs")],None,[STEP,"host files, output and exit status"],HK)

p("C32","The inspection options print what the ELF file says and run nothing",
"With -e, -p, -s, -d or -a the emulator prints the ELF header, the program headers with the words of each segment that are in the file, or the executable sections with their disassembly (or all headers, -a), each value taken from its field in the ELF32 or ELF64 layout, every instruction of a section with its encoding and its mnemonic and operands (an undecodable one as unknown), and exits successfully without executing anything. A file whose first bytes are not the ELF magic is refused.",
["inputs","configurations"],"all ELF32 and ELF64 files: header values, table positions and entry sizes, segment and section contents, every instruction encoding",
T8+"no test reads an ELF file.",
["src/main.rs","src/elfload.rs","src/elfload/elf_64/elf_header.rs","src/elfload/elf_64/section_header.rs","src/elfload/elf_32/program_header.rs","src/cpu/instruction.rs"],
[m("ElfLoader::ident, elf_header, program headers, section headers and their show and dump","src/elfload.rs"),m("print_myself","src/cpu/instruction.rs")],None,["standard output and exit status of the emulator"],HK)

p("C33","The log tells what is executed, taken and asked of the host",
"With --loglv info (and debug, trace) the emulator logs, in the order of happening: one line with the pc for each instruction that is fetched (and none for one that cannot be fetched or is preempted by an interrupt), in 8 hexadecimal digits on RV32 and 16 on RV64; for each trap a line naming the exception or interrupt, a line if it is delegated to S-mode, and a line with the address it leads to; for each host call a line with its name and number. With debug and trace it also shows all registers, as they are after each step. With diff it shows nothing for the first 350000000 steps and from then on, for each step, the pc before it and all registers after it.",
["configurations","programs","histories"],"all instructions, traps, interrupts, delegations and host calls, on both XLENs, at each level",
T8+"no test sets a log level.",
["src/log.rs","src/lib.rs","src/cpu/fetch.rs","src/cpu/trap.rs","src/cpu/reg.rs","src/fesvr/syscall.rs"],
[m("infoln/debugln/diffln","src/log.rs"),m("Register::show","src/cpu/reg.rs"),m("Emulator::emulation","src/lib.rs")],None,["the text on standard output, step by step"],HK)

p("C34","The command line means what it says",
"carron [options] file [arguments]: options may stand before, between and after the other arguments, with their value as the next argument or after '=', up to '--', after which nothing is an option; --pk names the program to be run instead of the file, --kernel and --initrd the images to be loaded, --pc (hexadecimal, with or without 0x) the address to start at, --loglv the log level (an unknown one means none); -e, -p, -s, -d and -a (long and short, together with other options) inspect the program file instead of running it, at most one of them; the program's arguments are the pk, the file and the arguments, in order and unaltered. A command line with an unknown option, a missing value, a repeated --pk, --kernel or --initrd, two different inspection options, no file or an address that is not a hexadecimal number of 64 bits, and one that names a program, kernel or initrd that does not exist or a program that is not an ELF file, ends with a non-zero status before anything is executed; --help and --version end successfully and run nothing.",
["inputs","configurations"],"all command lines: every option in every spelling and position, with every other, and each way of being wrong",
T8+"no test starts the emulator from a command line.",
["src/cmdline.rs","src/main.rs"],
[m("Arguments::new","src/cmdline.rs"),m("main","src/main.rs")],None,["standard output and exit status of the emulator"],"")

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
