#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below (one place to edit).
import json, os
REF = "The 139 tests run fixed guest programs on the reference interpreter only"
DUT = "No existing test executes any pipeline module; only the reference interpreter runs, on fixed programs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

# ---------------------------------------------------------------- ISA
p("P01", "Integer, multiply/divide and bit-manipulation results are exact",
  "For every operand value and immediate, each RV32I, M, Zba, Zbb, Zbc and Zbs computational instruction writes the architecturally defined result (including division by zero, signed overflow and shift amounts) to its destination register. The reference interpreter and the pipeline's execution units both do so, and no other register changes. Register x0 always reads zero.",
  ["inputs"], "all 2^64 operand pairs and all immediates of every instruction form of the supported extensions, in both models",
  REF + " with a handful of operand values, and never touch the pipeline's execution units",
  ["diff/ref.cpp", "back-end/Exu/include/Fu.h", "back-end/Idu.cpp"],
  [("reference integer executor", "diff/ref.cpp RV32IM / RV32 OP groups"), ("ALU/MUL/DIV units", "back-end/Exu/include/Fu.h")],
  ["destination register after one instruction", "execution-unit result"])
p("P02", "The decoder reports every supported instruction exactly",
  "For every word that encodes a supported instruction the pipeline decoder reports the operation, the source registers it needs, the destination register it writes (and none for x0), and the sign-extended immediate that the RISC-V encoding prescribes. A word whose major opcode belongs to no supported instruction is reported as an illegal instruction and claims no register. A fetch that faulted is handed on as a fault that executes nothing, whatever word it carries.",
  ["inputs"], "all 2^32 instruction words",
  DUT, ["back-end/Idu.cpp", "include/RISCV.h"],
  [("instruction decoder", "back-end/Idu.cpp decode()")], ["decoded micro-operation"])
p("P03", "Branches and jumps go to the right place in every unit that computes them",
  "For every register value and offset, a conditional branch is taken exactly when its comparison holds, the target is the architecturally defined address, and jumps write the address of the following instruction to the link register. The reference interpreter, the branch unit and the fetch-side predecoder agree on the instruction kind and on every target they compute. The branch unit requests a redirect whenever the predicted next address is not the actual one and never when direction and target were predicted right.",
  ["inputs"], "all operand values, offsets, program counters and predictions",
  REF + "; the branch unit and the predecoder are never executed",
  ["diff/ref.cpp", "back-end/Exu/include/Fu.h", "front-end/predecode.cpp"],
  [("branch unit", "back-end/Exu/include/Fu.h BruUnit"), ("predecoder", "front-end/predecode.cpp"), ("reference branch executor", "diff/ref.cpp")],
  ["next program counter", "link register", "predecode target"])
p("P04", "Loads and stores move exactly the addressed bytes",
  "For every address alignment within a word, access size and data value, a load returns the addressed bytes zero- or sign-extended as its encoding demands, and a store changes exactly the addressed bytes of memory. This holds in the reference interpreter, in the cache-side data helpers and on the memory-mapped I/O path alike.",
  ["inputs"], "all data values, all byte offsets, all access encodings",
  REF + "; the cache and I/O data paths are never executed",
  ["diff/ref.cpp", "back-end/Lsu/include/MemUtils.h", "MemSubSystem/PeripheralAxi.cpp", "MemSubSystem/include/PeripheralModel.h", "MemSubSystem/DcacheConfig.cpp"],
  [("reference load/store", "diff/ref.cpp"), ("byte-strobe merge", "MemSubSystem/DcacheConfig.cpp"), ("I/O read extraction", "MemSubSystem/PeripheralAxi.cpp")],
  ["loaded register", "memory word after a store"])
p("P05", "Atomic memory operations are exact",
  "For every operand, each atomic read-modify-write returns the old memory word and stores the architecturally defined combination of old word and register operand. A store-conditional writes memory and returns zero exactly when a reservation for the same address is held; otherwise memory is unchanged and it returns one, and in either case the reservation is gone afterwards.",
  ["inputs", "histories"], "all operand and memory values, all reservation states",
  REF + " with a few operand values",
  ["diff/ref.cpp", "back-end/Exu/include/Fu.h"],
  [("reference A-extension executor", "diff/ref.cpp RV32A"), ("AMO data unit", "back-end/Exu/include/Fu.h")],
  ["memory word", "destination register", "reservation state"])
p("P06", "CSR instructions read, write and mask exactly the architected bits",
  "For every CSR instruction the destination receives the old value and the register receives the written, set or cleared value restricted to its writable bits; register or immediate operand zero suppresses the write only for the set and clear forms. The supervisor views of status, interrupt-enable and interrupt-pending always agree with the machine registers they alias. The reference interpreter and the pipeline CSR unit give the same result.",
  ["inputs", "histories"], "all CSR numbers supported, all old values, all operands, all six instruction forms",
  REF + " on a few CSRs; the pipeline CSR unit is never executed",
  ["diff/ref.cpp", "back-end/Exu/Csr.cpp"],
  [("reference CSR executor", "diff/ref.cpp RV32CSR"), ("pipeline CSR write", "back-end/Exu/Csr.cpp comb_csr_write")],
  ["CSR file after commit", "destination register"])
p("P07", "Trap entry and return update privileged state exactly",
  "For every cause, privilege level and delegation setting, taking a trap saves the return address, cause and fault value in the registers of the level that handles it, pushes that level's interrupt-enable and previous-privilege fields, enters that level and jumps to its vector. Returning from a trap restores them. The reference interpreter and the pipeline CSR unit do the same, and nothing else in the CSR file changes.",
  ["inputs", "histories"], "all causes, privilege levels, delegation masks, status values and vector bases",
  REF + "; few tests take traps, none with delegation matrices, and the pipeline CSR unit is never executed",
  ["diff/ref.cpp", "back-end/Exu/Csr.cpp"],
  [("reference trap entry", "diff/ref.cpp exception()"), ("pipeline trap entry", "back-end/Exu/Csr.cpp comb_exception"), ("trap return", "diff/ref.cpp, back-end/Exu/Csr.cpp")],
  ["CSR file", "privilege level", "next program counter"])
p("P08", "An interrupt is taken exactly when it is pending, enabled and not masked",
  "An interrupt is recognised exactly when it is pending and enabled and the current privilege level and global enables admit it at the level it is delegated to. The reference interpreter and the pipeline CSR unit recognise the same interrupts for the same register state. External and timer request lines are reflected in the pending register every cycle, and only in the bits they own.",
  ["inputs", "schedules"], "all values of the pending, enable, delegation and status registers and of the privilege level",
  "Tests never raise interrupts with arbitrary enable and delegation masks; the pipeline CSR unit is never executed",
  ["diff/ref.cpp", "back-end/Exu/Csr.cpp"],
  [("interrupt evaluation", "back-end/Exu/Csr.cpp eval_interrupts"), ("reference interrupt evaluation", "diff/ref.cpp exec()")],
  ["interrupt request", "pending register"])
p("P09", "Address translation grants exactly the architected accesses",
  "For every page-table entry, privilege level, status setting and access kind, translation succeeds exactly when the Sv32 rules permit that access and otherwise reports a page fault for it. The reference interpreter, the TLB permission logic and its separately packaged kernel agree, for 4 KiB and 4 MiB pages alike. A successful translation yields the frame of the entry with the page offset of the virtual address.",
  ["inputs"], "all entry bits, privilege levels, status bits, access kinds and virtual addresses",
  REF + " with a few page tables; the TLB logic is never executed",
  ["diff/ref.cpp", "back-end/Lsu/TlbMmu.cpp", "back-end/Lsu/include/TlbMmuKernel.h"],
  [("permission check", "back-end/Lsu/TlbMmu.cpp check_perm"), ("reference walk", "diff/ref.cpp va2pa"), ("kernel", "back-end/Lsu/include/TlbMmuKernel.h")],
  ["translation result and physical address"])
p("P10", "Page-table walks visit the right entries and never use a stale answer",
  "A walk reads the level-one entry selected by the address-space root and the upper virtual page bits, then if it is a pointer the level-two entry selected by it and the lower bits; malformed entries and misaligned large pages fault and a leaf is returned with its level. A memory answer that does not belong to the walk step currently waiting never changes the walk. A walk abandoned by a flush delivers no result.",
  ["inputs", "schedules", "histories"], "all page-table contents, request addresses, response orders and flush instants, one step at a time from any walker state",
  DUT, ["MemSubSystem/PtwWalker.cpp", "MemSubSystem/include/MemPtwBlock.h", "MemSubSystem/include/PtwCompactCoreKernel.h", "diff/ref.cpp"],
  [("shared walker", "MemSubSystem/include/MemPtwBlock.h"), ("private walker", "MemSubSystem/PtwWalker.cpp"), ("packaged kernel", "MemSubSystem/include/PtwCompactCoreKernel.h")],
  ["walk result", "walker state"])
p("P11", "TLB entries serve only the address space and page they were filled for",
  "A cached translation is used only for virtual pages it covers and only for its own address space unless it is global. Refilling stores exactly the walked leaf under the requesting page and address space, and only when the access was permitted. A translation flush leaves no usable entry and no walk in progress.",
  ["inputs", "histories"], "all entries, addresses, address-space numbers and flush instants, one step from any TLB state",
  DUT, ["back-end/Lsu/TlbMmu.cpp", "back-end/Lsu/include/TlbMmu.h", "back-end/Lsu/include/TlbMmuKernel.h"],
  [("entry match", "back-end/Lsu/TlbMmu.cpp entry_matches"), ("refill and flush", "back-end/Lsu/TlbMmu.cpp seq")],
  ["translation answered from the TLB", "TLB contents after a cycle"])
p("P12", "A faulting instruction has no architectural effect besides its trap",
  "When an instruction in the reference interpreter raises an exception, no general-purpose register and no memory byte changes, and the trap reports that instruction's own cause, address and fault value. This includes instruction, load, store and atomic page faults and illegal instructions, regardless of what the previous instruction was.",
  ["inputs", "histories"], "all faulting instructions and all preceding interpreter states",
  "Tests take a few traps from fixed predecessors; stale state left by an arbitrary previous instruction is not explored",
  ["diff/ref.cpp"], [("fault paths", "diff/ref.cpp exec(), va2pa, RV32IM, RV32A")],
  ["registers, memory, cause and fault value after the trap"])
p("P13", "Word memories of both models return exactly what was last written",
  "Reading a word of the reference memory or of the machine's physical memory returns the last word written to that word address, in RAM and in the I/O space alike, and zero if none was. A write or bulk copy changes exactly the addressed bytes, a masked write exactly the bytes whose mask bit is set. An access never reaches outside the allocated RAM, and a bulk copy that would is refused.",
  ["inputs", "histories"], "all data values and masks at addresses around every edge of RAM and of the address space, after any two earlier writes",
  REF + " and never read across the edges of the RAM window",
  ["diff/ref.cpp", "back-end/PhysMemory.cpp", "include/PhysMemory.h", "MemSubSystem/DcacheConfig.cpp"],
  [("reference word memory", "diff/ref.cpp RefCpu::load_word/store_word"), ("physical memory", "back-end/PhysMemory.cpp"), ("byte strobes", "MemSubSystem/DcacheConfig.cpp apply_strobe")],
  ["words read back"])
# ---------------------------------------------------------------- pipeline
p("P14", "Renaming links every operand to its youngest older producer",
  "Within and across rename groups, each source register of an instruction is mapped to the physical register of the youngest older instruction that writes it, or to the committed mapping if none is in flight. Each destination gets a distinct free physical register, register zero is never remapped, and the previous mapping recorded for release is the one just replaced.",
  ["inputs", "histories"], "all rename groups and all prior mapping tables",
  DUT, ["back-end/Ren.cpp", "back-end/include/Ren.h"],
  [("rename table and bypass", "back-end/Ren.cpp comb_rename/comb_fire"), ("allocation", "back-end/Ren.cpp comb_alloc")],
  ["physical sources and destination of each renamed instruction", "mapping tables"])
p("P15", "Recovery restores the exact register mapping and loses no physical register",
  "After a pipeline flush the speculative mapping equals the committed mapping, and after a branch misprediction it equals the mapping at that branch. Allocation resumes exactly after the last surviving allocation, commit releases exactly the physical register it replaces, and a recovery takes priority over a rename in the same cycle.",
  ["histories", "schedules"], "all mapping tables, checkpoints and free-list positions, one cycle from any state",
  DUT, ["back-end/Ren.cpp"],
  [("flush and checkpoint restore", "back-end/Ren.cpp"), ("free list", "back-end/Ren.cpp comb_commit")],
  ["mapping tables and free-list pointers after the cycle"])
p("P16", "Branch tags are unique, tag zero is never handed out, and all come back",
  "A tag given to a branch is free at that time, nonzero and different from the tags given to other branches of the same group; every instruction carries the tags of exactly the unresolved older branches. A misprediction returns the tags of exactly the younger branches, resolution returns the resolved tag, and a flush returns all.",
  ["histories", "schedules"], "all tag pools, decode groups, resolutions and recoveries, one cycle from any state",
  DUT, ["back-end/Idu.cpp", "back-end/include/Idu.h"],
  [("tag allocation", "back-end/Idu.cpp comb_decode"), ("tag release", "back-end/Idu.cpp comb_branch/comb_fire")],
  ["tag pool and branch masks after the cycle"])
p("P17", "Squashes remove exactly the wrong-path work in every pipeline structure",
  "On a pipeline flush no speculative instruction survives in any stage; on a branch misprediction exactly the instructions depending on that branch are removed and all others survive unchanged except for resolved tags. When a branch resolves, its tag disappears from every surviving instruction. A removed instruction produces no completion, wake-up, write-back, redirect or memory request.",
  ["schedules", "histories"], "all contents of every stage and queue and all combinations of flush, misprediction and resolution in a cycle",
  DUT, ["back-end/Ren.cpp", "back-end/Dispatch.cpp", "back-end/include/IssueQueue.h", "back-end/Isu.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp", "back-end/Exu/include/AbstractFU.h", "back-end/Rob.cpp"],
  [("stage kill/clear", "comb_pipeline / comb_flush of each stage"), ("queue kill", "back-end/include/IssueQueue.h flush_br/clear_br/flush_all")],
  ["stage registers after the cycle", "stage outputs in the cycle"])
p("P18", "Issue selects only ready, permitted instructions, each once",
  "An instruction is issued only when all operands it uses are ready, to a port that can execute it and accepts it, at most once and at most one per port, and never in a cycle that squashes. Among instructions a port could execute, the one ranked first by the configured selection order is offered to it, and one is passed over only after a port declined it; an issued instruction leaves its queue in the same cycle.",
  ["inputs", "schedules"], "all queue contents, ages including age wrap-around, port availability and operand readiness",
  DUT, ["back-end/include/IssueQueue.h", "back-end/Isu.cpp"],
  [("selection", "back-end/include/IssueQueue.h schedule/issue")], ["issued set and queue contents"])
p("P19", "Consumers wake exactly when their operand can be bypassed",
  "A producer wakes dependants after the latency its execution unit really has, on every path that can produce a result, and a wake-up marks ready exactly the operands that name the produced register. A newly inserted instruction sees wake-ups of the same cycle. The latency the scheduler assumes for each operation equals the latency of the unit that executes it.",
  ["inputs", "schedules"], "all operations, wake-up combinations and queue contents",
  DUT, ["back-end/Isu.cpp", "back-end/include/IssueQueue.h", "back-end/Dispatch.cpp", "back-end/Exu/include/FPU.h", "back-end/Exu/include/Fu.h"],
  [("latency table and wake pipes", "back-end/Isu.cpp"), ("wake-up", "back-end/include/IssueQueue.h wakeup"), ("busy table", "back-end/Dispatch.cpp")],
  ["ready flags and wake-up buses"])
p("P20", "Operands and write-backs always carry the newest value",
  "An operand read returns the newest value written or being written to that physical register, from the register file or any later bypass source. Each completed result that writes a register is stored in exactly its destination, squashed results are not, and physical register zero stays zero. Load results overrule nothing but their own destination.",
  ["inputs", "schedules"], "all register contents, in-flight results and read/write combinations in a cycle",
  DUT, ["back-end/Prf.cpp", "back-end/include/Prf.h"],
  [("read with bypass", "back-end/Prf.cpp comb_read"), ("write-back", "back-end/Prf.cpp comb_write")],
  ["operands delivered", "register file after the cycle"])
p("P21", "Execution units neither lose, duplicate nor reorder accepted work",
  "An instruction accepted by an execution unit appears at its output exactly once, after the unit's latency, with its own identity, and stays there until taken. A unit that cannot accept says so, and a squash removes only the affected instructions.",
  ["schedules", "histories"], "all unit occupancies, accept/consume/squash combinations, one cycle from any occupancy",
  DUT, ["back-end/Exu/include/AbstractFU.h", "back-end/Exu/include/Fu.h"],
  [("fixed-latency and iterative unit protocol", "back-end/Exu/include/AbstractFU.h")], ["unit outputs and next occupancy"])
p("P22", "Retirement is in order, complete and precise",
  "Only the oldest instructions retire, and only when every part of them has completed. An instruction that traps, returns from a trap, or otherwise changes machine control retires alone and squashes everything younger; nothing younger than a trapping instruction ever retires. A memory fence never retires while an older store is still pending.",
  ["schedules", "histories"], "all reorder-buffer contents, one cycle from any state",
  DUT, ["back-end/Rob.cpp", "back-end/include/Rob.h"],
  [("commit selection", "back-end/Rob.cpp comb_commit"), ("completion tracking", "back-end/Rob.cpp comb_complete")],
  ["retired set, squash and redirect requests"])
p("P23", "Dispatch hands each instruction to the right queues with consistent identities",
  "Each instruction is split into exactly the parts its operation needs, each part goes to a queue that supports it, and the number of parts expected at completion equals the parts sent. Reorder, load-queue and store-queue identities follow program order, are never shared, and never exceed the space their owners announced. An instruction is dispatched only if all older instructions of its group are, and all its parts or none.",
  ["inputs", "schedules"], "all dispatch groups, queue availabilities and operation kinds",
  DUT, ["back-end/Dispatch.cpp", "back-end/include/Dispatch.h"],
  [("splitting", "back-end/Dispatch.cpp decompose_inst"), ("allocation and back-pressure", "back-end/Dispatch.cpp comb_alloc/comb_dispatch/comb_fire")],
  ["parts sent to queues and to the reorder buffer"])
p("P24", "Instruction attributes survive every hand-over between pipeline stages",
  "Whenever an instruction moves from one pipeline stage, queue or record format to the next, every attribute present on both sides has the same value after the move. Classification of an instruction as load, store, exception or serialising is the same in every record format that describes whole instructions.",
  ["inputs"], "all attribute values of every hand-over conversion",
  DUT, ["back-end/include/IO.h", "back-end/include/types.h", "back-end/include/IssueQueue.h", "back-end/include/Rob.h", "back-end/Exu/include/ExuTypes.h"],
  [("record conversions", "from_*/to_* members of the stage records")], ["attributes on both sides of each conversion"])
p("P25", "Fetched instructions reach decode in order, once, with their prediction context",
  "Instructions accepted from fetch leave the fetch queue in order, exactly once and unchanged, together with the prediction record of their own fetch group. The queue never accepts more than it can hold, a squash empties it, and a prediction record is reclaimed only after its group has left the machine.",
  ["schedules", "histories"], "all queue occupancies, accept/consume/squash combinations, one cycle from any state",
  DUT, ["back-end/PreIduQueue.cpp", "back-end/InstructionBuffer.cpp", "back-end/include/InstructionBuffer.h", "back-end/include/FTQ.h"],
  [("instruction buffer", "back-end/InstructionBuffer.cpp"), ("fetch target queue", "back-end/PreIduQueue.cpp")],
  ["instructions and records delivered", "queue state after the cycle"])
p("P26", "Combinational logic never disturbs current state; clock edges commit all of it",
  "Evaluating a module's combinational logic leaves its registered state as it was at the start of the cycle, so evaluation order within the module cannot leak future values. At the clock edge every registered element takes its computed next value, and an element not mentioned in a cycle keeps its value. Every registered element has a defined value before the first cycle.",
  ["schedules", "histories"], "all modules with registered state, all inputs and states",
  DUT, ["back-end/Idu.cpp", "back-end/Ren.cpp", "back-end/Dispatch.cpp", "back-end/Isu.cpp", "back-end/Prf.cpp", "back-end/Exu/Exu.cpp", "back-end/Exu/Csr.cpp", "back-end/PreIduQueue.cpp", "MemSubSystem/MSHR.cpp", "MemSubSystem/WriteBuffer.cpp"],
  [("begin/compute/commit phases", "comb_begin, comb_*, seq of each module")], ["registered state before and after each phase"])
# ---------------------------------------------------------------- memory system
p("P27", "The data cache finds, merges and evicts lines without corrupting them",
  "An address and its set, tag and word position determine each other uniquely, a lookup hits exactly the valid way holding the line, and a store changes exactly the strobed bytes of that line and marks it dirty. A refill replaces one way chosen by the replacement policy, an invalid way first, and a dirty victim is handed intact to the write-back path before it is overwritten.",
  ["inputs", "histories"], "all addresses, line contents, strobes and way states",
  DUT, ["MemSubSystem/DcacheConfig.cpp", "MemSubSystem/RealDcache.cpp"],
  [("address split", "MemSubSystem/DcacheConfig.cpp"), ("lookup/merge/evict", "MemSubSystem/RealDcache.cpp")],
  ["cache arrays and responses after the cycle"])
p("P28", "Cache misses merge per line and return memory data plus pending stores",
  "At most one outstanding miss exists per line, a new miss takes a free slot only, and stores to a line being fetched are applied byte-exactly on top of the memory data. A fill is delivered only for the slot whose data has arrived, exactly once, and the slot is then free. Requests to memory carry the line address and slot identity of the miss.",
  ["schedules", "histories"], "all slot contents, request mixes and response orders, one cycle from any state",
  DUT, ["MemSubSystem/MSHR.cpp", "MemSubSystem/include/MSHR.h"],
  [("miss slots", "MemSubSystem/MSHR.cpp")], ["slots, fills and memory requests after the cycle"])
p("P29", "Evicted lines drain in order and stay visible until memory has them",
  "Evicted lines are written to memory in eviction order, whole, exactly once. Until memory acknowledges a line, loads of that line see its newest data and stores either merge into it byte-exactly or are told to retry; a line whose transfer has begun is never modified.",
  ["schedules", "histories"], "all buffer contents, push/merge/bypass/acknowledge combinations, one cycle from any state",
  DUT, ["MemSubSystem/WriteBuffer.cpp", "MemSubSystem/include/WriteBuffer.h"],
  [("write-back FIFO", "MemSubSystem/WriteBuffer.cpp")], ["buffer contents, bypass data and memory requests"])
p("P30", "Memory requests are routed without loss; answers reach only their requester",
  "Each cycle at most one translation or instruction-fetch request borrows a load port, by fixed priority, and a load it displaces is told to retry. Answers return only to the client that asked, a load answer never reaches the core for a borrowed slot nor the reverse, and an instruction-side lookup is told that a line is not held only while memory has its latest contents. A request that has to wait for memory is tried again and answered in the end with the current contents of the word it asked for, whatever the other clients do meanwhile.",
  ["schedules", "inputs"], "all request and response combinations in a cycle",
  DUT, ["MemSubSystem/MemRouteBlock.cpp", "MemSubSystem/include/MemRouteBlock.h", "MemSubSystem/include/MemPtwBlock.h", "MemSubSystem/MemSubsystem.cpp"],
  [("routing", "MemSubSystem/MemRouteBlock.cpp")], ["cache requests, core responses, client events"])
p("P31", "Devices change only by retired stores; interrupts follow device state",
  "Reading a device register has no effect on the machine other than the returned value, and a device changes state only when a store to it retires or time passes. Timer and external interrupt lines are asserted exactly while their condition holds, and a device transfer touches memory only inside installed RAM.",
  ["inputs", "histories"], "all device states, addresses and stored values",
  DUT, ["MemSubSystem/include/PeripheralModel.h", "MemSubSystem/PeripheralAxi.cpp"],
  [("device model", "MemSubSystem/include/PeripheralModel.h")], ["device state, interrupt lines, memory"])
p("P32", "Loads observe older stores; memory effects occur in order after retirement",
  "A load returns for each byte the data of the youngest older store to it, or memory if there is none, and waits when an older store's address or data is not yet known or overlaps partially. Stores change memory exactly once and only after they retire, those to one location and those to devices in program order; squashed and failed conditional stores never do. A device access happens only when everything older has finished, and receives its own answer.",
  ["schedules", "histories", "inputs"], "all queue contents and address relations",
  DUT, ["back-end/Lsu/RealLsu.cpp", "back-end/Lsu/include/RealLsu.h", "back-end/Lsu/include/MemUtils.h"],
  [("store-to-load forwarding", "back-end/Lsu/RealLsu.cpp"), ("store commit", "back-end/Lsu/RealLsu.cpp")],
  ["load results, memory requests"])
# ---------------------------------------------------------------- front end
p("P33", "The instruction cache delivers the right line for the right request only",
  "Every fetch request that is not cancelled is answered with its own address and the newest contents of the line at the translated address, cut at the end of the line; a failed translation is reported as a page fault without data. A request cancelled by a redirect never produces a response, memory data arriving for it is swallowed without disturbing a later request, and its place among the reads under way is given back. After an instruction-cache invalidation no old line is usable.",
  ["schedules", "histories", "inputs"], "all request, redirect, invalidation, translation and memory timings; all line contents",
  DUT, ["front-end/icache/icache_module.cpp", "front-end/icache/include/icache_module.h", "front-end/icache/ICacheTop.cpp", "front-end/icache/icache.cpp"],
  [("cache controller", "front-end/icache/icache_module.cpp"), ("cache top level and tables", "front-end/icache/ICacheTop.cpp, front-end/icache/icache.cpp")], ["fetch responses, table writes, memory requests"])
p("P34", "Fetch redirection repairs every misprediction that predecode can see",
  "After predecode no non-branch is treated as taken and every unconditional jump is, and the next fetch address is the target of the first taken direct branch or jump, the predicted address if the first taken one is indirect, or the sequential address if none is taken. A redirect is requested exactly when that address differs from the predicted one.",
  ["inputs"], "all fetch groups, predictions and targets",
  DUT, ["front-end/predecode_checker.cpp", "front-end/predecode.cpp"],
  [("predecode check", "front-end/predecode_checker.cpp")], ["corrected directions, next address, redirect request"])
p("P35", "Fetch-side queues are first-in first-out and empty after a redirect",
  "Entries leave the fetch address, instruction, prediction and front-to-back queues in the order they entered, unchanged and exactly once, including entries that pass through in the same cycle. Full and empty indications match the occupancy after the cycle, and a reset or redirect discards everything queued before it.",
  ["schedules", "histories"], "all occupancies and read/write/redirect combinations, one cycle from any state",
  DUT + "; the queues are not even compiled by the test build",
  ["front-end/fifo/PTAB.cpp", "front-end/fifo/fetch_address_FIFO.cpp", "front-end/fifo/front2bank_FIFO.cpp", "front-end/fifo/instruction_FIFO.cpp"],
  [("queue step functions", "front-end/fifo/*.cpp")], ["queue outputs and contents after the cycle"])
p("P36", "Packed module interfaces carry every signal unchanged",
  "Wherever a module's state or ports are packed into a bit vector and unpacked again, every field within its declared width comes back with the same value and no two fields share a bit. Evaluating a module through its packed form gives the same outputs and next state as evaluating it directly.",
  ["inputs"], "all field values of every packed interface",
  DUT, ["front-end/icache/icache_module.cpp", "front-end/icache/ICacheTop.cpp", "back-end/Lsu/TlbMmu.cpp", "back-end/Lsu/include/TlbMmuKernel.h", "MemSubSystem/include/MemPtwBlock.h", "MemSubSystem/include/PtwCompactCoreKernel.h"],
  [("packing pairs", "encode_*/decode_* and *_io_generator functions")], ["fields before packing and after unpacking"])
# ---------------------------------------------------------------- global
p("P37", "Simulation is deterministic: nothing outside the machine state influences it",
  "Two runs with the same configuration, image and inputs take exactly the same architectural steps and cycles: no module's evaluation depends on host time, host randomness, addresses of host objects, environment or uninitialised storage. Diagnostics, statistics and debug checks that may be compiled out have no effect on machine state.",
  ["configurations", "histories"], "all code reachable from the per-cycle and per-instruction evaluation",
  "A run only shows one outcome; absence of ambient influence over all code is not observable by tests",
  ["diff/ref.cpp", "back-end", "MemSubSystem", "front-end", "rv_simu_mmu_v2.cpp"],
  [("evaluation functions", "comb*/seq*/exec of every module"), ("debug assertions", "back-end/include/util.h Assert")],
  ["calls to ambient sources", "effects inside diagnostic code"])
p("P38", "No instruction or module input makes the simulator itself misbehave",
  "Executing any instruction word with any register contents, and evaluating any module on any input its interface admits, never indexes outside an array, shifts by an out-of-range amount, divides by zero or dereferences an invalid pointer.",
  ["inputs", "histories"], "all inputs of the analysed entry points",
  "Tests run without instrumentation and on fixed programs; undefined behaviour can give the expected answer by luck",
  ["diff/ref.cpp", "back-end/Exu/include/Fu.h", "back-end", "MemSubSystem", "front-end"],
  [("index masks and guards", "throughout")], ["memory accesses, shifts and divisions of the analysed functions"])
p("P39", "Loading images and checkpoints never trusts the file",
  "Restoring a checkpoint, loading an image or taking over the reference's state either reproduces exactly the recorded machine state or stops with a diagnostic; sizes, counts and addresses found in the file are validated before they are used to index or fill memory, and a file that ends early is refused. The validation is present in optimised builds.",
  ["inputs", "configurations"], "all file contents",
  "Tests load well-formed images only, through the reference runner",
  ["back-end/BackTop.cpp"],
  [("checkpoint restore", "back-end/BackTop.cpp")], ["uses of file-supplied values"])
p("P40", "Single-precision instructions apply the right operation to the right operands",
  "Every Zfinx instruction applies the IEEE operation named by its encoding to its own operands in their own order, under the rounding mode its encoding selects, and writes that result to its destination register. Sign injection, classification and the selection rules of minimum and maximum are exact for all bit patterns. The reference interpreter and the pipeline floating-point unit agree for every instruction both support.",
  ["inputs"], "all operand bit patterns and all encodings of the floating-point opcodes",
  REF + " with a few operands; the pipeline unit is never executed",
  ["diff/ref.cpp", "back-end/Exu/include/FPU.h"],
  [("reference Zfinx executor", "diff/ref.cpp RV32Zfinx"), ("pipeline FP unit", "back-end/Exu/include/FPU.h FPUSoftfloat")],
  ["destination register", "execution-unit result"])
p("P41", "Within a cycle every signal is computed before it is used",
  "In each cycle every stage of the core is evaluated and then clocked exactly once, and no stage acts on a value left over from the previous cycle where the design calls for this cycle's value. A squash overrides what the same cycle puts into a queue, and squashed work is not sent to memory or devices in that cycle.",
  ["schedules", "histories"], "the evaluation order of one cycle, over all signals between stages",
  "The suites never run a cycle of the core; a stale signal shows only when it changes in the very cycle in which it is used early",
  ["back-end/BackTop.cpp", "rv_simu_mmu_v2.cpp"],
  [("core evaluation order", "back-end/BackTop.cpp BackTop::comb"), ("clock edge", "back-end/BackTop.cpp BackTop::seq"), ("machine cycle", "rv_simu_mmu_v2.cpp SimCpu::cycle")],
  ["order of signal reads and writes within a cycle"])
p("P42", "After a squash, execution continues at the one correct address",
  "A trap return continues at the saved address, a trap at its vector, any other serialising instruction at the one after it, and a mispredicted branch at its resolved successor; a squash at retirement takes precedence over one by a branch. The same address is reported as the successor of the instructions retired in that cycle. A translation fence drops the data translations and a squash abandons the page walk in flight, so no translation is delivered for squashed work.",
  ["inputs"], "all combinations of retirement and branch broadcasts",
  "The suites never run the core; the redirect of each kind of squash needs a program that traps, returns, fences and mispredicts",
  ["back-end/BackTop.cpp"],
  [("redirect selection", "back-end/BackTop.cpp BackTop::comb"), ("data translation control", "back-end/BackTop.cpp BackTop::comb_lsu_mmu")],
  ["redirect address, reported successor, translation requests"])
p("P43", "Branch prediction tracks the fetched stream and recovers with it",
  "Every fetch group gets the successor its predictions imply: the target of the first branch predicted taken, with returns taking the most recent unreturned call, or else the group that follows. Speculative branch history and return addresses follow the predicted stream, the retired ones follow the retired stream, and a redirect restores the speculative from the retired. Every retired branch trains the predictors exactly once, in order, with what was recorded when it was predicted, and training that cannot be taken is held back instead of dropped.",
  ["histories", "inputs", "schedules"], "all predictor answers, histories, return stacks, training backlogs and redirects",
  "The suites never run the predictor top; a wrong history or a lost training record costs performance only and never fails a functional test",
  ["front-end/BPU/BPU.h"],
  [("predictor top", "front-end/BPU/BPU.h BPU_TOP")],
  ["predicted successor, histories, return stack, training requests"])
p("P44", "The predictor predicts what it has been taught",
  "After a branch has been taught, the next look-up of the same address yields the taught kind and, when taken, the taught target; an indirect jump is predicted from its own history. Teaching one branch never creates a second entry for it and never forgets another one while there is room. Confidence counters stay in their range.",
  ["histories", "inputs"], "all taught addresses, targets, kinds and occupancies of the looked-up set",
  "The tables are never executed by the suites; a stale or duplicated entry only lowers accuracy",
  ["front-end/BPU/target_predictor/BTB_top.h", "front-end/BPU/type_predictor/TypePredictor.h"],
  [("target tables", "front-end/BPU/target_predictor/BTB_top.h BTB_TOP"), ("kind table", "front-end/BPU/type_predictor/TypePredictor.h TypePredictor")],
  ["answers to the next look-up, table contents"])
p("P45", "Lockstep comparison reports every retired instruction and misses no difference",
  "Each retired instruction is reported to the lockstep comparison with the registers, control registers, memory effect, faults and successor it really produced, and the simulation stops on any difference from the reference and on nothing else. The comparison is skipped, and the reference made to follow the core, exactly where the reference cannot know the outcome: device accesses, interrupts, reads of pending interrupts and instructions marked as such. Devices observe exactly the retired stores that reach memory, and branch statistics count each retired branch once under its own kind.",
  ["inputs", "histories"], "all retired instructions, machine states and reference states",
  "The comparison needs the missing reference library and is not linked into any suite; a comparison that overlooks something makes every other test pass",
  ["rv_simu_mmu_v2.cpp", "diff/diff.cpp"],
  [("report of a retired instruction", "rv_simu_mmu_v2.cpp SimCpu::difftest_prepare"), ("retirement side effects", "rv_simu_mmu_v2.cpp SimCpu::commit_sync"), ("comparison", "diff/diff.cpp difftest_step"), ("hand-over", "diff/diff.cpp difftest_sync_from_dut")],
  ["reported state, decision to stop, device notifications, counters"])
p("P46", "Every bus request and answer crosses between core and bus exactly once",
  "In every cycle of the machine the memory system sees the bus's answers of that cycle and the bus sees the memory system's requests of that cycle, unchanged and for the right requester; cached accesses go through the last-level cache and device accesses bypass it. When the bus runs several steps per cycle of the core, a request is presented once, an answer is taken once, and an acceptance in any step is seen by the core in its next cycle. Memory and devices see the bus's requests of each step and the bus their answers.",
  ["inputs", "schedules", "configurations"], "all requests, answers and acceptances of the bus in every step of a cycle",
  "The file that couples core and bus is not compiled by any suite, because the bus is a missing submodule",
  ["rv_simu_mmu_v2.cpp", "MemSubSystem/include/MemSubsystem.h"],
  [("one cycle of the machine", "rv_simu_mmu_v2.cpp SimCpu::cycle"), ("bus ports of the memory system", "MemSubSystem/include/MemSubsystem.h MemSubsystem")],
  ["ports of the bus, the memory system, the memory and the devices at each evaluation"])
with open("/verif/properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
