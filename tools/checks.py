# technique and scope of every check (one place to edit; tools/gen_manifest.py)
VF = "gated value-flow dataflow analysis with value numbering over LLVM IR of the current source"
NOTES = "Static analysis only: repository code is compiled to LLVM IR with clang and never executed. See DESIGN.md."
EF = "interprocedural effect analysis over the LLVM IR of every translation unit"
EV = "interprocedural effect analysis over the LLVM IR of every translation unit plus gated value-flow analysis of clock-edge functions"
NA = {}
CHECKS = {
 "P01": (VF, "every operand value of every listed instruction form, one form at a time; carry-less products of the reference on fixed register numbers; obligations the normal form cannot settle are counted as undecided in the evidence"),
 "P02": (VF, "all instruction words of each encoding class, arbitrary leftovers in the output latch, one decode slot at a time"),
 "P03": (VF, "all operand values, offsets, program counters and predictions, one instruction form at a time"),
 "P04": (VF, "every data value and alignment, one access form at a time; with open register numbers the reference obligations are mostly undecided and only searched for counterexamples"),
 "P05": (VF, "every operand, memory word and reservation state, one operation at a time; pipeline reservation handling is part of P32"),
 "P06": (VF, "every CSR, every operand and every prior CSR state, one CSR and instruction form at a time; pipeline (decode, CSR unit, value reaching the destination, squashed writes) and reference"),
 "P07": (VF, "every prior CSR state, privilege level, cause, fault address and program counter"),
 "P08": (VF, "every pending/enable/delegation state at every privilege level; the reference is compared with the cause the pipeline records, so the order among simultaneous interrupts is only required to agree"),
 "P12": (VF, "one instruction from any state of the reference, for every faulting class of instruction"),
 "P13": (VF, "unknown data and byte offsets in windows around the edges of RAM and of the address space; words chosen in every coincidence pattern; the hash map of I/O words is replaced by a small associative array with the same interface"),
 "P09": (VF, "every page-table content, address, privilege and access type of one translation, in the reference walk and in the TLB permission check"),
 "P10": (VF, "one step of each walker from any consistent state with arbitrary requests, grants, up to two memory answers, wake-ups and flushes; the packed form is compared with the shared walker bit by bit"),
 "P11": (VF, "lookup with every entry differing from the request in at most one chosen bit of each compared field, all positions; one step of the refill and walk bookkeeping from any state"),
 "P14": (VF, "one decoded group of any shape from any mapping, at every position of the free-list ends and for representative fill levels"),
 "P15": (VF, "one recovery, retirement or checkpoint step from any mapping, at every position of the free-list ends and for representative fill levels"),
 "P16": (VF, "one cycle of the tag allocator from every state in which a tag is free exactly when no unresolved branch holds it, with arbitrary instructions, resolutions and flushes"),
 "P18": (VF, "every operand-readiness and port-acceptance combination over queues holding up to three instructions in varying slots, operations and ages"),
 "P19": (VF, "each kind of producer with its consumers in three queues through issue, register read and execution with unknown data; every combination of wake-up sources in one cycle; a divide and a floating-point operation finishing around the same cycle"),
 "P20": (VF, "every combination of live results at every port and unit with unknown data, for each register an operand can name relative to them; two cycles of write-back under any squash"),
 "P21": (VF, "every five-cycle pattern of offering and taking with one squash at any time for the pipelined unit; every squash and take time for the iterative units; pseudo-random mixes of operations through both arithmetic ports, all with unknown data"),
 "P17": (VF, "one instruction of every kind followed from its queue to completion with every kind of squash in every cycle of its life, unknown data; every tag, squash and resolution combination over queue contents, wake-up bookkeeping, returning memory results and a pair of resolving branches; dispatch stage contents as in P23"),
 "P23": (VF, "two-instruction groups over 24 operation kinds with unknown operands, identities, queue space and squash signals"),
 "P22": (VF, "a two-instruction retirement line with every type, completion, fault and squash state at every line of the buffer; accepted groups of every shape; one completion per port kind and every order of the three parts of an atomic; a misprediction at every distance from the tail"),
 "P34": (VF, "every instruction word, address and prediction, one combination of instruction kinds per group; the fetch pipeline around it with scripted predictor and instruction cache, scripted timing and unknown contents"),
 "P35": (VF, "every occupancy and request of each queue with unknown entries, followed until drained; the queues inside the fetch pipeline under scripted timing (predictor and instruction cache replaced) with unknown contents"),
 "P25": (VF, "queue and prediction-record ring driven through its own steps: 73 scripted runs (all ring positions, full/empty, squash at every distance), contents unknown"),
 "P24": (VF, "every field common to both records of every conversion with unknown contents; classification over every operation kind; the fetch bundle and the squash/retire bundle through the top level with the fetch pipeline replaced"),
 "P27": (VF, "cache, miss registers and write buffer as wired by the repository, driven cycle by cycle with scripted timing (pseudo-random accesses on four ports, memory delays, extra cache ticks) over lines competing for one set; all data and byte masks unknown; address split and replacement choice over all inputs"),
 "P28": (VF, "the miss registers alone in 48 scripted runs of 100 cycles (offers, answers, strays, refused refills) and inside the cache in 80 more, including exhausted registers and same-cycle misses; data and masks unknown"),
 "P29": (VF, "the write buffer alone in 48 scripted runs and inside the cache in 24 more with slow writes until it is full; data and masks unknown"),
 "P31": (VF, "every device register is read, written and ticked with all register contents unknown; transfers and port handshakes use enumerated ranges and schedules with unknown data"),
 "P32": (VF, "address relations, schedules, squashes and device latencies are enumerated from a fixed generator (248 schedules of 160 cycles); all data are unknown"),
 "P30": (VF, "the sharing logic is enumerated over requesters, previous user, answer kind and waiting clients with unknown addresses and data; 128 scripted runs of the wired memory system with five guest clients, data unknown"),
 "P40": (VF, "all Zfinx words with unknown operands of 20 shapes each; arithmetic library calls are uninterpreted functions of operands and rounding mode; 174 min/max/class obligations over fully unknown pairs stay undecided"),
 "P33": (VF, "instruction cache with its tables and top level in 96 scripted runs (redirects, invalidations, remaps, slow or accept-late memory, exhausted read names, both controller forms); line contents unknown; TLB and memory interconnect are replaced by models"),
 "P36": (VF, "every field of every packed interface carried with unknown contents; packed and direct evaluation compared over unknown state (TLB, walker) or scripted control with unknown data (instruction cache)"),
 "P38": (VF, "array bounds, addresses, shift amounts and divisors of everything the other checks evaluate (reference, units, pipeline stages, memory system, fetch, predictor top and target tables, loading, lockstep comparison), over a selection of their inputs; the predictor's direction tables, statistics and the absent interconnect are not covered"),
 "P39": (VF, "unknown file contents with one field wrong at a time, every read cut short, unknown image size; file access and the reference's own start are replaced by models; the interrupt-controller range is shortened"),
 "P26": (EV, "All write effects of the program are over-approximated by type and field and checked against the set of registered elements; clock edges and cycle starts of 15 modules are compared element by element with unknown contents. Elements without a current/next pair (except the predictor's) and translation-lookaside state are outside."),
 "P37": (EF, "Decided as necessary clauses: no ambient source, no address as number, no never-assigned local, assertions and counters without effect on anything else, statistics deciding nothing. A variable assigned on some paths only, and the missing submodules, are outside."),
 "P41": (EF, "Program-order reads and writes of the signals between stages, by record type and field, over one cycle; clocking, evaluation of every step and the order of steps within a stage are checked as well. Nine uses of last cycle's value, of six signals, are specified; values travelling through a stage's own state are outside."),
 "P42": (VF, "The stages are left open: every combination of their outputs is covered, and only the choice made at the core's boundary is decided."),
 "P43": (VF, "unknown table answers, histories, stacks, backlogs and redirects around the real predictor top, positions enumerated; tables are replaced by their interface; the disabled look-ahead is made small"),
 "P44": (VF, "one update and the look-ups after it, for enumerated addresses and occupancies with unknown targets, kinds and counters; 112 obligations on counters stay undecided; direction tables are outside"),
 "P45": (VF, "unknown retired instruction of every type and unknown states on both sides of the comparison; the reference library is replaced by its interface; taking over its memory is outside"),
 "P46": (VF, "unknown requests, answers and acceptances in every bus step of one machine cycle; stages, memory system and bus are open, the bus kit is replaced by its interface"),
}
