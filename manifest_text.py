T = "TLA+ specification model-checked with TLC; conformance by TLC trace validation of "
TEXT = {
 "C03": (T + "parse results of generated programs in random layouts, against the grammar written in TLA+ (Lex, Parse)", "Random programs (all statement kinds, labels, literals) in three layouts each: exact statements and spans, and equal images. The grammar is model-checked on all texts of four pieces. Non-ASCII identifiers are outside the specified grammar."),
 "C04": (T + "the outcome and error spans of adversarial strings", "Damaged programs, odd token soups, every string of up to three nasty characters, huge tokens (each in its own process). Panics are recorded as events."),
 "C05": (T + "accept/reject and value of literals in every operand position", "Every magnitude up to 70000 in every notation and operand position (thorough; boundaries and full .fill in quick), register numbers, odd spellings decided by the TLA+ grammar."),
 "C36": (T + "printed statements and what they reparse to", "Generated statements of every kind plus every operand value of every form; both the code's parser and the TLA+ grammar must give the statement back."),
 "C06": (T + "all 65536 decodes and every representable instruction's encoding", "Exhaustive: every word and every representable instruction. Trusts TLC and the harness's rendering of SimInstr."),
 "C07": (T + "disassembled, printed and reassembled text of all 65536 words", "All words; each reassembled at several addresses (boundaries and random). Trusts TLC."),
 "C15": (T + "recorded operations on words with initialisation masks", "Known-bits oracle proved exact by TLC at 3 bits; sampled operand pairs at 16 bits (structured and random masks)."),
 "C35": (T + "all widths and all 16-bit values, run-length compressed", "Exhaustive over N=1..16, both signednesses, all 65536 values, checked and truncating creation."),
 "C01": (T + "object files of generated programs (with and without debug symbols), against the two-pass assembler written in TLA+ (Asm) on the same text", "Words, uninitialised runs, labels, all from the text alone; the assembler specification is itself model-checked against a declarative reading of a well-formed program (MC_Asm). Every statement kind repeated up to filling the address space is compared with closed forms (Sweep). Values needing offsets modulo 2^16 are left open."),
 "C02": (T + "accept/reject outcomes and error kinds of faulty programs, against the conditions in Asm", "Programs with planted faults, statement soups, every small program of up to 3 (thorough: 4) statements from a pool, longer ones sampled; a grid of block sizes and positions around the I/O page, the end of memory and each other (quick: a quarter of it). A program with several errors may report any of its kinds."),
 "C17": (T + "object files written to and read back from the binary format", "Assembled (with/without debug symbols) and linked files; equality plus image and labels against Asm/Link. The oracle for equality is the crate's own PartialEq and the serialised listing."),
 "C18": (T + "object files written to and read back from the text format", "As C17, with source text full of escapes, dividers and non-ASCII characters."),
 "C19": (T + "outcomes of reading damaged object files, and of re-serialising, linking and loading what was read", "Mutated and random bytes/text; the specification only allows ok/rejected outcomes, a panic is an event no step explains. Sampled."),
 "C20": (T + "links of generated file sets in several orders and groupings, against Link/LinkAll", "Success, image, labels and pending relocations from the texts; order and grouping independence of the specification is model-checked on all triples of small files (MC_Link)."),
 "C21": (T + "loads of files with external references, before and after linking", "Pending references, load outcome and the words in memory, from the texts."),
 "C22": (T + "debug information of linked files", "Line text of every mapped address and label spans, against the texts of the files the addresses came from; long linked programs against closed forms."),
 "C23": (T + "symbol-table queries in random letter cases", "Address, source span, reverse lookup and listing of every label; other words of the text must give no result. Programs with thousands of labels against closed forms."),
 "C24": (T + "line tables and lookups", "Every line and every boundary address of generated programs with multi-line layouts, repeated externals and several blocks; programs of tens of thousands of lines."),
 "C25": (T + "position queries on texts", "Every text of up to 3 (thorough: 4) pieces of a nasty alphabet and random longer ones; every index and line; sources of up to megabytes. The specification's lines are model-checked to partition the text (MC_Source)."),
 "C26": (T + "spans of assembler and linker errors", "Faulty programs, small programs, non-ASCII labels and failing links; spans must cover a spelling of the offending label."),
 "C08": (T + "single steps of the real simulator from arbitrary machine states, against the LC-3 machine written in TLA+ (Machine)", "Random states and generated programs: registers, PC, PSR, stack pointer, memory writes, device calls and errors of every step; systematic grids of traps, interrupts, calls, ALU and memory forms; MC_Machine checks the step relation itself; sparse memory (only observed and scrambled cells are compared)."),
 "C09": (T + "user-mode steps at the protection boundary, against the access rules of Machine", "Random and boundary addresses for every addressing form, fetch and RTI, in both trap modes, with recording devices. MC_Machine checks containment of user code on the specification."),
 "C10": (T + "runs with scheduled interrupts, step by step and against the uninterrupted run", "Generated programs and handlers, interrupt timings sampled, entry and return for every priority and vector on a grid; MC_Irq checks on the specification that every placement of up to 3 (thorough: 5) requests leaves the program unaffected; the machine decides which interrupt is taken and the final states are compared."),
 "C11": (T + "calls of the OS trap routines: per-call contracts (Os), and the OS image executed on the specification machine", "Generated strings, characters, registers and keyboards; contracts are compared at the return of every call."),
 "C12": (T + "programs run under virtual and real traps", "Generated user programs ending in HALT or in each exception; output, R0-R5, user memory, message and stop compared."),
 "C13": (T + "sequences of debugger operations, against the debugger specification (Debugger)", "Random programs (in user space, or anywhere in place of the OS), breakpoints and operation sequences; the specification is model-checked for equality of split and unbroken runs. Both readings of the limit are accepted."),
 "C14": (T + "pairs of steps with and without strict mode", "Generated states with random initialisation masks; the rule for steps is in TLA+, the pair is recorded from the real code."),
 "C16": (T + "steps from arbitrary states, flags and devices followed by an error query", "Sampled states, a grid of stack pointers, PCs and modes at every edge, and all instruction words; panics are recorded as events no step explains."),
 "C27": (T + "steps recorded with debug frames on, against the call stack in Machine", "Generated call/trap/interrupt/return patterns and a grid of every kind of entry and exit, with registered signatures of both kinds."),
 "C28": (T + "access-observer contents after single steps and runs, against the accesses the machine makes", "Random states and programs, the memory-form grid; host accesses interleaved."),
 "C29": (T + "new simulators and loads of object files, against Lifecycle (Load) and the OS image assembled from its source by the specification's own assembler", "All initialisation strategies; assembled, linked, re-read and hand-written files (blocks at x0000, up to and over the end of memory), after random disturbances. The value of a reserved word is left open; every other word, the registers and the PC are compared."),
 "C30": (T + "random lives of a simulator ending in reset, against Lifecycle (Reset) and a new simulator with the same flags", "Memory (values and initialisation), registers, PSR, stack pointer, frames, counts, status, breakpoints, devices, mappings and MCR handle after each reset, and a program run on both machines afterwards. Reset of device state is not required."),
 "C31": (T + "pairs of simulations with the same settings (side by side, one after the other, in another process, with a reset on the way)", "Every step's PC, PSR, result, output and a digest of everything else; known fills cover every word outside the OS image and the I/O page. Sampled programs, seeds and timers."),
 "C32": (T + "sequences of device and register mapping operations with accesses, against Ports", "Random operation sequences with recording devices, buffers and host or program accesses; every sequence of up to 4 operations is model-checked on the specification. What memory holds behind a mapped register is left open."),
 "C33": (T + "accesses to the real devices while another thread holds their buffers, and programs run under such contention, against Contention", "Random schedules of holding and releasing at every access; the specification's schedules are model-checked for exactly-once delivery. Poisoned locks included."),
 "C34": (T + "polls of the real timer, against the interval rule (Timer)", "Random ranges, enabling, resets, range changes, alone and attached to a simulator; the countdown machine is model-checked to keep the rule. A time of 0 may mean the next poll or the one after."),
}
import json, os
_ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
NOT_APPLICABLE = [dict(property=i, reason="check not built yet") for i in _ids if i not in TEXT]
