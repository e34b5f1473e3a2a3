#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DF = 'interprocedural dataflow over the clang AST of every unit'
CHECKS = [
 # property, technique, note
 ('M01', DF + ' (GC-safety typestate of pointers)', 'Every C function of runtime and dynlibs; helpers inlined, others summarised. Assumptions: collector internals and foreign libraries trusted; ML-declared immediate parameters are immediate.'),
 ('M02', DF + ' (root-frame chain typestate)', 'Every function; chain, external_raise and published stack pointer compared symbolically at each return.'),
 ('M03', DF + ' (write-barrier obligations per heap store)', 'Every pointer store into a block; barrier completeness by case analysis over a finite abstract heap state.'),
 ('M04', DF + ' (initialisation typestate of fresh blocks)', 'Every allocation site and every path to the first point the collector may see the block.'),
 ('I01', 'dataflow over the interpreter, expander and byte-order fix-up (clang AST) plus abstract interpretation of the SML emitter over its syntax tree, compared on every instruction', 'Every instruction in three handler configurations; every path of the emitter. Assumes code segments < 2^31 bytes.'),
 ('I02', 'interval analysis of the SML emitter: every operand written, on every path, against the width the interpreter reads', 'Every path of emit_zam, of the peephole, of Patch and of constructor numbering.'),
 ('I03', 'value numbering of interpreter handlers over their control-flow graphs; fused and general sequences compared', 'All fused/specialised instructions, all emitter choices; runtime calls compared as uninterpreted events.'),
 ('I05', 'abstract interpretation of the SML code generator per expression form; stack-effect and binding analysis of the produced code', 'Every expression form and primitive with opaque subexpressions, two stack layouts, arbitrary continuation.'),
 ('C02', DF + ' (null/non-null sign of each failing call\'s result)', 'Every call that may return null, in every function of runtime, foreign libraries and mosmlyac; callee summaries; helpers inlined.'),
 ('C03', DF + ' (sign of each system call\'s result against what is returned)', 'Every function that may reach a system call, per combination of constant arguments; counts of write/read must be used; close matters after writing or as the sole purpose.'),
 ('C04', DF + ' (blocking-section state, signal handlers, polling)', 'Every function from every entry state in which it is called; both states for each registered handler; the interpreter\'s attention point. SIGFPE handler exempt (synchronous).'),
 ('I04', 'abstract interpretation over exact integers (polynomial terms with interval facts and division identities, partitioned by sign, wrap-around and comparison outcome) of the arithmetic handlers and real-to-int primitives, against the mathematical definition', '21 handlers and 5 primitives, all operand values; the shift primitives only for tagging and operand roles.'),
 ('S01', 'abstract interpretation of writers and readers over exact integers and byte buffers; the transfer functions of writer and reader paths are composed and compared per value kind and range', 'Every path of extern.c, externcp.c, intern.c, interncp.c in the 64-bit little-endian build, loops by inductive step; malformed (not truncated) files out of scope. A part whose shape the analysis cannot follow is printed as UNDECIDED and recorded in the evidence.'),
 ('B01', 'abstract interpretation of each channel primitive over symbolic byte ranges, with an exact-integer and convex-polyhedra domain, against the primitive\'s contract from every state of the channel invariant', 'Every path of 22 functions of io.c, loops by induction or unrolled to a fixed point; the system calls are havoc within their contract (partial counts, failures). State after a failed system call, append mode and shared descriptors out of scope.'),
 ('C01', 'abstract interpretation with convex polyhedra (Fourier-Motzkin, widening with thresholds) of every function that writes to an array, a member array or a block it allocates; offset and width against the size of the region at each write', 'About 120 functions and 690 obligations; library functions modelled, small helpers inlined. Not followed: two-pass sized buffers and the trap-frame walk of realloc_stack (listed in the evidence).'),
 ('P02', 'layout agreement: origin (points-to) analysis over the clang AST of the blocks each primitive builds and reads, against the record labels, constructors, accessor primitives and tables in the syntax trees of the ML declarations', 'Every primitive whose ML type has a structured result or argument; named-field pairing by the C structure member or label a value comes from; flag tables against the host constants of the names in the ML datatype. Fields whose C origin carries no name are checked for representation (immediate, string, float, block) only.'),
 ('P01', 'signature checking across the language boundary: clang AST of the C primitives, syntax tree of the ML declarations, abstract evaluation of the compiler\'s name tables and eta-expansion', 'Every primitive declaration, name-table entry and call instruction; primitives of foreign libraries loaded with dlsym by name are matched by name to the C units in the tree.'),
 ('L02', 'typestate of streams by abstract interpretation of the syntax tree of the stream units of the library (closures at their calls, escaping closures at an unknown later time), with a call-graph query on the C close primitives', 'Every function exported by a unit that declares channel primitives, from the state open, closed or unknown of its streams; results on closed streams judged where they are constants or exceptions.'),
]
NA = {
 'S02': 'the obligation is that every use of a unit is dominated by a comparison of stamps that live in tables filled by other calls (a history of the tables currentSig, watchDog and the link order), so dominance on the syntax tree alone accepts code that compares the wrong stamp; deciding it needs a relational heap analysis of the compiler state, which is out of reach here',
 'L01': 'the bounds tests of the ML library are arithmetic relations between several run-time integers and lengths over mutually recursive closures and user callbacks; the analyses here cover the C side (C01) and have no sound relational domain for the higher-order ML side, and an approximate one would raise alarms on correct code',
 'L03': 'the stored count must equal the number of elements of a recursive value of unbounded size: an inductive invariant over heap shapes (rotations, splits, splaying), for which no static rule in reach separates correct from incorrect rebalancing without alarms',
 'G01': 'functional correctness of pure ML code: the specified result (order, permutation, numeric value) is a relation between runtime values that no static rule in reach bounds; the index-safety and element-count clauses of the same code are stated separately as L01 and L03.',
 'G02': 'semantic preservation of the whole compiler quantifies over evaluation results of all programs; only a verified compiler or translation validation decides it. Its structural clauses are stated separately as I01-I03 and K01.',
 'G03': 'absence of lost blocks, exactly-once finalisation and pacing of the incremental collector are invariants of heap graphs and amounts of work at run time; a static argument for them is a full verification of the collector (shape analysis of mark stack, grey set and free list), which the tools here do not give. The obligations of the collector\'s clients are claimed as M01-M04.',
}
LATER = 'not yet claimed: the analysis for it is under construction'
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
claimed = {c[0] for c in CHECKS}
m = dict(version=1, setup_cmd="python3 check.py --selfcheck",
         checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, technique=t, level='other', level_note=n) for p, t, n in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, LATER)) for p in props if p not in claimed])
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(claimed), 'claimed', len(m['not_applicable']), 'not applicable')
