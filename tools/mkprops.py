#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)

RT = 'src/runtime/'
p('M01', 'C code never uses a stale ML heap pointer after a possible collection',
  'In every C function of the runtime and of the bundled foreign libraries, an ML heap value (or a pointer into an ML block) that is used after an operation that can trigger a garbage collection was, across that operation, held in a location the collector updates (a registered root, the ML stack, a global root) and is read back from it. This includes values used in the same expression as the allocation, whatever order the compiler evaluates it in.',
  ['histories', 'inputs', 'programs'], 'every C path from a value definition over an allocating call to a later use, for every heap state in which the call collects',
  'A stale pointer only misbehaves when a minor or major collection happens exactly at that call; the 1470 golden transcripts run one heap history each and most primitives never see a collection inside.',
  [RT + '*.c', 'src/dynlibs/*/*.c'],
  [('Push_roots/Pop_roots local root frames', RT + 'memory.h'), ('Setup_for_gc/Restore_after_gc spill of interpreter registers', RT + 'interp.c')])
p('M02', 'Local-root frames and the registers behind raise are restored on every exit',
  'Every C function that registers a frame of local roots unregisters exactly that frame on each normal return, and nothing else changes the chain of frames except a catch point, which puts the chain and the current exception handler (and, where it published one, the ML stack pointer) back to what they were when the catch point was established. So after any sequence of calls, callbacks and exceptions the collector walks exactly the frames of functions still active.',
  ['histories', 'programs'], 'every path through every function that registers roots or establishes a catch point, including exceptional exits',
  'An unbalanced frame is silent until a later collection walks a dead stack frame; tests do not collect at those points.',
  [RT + 'memory.h', RT + 'interp.c', RT + 'fail.c', RT + 'callback.c', RT + 'mosml.c'],
  [('Push_roots/Pop_roots', RT + 'memory.h'), ('setjmp/longjmp handler save and restore', RT + 'interp.c, callback.c, main.c')])
p('M03', 'Every pointer store into an existing ML block goes through the write barrier',
  'When C code of the runtime or of a foreign library stores an ML value into a field of a block that may already be in the major heap, it uses the recording store (modify, or initialize on a block being built) unless the stored value is an immediate; the recording store enters the location in the remembered set whenever the new value may be young and keeps the incremental marker informed of the overwritten value. Hence no minor collection can free a young block that an old block still references.',
  ['histories', 'programs'], 'every store of an ML value through a block pointer on every path, for every age of the block and value',
  'Missing the barrier is only visible if the block was promoted and a minor collection runs before the young value is otherwise reachable; no test forces that.',
  [RT + 'memory.c', RT + 'memory.h', RT + '*.c', 'src/dynlibs/*/*.c'],
  [('modify/initialize/Modify', RT + 'memory.c, memory.h'), ('ref_table scanned at minor collection', RT + 'minor_gc.c')])
p('M04', 'A fresh block holds only valid words when the collector can first see it',
  'Every block that C code or a bytecode instruction allocates with a scannable tag has all of its fields initialised with valid ML values before the next operation that can collect and before it is returned or stored; a block allocated directly in the major heap is filled with initialising stores. The collector therefore never follows an uninitialised word.',
  ['histories', 'inputs', 'programs'], 'every allocation site and every path from it to the next collecting operation, return or store',
  'Uninitialised words only hurt if a collection occurs in the window and the stale word looks like a pointer; that depends on heap history.',
  [RT + 'alloc.c', RT + 'interp.c', RT + '*.c', 'src/dynlibs/*/*.c'],
  [('alloc/alloc_tuple/alloc_shr plus initialising loops', RT + 'alloc.c'), ('Alloc_small', RT + 'alloc.h, memory.h')])
p('I01', 'Compiler, linker and interpreter agree on the bytecode encoding',
  'For every instruction, the opcode number the compiler emits is the one the interpreter dispatches to that instruction\'s handler, and the number, width, signedness and order of its inline operands are the same in the code emitter, in the pass that prepares loaded code, in byte-order fix-up and in the handler, on every path (branch taken or not). No compiled program can be decoded differently from how it was encoded.',
  ['programs', 'configurations'], 'all opcodes, all operand positions, all emission sites, both threaded and switch dispatch',
  'Tests execute a subset of instructions and operand shapes; rarely emitted forms (wide operands, fused push/apply forms, 64-bit constants) are never run.',
  [RT + 'instruct.h', RT + 'interp.c', RT + 'expand.c', RT + 'fix_code.c', 'src/compiler/Opcodes.sml', 'src/compiler/Emitcode.sml', 'src/compiler/Prim_opc.sml', 'src/compiler/Buffcode.sml', 'src/compiler/Labels.sml', 'src/compiler/Patch.sml'],
  [('opcode enum and dispatch', RT + 'instruct.h, interp.c'), ('emit', 'src/compiler/Emitcode.sml')])
p('I02', 'No emitted operand is silently truncated to its field',
  'Every operand the compiler writes into a bytecode field of fixed width is, on every path to the write, either checked against that width (with compilation rejected when it does not fit) or provably within it. A program too large for the encoding is rejected, never miscompiled.',
  ['programs', 'inputs'], 'every write of a variable operand in the emitter, for every program size',
  'Needs functions with hundreds of variables, huge tuples or huge constants; the tests contain none.',
  ['src/compiler/Emitcode.sml', 'src/compiler/Buffcode.sml', 'src/compiler/Labels.sml', 'src/compiler/Reloc.sml'],
  [('checkArguments/checkLocals/checkFields', 'src/compiler/Emitcode.sml')])
p('I03', 'A fused or specialised instruction does exactly what its parts do',
  'Every combined or operand-specialised bytecode instruction (push-and-access, numbered access/environment/field/constant forms, push-global-and-apply, apply and tail-apply by argument count) has the same effect on accumulator, stack, environment, argument count and program counter as the sequence of general instructions it abbreviates. The compiler\'s choice of encoding is therefore never observable.',
  ['programs', 'histories'], 'all fused/specialised instructions of the interpreter, all machine states',
  'The peephole in the emitter picks fused forms by context; many (five-field access, env access past 4, apply4 through a global) are executed by no test.',
  [RT + 'interp.c', RT + 'instruct.h'], [('instruction handlers', RT + 'interp.c')])
p('I04', 'Integer arithmetic raises Overflow or Div instead of wrapping',
  'For all int operands, negation, absolute value, successor, predecessor, addition, subtraction, multiplication, div, mod, quot, rem and the real-to-int conversions floor, ceil, round and trunc return the mathematically exact result when it is representable in the ML int range, and otherwise raise Overflow (Div for a zero divisor; Overflow or Domain for unrepresentable reals and not-a-number); word addition, subtraction, multiplication, division and remainder are exact modulo the word size. The C code of these operations performs no division by zero, no out-of-range conversion and no out-of-range tagging on any path.',
  ['inputs'], 'all operand pairs of the checked arithmetic instructions and conversion primitives',
  'Tests sample a handful of boundary values of the common operations only.',
  [RT + 'interp.c', RT + 'mosml.c', RT + 'floats.c', RT + 'ints.c'],
  [('overflow tests in arithmetic handlers', RT + 'interp.c'), ('sml_floor, sml_ceil, sml_round, sml_trunc', RT + 'mosml.c')])
p('I05', 'Generated code keeps the stack, variables and control flow of its expression',
  'For every expression form of the intermediate language and every context it is compiled in, the instruction sequence the code generator produces evaluates each subexpression in the prescribed order at the stack depth it was compiled for, reads each variable from the slot that holds it, passes primitives and functions their arguments in order, branches exactly where the expression prescribes (conditionals, short-circuit operators, loops, switches, tests on reals including not-a-number), and on every way out (result, match failure, exception, tail call) leaves the stack and exception handlers as it found them. A let-bound reference is replaced by a variable only if it is used for nothing but dereference and assignment.',
  ['programs'], 'all expression forms, subexpression outcomes, continuations and stack layouts the code generator handles',
  'Tests run some hundred programs; a wrong stack depth or slot on one combination of form and context (for example a handler inside an argument inside a tail call) is exercised by none.',
  ['src/compiler/Back.sml', 'src/compiler/Lambda.sml', 'src/compiler/Instruct.sml'],
  [('compileExp, compileExpList, compileRest', 'src/compiler/Back.sml'), ('variable renumbering and reference-to-variable rewriting', 'src/compiler/Back.sml')])
p('P01', 'Every primitive an ML declaration names exists with that arity',
  'For each primitive declared in the libraries, the compiler and its tools, the name denotes either an instruction the compiler knows with that arity or a C function in the runtime table whose parameter count matches the calling convention used for that arity; table order is consistent between the name table and the function table. No program can call a C function with the wrong number of arguments.',
  ['programs', 'configurations'], 'all primitive declarations in all SML sources and all entries of the primitive table',
  'A mismatch shows only when that primitive is called; many are not called by any test.',
  ['src/mosmllib/*', 'src/compiler/*', RT + '*.c', 'src/dynlibs/*/*.c', 'src/compiler/Smlprim.sml', 'src/compiler/Prim.sml'],
  [('prim_val declarations', 'src/mosmllib/*.sml'), ('names_of_cprim/cprim generated tables', RT + 'Makefile')])
p('P02', 'C code and ML code agree on every shared data layout',
  'Wherever C code of the runtime or of a built foreign library builds or reads a tuple, record, option, list or datatype value that crosses the boundary, the arity and field order, the constructor numbering, the tables indexed by constructors (flags, tags), the constant tuples, the block tags, the records of the lexer and parser engines and the slots and names of predefined globals and exceptions are the ones the ML side defines (labels in sorted order, constructors in declaration order). A value crossing the boundary in either direction means the same thing on both sides.',
  ['programs', 'configurations'], 'all primitives whose ML type has a structured argument or result, all records, constructor tables, exception slots and tags shared by C and ML',
  'Tests compare a few fields of a few of these values; a swap of two same-typed fields (timings, flags, gc parameters) passes.',
  [RT + 'globals.h', RT + 'sys.c', RT + 'mosml.c', RT + 'parsing.c', RT + 'lexing.c', RT + 'gc_ctrl.c', RT + 'mlvalues.h', 'src/dynlibs/*/*.c', 'src/mosmllib/*', 'src/compiler/Smlexc.sml', 'src/compiler/Config.mlp', 'src/compiler/Predef.sml'],
  [('global slot numbering', RT + 'globals.h'), ('open flag table', RT + 'sys.c'), ('parser engine records', RT + 'parsing.c')])
p('C01', 'No C code writes outside a fixed-size or just-allocated buffer',
  'For every input string, number or table size, every write of a C primitive of the runtime or of a foreign library into a local or static array, an array inside a structure, or a block it has just allocated with a computed size (by indexing, through a moving pointer, or by a C library function that copies or formats) stays inside that buffer: the amount written is bounded by a check or by the allocation size on every path. Excluded: buffers sized by a first pass over the contents they then receive, the tables of the garbage collector, the readers and writers of serialised values (S01), channel buffers (B01), the parser generator, and what the system and foreign libraries do inside.',
  ['inputs', 'configurations'], 'all buffer writes (indexing, copies, formatted output) for all lengths of their inputs',
  'Overflow needs over-long names, huge numbers or strings that no test supplies, and may corrupt memory silently.',
  [RT + '*.c', 'src/dynlibs/*/*.c'],
  [('stat_alloc sized to input before copying', RT + 'sys.c, str.c, ints.c, floats.c'), ('fixed buffers of socket names, dates, error messages', 'src/dynlibs/*/*.c')])
p('C02', 'A failed allocation or lookup is never dereferenced',
  'Every pointer that the C library or the memory manager may return as null (allocation, resizing, environment, time conversion, host or user lookup, directory reading) is tested, and the failure turned into an ML exception or orderly termination, before it is dereferenced or stored for later use, on every path.',
  ['fault_sequences', 'inputs'], 'all call sites of null-returning functions and all paths to a dereference',
  'Tests never run out of memory nor pass arguments (such as extreme dates) for which these functions fail.',
  [RT + '*.c', 'src/mosmlyac/*.c', 'src/dynlibs/*/*.c'],
  [('stat_alloc/stat_resize raise_out_of_memory', RT + 'memory.c')])
p('C03', 'A failing system call is reported, never taken for success',
  'For every operating-system call the runtime makes on behalf of a program whose failure would make the result wrong or lose data, the failure value is tested on every path and becomes an exception (or an explicit retry when interrupted) before the primitive returns normally. Programs never see a normal result from an operation that failed.',
  ['fault_sequences', 'inputs'], 'all system-call sites in primitives and every path to a normal return',
  'Tests do not inject disk-full, permission, EINTR or descriptor exhaustion.',
  [RT + 'io.c', RT + 'sys.c', RT + 'mosml.c', RT + 'unix.c', 'src/dynlibs/munix/munix.c', 'src/dynlibs/msocket/msocket.c'],
  [('sys_error', RT + 'sys.c'), ('do_read/do_write retry', RT + 'io.c')])
p('C04', 'Signal handlers only set flags, and blocking calls are properly bracketed',
  'A signal handler of the runtime does nothing but note the signal and request attention, unless the program is inside a bracketed blocking call; every bracket opened around a blocking call is closed before the function returns or raises, and inside a bracket no ML value is allocated and no ML code run; a signal noted while ML code runs is delivered at the next function call, and a read retried after an interruption is bracketed. Interrupting a program at any instruction cannot corrupt its heap or leave it deaf to signals.',
  ['schedules', 'histories'], 'all instants of signal arrival and all paths through bracketed regions',
  'Tests send no signals.',
  [RT + 'signals.c', RT + 'io.c', RT + 'runtime.c', 'src/dynlibs/msocket/msocket.c'],
  [('enter_blocking_section/leave_blocking_section', RT + 'signals.c')])
p('S01', 'Value writer and reader agree on the encoding, and truncation is an error',
  'Every form the compact value writer (extern_compact_val) can emit for a value kind and size range is one the compact reader decodes to the same kind, width, tag and contents, and the ranges leave no gap or overlap; shared blocks are written once and read back as the same block however many there are. The plain writer and reader agree in the same way on a 64-bit little-endian machine, where the reader also expands 32-bit files and reverses big-endian ones correctly, block by block and field by field. Closures, weak, abstract and finalised blocks are refused by the writers. A file that ends early, or does not start with a known magic number, raises an exception on every read path rather than yielding a value, and no collection can see a half-read value.',
  ['inputs', 'configurations', 'fault_sequences'], 'all value kinds and sizes, all code bytes, all four word-size/byte-order variants of the plain format, all truncation points of the file',
  'Tests round-trip a few small values; wide ranges, 64-bit forms and truncated input are never read.',
  [RT + 'extern.c', RT + 'externcp.c', RT + 'intern.c', RT + 'interncp.c', RT + 'intext.h', RT + 'io.c'],
  [('code tables', RT + 'intext.h'), ('really_getblock result tests', RT + 'intern.c, interncp.c')])
p('B01', 'Buffered channels deliver every byte once, in order, at the position they report',
  'For every sequence of channel operations: the bytes handed to an output channel reach the file once each, in order, at consecutive positions starting where the channel was (or was last put by seek_out), and pos_out is the position of the next byte; an input channel returns the bytes of the file at consecutive positions from pos_in, whatever the sizes of the requests, of the buffer and of the partial transfers of the system; seeking inside and outside the buffer are indistinguishable; flush and close leave nothing behind; input_scan_line reports the length of the next line that input will return; no operation touches memory outside the channel buffer or the ML string. Out of scope: files opened for appending, descriptors shared between channels, and the channel state after a system call failed.',
  ['inputs', 'histories', 'fault_sequences'], 'all request sizes and offsets, all buffer states satisfying the channel invariant, all partial read and write counts',
  'Tests copy small files with default buffering and few seeks; buffer-boundary cases, partial writes, sizes beyond 2^31 and seek/flush interleavings are unsampled.',
  [RT + 'io.c', RT + 'io.h'],
  [('channel buffer primitives', RT + 'io.c'), ('channel record, getch/putch', RT + 'io.h')])
p('S02', 'Separately compiled units are used only after their signature stamp matches',
  'Code of a compiled unit is linked into an executable or loaded into the interactive system only on paths where, for each unit it mentions, the recorded signature stamp has been compared with that of the unit actually present, and a mismatch or missing unit is rejected. Stale object files therefore cannot be combined with incompatible interfaces.',
  ['histories', 'programs', 'configurations'], 'all orders of compiling, editing and linking units; all paths from reading a unit file to using its code or interface',
  'The tests compile everything from scratch in dependency order; no stale-stamp history is exercised.',
  ['src/compiler/Link.sml', 'src/compiler/Units.sml', 'src/compiler/Smltop.sml', 'src/compiler/Compiler.sml', 'src/toolssrc/Smltope.sml'],
  [('check_file', 'src/compiler/Link.sml'), ('readSig, watchDog', 'src/compiler/Units.sml, Smltop.sml')])
p('L01', 'Library string, vector and array operations never touch out-of-range elements',
  'For all arguments (including negative, huge or inconsistent indices, slices, and callbacks that modify the arrays), every library operation on strings, substrings, vectors, arrays and their slices accesses only elements inside the underlying object; out-of-range requests raise Subscript, Size or Domain before any element is accessed and over-long results raise Size before being allocated.',
  ['inputs', 'histories'], 'all index/length arguments to every exported function built on unchecked element primitives',
  'Tests try a few boundary indices per function; combinations over slices of slices, copies between overlapping objects and near-maximal lengths are unsampled.',
  ['src/mosmllib/*.sml', 'src/mosmllib/*.mlp'],
  [('explicit bounds tests before unchecked primitives', 'src/mosmllib/*'), ('slice representation invariant', 'src/mosmllib/ArraySlice.sml, Substring.sml, VectorSlice.sml')])
p('L02', 'An operation on a closed stream never reaches the underlying channel',
  'Every library operation on a stream tests that the stream is open before performing any channel operation, closing a stream marks it closed, and the open/closed status shared by text and binary views is the same; output to a closed stream raises an exception, input behaves as at end of file or raises, and closing again does nothing; closing frees the channel and marks the stream together, also when closing fails.',
  ['histories', 'inputs'], 'all sequences of open, read, write, seek, flush, close on any stream',
  'Use after close frees C memory and reads it; tests call few operations on closed streams.',
  ['src/mosmllib/TextIO.sml', 'src/mosmllib/BinIO.sml', 'src/mosmllib/BasicIO.sml', 'src/mosmllib/Nonstdio.sml', 'src/mosmllib/Unix.sml'],
  [('closed flag tests', 'src/mosmllib/TextIO.sml')])
p('L03', 'The element count a container reports is the number of elements it holds',
  'In every functional or imperative container of the library that stores a size or count, each operation that builds or updates a node or table stores the count that its content has: sum of the parts for trees, plus one on a successful insertion, minus one on a successful removal, unchanged otherwise, on every path including duplicate keys and exceptions.',
  ['histories', 'inputs'], 'all sequences of container operations, all construction and update sites',
  'Counts are compared by tests on a few small histories; drift on rotation, replacement or removal paths is unsampled.',
  ['src/mosmllib/Binaryset.sml', 'src/mosmllib/Intset.sml', 'src/mosmllib/Binarymap.sml', 'src/mosmllib/Intmap.sml', 'src/mosmllib/Splayset.sml', 'src/mosmllib/Splaymap.sml', 'src/mosmllib/Rbset.sml', 'src/mosmllib/Redblackmap.sml', 'src/mosmllib/Polyhash.sml', 'src/mosmllib/Hashset.sml'],
  [('smart constructors and size fields', 'src/mosmllib/Binaryset.sml, Intmap.sml')])
p('K01', 'Only non-expansive expressions are generalised',
  'The type checker gives a polymorphic type to a value binding\'s type variables only when the bound expression is in the syntactic class of non-expansive expressions of the Definition of Standard ML (constants, variables, functions, and constructors, records and coercions over such), for every binding form in core and module language. No program that type-checks can therefore use one mutable cell or exception at two types.',
  ['programs'], 'all expression forms of the abstract syntax in all binding contexts',
  'The tests contain a few value-restriction programs; every syntactic form times context is not sampled.',
  ['src/compiler/Asynt.sml', 'src/compiler/Asyntfn.sml', 'src/compiler/Elab.sml', 'src/compiler/Types.sml'],
  [('expansiveness test before generalisation', 'src/compiler/Elab.sml')])
p('K02', 'A failed compile or link leaves no partial output file and no open stream',
  'Whenever the compiler, the linker or the lexer/parser generators\' ML code opens an output file and then fails at any later point, the stream is closed and the partial target removed before the failure propagates, and input files opened on the way are closed. A stale or truncated object file can never be mistaken for a successful compilation.',
  ['fault_sequences', 'crash_points', 'programs'], 'every expression that can raise between opening an output and completing it',
  'Tests fail compilations only by type errors at a few points; I/O errors and late link errors are not injected.',
  ['src/compiler/Compiler.sml', 'src/compiler/Link.sml', 'src/compiler/Units.sml', 'src/lex/Mainlex.sml'],
  [('handle x => (close; remove; raise x)', 'src/compiler/Compiler.sml, Link.sml')])
p('K03', 'A rejected phrase leaves the compiler state as it was',
  'Wherever the compiler saves a group of global tables in order to undo a failed or scoped step, it restores exactly the group it saved, on the exceptional and (where scoped) the normal path, with the values captured before the step. After a rejected phrase or file the interactive system behaves as if it had never been entered.',
  ['histories', 'programs'], 'all save/restore regions, all exceptional exits from them',
  'Interactive tests check a few phrases after an error; loss of one table shows only in particular follow-ups.',
  ['src/compiler/Units.sml', 'src/compiler/Symtable.sml', 'src/compiler/Smltop.sml', 'src/compiler/Smlexec.sml', 'src/compiler/Exec_phr.sml'],
  [('protect_* functions', 'src/compiler/Symtable.sml, Units.sml')])
p('G01', 'Sorting, searching and balancing in the library compute the specified result',
  'Library containers keep their search order and balance, sort functions return a sorted permutation and are stable where promised, and number/date/string conversions return the value the Basis Library specifies.',
  ['inputs', 'histories'], 'all inputs of the pure library functions',
  'Tests sample a handful of inputs per function.',
  ['src/mosmllib/*'], [('functional code', 'src/mosmllib/*')])
p('G02', 'Compiled programs behave as the Definition of Standard ML prescribes',
  'For every accepted program, executing the code produced by elaboration, pattern-match compilation, lambda translation and bytecode generation has the dynamic semantics the Definition gives it.',
  ['programs'], 'all programs', 'Tests run some hundred programs.',
  ['src/compiler/*'], [('front, match compiler, back end', 'src/compiler/Front.sml, Match.sml, Back.sml')])
p('G03', 'The collectors free exactly the unreachable memory within bounded delay',
  'No reachable block is ever freed or overwritten, unreachable blocks are eventually reclaimed, finalisers run exactly once after their block became unreachable, and the incremental collector keeps pace with allocation.',
  ['histories', 'programs'], 'all heap histories', 'Tests run one allocation history each with one heap size.',
  [RT + 'major_gc.c', RT + 'minor_gc.c', RT + 'freelist.c', RT + 'memory.c'],
  [('mark/sweep phases', RT + 'major_gc.c')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        f.write(json.dumps(d) + '\n')
print(len(P))
