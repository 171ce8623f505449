head = r'''# Deterministic simulation with fault injection for rs_lalr1_parsers

Subject: `lexan` (lexical analyser), `lalr1`/`alalr1` (parsing engines), `lalr1_lib`/`alalr1_lib`
(generator libraries), `lalr1_gen`/`alalr1_gen` (generator programs) and the parsers these generate.
(`lap_gen`, `alap_gen` are legacy copies outside the workspace that do not build here: out of scope.)

## 1. What is nondeterministic here, and the seams

| surface | who decides it in the simulation | seam |
|---|---|---|
| file and console I/O of generator processes, their crashes, what other processes do meanwhile | controller + `sim/c/simio.c` preloaded into the real binaries | libc symbols, raw system calls inside |
| I/O of the generator library inside a user's process | the same `simio.c`, linked into the simulator | libc symbols |
| threads of a library user | `sim/c/sched.c`: one thread runs at a time, control changes hands only where the plan says | `pthread_create/join`, `syscall(SYS_futex)`, `sched_yield`, sleeps, allocator, simulated I/O; every basic block of the crates under test (compiler instrumentation with `trace-pc`, loads and stores) |
| when text is injected, when callbacks fail or panic, which text arrives damaged | plan of the run | semantic actions, reporters, `Write` implementations, `inject_advance` |
| randomness (`HashMap` keys), clocks, thread ids, heap addresses | derived from the plan | `getrandom`, `clock_gettime`, allocator with an arena per simulated thread |

**No hooks were needed in /repo**: every seam exists at the libc, allocator, compiler or trait level, so what is
simulated is the code that ships (MANIFEST `hooks` is therefore absent). The only commits in /repo are `fix:` commits.

A run is a pure function of a *plan* (a JSON value: workload, schedule, fault list) and the code. Plans are drawn from one
PRNG seeded by (VERIF_SEED, property, run number); `simkit::runner` executes them in forked worker processes (8 at a
time), each run starting from the same process image or, for properties about history within a process, several runs
per process. Every check repeats some runs in other processes and in other groupings and compares the hash of the
complete history (`determinism` in the evidence); `./check.sh selftest <id>` does so for thousands of runs.
A violation is minimised by shrinking its plan (dropping list elements, lowering numbers, shortening texts) while the
same class of violation persists; the minimised plan is the replay file (`replays/`), it is executed again in a fresh
process before it is reported, and `./check.sh replay <file>` reproduces it.

Exit status: 0 held, 1 violation (`VIOLATION property=… replay=…`), 2 the machinery could not decide (build failure).

### 1.1 Generator processes (`sim/simproc`, C01–C09)

The real `lalr1_gen`/`alalr1_gen` binaries (built from the working tree) run in a scratch directory, as many at a time as the plan
says. `libsimio.so` replaces the libc file operations (`open*`, `read*`, `write*`, `*stat*`, `access`, `statx`, `rename*`,
`unlink*`, `link*`, `ftruncate`, `fsync`, `copy_file_range`, `sendfile`, `mkdir`, `chmod`, `realpath`, …). Each operation is
classified by kind (open for reading/writing, read, write, query, unlink, rename, truncate, close, sync, other) and role of
the file (specification, injected file, parser, description, standard output/error, bystander, other). A rule of the
plan fires on the n-th operation of a class: errno (ENOENT … ENOSPC, EIO, EACCES, EDQUOT, EINTR, EAGAIN …), short
transfer, zero transfer, crash before/after/in the middle of the operation (bytes already written survive), flipped
bytes or early end while reading, or *stop*: the process hands over to the controller, which lets other processes run
or acts itself as another user (creates, replaces, removes, makes unreadable). Stopping at chosen operations is what makes
schedules of several processes exactly repeatable. Faults are placed with the help of a fault free reference run (in
classes it really has), single or sticky, up to 3 in a run plus retryable noise. Any system call that leaves the scratch
directory for writing is refused and reported. Nothing runs as a real destructive operation outside the scratch directory.

Workloads: specifications of random grammars (section 1.3), hand written ones from the repository's language,
divided over files by `%inject`, conflicts declared/ignored, option combinations (`-f`, `-o` with odd names, extensions,
directories, symbolic links).

### 1.2 Libraries (`sim/simlib`, C10–C19)

The crates are compiled with scheduling points at every basic block and linked into the simulator, together with
`sched.c`/`simio.c`. Threads are real but exactly one runs; a schedule is a list of (gap, next thread) pairs, where gaps count scheduling points,
or *hot* points: shadow memory records for each 8 byte word which thread wrote it last, and accesses to words written by
more than one thread are where interleavings matter; half of the switches of a plan are counted in such points only
(a few hundred per run), so that check-then-act windows of a few instructions are hit often. Futex waits, time-outs and joins are simulated:
a deadlock is a state where no thread can run and is reported as such. Time advances only when all threads wait.

*Limit*: sequentially consistent interleavings only; reorderings a weak memory model allows are not simulated (the crates
contain no atomics of their own: `lazy_static`/`OnceLock`/`Mutex` of std are used, simulated at futex level).

Oracles are executable reference models written from the documentation, in `sim/gram`, sharing no code with /repo:
`lex.rs` (longest match with literals before expressions, skips, resynchronisation, injection stack, locations),
`lalr.rs` (LR(0) construction, then look aheads by propagation – a different algorithm from the repository's merging of LR(1) kernels –, precedence, conflicts), `engine.rs` (parse loop
with recovery, predicates, injection) and `earley.rs` (recognition straight from the grammar, to cross-check the tables).
A run's history (all callbacks with all arguments, results, panics) has to be equal to the model's.

### 1.3 Workloads: grammars and texts (`sim/gram/src/generate.rs`)

Random grammars: lists, options, brackets, operator expressions with precedence levels, statements, choices,
long sequences, arbitrary productions, *webs* (a few non terminals made of each other: chains, mutual recursion, vanishing
symbols), *large* ones (hundreds of states and productions, more symbols than one machine word of a set holds), `%error` anywhere, predicates on copies of productions (several, other left hand sides, with and
without fallback), `%prec`. Excluded: grammars in which something derives itself (ambiguous without end; the engine would
reduce for ever). Texts: random sentences rendered with skips (comments, CRLF, non-ASCII), damaged at token and at byte
level (deleted, duplicated, swapped, replaced pieces, text of other scripts; torn multi byte characters are avoided as `&str` can't hold them).
Sizes are drawn from heavy tails, as mistakes hide behind thresholds: nesting of actions and injections to 1030, lines of more than 66 000 bytes,
discards of thousands of tokens, long labels, rival literals and expressions with common beginnings, one predicate text on several productions.

### 1.4 Generated parsers (`sim/simcorpus`, `sim/simgen`, C20–C21)

`simcorpus` writes 96 (thorough: 400) specifications of random grammars, has the real generators (programs and, for some, the libraries) produce parsers, and
these are compiled – instrumented – into the simulator. Half of the grammars are chosen so that at least one of five
plausible mistakes in computing look aheads would change their tables (`lalr::Weak`: closure finished too early, look aheads
propagated once only, not through vanishing symbols, FIRST computed in one pass, not along shifts of states visited again).
Then 20 000 runs parse texts with them under the scheduler: several threads, several parsers, nested parses from actions,
injections, panicking callbacks. A specification that is refused, or whose parser doesn't compile, is itself a violation
(`refused`, `uncompilable`, with the specification in the replay). Replaying regenerates and compiles only the grammars concerned.

'''
rows = [
('C01','Success means complete files','hard faults in one to three operations of every class (open, read, write, query, close, sync; errno or no progress), plus retryable noise. Oracle: status 0 ⇒ both files byte-equal to the fault free run; a hard fault that fired on an output or input ⇒ status ≠ 0.','4 000 runs, 12 s'),
('C02','Retryable disturbances are invisible','short transfers down to one byte, EINTR, at any number of operations. Oracle: status, diagnostics and files equal to the undisturbed run.','4 000 runs, 14 s'),
('C03','No overwriting without --force','existing files of all kinds (empty, unreadable, directory, dangling and live symbolic links), others that appear between any two operations, failing queries. Oracle: contents and inode of whatever existed are unchanged, status ≠ 0; a file counts as existing from the moment the controller made it.','4 000 runs, 10 s'),
('C04','Refused means untouched','specifications with every kind of definition error, wrong conflict counts, unreadable/undecodable/missing injected files, reads that fail half way, over earlier outputs, with --force. Oracle: status ≠ 0 and tree unchanged.','4 000 runs, 14 s'),
('C05','Convergence','up to 3 crashes/failures (including between the two files and in the middle of a write) on this or another version of the specification, garbage left by hand; then a fault free --force run. Oracle: both files as in a clean directory.','4 000 runs, 23 s'),
('C06','Nothing else is changed','odd names and options (outputs equal to the specification, dots, links), faults and crashes. Oracle: tree diff except the two documented outputs; log of every operation that changes anything; refused combinations.','4 000 runs, 11 s'),
('C07','Concurrent processes','2–4 processes, stopped at any operations and resumed in seeded order, on distinct outputs, on the same outputs with --force, and racing without. Oracle: files as when alone; at most one winner without --force.','4 000 runs, 33 s'),
('C08','%inject is transparent','a specification cut at up to 6 places (also within injected files, to any depth; also pieces that hold nothing but space or remarks; nested and sibling directories); which cuts are legal is decided by a reference grammar of the language (`lang.rs`). Oracle: same outputs as the undivided one; faults on injected files ⇒ diagnostics naming them.','4 000 runs, 23 s'),
('C09','Damaged specifications','truncation, lost/duplicated/swapped blocks, byte flips, both on disk and while being read (only one of two reads sees them). Oracle: documented status, no panic/signal/hang (CPU and time limits, bounded number of operations), complete files when 0.','4 000 runs, 9 s'),
('C10','In-process generation','jobs (from text, from file, via Specification/Grammar, given up at any stage, with failing or panicking user writers) in sequence and on several threads. Oracle: bytes equal to those of a fresh process of the same code, in which nothing has happened before.','1 500 runs, 11 s'),
('C11','Library writes','`write_*_to_file` under faults at any operation, over any residue, then repeated attempts with the same object. Oracle: Ok ⇔ complete file, Err if anything failed, last attempt complete.','3 000 runs, 6 s'),
('C12','Token streams of damaged text','random lexicons × damaged texts. Oracle: reference lexer plus a conservation check independent of it (lexemes, reported text and skips tile the text).','12 000 runs, 7 s'),
('C13','Injection stack','seeded operation sequences (`advance`, `inject` before/after the front token, at the end, empty, blank, after the end; nested). Oracle: reference stream; history of everything delivered.','10 000 runs, 5 s'),
('C14','Locations','as C13 with labels, mixed line endings, multi line tokens and skips. Oracle: label, line and offset recomputed from the text and byte position.','10 000 runs, 5 s'),
('C15','Shared analyzers','analyzers made, first used and shared by up to 4 threads with several interleaved streams. Oracle: each stream as when alone; no deadlock.','2 500 runs, 5 s'),
('C16','Engine executes the tables','both engines on parsers whose tables are those of a random grammar or have been perturbed (other recovery sets, other expected sets), injections at any reduction. Oracle: model engine, history equality (actions with attributes, reports, result).','4 000 runs, 7 s'),
('C17','Errors reported once, result','as C16 on damaged text; history equality restricted to reports and the result, and the invariant result ⇔ last report.','4 000 runs, 11 s'),
('C18','Recovery','as C16 on heavily damaged text with grammars rich in `%error`, perturbed recovery sets; bounded number of steps (progress), history equality.','4 000 runs, 17 s'),
('C19','Isolation of parses','threads × parser objects × nested parses × panics in any callback, then reuse. Oracle: each parse as if alone.','2 000 runs, 8 s'),
('C20','Generated parsers, end to end','section 1.4; in addition acceptance is cross-checked with Earley recognition where no conflict was resolved.','20 000 runs, 60 s'),
('C21','Predicates','section 1.4 with augmented grammars rich in predicates whose value depends on attributes, look ahead and how many actions were performed before.','20 000 runs, 60 s'),
]
tail = r'''
Why this reaches what the tests can't: the repository's tests run a handful of fault free examples on one thread. Each property
quantifies over faults at any operation, any schedule, any damaged text, any history; the simulator draws these, checks every
one against an oracle and can repeat it exactly. Levels are `exploration` throughout: seeded search, no exhaustiveness claimed.
Thorough tiers run 50 times as many runs (time-capped at 30 min) and 400 grammars.

### Not applicable

* C30 (the automaton and its description), C31 (conflict counts), C32 (lexicon errors), C33 (located specification errors), C34
  (well-formed code): pure functions of one input, with no schedule, time, I/O or history for a simulator to
  decide. Their consequences under faults are part of C20 (wrong tables, wrong conflict counts and code that doesn't compile show there), C09 and C04.

## 3. Genuine defects found (all repaired, `known_findings.txt`)

'''
fixes = []
for l in open('/verif/known_findings.txt'):
    if l.startswith('fixed:'):
        _, p, c, *w = l.split()
        fixes.append(f"* {p.split('=')[1]} `{c}` {' '.join(w)}")
notes = r'''
No finding is open. Behaviours that look odd, were examined and are *not* counted as violations (documented or deliberate,
or outside what a property promises):

* Empty or blank text is never accepted (`AdvancedWhenEmpty` before the parse begins).
* Recovery isn't considered at the end token; recovery is attempted only via productions whose last symbol is `%error`; the hidden production of the error
  symbol derives nothing, so at a state that can begin an error the symbol is reduced from nothing without a report.
* The precedence of a production is that of the first terminal on its right hand side (yacc: the last).
* A fallback declared before productions with predicates is a counted reduce/reduce conflict.
* Errors that the system reports only on `close` are not noticed; outputs are not replaced atomically: a crash may leave a partial file (C05 promises convergence, nothing promises atomicity).
* Outputs that are hard links to the specification, and a dangling symbolic link from one output to the other, aren't recognised.
* A preamble that ends in a `//` remark swallows the next generated line; a literal with an escaped quote is emitted as it is; a file that injects itself is read for ever.
* Names that mean something else to Rust (a token `if`, `Self`, or `Action`/`OrderedSet`, which the generated functions import) give code that doesn't compile (part of C34, not claimed: names are a pure function of the specification); the corpus of C20 doesn't use them.
* A failing write to standard error panics (status 101, nonzero).
* `$0` in a predicate refers to the attribute below those of the production; in an action it isn't replaced.

## 4. False alarms met while building, and what was corrected

* Cyclic grammars (something derives itself) made model and engine reduce for ever: excluded from C16–C21.
* The model's recovery first considered the end token, and reported at states where the error symbol derives nothing: model corrected.
* Addresses in error texts of `BTreeMap`-free debug output and the order of iteration of hash maps made histories differ between executions: heap arena per thread and derived hash keys.
* The minimiser made all candidates of a large scenario before trying the first and ran out of address space (`exit:101` as the "violation" of a replay that was right to begin with): candidates are made one by one.
* Wall-clock limits were exceeded on a loaded machine: limits are CPU time.
* A user predicate containing `$?)` ends there by the lexical rules of the language: the emitter writes `$? )`.
* A tag mentioned twice in the *same* precedence list was expected to be refused; the language promises that for tokens only. The edit isn't generated.
* A lexer that reads one 44 KB lexeme exceeded a fixed budget of steps (C12, seed 2): the budget grows with the text.
* Corpus grammars that are refused for a *correct* reason (more conflicts than declared because the model counted otherwise) led to corrections in the model's conflict accounting.

## 5. Planted bugs and what catches them

All in `seeded/`, each with a demonstration. `tools/try.sh <id> [checks]` applies one, runs demo and checks, and undoes it.

| planted bug | breaks | caught by (seed 1) |
|---|---|---|
'''
import json,glob,os
caught = json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
s = head + '## 2. Per property\n\n| id | what | workload, faults and oracle | quick: runs, cost |\n|---|---|---|---|\n'
for r in rows: s += '| %s | %s | %s | %s |\n' % r
s += tail + '\n'.join(fixes) + '\n' + notes
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d+'/meta.json')); i = os.path.basename(d)
    s += f"| {i} | {m['what_it_breaks']} | {caught.get(i, m['property'])} |\n"
s += '''
Misses that led to stronger checks: c10-poison and c10-precedence-counter (user writers that fail or panic were added), c17-same-place-once and c18-lexical-gives-up
(more lexical errors next to recoveries), c20-closure-growth (webs and mistake-guided choice of grammars), c21-second-tag and c20-tenth-attribute (varied action and predicate code, long productions),
c15-memo and c07-shared-scratch (hot scheduling points, stops at every operation),
c09-number and c09-regex-size (edits whose diagnosis is required, not only a crash forbidden), c18-near (deep recovery: errors far above the frame that can take them),
c10-hash-order (the harness denied every output with EACCES, so no parser was ever compared: repaired, and counted as "generations that wrote a parser"; the reference runs now use other hash keys),
c20-two-nullables and c20-prec-last (16 kinds of wrong tables; two thirds of the grammars must be ones that a given mistake changes, and texts that show it are generated from the difference of the tables).
Later batches: c21-alternatives (one predicate text on productions of different lengths), c09-utf8-slice (garbage of several bytes per character), c13-depth (injection stacks beyond 1000),
c14-wide (lines wider than 65 535), c18-far (discards of thousands of tokens), c08-nesting (specifications nested deeper than 100 by injection).
The last two batches: c14-label (labels with white space at their ends), c02-pieces (a whole run of transfers of a few bytes each), c08-cache-name (injected files of one base name), c09-long-name (names and literals
of thousands of letters of other scripts), c08-last-newline (files without a line feed at their ends) and c14-vertical (form feeds) were missed first; names that are no UTF-8 were added for c06-lossy.
Ten of the planted bugs change only lines that the repairs added and don't count for vcheck (c06-symlink, c08-deep-nest, c13-error-front, c13-repeat, c14-cr, c16-last-inject, c18-keep, c18-near,
c20-many-productions, c20-tenth-attribute); they are kept, as they would be plausible regressions.

Mutation campaigns (`tools/mutants.py`: drops statements, turns conditions, moves constants, ignores results, in copies of /repo): each mutant that compiles and passes the stable tests
is put before the checks. First campaign: 60 mutants, 46 compiled and passed, 35 caught at once. Of the rest, 7 break none of the properties (exit code 2 for 1, the wording of an error kind, warnings about unused symbols,
a display-only flag, an iteration order that nothing shows); the others (reports removed from `%left` lists, single writes whose failure is ignored) led to the edits Stranger and Twice-by-the-other-spelling (C04, C09) and to the sweeps of C11, and are caught now.
Second campaign (other seed, 200 drawn, 130 compiled and passed the tests; ended after the first ten for lack of time): nine caught, one equivalent (the order of match arms whose look-ahead sets are disjoint).
'''
open('/verif/DESIGN.md','w').write(s)
