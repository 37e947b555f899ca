#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that edits are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Accelerated simulation agrees with step-by-step execution",
 "However the macro simulator is configured (block size and offset, back-symbol, rule prover and its recursive, limited and exponential options), after each of its steps the tape, head position, state and base step count it reports are exactly those of running the machine one step at a time. "
 "When it reports that the machine halted, the step count (0 if steps are not being counted), the number of non-blank symbols and the transition it halted from are exact.",
 ["programs", "configurations"], "every Turing machine, every simulator configuration, every intermediate simulator step",
 "The tests check the final step and symbol counts of a few dozen champion machines under default options; intermediate configurations, other option combinations and the mass of ordinary machines are never compared with anything.",
 ["Code/Macro/Simulator.py", "Code/Macro/Tape.py", "Code/Macro/Turing_Machine.py", "Code/Macro/Proof_System.py", "Code/Macro_Simulator.py", "Code/Quick_Sim.py"],
 [("simulator step loop: macro step / chain step / rule step", "Code/Macro/Simulator.py"), ("run-length tape", "Code/Macro/Tape.py"), ("rule application", "Code/Macro/Proof_System.py")],
 observe=["simulator state after each step", "halt status written to the record"])

prop("C02", "A machine that halts is never reported as running forever by simulation",
 "If a Turing machine started on the blank tape halts, no configuration of the macro simulator (block size, back-symbol, any prover option, any loop or tape limit) ever reports that it is infinite. "
 "Conversely a machine that never halts is never reported as halting.",
 ["programs", "configurations"], "every Turing machine, every simulator and block-finder configuration",
 "An unsound infinity proof shows up only on the rare machine that halts after looking periodic; the tests run the infinity proofs on a few machines known to be infinite.",
 ["Code/Macro/Simulator.py", "Code/Macro/Turing_Machine.py", "Code/Macro/Proof_System.py", "Code/Macro_Simulator.py", "Code/Macro/Block_Finder.py"],
 [("repeat inside a macro transition", "Code/Macro/Turing_Machine.py: Block/Backsymbol macro machines"), ("chain step into the infinite block", "Code/Macro/Simulator.py"), ("rule that applies forever", "Code/Macro/Proof_System.py: apply_rule")],
 observe=["halt status written to the record"])

prop("C03", "Every acceleration rule the prover adopts holds for all its instances",
 "Whenever the prover adopts a general rule, applying it to any configuration that satisfies its stated minimum counts yields exactly the configuration and the exact number of base steps that step-by-step execution reaches, for any counts and however many times the rule is repeated. "
 "A rule that claims to apply forever really does apply forever from every such configuration.",
 ["programs", "inputs", "configurations"], "every machine, every rule proven for it under every prover option, every configuration at or above the rule's minimums",
 "Tests apply a handful of hand-written rules; a rule that is right for the counts met in a run and wrong for smaller, larger or unaligned ones passes them.",
 ["Code/Macro/Proof_System.py", "Code/Macro/Rule_Func.py", "Code/Algebraic_Expression.py", "Code/Exp_Int.py"],
 [("rule proving on symbolic tape", "Code/Macro/Proof_System.py: prove_rule / add_rule"), ("repeated application (sums, limited, linear, exponential)", "Code/Macro/Proof_System.py: apply_*; Code/Macro/Rule_Func.py")],
 observe=["rules recorded by the prover", "result of applying a rule to a fresh configuration"])

prop("C04", "Macro transitions reproduce the base machine on the block",
 "For every macro machine built from a Turing machine (fixed block size and offset, back-symbol, or a stack of these), each macro transition writes the block, leaves on the side, enters the state and takes the number of base steps that the base machine does on that block in isolation. "
 "If the base machine halts, meets an undefined transition or loops forever inside the block the macro transition says exactly that (with the right base transition and steps), or says it gave up.",
 ["programs", "inputs", "configurations"], "every machine, macro stacking, macro state, block content and entry side",
 "Two unit tests look at one repeat case each; the number of block/side/state combinations is exponential in the block size.",
 ["Code/Macro/Turing_Machine.py", "Code/Macro/Tape.py"],
 [("block simulation", "Code/Macro/Turing_Machine.py: Block_Macro_Machine, Backsymbol_Macro_Machine, sim_limited")],
 observe=["transition returned for a macro symbol/state/direction"])

prop("C05", "A reported linear recurrence is real, and its data are exact",
 "Whenever the linear-recurrence (Lin/Translated Cycler) detector succeeds, the machine really repeats with the reported period and tape offset from the reported start step on, forever; when asked for the minimum start step no earlier step works. "
 "When the detector instead finds that the machine halts within its step limit, it reports the exact halting data, and it never confuses the two.",
 ["programs", "configurations"], "every machine and every step limit, with and without minimisation",
 "Six machines are tested; off-by-one errors in the tape window, in the period search or in the start search only show on particular head excursions.",
 ["Code/Lin_Recur_Detect.py", "Code/Direct_Simulator.py", "Code/Macro_Simulator.py"],
 [("Brent-style recurrence search", "Code/Lin_Recur_Detect.py"), ("tape window comparison", "Code/Lin_Recur_Detect.py: check_recur")],
 observe=["result message of the filter", "halt status"])

prop("C06", "Closed-tape-language proofs never call a halting machine infinite",
 "For every Turing machine that halts from the blank tape, none of the four closed-tape-language deciders reports success, whatever the block size, offset, cut-off and back-symbol setting. "
 "When a decider does report success the record says the machine is infinite for that reason and nothing else about it changes.",
 ["programs", "configurations"], "every machine and every decider parameter combination",
 "No test exercises these deciders at all.",
 ["Code/CTL1.py", "Code/CTL2.py", "Code/CTL3.py", "Code/CTL4.py", "Code/CTL_Filter.py"],
 [("closure computation", "Code/CTL1.py .. Code/CTL4.py: CTL / test_CTL"), ("filter wrapper", "Code/CTL_Filter.py")],
 observe=["result and halt status in the record"])

prop("C07", "Closed-position-set proofs are sound",
 "For every Turing machine that halts from the blank tape, the closed-position-set (closed graph) decider never reports that it runs forever, whatever the block size, window and limits. "
 "When it does report success, every local configuration that the machine actually visits is contained in the closed set it found.",
 ["programs", "configurations"], "every machine, block size, window size and limit; every point of the run",
 "No test exercises this decider.",
 ["Code/CPS.py", "Code/CPS_Filter.py"],
 [("closed set expansion", "Code/CPS.py"), ("filter wrapper", "Code/CPS_Filter.py")],
 observe=["result of the filter", "the set of configurations and continuations it closed"])

prop("C08", "Backward reasoning and reverse-engineering proofs are sound",
 "For every Turing machine that halts from the blank tape, neither the backtracking decider (for any depth and width limit) nor the reverse-engineering decider reports that it never halts. "
 "The deciders give a definite answer or give up on every machine, including ones with no halting transition or several.",
 ["programs", "configurations"], "every machine, every depth and width limit",
 "The backtracking tests are not runnable at this commit and there are none for reverse engineering; unsoundness needs a machine whose halting configuration is only reachable through an unusual predecessor.",
 ["Code/Backtracking_Filter.py", "Code/Reverse_Engineer_Filter.py"],
 [("predecessor search", "Code/Backtracking_Filter.py"), ("reachability of halting transitions", "Code/Reverse_Engineer_Filter.py")],
 observe=["decider verdict", "halt status in the record"])

prop("C09", "A quasihalting verdict matches the machine's actual behaviour",
 "When a machine that never halts is reported quasihalting, the named state executes its last step at exactly the reported step count and is never visited again, and it is the last of the visited states to be abandoned; when it is reported not quasihalting every state it ever visits is visited infinitely often. (A halting machine is recorded as not quasihalting by convention.) "
 "This holds for whichever decider produced the verdict.",
 ["programs", "configurations"], "every machine, decider and decider configuration that yields a quasihalt status",
 "One linear-recurrence test looks at one quasihalting machine; the verdict depends on the precise set of states used in the infinite phase.",
 ["Code/Macro/Simulator.py", "Code/Lin_Recur_Detect.py", "Code/Halting_Lib.py", "Code/Macro_Simulator.py"],
 [("last-seen bookkeeping through macro, chain and rule steps", "Code/Macro/Simulator.py"), ("verdict", "Code/Halting_Lib.py: set_inf_recur")],
 observe=["quasihalt status in the record"])

prop("C10", "Enumeration covers every machine exactly once",
 "Enumerating a class of machines in tree normal form outputs a set of partially specified machines that partition the whole class: every machine of the class that starts with the standard first move has, up to renaming of states, symbols and mirror image, exactly one output machine of which it is a completion. "
 "Every output carries the true status of its machine as far as it is decided, and the total count of completions is exactly the size of the class.",
 ["programs", "configurations"], "every machine class (states, symbols, no-halt and first-move options) and every simulator setting",
 "Gold files compare the output for three tiny classes under a single option set.",
 ["Code/Enumerate.py", "Code/TM_Enum.py", "Code/Count.py", "Code/Macro_Simulator.py"],
 [("expansion of the reached undefined transition", "Code/TM_Enum.py: enum_children"), ("driver loop", "Code/Enumerate.py")],
 observe=["output records of the enumerator"])

prop("C11", "Enumeration results do not depend on order, interruption or splitting",
 "Running an enumeration depth first, breadth first, in random order, or stopping it after any number of machines and continuing later from its output file (any number of times) finally produces the same set of machines with the same verdicts as one uninterrupted run. "
 "No machine is lost or duplicated at a stop.",
 ["histories", "schedules", "configurations"], "every traversal order, stop point and sequence of continuations",
 "Only an uninterrupted depth-first run is tested.",
 ["Code/Enumerate.py", "Code/Work_Queue.py", "Code/IO/Proto.py", "Code/IO/TM_Record.py", "Code/TM_Enum.py"],
 [("stop and write out the remaining queue", "Code/Enumerate.py"), ("reading back continuation records", "Code/Enumerate.py --infile")],
 observe=["final set of output records"])

prop("C12", "Every machine survives a round trip through every file format",
 "A Turing machine written in any supported format (standard text, protobuf in packed or list form, Morphett, BBC database, compressed or not) and read back is the same machine, including undefined and halting transitions and machines with many states or symbols. "
 "Writing a machine never changes the in-memory machine, and text that does not describe a machine is rejected rather than read as some other machine.",
 ["inputs", "configurations"], "every machine size and content representable in the format",
 "Only conversion to the old text format of small enumerations is tested.",
 ["Code/IO/__init__.py", "Code/IO/StdText.py", "Code/IO/Proto.py", "Code/IO/TM_Record.py", "Code/IO/Morphett.py", "Code/IO/BBC.py", "Code/IO/Common.py", "Code/Macro/Turing_Machine.py"],
 [("packed/list transition tables", "Code/IO/TM_Record.py"), ("text parsing and printing", "Code/IO/StdText.py, Code/Macro/Turing_Machine.py"), ("binary BBC format", "Code/IO/BBC.py")],
 observe=["bytes written", "machine read back"])

prop("C13", "Recorded results and big numbers are stored losslessly",
 "Every result stored in a record (verdicts, step counts, scores, big integers and tower-sized formulas of any size or sign, filter statistics) reads back equal after writing and reading a record file, and re-saving it changes nothing. "
 "Numbers too large to write out are stored as formulas with the same value.",
 ["inputs"], "every integer and every formula value, every combination of result fields",
 "Tests round-trip integers near one power of two only.",
 ["Code/Halting_Lib.py", "Code/Exp_Int.py", "Code/IO/Proto.py", "Code/IO/TM_Record.py", "Code/io_pb2.py"],
 [("big integer encoding", "Code/Halting_Lib.py: set_big_int/get_big_int, serialize/parse"), ("record framing", "Code/IO/Proto.py")],
 observe=["record read back from the file"])

prop("C14", "A damaged record file is never silently misread",
 "If a protobuf record file is cut off at any byte, reading it yields exactly the records that were completely written, in order, and then either a clean end (cut on a record boundary) or an explicit error; it never yields a partial, altered or invented record. "
 "Skipping records counts exactly the records that reading would return.",
 ["crash_points", "inputs"], "every truncation point of every record file, read, skipped or mixed",
 "No test reads a damaged file.",
 ["Code/IO/Proto.py", "Code/IO_Count.py", "Code/IO_Sample.py"],
 [("length-prefixed framing", "Code/IO/Proto.py: Reader")],
 observe=["records returned and error raised by the reader"])

prop("C15", "Tower-number arithmetic is exact",
 "Addition, subtraction, multiplication, exact division, quotient and remainder on huge numbers held as exponential formulas give formulas denoting exactly the number that ordinary integer arithmetic gives, whatever way the formulas were built and simplified. "
 "Remainders are right even when the number is far too large to write out.",
 ["inputs"], "every pair of representable numbers, every modulus, every construction order",
 "A dozen identities on hand-picked formulas are tested.",
 ["Code/Exp_Int.py", "Code/Math.py"],
 [("normalising constructors and operators", "Code/Exp_Int.py"), ("modular exponentiation", "Code/Math.py: exp_mod, carmichael")],
 observe=["value of the resulting formula"])

prop("C16", "Comparing huge numbers gives the true order",
 "Comparisons and signs of huge numbers held as exponential formulas agree with the true order of the numbers they denote, including comparisons with ordinary integers, negative numbers and zero, and are total and transitive (numbers beyond 10^250 whose logarithms agree to about 11 digits may be reported equal, and a comparison may be refused with an explicit error). "
 "The approximate size printed for a number agrees with its true size.",
 ["inputs"], "every pair of representable numbers whose order can be computed exactly",
 "Tests compare a few numbers that differ by clear ratios.",
 ["Code/Exp_Int.py", "Code/Halting_Lib.py"],
 [("tower value estimate and sign", "Code/Exp_Int.py: tower_value, sign, comparison operators"), ("approximate printing", "Code/Halting_Lib.py: big_int_approx_str")],
 observe=["result of comparison operators", "printed approximation"])

prop("C17", "Symbolic expressions compute what they denote",
 "Arithmetic, substitution, comparison and printing/parsing of symbolic expressions commute with evaluation: for every assignment of integers to the variables the result evaluates to the result of the same operation on the values. "
 "An order or equality claimed to hold always does hold for all non-negative assignments, and closed forms for repeated sums equal the sum term by term.",
 ["inputs"], "every expression, operation and assignment",
 "Tests check a few dozen fixed expressions.",
 ["Code/Algebraic_Expression.py", "Code/Macro/Proof_System.py", "Code/Macro/Rule_Func.py"],
 [("expression operators and comparisons", "Code/Algebraic_Expression.py"), ("closed-form sums", "Code/Macro/Proof_System.py: series_sum"), ("repeated application functions", "Code/Macro/Rule_Func.py")],
 observe=["value of the result under assignments"])

prop("C18", "Normal forms and permutations preserve what a machine does",
 "Converting a machine to tree normal form, lexical normal form, a permuted start state or any renaming yields a machine with the same run up to that renaming: same halting behaviour, step count and score (halting transitions are rewritten to the standard 1RZ, so scores are those of that standard form); and machines that differ only by renaming of states, non-blank symbols and direction convert to the same tree normal form. "
 "Converting an already normal machine changes nothing, and the list of neighbouring machines contains each machine differing in one transition exactly once.",
 ["programs", "inputs"], "every machine and every renaming",
 "Four conversions of fixed machines are tested.",
 ["Code/TNF.py", "Code/LNF.py", "Code/Permute.py", "Code/Adjacent.py", "Code/Zero_Reflexive.py"],
 [("first-use renaming along the run", "Code/TNF.py"), ("permutation of the table", "Code/TNF.py: permute_table, Code/Permute.py, Code/LNF.py")],
 observe=["transformed machine and its run"])

prop("C19", "The plain simulators execute machines faithfully and memory-safely",
 "The Python direct simulator and the C++ simulators reach, after any number of steps, exactly the configuration the machine's rules prescribe, with the right step count, halting flag and symbol count, on tapes of any extent. "
 "The C++ programs never read or write outside their data or invoke undefined behaviour on any machine file, and a malformed input is refused.",
 ["programs", "inputs"], "every machine, step budget and input line",
 "The C++ code has no tests; the Python direct simulator has five.",
 ["Code/Direct_Simulator.py", "cpp/src/simulator.cpp", "cpp/src/turing_machine.cpp", "cpp/src/direct_sim.cpp", "cpp/src/direct_sim_all.cpp"],
 [("step function and tape growth", "cpp/src/simulator.cpp, Code/Direct_Simulator.py"), ("machine parsing", "cpp/src/turing_machine.cpp")],
 observe=["printed/returned configuration", "sanitizer reports"])

prop("C20", "The C++ searches find exactly the right machines",
 "The C++ enumerators and recurrence detector classify every machine of a class exactly as its behaviour prescribes (halting with exact steps, recurrent with a real period, or undecided), list each machine once, and find the true witnesses for every step count reachable in the class. "
 "Splitting the work into pieces and continuing them, in any order, gives the same result as one run.",
 ["programs", "histories", "configurations"], "every machine class, step limit, output option and split of the work",
 "The C++ code has no tests.",
 ["cpp/src/enumerator.cpp", "cpp/src/lr_enum.cpp", "cpp/src/lr_enum_continue.cpp", "cpp/src/lazy_beaver_enumerator.cpp", "cpp/src/lb_enum.cpp", "cpp/src/lb_enum_continue.cpp", "cpp/src/lin_recur_enumerator.cpp", "cpp/src/lin_recur.cpp"],
 [("TNF expansion", "cpp/src/enumerator.cpp"), ("linear recurrence detection", "cpp/src/lin_recur_enumerator.cpp"), ("lazy beaver", "cpp/src/lazy_beaver_enumerator.cpp")],
 observe=["output files of the programs"])

prop("C21", "Work queues hand out every job exactly once and terminate",
 "Whatever the interleaving of workers pushing and popping jobs, every job pushed to a work queue is handed out exactly once, jobs keep the order the queue promises, and all workers stop precisely when no job is left anywhere. "
 "The distributed queue never loses, duplicates or strands a job and never deadlocks.",
 ["schedules", "histories"], "every number of workers, job tree and message schedule",
 "The only test needs a real MPI launch, prints what it gets and checks nothing.",
 ["Code/Work_Queue.py", "Code/MPI_Work_Queue.py", "Code/Enumerate.py"],
 [("stack/queue", "Code/Work_Queue.py"), ("master/worker protocol", "Code/MPI_Work_Queue.py")],
 observe=["sequence of pushed and popped jobs per worker", "messages"])

prop("C22", "A timeout at any instant never produces a wrong verdict",
 "If the time limit strikes at any instant while a machine is being decided, the record ends up either with a verdict that is true and complete (with its step count, score and transition) or undecided; never half-written, wrong or decided without its data. "
 "The machine is left intact and later decisions are unaffected, with no alarm left pending.",
 ["crash_points", "schedules"], "every instant at which the alarm can fire, for every decider under the time limit",
 "Tests run with the time limit disabled.",
 ["Code/Macro_Simulator.py", "Code/Alarm.py", "Code/Halting_Lib.py", "Code/Enumerate.py"],
 [("alarm and handler", "Code/Alarm.py, Code/Macro_Simulator.py: run_timer"), ("status writing order", "Code/Halting_Lib.py")],
 observe=["record after the interrupted call"])

prop("C23", "Record tools neither lose, duplicate nor alter records",
 "Converting, sorting, categorising, sampling, counting and filtering record files preserve the records: every input record appears exactly once in the output (or in exactly the category its status calls for, or a sample of the requested size without repetition), with its contents unchanged except for the results the tool adds (CPS_Filter and Re_Sim discard earlier results first). "
 "Counts and orders reported by the tools are those of the records.",
 ["inputs", "configurations"], "every record file, tool and option",
 "Only conversion to the old text format is exercised by a test.",
 ["Code/IO_Convert.py", "Code/IO_Sort.py", "Code/IO_Categorize.py", "Code/IO_Sample.py", "Code/IO_Count.py", "Code/IO_Find.py", "Code/CPS_Filter.py", "Code/CTL_Filter.py", "Code/Lin_Recur_Detect.py", "Code/Backtracking_Filter.py", "Code/Re_Sim.py", "Code/Find_Record.py", "Code/TM_Analyze.py", "Code/Zero_Reflexive.py"],
 [("read-process-write loops", "Code/IO_*.py and the filter scripts")],
 observe=["output files"])

prop("C24", "The rule validator accepts only true rules",
 "Whenever the proof validator accepts a set of rules for a machine, each of those rules is true: for every assignment of non-negative integers to its variables, step-by-step execution from the initial configuration reaches the final configuration. "
 "The symbolic counts and configurations it works with mean what they say: parsing, substitution, addition, subtraction, equality, replacement and symbolic steps agree with their concrete values at every assignment. An arithmetic overflow never leads to acceptance (with the checks of the development build), and the published proofs for known machines are accepted.",
 ["programs", "inputs"], "every machine, rule set, proof and variable assignment",
 "The unit tests in the crate check only that correct proofs are accepted, and they cannot even be built in the standard build.",
 ["rust/src/validator.rs", "rust/src/config.rs", "rust/src/count_expr.rs", "rust/src/tm.rs"],
 [("proof step checking and induction", "rust/src/validator.rs"), ("tape matching and replacement", "rust/src/config.rs"), ("symbolic counts", "rust/src/count_expr.rs")],
 observe=["accept/reject result for a rule set"])

prop("C25", "The driver scripts lose, invent and misfile no machine",
 "Running a filter over a list of machines with the driver scripts, on one computer or as a sharded cluster job, files every machine of the input exactly once, in the output of the category its result belongs to, and leaves exactly the undecided machines for the next filter. "
 "A shard whose filter failed or whose output lost or gained machines is never marked as finished, and shards are merged only when all have finished; leftovers of earlier runs are not mixed in. The local parallel enumeration scripts produce the same machines, verdict lists and step counts as one process. Nothing outside the data directory and the script's own temporary directory is removed.",
 ["inputs", "fault_sequences", "histories"], "every list of machines, number of shards, failing task and earlier contents of the data directory",
 "No test runs a script.",
 ["Tools/filter.sh", "Tools/sbatch_filter_setup.sh", "Tools/sbatch_filter_array.sh", "Tools/sbatch_filter_finish.sh", "cpp/scripts/lr_enum_local_parallel.sh", "cpp/scripts/lr_enum_local_parallel_dev_null.sh", "cpp/scripts/lb_enum_local_parallel.sh"],
 [("filter, categorize, rename", "Tools/filter.sh"), ("count check and success mark of a shard", "Tools/sbatch_filter_array.sh"), ("merge", "Tools/sbatch_filter_finish.sh, cpp/scripts/*.sh"), ("split", "Tools/sbatch_filter_setup.sh, cpp/scripts/shuffle_split.py")],
 observe=["output files", "exit status"])

prop("C26", "The step-by-step viewers show the machine's true run",
 "Visual_Simulator and Curses_Sim show, row by row, exactly the configurations of the machine: row n has the state letter at the head's cell, every visible cell in the colour of its symbol, and for a start configuration written by the user, that configuration is row 0. Exactly the rows asked for (all, leftmost, rightmost) are printed, centred on cell 0 or on the head, with the step number, and a halting machine ends the display with its step count. "
 "The interactive viewer keeps every row right, at the place its keys ask for, while its buffer grows downwards or sideways, for halting machines too. ngram_entropy measures the entropy of the transitions and of the windows around the head over the run it samples.",
 ["inputs", "histories"], "every machine of up to 7 symbols, start configuration, screen size, option and sequence of keys",
 "No test runs a viewer.",
 ["Code/Visual_Simulator.py", "Code/Curses_Sim.py", "Code/ngram_entropy.py", "Code/Direct_Simulator.py"],
 [("reading the start configuration", "Visual_Simulator.py parse_config, main"), ("drawing", "Visual_Simulator.py print_tape; Curses_Sim.py write_tape, expand_pad"), ("moving the window", "Curses_Sim.py move_vert, move_hor, draw"), ("sampling", "ngram_entropy.py window_entropy")],
 observe=["printed rows", "cells on the screen", "printed entropies"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
