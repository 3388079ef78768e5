#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
                   mechanism=[dict(name=n, where=w) for n,w in mech],
                   observe_at=list(observe), hook_needed=hook)))
S="preload-src/src/"
p("C01","Saved state round-trips: restart resumes the same learned model",
 "Saving the learned state and starting the daemon again from that file gives the same model: the same programs, the same file regions (path, offset, length) and which program uses which, the same running and co-running times, the same pairwise transition statistics (to six significant digits) and the same launch-sequence counts. This holds for every path the kernel can report that the daemon tracks, whatever its length or characters, and saving and restarting again changes nothing more. Only records of programs rejected as too small are deliberately dropped on load.",
 ["inputs","histories"],"every model built from up to 3 programs, shared and private regions, sequence trees and path shapes (long, spaces, percent, control and non-ASCII bytes), across repeated save/restart generations",
 "The round-trip test saves one program with one plain short path and compares counts; no pair statistics, no sequence tree, no odd paths, and it never goes through the real start-up path, which is where loaded data can be discarded.",
 [S+"handling/state_io.c",S+"handling/state.c",S+"algorithm/vomm.c"],
 [("line-based writer and reader of PRELOAD/MAP/EXE/EXEMAP/MARKOV/VOMMNODE records with URI-escaped paths",S+"handling/state_io.c"),("sequence tree export/import",S+"algorithm/vomm.c"),("start-up order: load, then start the predictor",S+"handling/state.c")],
 observe=["state file after a clean shutdown, before and after a restart"])
p("C02","Crash during save leaves a complete old or complete new state file",
 "If the machine stops at any point while the state is being saved, what the state path holds afterwards is byte for byte either the previously saved state or the complete new one, even when the filesystem had not yet written unsynced data. After such a crash the daemon starts normally from that path and its next save succeeds.",
 ["crash_points"],"every prefix of the I/O operations of a save, and for each every combination of unsynced writes lost or kept",
 "No test crashes a save; a unit test only sees the file after every write reached the page cache.",
 [S+"handling/state_io.c"],[("write to a temporary sibling, flush, sync, rename over the old file",S+"handling/state_io.c preload_state_write_file")],
 observe=["contents of the state path after recovery"])
p("C03","A failed save keeps the old file, is reported, and is retried",
 "When any I/O step of a save fails (open, any write including the last buffered one, sync, rename), the previous state file stays intact, the failure is logged, the daemon keeps running and no descriptor is leaked. The unsaved learning is kept and the next save without a fault writes all of it, even when a stale temporary file is in the way.",
 ["fault_sequences"],"every single and double failure (by operation index and errno, including short writes) over the I/O operations of consecutive saves",
 "Tests never inject I/O errors; a write error surfaces only when the last buffer is flushed.",
 [S+"handling/state_io.c",S+"handling/state.c"],[("error propagation from the buffered writer; rename only after success; dirty flag cleared only on success",S+"handling/state_io.c, "+S+"handling/state.c preload_state_save")],
 observe=["state file bytes, temporary file, log, later saves"])
p("C04","Any state file content is loaded consistently or refused cleanly",
 "Whatever bytes the state file holds (truncated at any point, lines missing, duplicated or reordered, fields replaced by out-of-range or malformed values, dangling or self references), start-up either refuses it with an error message and a failure exit status or ignores it as foreign, or loads it; it never crashes, hangs or touches freed memory. After a successful load the daemon can predict, scan, save and restart without failing.",
 ["inputs"],"all truncations, all single line edits (delete, duplicate, swap) and all single field substitutions from a boundary alphabet over a file with every record type",
 "Tests load files the program has just written itself, plus a missing file.",
 [S+"handling/state_io.c",S+"algorithm/vomm.c",S+"algorithm/markov.c"],[("per-record parsers with index, duplicate and syntax checks",S+"handling/state_io.c"),("parent lookup and orphan handling on tree import",S+"algorithm/vomm.c vomm_import_node"),("correlation range guard",S+"algorithm/markov.c")],
 observe=["exit status, log, ASan, behaviour of the following cycle"])
p("C05","No history of events makes the daemon touch forgotten programs or crash",
 "For every sequence of programs starting and stopping, executables being deleted or replaced, scans, model updates, predictions, saves, configuration reloads and debug dumps, in whatever order their timers and signals interleave, the daemon keeps running and never uses a record of a program it has removed. This holds with either prediction algorithm and when switching between them.",
 ["histories","schedules"],"all event sequences up to the depth bound over 2-3 programs, one environment event in each half-cycle gap, under AddressSanitizer",
 "The tests call one module at a time on hand-built data; removal of a record while another component still refers to it needs a multi-step history.",
 [S+"handling/model_utils.c",S+"handling/exe.c",S+"monitoring/spy.c",S+"algorithm/vomm.c",S+"algorithm/markov.c"],[("unregistering a program removes it from every structure referring to it",S+"handling/exe.c preload_state_unregister_exe"),("pending scan lists",S+"monitoring/spy.c"),("sequence tree and history window",S+"algorithm/vomm.c")],
 state=[("pending scan results","programs that changed state, waiting for the model update",S+"monitoring/spy.c")],
 observe=["process survival, ASan, log criticals"])
p("C06","Tracking follows exactly the programs that really run",
 "After each scan and update, a program is counted as running once if and only if at least one live process executes it, however many processes do. A program seen running whose accepted mapped size reaches the configured minimum becomes tracked with exactly the file regions it maps, a smaller one does not (and is looked at again after the next save), and a process that disappears between scan and update leaves no trace.",
 ["histories","configurations"],"all start/stop/exit/save sequences up to the depth bound over tracked, new, small and vanishing processes, including restarts and several processes of one program",
 "Tests never run a scan; the tracking code depends on /proc contents over several cycles.",
 [S+"monitoring/spy.c",S+"monitoring/proc.c",S+"handling/state.c"],[("two-phase scan/update with timestamps",S+"monitoring/spy.c"),("start-up running set",S+"handling/state.c"),("size threshold",S+"monitoring/spy.c new_exe_callback")],
 observe=["counts in the debug dump","programs and regions in the saved state"])
p("C07","Running and co-running times are accounted exactly and consistently",
 "At every update each tracked program that is running, and each pair running together, is credited exactly the model time elapsed since the previous update, and nothing else is. Hence a pair's common time never exceeds either program's time, no time exceeds the total, the correlation derived from them stays within -1..1, and all times survive restarts.",
 ["histories"],"all start/stop/power/save/restart sequences up to the depth bound over 3 programs",
 "Unit tests set the times by hand; nothing checks that the daemon's own histories keep them consistent.",
 [S+"monitoring/spy.c",S+"algorithm/markov.c"],[("per-update accounting over programs and pairs",S+"monitoring/spy.c preload_spy_update_model"),("correlation formula",S+"algorithm/markov.c preload_markov_correlation")],
 observe=["times in the saved state","correlation of every pair"])
p("C08","Pair transition statistics record exactly the transitions that happened",
 "For every pair of tracked programs the recorded counts equal the number of times the pair was observed to leave each of its four running combinations and into which one, and the mean residence time of each combination is the mean of the periods actually observed in it. A transition is counted once even when both programs change in the same scan, time while the daemon was not running is never counted as residence, and no transition is recorded that was not observed.",
 ["histories"],"all start/stop sequences up to the depth bound over 2 known programs plus one newly discovered one, including simultaneous changes and restarts",
 "Unit tests call the transition function once on hand-made timestamps; the interplay of scan order, discovery of a new program and restart needs histories.",
 [S+"algorithm/markov.c",S+"monitoring/spy.c",S+"handling/state_io.c"],[("transition bookkeeping with change timestamps",S+"algorithm/markov.c preload_markov_state_changed, preload_markov_new"),("order of update steps",S+"monitoring/spy.c preload_spy_update_model")],
 observe=["pair records in the saved state"])
p("C09","Markov prediction ranks by the documented probability",
 "With the Markov algorithm a program that is not running is predicted from each of its pairs with probability |correlation| (or 1 when correlation is disabled) times the chance that the pair leaves its current combination within 1.5 cycles times the share of those departures in which the program runs; evidence from several pairs combines as independent. Regions are ranked by the combined evidence of the non-running programs using them, a running user counts against a region, and a region without evidence is never prefetched.",
 ["inputs","configurations"],"all small models: current combination, transition counts, residence times and correlation over 2-3 programs from small domains",
 "No test calls the predictor with the Markov algorithm at all.",
 [S+"algorithm/prophet.c",S+"algorithm/markov.c"],[("bidding of pairs in programs and programs in regions; sort by need",S+"algorithm/prophet.c")],
 observe=["prefetch requests and their order under varying budgets","final bids"])
p("C10","Launch sequences are learned faithfully with bounded depth",
 "With the sequence algorithm every observed launch (a program going from not running to running, or being newly tracked) is counted exactly once in the context of the launches before it, and each pair of consecutive launches is counted exactly once as a direct transition. Contexts never reach deeper than five launches and the recent-launch window holds at most the five latest, so the learned tree stays bounded by the set of observed sequences.",
 ["histories"],"all launch sequences over 2-3 programs up to the depth bound (beyond the window size), through the daemon and through the learning interface",
 "Tests only check that feeding sequences does not crash; no count is ever inspected.",
 [S+"algorithm/vomm.c"],[("tree extension from the current context, window pruning, bigram update",S+"algorithm/vomm.c vomm_update")],
 observe=["sequence nodes in the saved state"])
p("C11","Sequence prediction favours the more likely next program",
 "With the sequence algorithm every piece of evidence can only make a program more needed, never less: a program that follows the recent launches is predicted, and of two programs following the same context the one observed more often is predicted at least as strongly. Running programs and programs never observed in any sequence get no bid, and certainty is capped so that scores stay finite.",
 ["inputs","histories"],"all sequence trees from launch sequences over 3-4 programs up to the depth bound, with every subset running",
 "Tests only check that predicting does not crash; the sign and monotonicity of the scores are never checked.",
 [S+"algorithm/vomm.c",S+"algorithm/prophet.c"],[("log-probability bids from context, direct transitions and global frequency",S+"algorithm/vomm.c vomm_predict")],
 observe=["per-program scores and resulting prefetch requests"])
p("C12","Prefetching stays within the configured memory budget, neediest first",
 "In each cycle the total size of prefetched regions never exceeds max(0, total*memtotal + available*memfree) + cached*memcached + buffers*membuffers, with percentages clamped to -100..100 and memory figures read at that moment. The prefetched regions are the most needed ones: the longest prefix, by need, of the regions with positive need that fits.",
 ["inputs","configurations"],"all combinations of memory figures, percentages (in and out of range) and region sizes from boundary domains, with several layouts of the kernel's memory report",
 "No test computes a budget; the effect depends on live /proc/meminfo.",
 [S+"algorithm/prophet.c",S+"monitoring/proc.c"],[("budget formula and greedy cutoff",S+"algorithm/prophet.c preload_prophet_readahead"),("memory report parser",S+"monitoring/proc.c proc_get_memstat")],
 observe=["set of prefetch requests"])
p("C13","Every selected byte is prefetched, in the configured I/O order",
 "The union of the byte ranges requested from the kernel equals the union of the regions selected for prefetching, however regions of one file overlap, nest, touch or are separated, and adjacent or overlapping regions that follow each other are merged into one request. Requests are issued in the order of the configured strategy: as ranked, by path and offset, by inode, or by on-disk block (falling back to the inode when the block is unknown).",
 ["inputs","configurations"],"all sets of up to 3-4 regions over 2 files with small offsets and lengths, all 4 strategies, all block/inode assignments from small domains",
 "Nothing in the tests executes the prefetcher.",
 [S+"handling/readahead.c"],[("sorting, request merging",S+"handling/readahead.c preload_readahead")],
 observe=["sequence of open/readahead calls"])
p("C14","Prefetching survives every system-call failure and leaves nothing behind",
 "Whatever fork, open, readahead, mmap, madvise and wait answer, a prefetch round terminates; a failure affects only the request it hits, and where readahead is unsupported the request is still advised through a page-aligned mapping covering it. At most the configured number of helper processes exist at any moment, and when the round ends no helper process, descriptor or mapping remains.",
 ["fault_sequences","configurations"],"all combinations of call outcomes over 3 requests and parallelism limits 0, 1, 2 and above, including a wait that reports no child",
 "Nothing in the tests executes the prefetcher and failures cannot be provoked from a unit test.",
 [S+"handling/readahead.c"],[("bounded fork/wait, fallback to mmap+madvise",S+"handling/readahead.c process_file, try_readahead_with_fallback, wait_for_children")],
 observe=["system calls of parent and helpers"])
p("C15","File filters: first matching prefix decides, deleted files are ignored",
 "An executable or mapped file is considered if and only if it is an absolute path that is not a deleted file and the first entry of the corresponding prefix list that it starts with accepts it (an entry starting with ! rejects), with no match meaning accept. Paths are taken whole, including spaces, and a path too long to be recorded is ignored rather than shortened; a file renamed by prelink counts as the original.",
 ["inputs","configurations"],"all prefix lists up to 3 entries over a colliding alphabet against a set of colliding, deleted, prelinked, spaced and over-long paths, for executables and for mapped files",
 "No test covers the filters or parses a process map.",
 [S+"monitoring/proc.c"],[("prefix matching, path sanitising, map-line parsing",S+"monitoring/proc.c accept_file, sanitize_file, proc_get_maps, proc_foreach")],
 observe=["programs and regions in the saved state"])
p("C16","Configuration: every documented key works and reload is all-or-nothing",
 "Each documented configuration key takes effect when present and has its documented default when absent, independently of the other keys. A reload with a missing, unparsable or invalid file is reported and leaves the whole previous configuration in force; a reload with a valid file replaces it completely, including switching the prediction algorithm, and an invalid file at start-up stops the daemon with an error.",
 ["configurations","histories"],"every key absent, default, changed and malformed, all pairs of such choices, and all load/reload sequences of three files",
 "No test loads a configuration file except the shipped one.",
 [S+"config/conf.c",S+"config/confkeys.h",S+"daemon/preload.c",S+"handling/state.c"],[("key table, staging copy replaced only on success",S+"config/conf.c preload_conf_load"),("start of the sequence predictor",S+"handling/state.c preload_state_run")],
 observe=["configuration in the debug dump","behaviour after reload"])
p("C17","The cycle keeps time: scan, update, predict at the right moments",
 "While running on mains power every cycle performs one scan (if enabled) and one prediction (if enabled), followed half a cycle later by the model update for that scan, and the model clock advances exactly as much as real time is waited. While any battery is discharging neither scanning nor prefetching happens and the cycle is stretched to twice its length plus the update half; saves happen at the autosave period throughout.",
 ["histories","configurations"],"all sequences of power changes and switch toggles over several cycles, with even and odd cycle lengths and all battery status combinations",
 "The scheduler needs minutes of real time; the smoke test runs the daemon for two seconds.",
 [S+"handling/state.c",S+"utils/power.c"],[("tick chain with half-cycle timers",S+"handling/state.c preload_state_tick, preload_state_tick2"),("battery probe",S+"utils/power.c")],
 observe=["virtual clock at each scan, prefetch, save; model time in state file and dump"])
p("C18","Signals do exactly what is documented at any delivery moment",
 "Each of SIGTERM, SIGINT, SIGQUIT (save and exit successfully), SIGUSR2 (save now), SIGUSR1 (dump) and SIGHUP (reload configuration and reopen the log) takes effect exactly as documented whenever it arrives, between or inside any activity of the daemon, alone or together with another. The handler itself performs only operations that are safe at an arbitrary instruction, so delivery can neither deadlock nor corrupt the daemon.",
 ["schedules"],"each signal delivered at every intercepted library-call boundary (including inside memory allocation) of start-up and two cycles, plus ordered pairs at the event-loop boundary",
 "The smoke test sends one SIGTERM to an idle daemon.",
 [S+"daemon/preload.c"],[("handler defers to the main loop",S+"daemon/preload.c sig_handler, sig_handler_sync")],
 observe=["exit status, state file, dump, log file, calls made inside the handler"])
p("C19","Saving forgets exactly the vanished programs",
 "Each save, automatic or requested, removes from the model exactly the tracked programs that are not running and whose file no longer exists or is no longer a regular file; a program that is running, or whose file merely cannot be examined (permission, I/O or network error), is kept. Everything known only through a removed program (its pairs, its otherwise unused regions, its place in the launch sequences) goes with it and everything else stays.",
 ["fault_sequences","histories"],"all combinations of file-check outcomes and running status over 3 programs, followed by further cycles",
 "Tests cover an empty table and single path checks; no test removes an entry from a populated model.",
 [S+"handling/model_utils.c",S+"handling/exe.c"],[("two-pass collection and removal",S+"handling/model_utils.c preload_cleanup_invalid_entries")],
 observe=["model counts in the dump and contents of the next saved state"])
p("C20","Nothing learned is lost on a clean shutdown",
 "After a clean shutdown (or an explicit save) the state file contains everything learned up to that moment, no matter when earlier saves happened relative to scans and model updates. A save is skipped only when nothing was learned since the last successful one.",
 ["histories","schedules"],"every placement of up to two saves among the steps of several cycles followed by a shutdown at every point",
 "Needs a save between a scan and its model update; tests call save once on a quiescent model.",
 [S+"handling/state.c"],[("dirty flag set by scan and update, cleared by a successful save",S+"handling/state.c")],
 observe=["state file after shutdown"])
p("C21","Repeating the same activity does not grow memory, descriptors or processes",
 "If the same finite pattern of activity (starts, stops, scans, predictions, saves, reloads, failed reloads, dumps) repeats, the daemon's heap, open descriptors, mappings and child processes reach a fixed level and stay there. The learned model is bounded by the distinct programs, regions and launch contexts observed, not by running time.",
 ["histories"],"all activity patterns up to length 2-3 over the event alphabet, each repeated many times",
 "Tests run each operation once; growth shows only over many cycles.",
 [S+"algorithm/vomm.c",S+"monitoring/proc.c",S+"monitoring/spy.c",S+"handling/state_io.c",S+"config/conf.c"],[("ownership rules of maps, scan lists, configuration strings, bounded context depth",S+"monitoring/proc.c, "+S+"algorithm/vomm.c, "+S+"config/conf.c")],
 observe=["heap in use, descriptor table, sequence nodes after k and 2k repetitions"])
p("C22","A file region is known exactly while some tracked program uses it",
 "Regions are shared: any two programs mapping the same path, offset and length refer to one region, and the set of known regions is at every moment exactly the set used by tracked programs. Adding and removing programs in any order keeps the region set, the list used for ranking and the program sizes consistent, and no region is freed while used or kept after its last use.",
 ["histories"],"all sequences of registering and unregistering up to 3 programs over 3 regions up to the depth bound, through the model interface and through the daemon",
 "Unit tests cover one region with one or two references.",
 [S+"handling/map.c",S+"handling/exe.c"],[("reference counts; registration on first and removal on last reference",S+"handling/map.c preload_map_ref, preload_map_unref"),("region identity",S+"handling/map.c preload_map_equal, preload_map_hash")],
 observe=["region tables after every step, ASan"])
p("C23","Clock and page-release helpers answer correctly in every environment",
 "The uptime helpers return seconds and milliseconds of the suspend-aware clock when the kernel provides it and of the monotonic clock otherwise, the two units always agree, and an error is reported as -1. The page-release helpers request lazy release only when asked for and supported, immediate release otherwise, pass ranges through unchanged and report the kernel's verdict.",
 ["fault_sequences","inputs"],"all combinations of clock and advice-call outcomes over call sequences up to length 4 and boundary time values",
 "Tests see only the one kernel they run on.",
 [S+"utils/time_utils.c",S+"handling/madvise_utils.c"],[("cached feature probe with fallback",S+"utils/time_utils.c, "+S+"handling/madvise_utils.c")],
 observe=["return values and kernel calls"])
p("C24","Command-line options have their documented effect in every combination",
 "Every documented option, short or long, takes effect independently of the others and of their order, with the last occurrence of an option winning: configuration, state and log file (empty meaning none), foreground, nice level, verbosity and debug. Without options the documented defaults apply; help and version print to standard output and exit successfully without touching any file, and an unknown option is an error.",
 ["inputs","configurations"],"all sequences of up to 3 options in short and long form",
 "Tests never parse a command line; the smoke test uses two fixed ones.",
 [S+"config/cmdline.c",S+"daemon/preload.c",S+"handling/context.c"],[("option parser into the run context",S+"config/cmdline.c preload_cmdline_parse")],
 observe=["files opened, nice and fork calls, log output, exit status"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
