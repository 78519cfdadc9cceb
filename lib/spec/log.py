"""Log messages and files (basiclog), locks and counters (basicsys)."""
from spec.mat import leg, ASAN

L = "basiclog/src/basiclog.cpp"
H = "basiclog/include/basiclog.h"

PROPERTIES = [
    {
        "id": "D01", "title": "Every enabled log message is delivered once and whole, whatever the thread",
        "statement": "Every message of an enabled level whose tag is not filtered reaches the logger exactly once with its level, time, tag, line, file name (or path) and unchanged text, in pieces of at most 5000 characters that are not mixed with other messages; messages of one thread keep their order. "
                     "Messages of disabled levels or filtered tags are not delivered, a message is computed only when its level is enabled, the condition of an assertion exactly once, and the console loggers print what they are given.",
        "quantifier": {"over": ["inputs", "histories", "schedules"], "text": "all messages, tags, time formats, days and time zones, all sequences of enabling and filtering, all interleavings of threads"},
        "why": "losing or mixing messages depends on the schedule and on lengths near the limit of a piece; the only test of the logger prints two messages and checks nothing",
        "anchors": {"files": [L, H],
                    "mechanism": [{"name": "one mutex around filters and output", "where": L + ": log_logger::print"}, {"name": "messages in pieces", "where": L + ": log_logger::print"}, {"name": "levels tested before the message is computed", "where": H + ": basiclog_debug ... basiclog_unsupport"}],
                    "observe_at": ["log_logger::print(const std::string&) of a derived logger", "standard output", "memory accesses (ThreadSanitizer)"], "hook_needed": None},
        "legs": [leg("h_log", "messages", 20000, 300000, thorough_seeds=2), leg("h_log", "console", 6000, 60000, thorough_seeds=2), leg("h_log", "message_threads", 1600, 20000, thorough_seeds=2), leg("h_log", "message_threads", 1000, 12000, config="tsan", thorough_seeds=2)],
        "technique": "ThreadSanitizer, AddressSanitizer + UndefinedBehaviorSanitizer, offline checker over the recorded pieces: exactly once, whole, in order per thread",
        "note": "Complete for each run observed. Sequences and schedules are sampled; races are found on every executed pair of accesses whatever the timing. Replacing the logger while other threads log is outside the contract.",
        "rule": "distinct (level, tag, length, settings), console outputs and threaded runs", "floor": {"part_hour_zones": 2000, "messages": 80000, "long_stamps": 800, "years_apart": 600, "in_pieces": 20000, "disabled": 10000, "filtered": 5000, "consoles": 1500, "ide_consoles": 1500, "thread_runs": 2000, "thread_switches": 500},
    },
    {
        "id": "D02", "title": "Log files keep every message within their limits",
        "statement": "The file logger puts every message, in order and whole, into files of its folder: a file takes at most the maximal number of messages and is full before the next one begins, and only when there are as many files as allowed is the oldest one removed. "
                     "Each is named by the local time and zone at which it was begun, no other file is replaced or removed, changed limits and folders take effect with the next message, a folder that cannot be written to does no harm, and threads may log at the same time.",
        "quantifier": {"over": ["histories", "inputs", "schedules"], "text": "all sequences of messages and changes of limits and folder, any number of files per second, every day and zone, all interleavings of threads"},
        "why": "what is lost depends on how fast files follow each other and on when limits change; no test reads a log file",
        "anchors": {"files": [L],
                    "mechanism": [{"name": "rotation", "where": L + ": log_file_logger::print"}, {"name": "names of files", "where": L + ": generate_new_file_title"}],
                    "observe_at": ["all files of all folders used"], "hook_needed": None},
        "legs": [leg("h_log", "files", 12000, 150000, thorough_seeds=2), leg("h_log", "file_threads", 2000, 20000, thorough_seeds=2), leg("h_log", "file_threads", 1000, 10000, config="tsan", thorough_seeds=2)],
        "technique": ASAN + "ThreadSanitizer, all files compared with a model of the rotation, their names with the clock (which the harness sets to other days, ends of years and zones); lines of threads checked for exactly once and order",
        "note": "Complete for each sequence observed; sequences and schedules are sampled. A message longer than a piece counts once per piece. Folder names end in a slash. Runs as an unprivileged user in a scratch directory.",
        "rule": "distinct sequences", "floor": {"part_hour_zones": 1000, "files_begun": 40000, "names": 60000, "days_apart": 800, "years_apart": 300, "files_dropped": 20000, "dirs_changed": 3000, "impossible_dirs": 500, "limits_changed": 6000, "thread_runs": 2000, "thread_messages": 50000},
    },
    {
        "id": "C05", "title": "Locks exclude, counters count and timers time across threads",
        "statement": "At most one thread at a time is inside a sys_thread_lock of a mutex and it sees what the previous ones wrote; sys_alg_analyzer prints for each name exactly the sum, maximum or last value of the calls of all threads between init and release, calls outside are ignored. "
                     "sys_timer and get_tick_cout give the elapsed milliseconds.",
        "quantifier": {"over": ["schedules", "histories", "inputs"], "text": "all interleavings of threads and all sequences of add, max_ and set"},
        "why": "a lost update shows only under contention; no test uses threads",
        "anchors": {"files": ["basicsys/src/sys_alg_analyzer.cpp", "basicsys/src/sys_thread_lock.cpp", "basicsys/src/sys_timer.cpp"],
                    "mechanism": [{"name": "mutex around the map", "where": "basicsys/src/sys_alg_analyzer.cpp: add, max_, set"}, {"name": "scoped lock", "where": "basicsys/src/sys_thread_lock.cpp"}],
                    "observe_at": ["the printed counters", "a plain counter changed under the lock", "memory accesses (ThreadSanitizer)"], "hook_needed": None},
        "legs": [leg("h_log", "counters", 12000, 120000, thorough_seeds=2), leg("h_log", "counters", 3000, 40000, config="tsan", thorough_seeds=2)],
        "technique": "ThreadSanitizer, AddressSanitizer + UndefinedBehaviorSanitizer, conservation: printed counters compared with the operations of all threads",
        "note": "Complete for each run observed; schedules are sampled.",
        "rule": "distinct threaded runs", "floor": {"counter_operations": 600000, "thread_runs": 8000, "timers": 800},
    },
    {
        "id": "C06", "title": "A test run counts and reports exactly the conditions it evaluated",
        "statement": "Between sys_tester::init (or a sys_exe_config) and release, every condition of sys_test and sys_test_equal is evaluated exactly once and counted once; every one that fails is reported at once - as information in the silent mode, as an error in the assert mode - and no other. "
                     "Release prints the number of all conditions, of those that held and their ratio (silent mode only), and a sys_exe_config takes over the logger and releases it.",
        "quantifier": {"over": ["inputs", "histories", "configurations"], "text": "all sequences of conditions that hold or fail, both modes, repeated runs"},
        "why": "the tests of the project are written with these macros, so that an error in them hides others; conditions with side effects do not occur in the tests",
        "anchors": {"files": ["basicsys/include/sys_tester.h", "basicsys/src/sys_tester.cpp", "basicsys/src/sys_exe_config.cpp"],
                    "mechanism": [{"name": "macros", "where": "basicsys/include/sys_tester.h: sys_test, sys_test_equal"}, {"name": "summary", "where": "basicsys/src/sys_tester.cpp: ~sys_tester"}],
                    "observe_at": ["messages given to the logger", "number of evaluations of each condition"], "hook_needed": None},
        "legs": [leg("h_log", "tester", 150000, 2500000, thorough_seeds=2)],
        "technique": ASAN + "evaluation counters inside the conditions, messages and summary compared with the conditions of the run",
        "note": "Complete for each run observed; sequences are sampled. Conditions of one thread only.",
        "rule": "distinct (mode, number of conditions, failures)", "floor": {"conditions": 500000, "failed_conditions": 200000, "silent": 50000, "asserting": 20000},
    },
]
