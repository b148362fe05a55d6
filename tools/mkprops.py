#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
L = "sudo_pair/src/lib.rs"; K = "sudo_pair/src/socket.rs"; T = "sudo_pair/src/template.rs"
C = "sudo_plugin/src/core.rs"; OM = "sudo_plugin/src/options/option_map.rs"; TR = "sudo_plugin/src/options/traits.rs"
ST = "sudo_plugin/src/options/settings.rs"; UI = "sudo_plugin/src/options/user_info.rs"; CI = "sudo_plugin/src/options/command_info.rs"
IE = "sudo_plugin/src/plugin/io_env.rs"; IS = "sudo_plugin/src/plugin/io_state.rs"; IP = "sudo_plugin/src/plugin/io_plugin.rs"
PF = "sudo_plugin/src/output/print_facility.rs"; TT = "sudo_plugin/src/output/tty.rs"; V = "sudo_plugin/src/version.rs"
SY = "sudo_plugin-sys/src/lib.rs"; EX = "examples/raw_plugin_api/src/lib.rs"; AP = "sample/bin/sudo_approve"; ER = "sudo_pair/src/errors.rs"
M = "sudo_plugin/src/macros.rs"


def p(i, title, st, over, qt, why, files, mech, observe=(), state=()):
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


NT = "The existing tests exercise only the option map and the template expander in-process; none loads the plugin or opens a socket. "

p("C01", "No paired session starts without an explicit y or Y from the connected pair",
  "When a command requires pairing, opening the plugin reports success only after a client has connected to the approval socket and the first byte that client sends after being accepted is exactly `y` or `Y`. Every other first byte, a hang-up or end-of-file before any byte, an error, or a client that never answers leaves the session refused (or still waiting), never granted. The answer is read once, the byte answered is echoed back to the pair followed by a newline, and bytes sent after the first never change the decision.",
  ["inputs", "schedules", "histories"], "every first byte 0-255, every later byte string, every order of connect / send / half-close / hang-up relative to the plugin's own steps, and any number of clients",
  NT + "A test cannot sample 256 answers times the orderings of peer actions at each system-call boundary.",
  [L, K], [("default-deny response byte and y/Y match", L + ":remote_pair_prompt"), ("accept of the pair", K + ":Socket::open")],
  ["open() return value vs. bytes sent on the socket"])
p("C02", "Pairing is demanded exactly when no documented exemption applies",
  "A command runs without pairing if and only if: the invoking uid is the uid sudo itself runs as; or target effective uid and gid both equal the invoker's uid and gid; or the command is the configured approval binary; or none of tty output, stdout and stderr is to be logged; or one of the invoker's supplementary groups is exempted; or none of the target's groups (its group list, or the invoker's groups when that list is absent, plus the target effective gid) is enforced. In every other case open either completes the pairing exchange or refuses. An exempt session creates no socket, prints no prompt, accepts redirected input and mirrors nothing.",
  ["inputs", "configurations"], "all combinations of identities, group lists, output-logging hints, command paths and gids_enforced / gids_exempted configurations, including those where several exemptions interact",
  NT + "The exemption predicate ranges over ten independent inputs and is never evaluated by a test.",
  [L, IE, CI, UI], [("is_exempt and its six predicates", L), ("runas_gids", IE), ("defaults of runas ids", CI)],
  ["socket directory, prompts and open() result per configuration"])
p("C03", "Asking for a different user together with an explicit group is always refused",
  "When the command is not exempt, the target effective uid differs from the invoking uid and a target group was given explicitly (-g), open is refused with the message that -u and -g may not both be specified. It is refused before any prompt is shown and before anything is created in the socket directory. The rule holds for every spelling of the group, including names that are not valid UTF-8 and the empty name.",
  ["inputs", "configurations"], "all identities and byte strings for -u and -g, all orders of the settings",
  NT + "No test reaches this branch; non-UTF-8 group names are outside any sampled input.",
  [L, ST], [("is_sudoing_to_user_and_group", L), ("runas_group view", ST)], ["open() result, printed message, socket directory"])
p("C04", "The approval socket is only ever connectable by the target user or group",
  "At every instant at which the approval socket exists in the file system, nobody but sudo's own user can connect to it before its final ownership and mode are in place. Its final state is: owned by the target effective uid with mode 0200 when the session changes user, otherwise owned by sudo's user, with the target effective gid as group and mode 0020 when a group was requested with -g; the group is left unchanged when no group was requested. This holds whatever umask the plugin was called with.",
  ["schedules", "crash_points", "configurations"], "every system-call boundary of open (before and after each call), every inherited umask, every target identity, with an unprivileged client probing throughout",
  NT + "Permissions between bind, chown and chmod exist only between system calls; a test sees only the end state.",
  [K, L], [("umask 0777 around bind", K + ":Socket::open"), ("chown then chmod", K + ":Socket::open"), ("socket_uid/socket_gid/socket_mode", L)],
  ["directory snapshots at every syscall boundary; outsider connect attempts"])
p("C05", "An untrustworthy socket directory is refused before anything is created",
  "When pairing is required and the socket directory does not exist, is not a directory, is not owned by the effective uid sudo runs as, or is writable by its group or by others, open is refused and nothing in it is created, removed or changed. A directory (or symbolic link to one) owned by that user with no group or other write permission is accepted, whatever its other mode bits.",
  ["configurations", "inputs"], "all 4096 directory modes, owners equal and unequal to the effective uid, and every file type in place of the directory",
  NT + "No test touches directory ownership or modes.",
  [K], [("enforce_ownership", K)], ["open() result and before/after directory contents"])
p("C06", "Socket name, stale sockets, foreign files and clean-up",
  "The approval socket is always <socket_dir>/<invoking uid>.<sudo pid>.sock. A socket left over at that path is replaced, while anything there that is not a socket makes open refuse and is left untouched; no other directory entry is ever changed. After open returns, whatever its result, and before the pair's answer is awaited, no socket of this session remains in the directory (unless removing it is itself what failed).",
  ["histories", "crash_points", "inputs"], "all leftovers at the path (every file type, live and dead sockets, links), every uid and pid value, every point where open can fail or be interrupted",
  NT + "No test creates a socket or interrupts open.",
  [K, L], [("unlink (only sockets)", K), ("socket_path", L), ("unconditional unlink after accept", K)], ["directory snapshots and bystander entries"])
p("C07", "sudo's process state is given back unchanged after every callback",
  "Whatever the outcome of a callback, when it returns the file-mode mask, the disposition, flags and mask of every signal, the blocked-signal set, the working and root directories, the user and group ids, the environment variables, the resource limits, the timers and the number of threads are exactly what they were when it was called. No descriptor other than the single session connection stays open, that connection is closed-on-exec, and it exists only while a paired session is open (the system-log connection, when there is one, is gone after close).",
  ["fault_sequences", "crash_points", "histories"], "every callback, every outcome (granted, refused, faulted at each system call, interrupted), every inherited umask and signal disposition",
  NT + "Tests never observe process-wide state, and the failing paths that could skip restoration are not reachable from them.",
  [K, L], [("umask restore", K + ":Socket::open"), ("ctrl_c_aborts_syscalls restores sigaction", K), ("Drop for Socket", K)], ["umask, sigactions, mask, ids, directories, environment, limits, timers, tasks and fd table before/after each callback"])
p("C08", "A failing system call never grants a session and never leaks",
  "If any one operating-system operation (memory management apart) made while opening a session that requires pairing fails with any error, open still succeeds only if a pair connected, was sent the whole of its prompt and answered `y` or `Y`; otherwise it returns a refusal rather than blocking forever, disabling itself or killing sudo. After such a failure the file-mode mask and interrupt disposition are restored (unless the failing operation was that restoration) and no approval socket remains connectable. A failure while mirroring or during any later callback is reported as refusal of that chunk, never as success with data lost.",
  ["fault_sequences", "crash_points"], "every system call made by open and by the logging callbacks, each failed with several errno values, singly and in random pairs",
  NT + "Tests inject no faults.",
  [K, L, C], [("error propagation with context()", L), ("cleanup after bind closure", K), ("catch_unwind around callbacks", C)], ["open() result, directory, umask, fds under injection"])
p("C09", "Everything the session outputs reaches the pair, complete and in order",
  "While a paired session is open, the bytes the pair receives after the echo of the answer are exactly the concatenation, in call order, of every tty-output, stdout and stderr chunk passed to the plugin and of ESC[8;<lines>;<cols>t for every window-size change, with nothing added, dropped, duplicated, altered or reordered. A chunk is reported as logged only after all of it has been handed to the connection. This holds for every chunk size including empty ones and under partial writes and interrupting signals.",
  ["histories", "inputs", "schedules"], "all interleavings of the callbacks, all chunk contents (all byte values, sizes 0 to hundreds of KiB), short writes, EINTR and signals during writes, slow readers",
  NT + "No test calls the logging callbacks.",
  [L, K, C], [("log_output/write_all", L), ("Write for Socket", K), ("callback trampolines", C)], ["byte stream at the pair vs. callback log"])
p("C10", "Losing the pair ends the session, and ending the session releases the pair",
  "Once the pair has hung up, the next non-empty tty-output, stdout, stderr or window-size event is refused with the message that the pair ended the session, sudo is not killed by a signal, and all later ones are refused too. Until the pair hangs up none of them is refused. Closing the plugin makes the pair see end-of-file, and afterwards no callback mirrors or grants anything.",
  ["histories", "schedules"], "hang-ups (clean, half-close, with unread data) at every position of every event history; close with every exit status",
  NT + "No test has a peer that disappears.",
  [L, K], [("log_output maps errors to SessionTerminated", L), ("close / Drop shut the socket down", K)], ["callback results vs. pair events"])
p("C11", "Redirected standard input is refused in every paired session",
  "In a session that required pairing, every chunk of redirected standard input offered to the plugin is refused with the message that redirection is prohibited, whatever the policy's input-logging hints say. It is never copied to the pair. In an exempt session it is always accepted.",
  ["configurations", "inputs", "histories"], "all combinations of the five logging hints, all chunk contents, at every position in a session",
  NT + "No test calls the stdin callback; the interaction of input-logging hints with the refusal is invisible to unit tests of either crate.",
  [L, C, IP], [("log_stdin denies unless exempt", L), ("iolog hints gate callbacks", C)], ["return value and printed message of log_stdin"])
p("C12", "Ctrl-C aborts both waits for the pair and nothing else",
  "An interrupt signal delivered while open is waiting for a pair to connect, or while it is waiting for the pair's answer, makes open return a refusal without further pair activity, even though sudo's own handler asked for interrupted calls to be restarted. The original handler runs for each signal and stays installed. Without a signal the plugin keeps waiting however long the pair takes. An interrupt or other handled signal delivered while output is being mirrored neither loses output nor ends the session, and other signals during open may at most make it refuse, cleanly; one that sudo does not handle keeps its default effect while the plugin waits.",
  ["schedules", "fault_sequences"], "interrupts at every blocking point and every system-call boundary, with restarting and non-restarting handlers, singly and in bursts",
  NT + "Signal delivery relative to blocking calls cannot be scheduled from the unit tests.",
  [K], [("select(2) before accept", K), ("ctrl_c_aborts_syscalls", K)], ["open() result after a signal at a blocked call"])
p("C13", "Prompts are the exact expansion of the configured template",
  "The user's and the pair's prompts are byte for byte the contents of the configured template files with every %-directive replaced by its documented value (%b %B %C %d %h %H %g %p %u %U %W), any other %x replaced by x, and every other byte kept. Values are inserted literally: expansion is never applied to inserted text. A template that cannot be read is replaced by the documented default for that prompt.",
  ["inputs", "configurations"], "all byte strings as templates (the one documented exception, a lone trailing %, is dropped), all values of the user, host, directory, command and terminal fields",
  "The unit tests expand a handful of literals with toy expansions; they never cover the real directive table, its values, files, sizes or arbitrary bytes.",
  [T, L, IE], [("Spec::expand", T), ("template_spec", L), ("local_pair_prompt/remote_pair_prompt", L)], ["bytes at the terminal/printf and at the pair's socket"])
p("C14", "The local prompt is shown before waiting and can never break sudo",
  "In a session that requires pairing, the user's prompt is written to the user's terminal when sudo reports one that can be opened and written, and otherwise through sudo's own error output, exactly once, before the plugin waits for a pair. No failure to show it (missing, unwritable or vanished terminal, absent or failing output function, unreadable template) changes the outcome of open.",
  ["fault_sequences", "configurations"], "all terminal settings (absent, empty, missing, directory, unwritable, full, pipe), all output-function behaviours, all template-file states",
  NT + "No test prints a prompt.",
  [L, IE, TT], [("tty else stderr fallback", L + ":local_pair_prompt"), ("Tty", TT)], ["terminal file contents, printf calls, order vs. first wait"])
p("C15", "Text printed through sudo reaches the user literally",
  "Whatever the plugin writes through sudo's printf-style output function appears exactly as written: no byte of a prompt, an error or a plugin message is ever interpreted as a format directive. A message with an embedded NUL byte, an absent output function or a failing one is reported as an error to the writer and prints nothing else. Normal output uses sudo's informational level and errors its error level.",
  ["inputs"], "all byte strings, in particular those containing %, sent as prompt, error message or plugin output",
  NT + "Tests never print; a % in untrusted text is an input no test samples.",
  [PF, L], [("PrintFacility::write", PF), ("Level", "sudo_plugin/src/output.rs")], ["arguments received by a printf implementation with real varargs"])
p("C16", "Option lists from sudo are read exactly as documented",
  "For every NULL-terminated array of C strings: each entry is split at its first `=`, an entry without `=` maps to itself, a later duplicate replaces an earlier one, a NULL array is an empty map, and exactly the array's strings are read. Lookups are byte-exact; typed lookups succeed if and only if the value is valid UTF-8 and the textual form of that type (booleans `true`/`false`, decimal integers in range, separator-split lists in order). A failed typed lookup reports whether the key was missing or its value unusable and never yields a value.",
  ["inputs"], "all arrays of byte strings (0-1000 entries, all bytes but NUL), all keys, all supported target types",
  "Unit tests cover about ten literals.",
  [OM, TR], [("OptionMap::from_raw/get/get_str/get_bytes", OM), ("FromSudoOption implementations", TR)], ["public lookup API vs. an independent parser"])
p("C17", "The typed views of sudo's settings, user and command agree with the raw data",
  "Every field of the settings, user and command views equals the documented interpretation of the corresponding raw entry, or its documented default when the entry is absent or unusable; file-mode masks are octal; target gid/uid default to sudo's own and the effective target ids default to the target ids. A view is refused, with an error naming the entry, if and only if one of its required entries is absent or unusable. No byte content of any entry makes building a view panic.",
  ["inputs", "configurations"], "all subsets of entries present, all values including malformed and non-UTF-8 ones for every field",
  "No test builds a view.",
  [ST, UI, CI], [("TryFrom<OptionMap> for Settings", ST), ("TryFrom<OptionMap> for UserInfo", UI), ("TryFrom<OptionMap> for CommandInfo", CI)], ["public fields vs. an independent model"])
p("C18", "An unsupported sudo or an unusable environment fails closed with a message",
  "If sudo's API version is below 1.9, or a required entry of its settings or user information is absent or unusable, open returns a refusal, prints an error that names the problem (both versions, or the entry) prefixed by the plugin's name, and the plugin's own code never runs. For every 32-bit version the split into major (upper 16 bits) and minor (lower 16) and the comparison are exact and re-encoding gives the same number; newer versions are accepted.",
  ["inputs", "configurations"], "all 2^32 version numbers (sampled with all boundaries), all subsets and corruptions of required entries",
  "No test calls open or the version check.",
  [C, V, IE, SY], [("Version::check", V), ("IoEnv::new", IE), ("write_error in open", C)], ["open() result, printed text, plugin-side call log"])
p("C19", "Panics and errors inside a plugin never escape and always map to a refusal",
  "A panic or error in any plugin code reached through the C entry points (callbacks, conversions of an error into a status, destructors of panic payloads) never unwinds into or aborts sudo: open then returns the error's own open status (a panic: -1, refuse) and logging callbacks its own log status (a panic: 0, refuse). For an error, its message and each of its successive causes are printed once each, in order, each line prefixed with the plugin's name, after one leading newline; printing always terminates.",
  ["programs", "inputs"], "plugins failing in every callback with panics of any payload and errors with cause chains of any length and every mapped status",
  "No test defines a failing plugin.",
  [C, PF, "sudo_plugin/src/errors.rs"], [("catch_unwind_open/log", C), ("write_error", PF)], ["status returned to C, printed lines"])
p("C20", "Each sudo callback reaches the right plugin method with the exact data",
  "Every logging callback sudo makes on an open plugin invokes the method of the same name exactly once with exactly the given bytes (window size: exactly the given lines and columns) and returns 1 on success, except that when the plugin does not opt out of the policy's logging hints and the hint for that stream is false, the method is not invoked and 1 is returned. Window-size changes are never suppressed by hints. Methods a plugin leaves undefined accept everything.",
  ["inputs", "configurations", "histories"], "all callback sequences, all 32 hint combinations, both hint policies, all chunk contents and lengths",
  "No test goes through the C entry points.",
  [C, M, IP], [("trampolines in core.rs", C), ("sudo_io_plugin! table", M)], ["plugin-side call log vs. host-side call log"])
p("C21", "Calls outside an open session fail closed; no state leaks across sessions",
  "A logging or window-size callback made before a successful open, after a refused open or after close never reaches plugin code and returns a refusal (closing is a no-op), without crashing. Close hands the plugin the exact exit status and error, runs at most once per successful open, and destroys the plugin before the environment it borrows. A later open behaves as the first would, seeing only its own arguments.",
  ["histories"], "all sequences of open (granted, refused, panicking, version-only), logging, version and close calls",
  "No test drives a call sequence.",
  [IS, C, M], [("IoState::init/drop/io_plugin", IS), ("close trampoline", C)], ["plugin-side call log, destructor log"])
p("C22", "No memory error or undefined behaviour at the C boundary",
  "Over all calls a conforming sudo can make (any strings, any buffer lengths, buffers freed or reused as soon as a call returns, arrays ending at the edge of mapped memory), the library never reads or writes outside what it was given, never uses freed or uninitialised memory, never keeps a pointer into sudo's arguments after the call returns, and executes no undefined behaviour.",
  ["inputs", "histories", "programs"], "all conforming call sequences and argument contents",
  "Unit tests run without sanitizers and never cross the C boundary.",
  [C, OM, IE, IS, K, PF], [("raw pointer handling in from_raw / IoEnv::new / trampolines", OM), ("unsafe libc calls", K)], ["Miri, AddressSanitizer, guard pages"])
p("C23", "Only a call without a command is treated as a version query",
  "When sudo supplies no command (as for `sudo -V`), open succeeds without running the plugin, prompting, waiting or creating anything, and the version callback prints the plugin's name and the plugin's own version once at informational level. When sudo supplies any non-empty command path, whatever bytes it contains, open never takes that shortcut: the pairing decision is made for it as for any other command.",
  ["inputs", "histories"], "all command byte strings, NULL or empty command information, version callbacks before and after",
  "No test calls open; paths that are not UTF-8 are outside sampled inputs.",
  [C, CI, IP], [("empty-command check in open", C), ("command field", CI), ("show_version", IP)], ["open() result vs. pairing evidence"])
p("C24", "The binary interface matches sudo's C header",
  "For every plugin type, callback table field, message structure, constant and version macro of the sudo plugin header shipped with the bindings, the Rust declaration has the same size, alignment, offset and value as the C compiler gives it, and the exported plugin tables carry the right type, version and non-null entries. Version packing and unpacking agree with the header's macros for all arguments.",
  ["configurations", "inputs"], "all structures, fields and constants; all 32-bit versions; each architecture for which bindings are shipped",
  "The generated layout tests abort on this toolchain and compare bindgen's own numbers with themselves.",
  [SY, "sudo_plugin-sys/include/sudo_plugin.h", "sudo_plugin-sys/src/bindings/sudo_plugin.x86-64.rs", M], [("bindgen output", "sudo_plugin-sys/src/bindings"), ("empty() tables", SY)], ["values printed by C and by Rust"])
p("C25", "The approval script never lets a user approve themselves or run anything else",
  "For every uid, pid, invoking identity and socket state, the shipped approval script connects to a session's socket only if its two arguments are a uid and a pid, the session's uid differs from that of the human running it (the original uid under sudo), and it can write to exactly <socket dir>/<uid>.<pid>.sock. Otherwise it re-runs itself through sudo as the owning user (socket writable by its owner) or group (writable by its group) with the same two arguments, or exits with failure. No argument, no value of SUDO_UID and no other variable it inherits makes it execute anything else or use another socket.",
  ["inputs", "configurations"], "all argument strings, caller identities, SUDO_UID values, inherited variables and socket modes/owners",
  "The script has no tests.",
  [AP], [("main: ruid comparison, -w test, sudo re-exec", AP)], ["commands executed by the script (stand-ins that record)"])
p("C26", "Concurrent sessions do not affect each other",
  "When many sudo processes use the same socket directory at once, each waits on its own socket, is granted exactly if its own pair approves, and its pair receives exactly its own prompt and output. Starting, refusing, interrupting or ending one session never removes, changes or connects to another session's socket.",
  ["schedules", "histories"], "all interleavings of up to dozens of concurrent sessions with distinct pids and mixed outcomes",
  NT + "No test runs two sessions.",
  [K, L], [("per-session socket path", L), ("unlink of own path only", K)], ["per-session histories with unique payloads, directory event log"])
p("C27", "Plugin options are honoured, and defaulted when absent or malformed",
  "binary_path, user_prompt_path, pair_prompt_path, socket_dir, gids_enforced and gids_exempted take effect exactly as configured on sudo's plugin line, the last occurrence winning. Missing ones use the documented defaults (/usr/bin/sudo_approve, /etc/sudo_pair.prompt.user, /etc/sudo_pair.prompt.pair, /var/run/sudo_pair, 0, none), a gid list that is not a comma-separated list of numbers counts as missing, and unknown options are ignored.",
  ["configurations", "inputs"], "all option lines: subsets, duplicates, orders, malformed values, unknown options",
  "Unit tests parse lists in isolation and never see their effect on the plugin.",
  [L, OM], [("PluginOptions::from", L)], ["paths opened, socket path used, pairing decision"])
p("C28", "Pairing decisions are audited without ever affecting them",
  "For every session, the system log receives a record at authorisation facility that identifies plugin, invoking uid, target ids and the command with its arguments, and says whether the session was exempt, required, approved, declined or refused for -u with -g, and when a paired session ended; the record matches what happened. Absence or failure of the system log, and building without any logging feature, never changes a decision or anything that is printed.",
  ["histories", "fault_sequences", "inputs"], "all session outcomes, with the log present, absent, or failing at any write; all field contents",
  NT + "No test observes logging.",
  [L], [("slog drain and events", L)], ["datagrams at the syslog socket vs. session outcome"])
p("C29", "The raw-API example plugin denies everything",
  "The example approval plugin accepts being opened, refuses every check whatever the command, prints its denial through sudo's output function at informational level when it has one, sets the error string only when sudo's API is at least 1.17 and never touches it otherwise, prints its version on request, and never crashes, whatever the order of calls.",
  ["histories", "inputs"], "all versions, argument arrays (NULL and non-NULL) and call orders of open / check / version",
  "The example has no tests.",
  [EX], [("open/check/show_version", EX)], ["return values, printed text, errstr"])
p("C30", "Sessions leave no residue in a long-lived process",
  "Over any number of consecutive open/log/close rounds in one process, with any outcomes, the number of open descriptors, the contents of the socket directory, the process-wide signal and mask state and the behaviour of each round are the same as for a first round, and memory in use does not grow with the number of rounds.",
  ["histories"], "all sequences of tens to hundreds of rounds mixing granted, refused, interrupted, faulted and exempt sessions",
  "No test runs more than one round.",
  [IS, K, L], [("Drop for Socket", K), ("IoState::drop", IS)], ["fd table, directory, allocator in-use bytes per round"])
p("C31", "Command line, directory and group set shown and used are the session's own",
  "The reconstructed invocation is the program name, then one flag for each sudo option in force (in a fixed order, with its value), then every command word, separated by single spaces; the directory is the command's, byte for byte, when the policy set one and otherwise the user's; the target group set is exactly the target's group list (the invoker's when absent) plus the target effective gid. Each is a function of sudo's arguments alone.",
  ["inputs", "configurations"], "all subsets of the sudo flags with all values, all argument vectors, all group lists",
  "No test calls these functions.",
  [IE, ST], [("invocation/cwd/runas_gids", IE), ("Settings::flags", ST)], ["public API results vs. an independent model; %C and %d in prompts"])
p("C32", "Plugins declared in one library do not share any state",
  "When a library declares several plugins, also several of the same type, and sudo loads more than one of them, the life of each (its opens, accepted or refused, its callbacks, errors, panics, version and close, in any interleaving with the others') returns, prints and reaches plugin code with exactly the same environment and data as if the others were not there. Opening, refusing or closing one never opens, closes, destroys or redirects another.",
  ["histories", "inputs"], "all interleavings of lives of several plugin tables, with equal or different arguments, good or bad",
  "No test declares two plugins or calls a table at all.",
  [M, IS], [("static state per table", M), ("IoState::init, drop", IS)], ["events of every call, interleaved vs. alone"])
p("C33", "What a session shows and is typed goes to its pair alone",
  "A session has exactly one pair, the client accepted first. Any other client that reaches the approval socket, before or after it and whatever it sends, receives no byte and has its connection ended by the time open returns. The pair's prompt and the mirrored output are written to the pair's connection only; typed input, redirected input and the user's environment are written nowhere at all: to no connection, file, terminal, system log, or output function of sudo. This holds in refused, exempt, broken and closed sessions, too.",
  ["histories", "inputs", "fault_sequences"], "all session histories, arrival orders of clients, and failures",
  "No test opens a session or has a second client.",
  [L, K], [("SudoPair::log_output", L), ("Socket::open", K)], ["every write-like system call, every byte of every client, printf, /dev/log, files"])
p("C34", "Following the prompt's instructions reaches the session, for anyone else",
  "The approval command in the prompt a waiting session shows (default or shipped template), run exactly as shown by a human other than the session's user who may write to the socket or may become its owner or group through sudo, ends up connected to that very session, sees its prompt, and by answering decides it: y or Y starts it and mirrors it to that human, anything else refuses it. The sudo the approval command itself uses never needs a pair. Run by the session's own user, directly, through sudo or as the target, it never connects, and the session goes on waiting.",
  ["inputs", "histories"], "all users, targets, groups, identities of the approver and prompts",
  "No test runs the approval script, let alone with the plugin.",
  [L, K, "sample/bin/sudo_approve"], [("SudoPair::open", L), ("is_sudoing_approval_command", L), ("DEFAULT_USER_PROMPT", L), ("main", "sample/bin/sudo_approve")], ["prompt text, socket, the script's actions, the pair's stream"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"]) > 80]
print(len(P))
