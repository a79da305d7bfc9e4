SEQ = "explicit-state model checking of the implementation: exhaustive enumeration of bounded operation sequences against a reference map"
CRASH = "explicit-state model checking of the implementation: exhaustive crash points, torn writes and repeated crashes of bounded histories"
CLAIMED = [
 dict(id="C01", technique=SEQ, note="Every operation sequence, batch, insertion order, page-fill layout, key and size of the bounded families is executed on the real code and compared with a sorted map. Trusts the in-memory file system model."),
 dict(id="C02", technique="explicit-state model checking of the implementation: every seek position of every bounded data layout against a reference map", note="Every seek position around every stored event and boundary of each data layout of the family is executed on the real code and compared with a sorted map."),
 dict(id="C03", technique=SEQ, note="Every bounded sequence of maintenance, writes and restarts on six storage layouts, on the real code, compared with a sorted map after every action."),
 dict(id="C04", technique="explicit-state model checking of the implementation: every bounded failing batch, with exhaustive fault injection, against a reference map", note="Every bounded batch with an invalid event or memory exhaustion at every place and a fault at every call of the write."),
 dict(id="C05", technique=CRASH, note="Every crash point and every torn write of every bounded workload, and crashes during recovery. Trusts the in-memory file system model."),
 dict(id="C06", technique="explicit-state model checking of the implementation: exhaustive power-loss points and loss patterns of bounded histories", note="Every file-system call as the power-loss point with the stated loss patterns of unflushed data. Directory operations are assumed ordered and durable."),
 dict(id="C07", technique=CRASH, note="Every crash point of every bounded maintenance history, recovery interrupted again, on six storage layouts."),
 dict(id="C08", technique=CRASH, note="Every bounded history with drops, and every crash point of each drop, against a reference map."),
 dict(id="C09", technique="explicit-state model checking of the implementation: every crash point, torn write and power-loss pattern of bounded sequences of configuration commands against an independent reference interpreter", note="Every configuration command alone and every ordered pair, after every crash and power-loss point: the recovered configuration, identities and events equal the reference interpretation of a whole number of the commands."),
 dict(id="C10", technique="explicit-state model checking of the implementation: exhaustive single-fault injection at every file-system and cloud call of bounded histories", note="Every action after every bounded history fails at every call with an error, an error that persists, a short write followed by an error and a completed partial write; afterwards contents, repetition, restart and crash are compared with a reference map."),
 dict(id="C11", technique="explicit-state model checking of the implementation: exhaustive enumeration of damaged byte positions and truncation lengths of every file of bounded databases against a reference map", note="Every byte of every partition file, cloud object, cloud index and log file, changed in several ways, and every truncation: each call fails or gives the reference contents."),
 dict(id="C12", technique="explicit-state model checking of the implementation: exhaustive product of storage configurations and bounded histories against a reference map", note="Every combination of storage options, every ordered pair of options a partition moves between, and every event size of the bounded families runs on the real code and is compared with a sorted map, byte for byte."),
 dict(id="C13", technique="explicit-state model checking of the implementation: every bounded pipeline, layout and history against a reference tiering model", note="Every pipeline of bounded length over the limits times partition layouts, writes, refreshes and restarts; the placement after each rebalance is compared with a reference model, and a second rebalance must change nothing."),
 dict(id="C14", technique=SEQ, note="Every bounded sequence of serial writes, explicit ids, failures, drops and restarts; assigned ids are read back and compared."),
 dict(id="C15", technique=SEQ, note="Every bounded sequence of partition-creating actions against a model of the ranges."),
 dict(id="C16", technique="stateless model checking of the implementation: delay-bounded exhaustive schedule exploration with happens-before tracking and a linearizability oracle", note="Every schedule with at most one (pairs) or two deviations, crash points inside schedules included; observed results decided by an exhaustive search for a sequential order per partition. Sequentially consistent memory."),
 dict(id="C17", technique="stateless model checking of the implementation: delay-bounded exhaustive schedule exploration", note="Every schedule with at most one (pairs) or two deviations must complete, including shutdown, and leave no queued work."),
 dict(id="C18", technique="explicit-state model checking of the implementation: every bounded sequence of a thread's writes and cursor steps from every small data layout", note="Every layout of up to four events over file, memory and a second memtable, every cursor position, every operation sequence to the bound; page splits under the cursor."),
 dict(id="C19", technique=CRASH, note="Every bounded history of writes, drops, rotations, collections and refreshes; after each action the remaining log must reproduce the acknowledged state in a crash, and be trimmed once everything is refreshed."),
 dict(id="C20", technique="explicit-state model checking of the implementation: every bounded sequence of writes, refreshes, drops and restarts for several memory limits, every allocation failure and every single I/O fault, against accounting invariants and a reference map", note="Page accounting is compared after every call with the live memory maps of the process and with the limit; open descriptors are compared with the files the database needs after every action, faults included. Blocking limit mode is not covered."),
 dict(id="C21", technique="explicit-state model checking of the implementation: every bounded command, edit and pair of commands against an independent reference parser and interpreter", note="Every template, ordered pair of templates, single edit, truncation, character replacement and short token sequence is executed on a database with every kind of object; the full introspection output, configuration file and events are compared with a reference interpreter."),
 dict(id="C22", technique="explicit-state and stateless model checking of the implementation: every bounded sequence of calls on two handles of a directory, every failing call and crash point of open, and every delay-bounded schedule of concurrent opens", note="At most one handle is open after each step, a refused open changes no file, and the directory opens again when nobody has it open."),
 dict(id="C23", technique="explicit-state model checking of the implementation: every bounded history over encrypted and clear storages, inspecting every byte of every file after every file change", note="No piece of an event in any file of an encrypted storage, no repeated ciphertext, no clear copy left behind, and every wrong key of the family."),
]
NOT_APPLICABLE = {}
