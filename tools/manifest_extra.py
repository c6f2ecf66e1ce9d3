SHIM = "Held on every execution, crash image and fault explored, nothing more; trusts the LD_PRELOAD shim's record of the file operations of the system sqlite3 library and the reference model."
T["C19"] = ("runtime monitoring: acceptance oracle over generated invocations (valid ones, often at a limit, and spoilt ones), file and message monitor", "exploration", NOTE)
T["C20"] = ("runtime monitoring: online monitor of input, output and file operations (LD_PRELOAD trace) under scripted answers and delays", "exploration", SHIM)
T["C21"] = ("runtime monitoring with fault injection: recorded file operations replayed into crash images, injected I/O faults, kills, locks and signals; state oracle {before, after}", "fault_enumeration",
    SHIM + " Power loss is modelled as losing any unsynced writes sector by sector, with directory changes durable in order; crash points are sampled, with preference for those around syncs, truncations and unlinks.")
T["C22"] = ("runtime monitoring: trace monitor (opens, writes, unlinks) and byte comparison of the source under faults and kills", "exploration", SHIM)
T["C24"] = ("sanitizers: AddressSanitizer, MemorySanitizer and ThreadSanitizer builds of the program with all its dependencies, on well-formed and hostile maps", "exploration",
    "No report on any execution explored, nothing more; SQLite 3.34.1 from the cargo cache, instrumented, replaces the system's library in these builds.")
T["C25"] = ("runtime monitoring: order, termination and durability monitors of the output stream and operation trace under injected delays", "exploration", SHIM)
T["C27"] = ("runtime monitoring: serializability oracle (results of all serial orders) over overlapping runs of the program and of other users of the maps, under injected delays", "exploration",
    "Held on every meeting explored, nothing more; the serial results come from the same program, whose correctness alone is the business of the other checks.")
T["C28"] = ("runtime monitoring: resource monitor (peak memory, processor time, threads, open files, output) comparing runs on maps of growing size", "exploration",
    "Held on every run measured, nothing more; two sizes per case (up to tens of thousands of blocks), release build, bounds with a margin over what was measured.")
NA = {}
