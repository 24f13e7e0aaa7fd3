"""What each check runs.  group: scen_<group>.cpp; quick: runs per scenario and build."""
ASSUMPTIONS = [
    "scheduling points are the intercepted calls and every instrumented memory access of the code under test; the memory model is sequentially consistent",
    "seeded sampling of schedules and faults: a clean batch is evidence, not proof",
    "the absent packages ecl_config, ecl_errors and ecl_time_lite are replaced by stand-ins under /verif/stubs with the documented interface",
]
KERNEL = "operating system (threads, clocks and timers, scheduling classes) simulated behind link-time --wrap of the C library calls"
CXXRT = "libstdc++ and the C library's pure functions are the real ones"

def P(group, scenarios, nontrivial, real, stubs=None, **kw):
    d = dict(group=group, scenarios=scenarios, nontrivial=nontrivial, real=real, stubs=(stubs or [KERNEL]))
    d.update(kw)
    return d

THR = ["ecl_threads (thread_pos, threadable, mutex_pos, priority_pos)", "ecl_utilities function objects", "ecl_exceptions", CXXRT]
TIM = ["ecl_time (sleep_pos, snooze_pos, stopwatch, cpuwatch_rt, timestamp_pos, timestamp_base, frequency)", "ecl_exceptions", CXXRT]
IPC = ["ecl_ipc (semaphore_pos, shared_memory_pos)", "ecl_time Duration", "ecl_exceptions", CXXRT]
DEV = ["ecl_devices ({})", "ecl_exceptions", "glibc's stdio buffering and error code (over simulated descriptors)", CXXRT]
def dev(x): return [DEV[0].format(x)] + DEV[1:]
SOC = ["ecl_devices (socket_server_pos, socket_client_pos, socket_exception_handler_pos)", "ecl_exceptions", CXXRT]
SIG = ["ecl_sigslots (sigslot, signal, slot, manager, topic)", "ecl_utilities function objects", CXXRT]
STR_ = ["ecl_streams (text streams, manipulators)", "ecl_converters", "ecl_exceptions", CXXRT]
PROPS = {
    "C01": P("threads", ["thread_run"], "at least one task was run by a created thread", THR, quick=182000),
    "C02": P("threads", ["thread_lifecycle"], "at least one task was run by a created thread", THR, quick=200000),
    "C03": P("threads", ["threadable"], "a worker body ran", THR, quick=167000),
    "C04": P("threads", ["mutex", "mutex_last_user"], "two callers were inside mutex operations at once, or an initialisation failed", THR, quick=200000),
    "C05": P("threads", ["priority"], "a priority was set or a thread was created with one", THR, quick=195000),
    "C06": P("time", ["sleeps"], "a sleep was called", TIM, quick=218000),
    "C07": P("time", ["snooze"], "a snooze was called", TIM, quick=194000),
    "C08": P("time", ["watches"], "a watch was read or stamps were combined", TIM, quick=180000),
    "C09": P("time", ["frequency"], "analyse() was called", TIM, quick=169000),
    "C10": P("ipc", ["semaphore"], "two users were inside operations on the semaphore at once, or a process crashed", IPC, quick=148000),
    "C11": P("ipc", ["shared_memory"], "handles of several users existed or were being constructed", IPC, quick=108000),
    "C12": P("devices", ["ofile_ops", "ofile_crash", "ofile_threads", "ofile_append"], "data was flushed or a file was closed and its content compared", dev("ofile_pos"), quick=37000),
    "C13": P("devices", ["shared_file", "shared_file_ops"], "a file was shared, or opened and written", dev("shared_file, character_buffer, ofile_pos") + ["ecl_threads Mutex"], quick=58000),
    "C14": P("net", ["socket_stream", "socket_crash"], "bytes were read from a connection", SOC, quick=48000),
    "C15": P("net", ["socket_lifecycle", "socket_hosts"], "a connection or server was opened", SOC, quick=67000),
    "C16": P("serial", ["serial_io", "serial_lifecycle"], "a port was opened", dev("serial_pos") + ["ecl_time Snooze"], ["serial line (line discipline, wire format, queues, locks, unplugging) simulated", KERNEL], quick=82000),
    "C17": P("console", ["console_out", "console_in", "string_device"], "text was flushed, read or stored", dev("console, string, character_buffer"), ["terminal (short, failing and late transfers) simulated", KERNEL], quick=51000),
    "C18": P("sigslots", ["sigslot_history", "sigslot_direct"], "a callback ran", SIG, quick=130000),
    "C19": P("sigslots", ["sigslot_callbacks"], "a callback ran", SIG, quick=120000),
    "C20": P("sigslots", ["sigslot_threads"], "a callback ran", SIG, quick=115000),
    "C21": P("streams", ["stream_out"], "an insertion succeeded", STR_ + ["ecl_devices OFile, String, OConsole, EConsole"], ["terminal and a user's device (short, refusing, throwing) simulated", KERNEL], quick=145000),
    "C22": P("streams", ["stream_in", "stream_in_devices", "stream_pair"], "an extraction succeeded", STR_ + ["ecl_devices IConsole, String, SocketServer, SocketClient"], ["a user's device (empty, failing, throwing) and the network simulated", KERNEL], quick=49000),
    "C23": P("streams", ["stream_log"], "a log was flushed with lines in it", STR_ + ["ecl_devices SharedFile", "ecl_time TimeStamp"], quick=139000),
    "C24": P("streams", ["stream_format"], "a formatted value was inserted", STR_ + ["ecl_formatters"], ["a user's device (short, refusing, throwing) simulated", KERNEL], quick=160000),
    "C25": P("containers", ["containers"], "a container with elements was used", ["ecl_containers (Array, Stencil, FiFo, PushAndPop)", "ecl_exceptions", CXXRT], ["element type (throwing copies) of the scenario"], quick=140000),
    "C26": P("filesystem", ["realpath"], "a path was resolved", ["ecl_filesystem realpath", CXXRT], ["realpath(3) over a simulated file tree"], quick=110000),
    "C27": P("utilities", ["singleton"], "an instance was asked for", ["ecl_utilities Singleton", CXXRT], ["the runtime's guard for static objects simulated as a lock", KERNEL], quick=110000),
    "C28": P("utilities", ["random_numbers"], "a number was drawn", ["ecl_time RandomNumberGenerator"], ["the C library's rand (one sequence per process), clock, process numbers simulated"], quick=100000),
    "C29": P("utilities", ["exceptions"], "an exception was raised", ["ecl_exceptions (StandardException, DataException, PosixErrorHandler, macros)", CXXRT], ["memory that runs out simulated", KERNEL], quick=110000),
    "C30": P("print", ["print_containers"], "a container was printed", ["ecl_containers (formatters, insertion operators)", "ecl_formatters", "ecl_streams", "ecl_converters"], ["a user's device (short, refusing, throwing) simulated", KERNEL], quick=110000),
    "C31": P("errors", ["errors_files", "errors_shared_files", "errors_sockets", "errors_serial", "errors_streams", "errors_unopened", "errors_ipc", "errors_threads", "errors_time"], "an operation was performed with the system refusing any, one or several of its calls", ["ecl_devices (files, shared files, sockets, serial)", "ecl_ipc (semaphores, shared memory)", "ecl_threads", "ecl_time (sleeps, stamps, stop watches)", "ecl_exceptions"], ["files, network, serial lines, shared memory simulated", "scripted failures of system calls and allocations", KERNEL], quick=20000),
    "C32": P("checked", ["checked_containers", "checked_borders"], "an array with elements was used", ["ecl_containers with ECL_MEM_CHECK_ARRAYS (Array, Stencil, FiFo, PushAndPop)", "ecl_exceptions", CXXRT], ["element types of the scenario", "stray writes of the program into the borders of arrays"], quick=60000),
}
