NOTE = ("Seeded sampling of whole executions of the real code under a simulated kernel; a clean batch is evidence, not proof. "
        "Assumes sequentially consistent memory and that the simulated system calls behave as POSIX/Linux documents. ")

prop("C01", "A started thread runs its task exactly once and join waits for it",
     "A task handed to ecl::Thread, in any of its forms, runs exactly once in another thread with the arguments it was given and on a stack of the size asked for, and join() returns only after the task has finished with all its effects visible. "
     "If the thread could not be created this is reported (an exception in debug builds, an error result or isRunning()==false in release builds) and the task never runs. "
     "A priority that cannot be applied does not end the program.",
     ["schedules", "fault_sequences", "configurations"], "every interleaving of creator, task and joiner, every failing creation, allocation or priority call, both build modes",
     "the tests start a handful of threads and sleep; they never see a failed creation, a refused priority or an unlucky schedule",
     ["ecl_threads/include/ecl/threads/thread_pos.hpp", "ecl_threads/src/lib/thread_pos.cpp"],
     [("task hand-over", "ThreadTask::EntryPoint"), ("creation", "Thread::start, Thread::initialise"), ("waiting", "Thread::join")], NOTE)

prop("C02", "Any order of start, join, cancel, isRunning and destroy is safe and truthful",
     "A Thread handle may be started, joined (more than once), cancelled, queried and destroyed in any order, before or after its task has ended, without touching freed memory, a joined or detached thread, or leaking the task or the thread. "
     "isRunning() is true while the task runs (until it is cancelled) and false once the thread has ended or was joined; destroying a handle detaches a thread that still runs. "
     "A handle whose start failed can be started again, and starting a started handle is refused.",
     ["schedules", "histories", "fault_sequences"], "every sequence of operations on a handle, interleaved in any way with the task, with creation or allocation failing anywhere",
     "use-after-free, double join and leaks need the handle operation and the end of the task to line up",
     ["ecl_threads/include/ecl/threads/thread_pos.hpp", "ecl_threads/src/lib/thread_pos.cpp"],
     [("handle", "Thread::~Thread, Thread::cancel, Thread::join, Thread::isRunning"), ("task lifetime", "ThreadTaskBase, ThreadTask::EntryPoint")], NOTE)

prop("C03", "A Threadable has at most one worker and reports it truthfully",
     "However many threads call start() at once, at most one worker runs runnable() of a Threadable at any time, and each start() that returned true makes it run exactly once. "
     "start() refuses only while a worker is running or being started, or when the thread could not be created, and the object can be started again after its worker ended or after a failed start. "
     "isRunning() is true from a successful start() until runnable() has returned and false when idle, and the object may be destroyed as soon as it is false.",
     ["schedules", "fault_sequences"], "every interleaving of concurrent start() and isRunning() callers with the worker, and every thread creation failure",
     "the only test starts one worker from one thread",
     ["ecl_threads/include/ecl/threads/threadable.hpp"],
     [("at most one", "Threadable::start"), ("end of work", "Threadable::executeThreadFunction"), ("query", "Threadable::isRunning")], NOTE)

prop("C04", "Mutex gives mutual exclusion with truthful, timely try and timed locks",
     "At most one thread holds a Mutex; lock() returns only as holder, trylock() never blocks and fails only if the mutex was held during the call, and trylock(duration) fails only after the whole duration has passed and returns soon after it. "
     "locks() is at least one for the holder and zero when nobody holds or waits for the mutex, and Mutex(true) is created locked. Once unlock() has let go, it touches the mutex no more, so the next holder may destroy it. "
     "In debug builds relocking by the holder and unlocking by another thread are reported and leave the mutex as it was.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of lockers, every duration including zero, clock steps, and initialisation failures",
     "the tests use one mutex from few threads and never measure how long a timed lock waits or who wins a race",
     ["ecl_threads/src/lib/mutex_pos.cpp", "ecl_threads/include/ecl/threads/mutex_pos.hpp"],
     [("lock", "Mutex::lock, Mutex::unlock"), ("try", "Mutex::trylock()"), ("timed", "Mutex::trylock(Duration&)"), ("count", "Mutex::locks")], NOTE)

prop("C05", "Priorities are applied as asked or reported as failed",
     "After set_priority() reports success the calling thread, and only it, runs under the scheduling class and level that the priority stands for and get_priority() returns that priority; after a reported failure its scheduling is unchanged. "
     "DefaultPriority and UnknownPriority change nothing. "
     "A Thread created with a priority runs its task with it when the system permits, and with its creator's otherwise; the creator's own priority is untouched.",
     ["histories", "fault_sequences", "configurations"], "every sequence of priority changes by privileged and unprivileged threads with any of the scheduler calls failing",
     "an unprivileged test run cannot exercise most levels, and nothing tests a refused change",
     ["ecl_threads/src/lib/priority_pos.cpp", "ecl_threads/include/ecl/threads/thread_pos.hpp"],
     [("set", "ecl::set_priority, threads::set_real_time_priority"), ("get", "ecl::get_priority"), ("threads", "ThreadTaskBase::configurePriority")], NOTE)

prop("C06", "A sleep never ends early unnoticed",
     "Sleep, MilliSleep, MicroSleep and NanoSleep, configured by construction or by the call and over their whole documented range, return no earlier than the asked time on the monotonic clock and soon after it, whatever earlier sleeps the object did and however the wall clock is stepped; duration() returns the configured time. "
     "Only a signal may end a sleep early, and debug builds then throw InterruptedError; a negative duration is reported there as InvalidInputError.",
     ["histories", "fault_sequences", "schedules"], "every sequence of sleeps on one object, every duration in range, signals and clock steps at any instant",
     "the tests sleep fresh objects for a few round durations and cannot step the clock or deliver signals",
     ["ecl_time/src/lib/sleep_pos.cpp", "ecl_time/include/ecl/time/sleep_pos.hpp"],
     [("seconds and nanoseconds", "Sleep/MilliSleep/MicroSleep/NanoSleep::operator()"), ("errors", "time::throwSleepException")], NOTE)

prop("C07", "A Snooze loop keeps its period without drift",
     "The k-th call of a Snooze ends at its start plus k periods, never before and soon after, so that the lateness of one loop never shifts the following ones, whatever the period and however the wall clock is stepped. "
     "A late call returns at once without validation, and with validation resynchronises so that it ends one period later. period() returns the configured period, and initialise() and period(..) restart the grid.",
     ["histories", "schedules", "fault_sequences"], "every sequence of loops with any amount of work, lateness, signals and clock steps, and every period",
     "drift and lost periods depend on the exact nanosecond stamps and on overruns, which a test on the real clock cannot choose",
     ["ecl_time/src/lib/snooze_pos.cpp", "ecl_time/include/ecl/time/snooze_pos.hpp"],
     [("grid", "Snooze::operator(), Snooze::add_period"), ("late loops", "Snooze::validate")], NOTE)

prop("C08", "Stop watches and stamps measure true elapsed time",
     "StopWatch::elapsed() and split() give the monotonic time since the last restart and since the last split, CpuWatch gives the process's cpu time likewise; splits add up to the elapsed time and no step of the wall clock changes them. "
     "TimeStamp takes the current time, never going backwards, realtime_now() the wall clock, and sums, differences, comparisons, parts and printed text of stamps, negative ones included, agree exactly with arithmetic in nanoseconds and stay normalised.",
     ["histories", "inputs", "schedules"], "every history of readings, splits, restarts, stalls and clock steps, and all pairs of stamps",
     "the tests print readings of the real clock and check a few sums",
     ["ecl_time/src/lib/stopwatch.cpp", "ecl_time/src/lib/cpuwatch_rt.cpp", "ecl_time/src/lib/timestamp_pos.cpp", "ecl_time/src/lib/timestamp_base.cpp"],
     [("watches", "StopWatch::elapsed/split/restart, CpuWatch"), ("stamps", "TimeStamp::stamp, TimeStamp::realtime_now"), ("arithmetic", "TimeStampBase operators")], NOTE)

prop("C09", "FrequencyMonitor reports the true rate of its window",
     "analyse() leaves the diagnostics alone until a window period has passed on the configured clock, and then reports the number of updates over the measured interval as hz with the true shortest and longest time between updates; a window without updates reports no connection and zero rate, and an update restores the connection. "
     "A monitor on the monotonic clock is unaffected by steps of the wall clock.",
     ["histories", "schedules", "configurations"], "every history of updates and analyses with any spacing, any window period, both clocks, and clock steps",
     "the test runs ten seconds of evenly spaced updates on the real clock",
     ["ecl_time/src/lib/frequency.cpp", "ecl_time/include/ecl/time/frequency.hpp"],
     [("updates", "FrequencyMonitor::update"), ("window", "FrequencyMonitor::analyse")], NOTE)

prop("C10", "A named Semaphore excludes all its users in every process",
     "Among all Semaphore objects opened under one name while the object that created it lives, in any threads and processes, at most one holds the lock at a time. "
     "lock() returns only with the lock whatever signals arrive, trylock() never blocks, trylock(duration) fails only after the whole duration (or when a signal interrupts it, which debug builds report as InterruptedError) and soon after it, neither fails while the semaphore is free throughout, a waiter gets the lock after it is unlocked, and unlocking a free semaphore has no effect. "
     "Objects coming, going, failing to open (reported in debug builds) or crashing while not holding the lock disturb nobody; the name is released with its creator and can then be used afresh.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of users in several processes, openings and destructions at any moment, signals, process crashes, refused system calls and clock steps",
     "the tests fork one child and sleep around a single hand-over",
     ["ecl_ipc/src/lib/semaphore_pos.cpp", "ecl_ipc/include/ecl/ipc/semaphore_pos.hpp"],
     [("open and close", "Semaphore::Semaphore, Semaphore::~Semaphore"), ("lock", "Semaphore::lock, Semaphore::trylock, Semaphore::unlock")], NOTE + "A process that dies holding the lock takes it along (POSIX), which is exempt. ")

prop("C11", "SharedMemory gives every user of a name the same memory, initialised once",
     "Every SharedMemory object opened under one name while its creator's object lives maps the same storage, which starts as Storage() and is never reset, lost or shortened by others constructing, failing to construct, being destroyed or crashing. "
     "A construction the system refuses at any step is reported by an exception (built without exceptions: by data() being NULL) and leaves behind no descriptor, mapping or name of its own and no damage to the memory and name of others; otherwise construction succeeds, also while the name is being created or released by somebody else. "
     "Descriptors are closed once mapped, mappings end with their object, and the name ends with the creator's object while remaining users keep their memory.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of constructions, accesses and destructions in several processes with any of the system calls failing, and process crashes",
     "the test maps one segment from a parent and a child; refused calls and racing constructions never occur there",
     ["ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp", "ecl_ipc/src/lib/shared_memory_pos.cpp"],
     [("open", "SharedMemoryBase::open"), ("map and initialise", "SharedMemory::SharedMemory"), ("release", "SharedMemory::~SharedMemory, SharedMemoryBase::unlink")],
     NOTE + "Known finding shm-init-race: an object obtained before the creator's constructor has finished may see or lose uninitialised contents. ")

prop("C12", "OFile keeps every accepted byte, in order, or says so",
     "Once flush(), close() or destruction has succeeded, the file holds exactly what it held when opened in Append mode (nothing in New mode) followed by the bytes of every write in order, zero bytes included and whatever the sizes, short writes and buffering; writes of threads sharing the object appear whole and in each thread's order, and two objects appending to one file lose nothing. "
     "Flushed data survives a crash of the process at any point and the file never holds anything but a prefix of what was written; a write the system refuses is reported by that write or at the latest by the next flush(), close() or open(), after which later accepted bytes still arrive. "
     "A failed open (and a write or flush of a file that is not open) is reported and leaves nothing open; opening an open object closes the old file first; close() always releases the descriptor, repeated close and destruction are harmless, and error() tells the outcome of the last operation that did not throw.",
     ["histories", "fault_sequences", "schedules", "crash_points"], "every sequence of operations with any data, every refused, short or late write, and a crash at any point",
     "the test writes a few lines to a healthy disk and never looks at the file",
     ["ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/include/ecl/devices/ofile_pos.hpp"],
     [("open and close", "OFile::open, OFile::close, OFile::~OFile"), ("write", "OFile::write, OFile::flush")], NOTE + "After a reported failure bytes accepted before it may be missing (the C library drops its buffer). ")

prop("C13", "SharedFile objects of one name share one file without tangling or losing data",
     "All SharedFile objects of one name open at the same time write to one file opened once: after the last is gone the file holds, after the content it had (New: none), every byte of every object in that object's order, and what an object wrote since its last flush (up to its buffer size) stays in one piece, however threads interleave. "
     "count() is the number of objects sharing; objects come and go at any time: the file stays open for the others, is closed with the last one, and its name can be used afresh. "
     "A failing open, write or flush is reported to its own user (error() included, where it does not throw), never blocks or disturbs another user of this or another file, never duplicates or reorders data, and leaks nothing; an object that never opened reports failure of flush and can be destroyed; reopening an open object gives up the old file after writing its data.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of threads opening, writing, flushing and destroying, with any open or write failing",
     "the tests share a file between two objects of one thread and no call ever fails",
     ["ecl_devices/src/lib/shared_file.cpp", "ecl_devices/include/ecl/devices/shared_file.hpp", "ecl_devices/src/lib/detail/character_buffer.cpp"],
     [("registry", "SharedFileManager::RegisterSharedFile, DeRegisterSharedFile"), ("buffering", "SharedFile::write, SharedFile::flush, CharBuffer")], NOTE)

prop("C14", "Sockets carry the byte stream unchanged and report its end exactly when it ends",
     "What SocketClient and SocketServer read is the byte stream the peer's write() calls reported as written: in order, nothing lost, repeated or altered (zero bytes included), whatever the sizes, segmentation, delays and signals; write() reports how many bytes it took, read() waits only while nothing is there, peek() shows the next bytes without consuming them and remaining() is the number of bytes waiting. "
     "read() reports ConnectionHungUp only after the peer has closed, died or reset the connection, and unless it was reset only after every byte sent before was delivered; a closing or dying peer is noticed by the other side. "
     "After a hang-up open() is false and read(), write(), peek() and remaining() return ConnectionDisconnected, and the server can be opened on its port again at once and serve another client; on a healthy connection no call fails; a failed call leaves its reason in error(), a successful one NoError.",
     ["schedules", "histories", "fault_sequences", "crash_points"], "every conversation, segmentation and delay, with any read or write failing, resets, and the death of a peer at any point",
     "there is no automatic socket test; the manual one sends a short greeting over a perfect loopback",
     ["ecl_devices/src/lib/socket_server_pos.cpp", "ecl_devices/src/lib/socket_client_pos.cpp", "ecl_devices/include/ecl/devices/socket_server_pos.hpp", "ecl_devices/include/ecl/devices/socket_client_pos.hpp"],
     [("read", "SocketServer::read, SocketClient::read, peek, remaining"), ("write", "SocketServer::write, SocketClient::write")], NOTE)

prop("C15", "Sockets own exactly their descriptors and report every failed open",
     "At every moment the descriptors open in the process on behalf of sockets are exactly one per open client, one per open server and one per server with a client: whatever fails and in whatever order objects are constructed, opened, re-opened, listened on, hung up, closed (twice, too) and destroyed, nothing leaks and no descriptor of another part of the program is closed or used. "
     "A failed open is reported by an exception or false with its reason, and open() is then false; open() is true exactly while the device is open; opening a port in use or a host where nobody listens never seems to succeed, otherwise opening succeeds; a failed listen() leaves the server open, a new client accepted by listen() replaces the previous one, and listen() or any data call on an unopened device reports failure; after a successful open() error() is NoError. An open server is reached by any name or address of its host, with what the name lookup answered always given back. "
     "Clients opened concurrently to different hosts each reach the host they named.",
     ["histories", "fault_sequences", "schedules"], "every sequence of operations with any of the system calls failing, and every interleaving of concurrent opens",
     "there is no automatic socket test, failures and repeated use are never tried",
     ["ecl_devices/src/lib/socket_server_pos.cpp", "ecl_devices/src/lib/socket_client_pos.cpp", "ecl_devices/include/ecl/devices/socket_server_pos.hpp", "ecl_devices/include/ecl/devices/socket_client_pos.hpp"],
     [("open and close", "SocketServer::open, SocketServer::close, SocketClient::open, SocketClient::close"), ("listen", "SocketServer::listen")], NOTE)

prop("C16", "Serial keeps its line format, loses nothing, honours its mode, owns its port",
     "While a Serial is open, bytes received on the line at the requested baud rate, data bits, stop bits and parity are read in order and unchanged (control characters, 0 and 0xff included), and bytes written reach the other end in order and unchanged, also when the port is closed afterwards; input from before open() is dropped and only the clear calls drop anything later, each only the direction it names; changing the read mode loses nothing. "
     "A read returns waiting data at once; otherwise, when unblocked, nothing at once, and with a timeout it returns as soon as data arrives (within the documented polling interval below 100 ms) or nothing once the timeout (rounded down to tenths of a second from 100 ms on, at most 25.5 s) has passed, never earlier or later; remaining() is the number of waiting bytes. "
     "An open port is locked against other processes; a port which is locked, gone or refused by the system at any step, or unsupported stop bits, make open() fail with a reason, after which open() is false and neither a descriptor nor a lock is kept; open() turns false when the device is gone; calls on a closed object fail or do nothing and touch no other descriptor; close() may be repeated and releases descriptor and lock.",
     ["histories", "fault_sequences", "configurations", "inputs"], "every sequence of operations, line configuration, data and arrival time, with any system call failing, other processes holding the port and the device unplugged at any point",
     "there is no serial test, it takes a device",
     ["ecl_devices/src/lib/serial_pos.cpp", "ecl_devices/include/ecl/devices/serial_pos.hpp"],
     [("open", "Serial::open, Serial::close"), ("read modes", "Serial::block, Serial::unblock, Serial::read"), ("clear", "Serial::clear, clearInputBuffer, clearOutputBuffer")], NOTE + "A device replaced while its object stays open, and several objects of one process on one port (record locks belong to the process) are exempt. ")

prop("C17", "Console and string devices keep text whole and report every failure",
     "After a successful flush() of a console output device everything written to it, zero bytes included, has reached standard output or error in order, what one flush passes on is not mixed with other writers of the stream, at most one buffer (4095 bytes) is held back otherwise, and a transfer the system refuses is reported by the write or flush that met it (exception in debug builds, result or error() in release builds) without disturbing what is accepted later. "
     "The console input device delivers what is typed in order and unchanged, whatever pieces it arrives in, whole lines or up to n-1 characters at a time, and reports only the end of the input or a refused read as ReadError. "
     "The string device is an append-only text with an independent reading position: size(), remaining(), str(), c_str() and read() always agree with what was written since the last clear(), no operation touches memory outside its buffer, and one that runs out of memory changes nothing.",
     ["histories", "fault_sequences", "schedules", "inputs"], "every sequence of operations and data, short, failing and late transfers, threads sharing the terminal, and failing allocations",
     "no test uses the consoles with anything but a working terminal; the string device is never grown twice",
     ["ecl_devices/src/lib/console.cpp", "ecl_devices/src/lib/string.cpp", "ecl_devices/src/lib/detail/character_buffer.cpp"],
     [("output", "OConsole::write, OConsole::flush, EConsole"), ("input", "IConsole::read"), ("string", "String::write, String::grow, String::read, String::clear")], NOTE + "Text still buffered when a console object is destroyed, one console object used by several threads, and the rest of a line whose read failed are exempt. ")


prop("C18", "A signal reaches every slot of its topics exactly once, with its data",
     "Each emit() invokes every slot connected to a topic the signal is connected to exactly once per shared topic, directly or through relaying signals, with the emitted data, and invokes nothing else; signals of different data types never meet, and connecting twice is connecting once. "
     "This holds after any history of constructing, copying, assigning, destroying, connecting and disconnecting signals and slots. "
     "A construction or connect() that runs out of memory changes nothing and can be repeated, and when the last signal and slot of a topic are gone nothing of it remains; printStatistics() lists exactly the topics in use, each with the numbers of its signals and slots.",
     ["histories", "inputs", "fault_sequences"], "every history of sigslot operations over any topics, data types, callback forms and failing allocations",
     "the test makes four fixed connections; it never assigns, copies, reconnects, destroys or fails",
     ["ecl_sigslots/include/ecl/sigslots/sigslot.hpp", "ecl_sigslots/include/ecl/sigslots/manager.hpp", "ecl_sigslots/include/ecl/sigslots/topic.hpp"],
     [("delivery", "SigSlot::emit"), ("connections", "SigSlot::connectSignal, SigSlot::connectSlot, SigSlotsManager::disconnect")], NOTE + "The order of invocations is unspecified; relays that form a cycle are exempt. ")
prop("C19", "Callbacks may change the connections, and copies share one connection",
     "While an emit() runs, its callbacks may connect, disconnect, copy, assign and destroy other signals and slots, disconnect themselves, emit again or throw: a slot that is disconnected or destroyed is not invoked from then on, every slot nobody touched is still invoked exactly once (unless a callback threw), and nothing freed is touched. "
     "A slot whose callback threw keeps working and can be destroyed. "
     "Copies of a signal or slot are one connection that lives until its last copy is destroyed or assigned over.",
     ["histories", "programs"], "every history and every action of a callback at every position of an emission",
     "no test has a callback that does anything but count",
     ["ecl_sigslots/include/ecl/sigslots/sigslot.hpp", "ecl_sigslots/include/ecl/sigslots/signal.hpp", "ecl_sigslots/include/ecl/sigslots/slot.hpp"],
     [("emission", "SigSlot::emit, SigSlot::process"), ("copies", "Slot::operator=, Signal::operator=, ~Slot, ~Signal")], NOTE + "A slot or relay that destroys its own last handle in its own callback, and a signal destroyed by the callbacks it runs, are exempt. ")
prop("C20", "Signals and slots are thread safe",
     "Threads may emit, connect, disconnect, copy, create and destroy signals and slots of the same topics at the same time: a slot that stays connected is invoked exactly once per shared topic by every emit(), one that comes or goes meanwhile at most once, and by none that begins after its disconnect() has returned. "
     "The destructor of the last handle of a slot returns only when no callback of it runs or will run, and every operation completes as long as the callbacks do.",
     ["schedules", "fault_sequences"], "every interleaving of the operations of several threads, slow and throwing callbacks, and failing allocations",
     "the tests are single threaded",
     ["ecl_sigslots/include/ecl/sigslots/sigslot.hpp", "ecl_sigslots/include/ecl/sigslots/manager.hpp"],
     [("barrier", "~SigSlot"), ("emission", "SigSlot::emit"), ("topics", "SigSlotsManager")], NOTE + "Callbacks that wait for each other's slots to be destroyed are exempt. ")

prop("C21", "Text streams pass on exactly the text of what is inserted, or say they failed",
     "What reaches the device of an output text stream (file, string, console, or a user's own device) is the text of everything inserted - characters, strings, every integer type over its full range, bools, reals in fixed notation with six decimals, newlines - in order, nothing lost, altered or repeated, however the device takes it in parts. "
     "When the device refuses or throws, or memory runs out, the insertion or flush() that met it leaves fail() true (or passes the exception on), a later successful one leaves it false and its text still arrives whole. "
     "Streams of different threads do not disturb each other, and whatever happened a stream can be destroyed without a leak.",
     ["inputs", "histories", "fault_sequences", "schedules"], "every sequence of insertions of any values, with the device taking parts, refusing or throwing at any point, failing allocations, and several streams in use at once",
     "the tests insert a few fixed values into devices that never refuse anything",
     ["ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp", "ecl_streams/include/ecl/streams/manipulators/end_of_line.hpp", "ecl_converters/include/ecl/converters/char_strings.hpp"],
     [("insertion", "OutputTextStream::operator<<"), ("flush", "OutputTextStream::flush, endl")], NOTE + "In a chain of insertions fail() tells about the last one only; the text of one refused insertion may have arrived in part. ")
prop("C22", "Text streams extract the value the text stands for, or fail and change nothing",
     "An extraction skips blanks and newlines, takes the characters of one item and the one after it, and delivers exactly the value they stand for: any integer of the target type (decimal with sign, or hexadecimal after x or 0x), true/True/TRUE or false/False/FALSE, a real, a word or a character. "
     "Input that is no such item, exceeds the type or ends too early, and a failing device, leave fail() true with the matching flag (ConversionError, OutOfRangeError, ReadError) and a numeric or bool argument unchanged; the next extraction continues behind what was taken. "
     "What one stream inserts, separated by blanks, another extracts unchanged over a socket connection, however it is cut into pieces, and streams of different threads do not disturb each other.",
     ["inputs", "histories", "fault_sequences", "schedules"], "every text and sequence of extractions, with the device empty, failing or throwing at any character, several streams in use at once, and any segmentation of a connection",
     "the tests extract a handful of values from one stream",
     ["ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp", "ecl_streams/include/ecl/streams/socket_streams.hpp"],
     [("integers", "InputTextStream::getIntegerFromStream, parseHexInteger"), ("reals", "InputTextStream::getFloatFromStream"), ("words", "InputTextStream::operator>>")], NOTE + "Magnitudes beyond the range of a real, and the content of a string or character argument after a failure, are exempt. ")
prop("C23", "Log lines of many threads reach the log whole, in order and correctly marked",
     "Every message logged in an enabled mode is in the file of its LogStream after the last stream of that file is gone, exactly once, behind the time stamp (a reading of the system clock during the call, nanoseconds padded to nine digits) and the header of its mode that were switched on when it was logged; nothing is logged in a disabled mode. "
     "The lines one stream logs between two flushes (up to the buffer's size) stay together and in order, whatever other threads log to the same file and whenever they open and close it; what the file held before is kept in append mode. "
     "A refused write or flush is reported to the stream that met it, and nothing is repeated, reordered or leaked because of it.",
     ["schedules", "histories", "fault_sequences", "inputs"], "every interleaving of several loggers of one file, every history of mode and mark settings, and failing and short writes at any point",
     "the test logs three lines from one thread",
     ["ecl_streams/include/ecl/streams/log_stream.hpp", "ecl_streams/src/lib/log_stream.cpp", "ecl_devices/src/lib/shared_file.cpp"],
     [("marks", "LogStream::log"), ("sharing", "SharedFile::flush")], NOTE + "Whether the stamp is wall clock or time since boot is not specified; text the file system refuses behind a successful flush (it is written behind) is exempt. ")
prop("C24", "Formatters print what their settings promise; temporary settings stay temporary",
     "A formatted integer (decimal, binary or hexadecimal with the digits of its type), real (fixed notation with the given precision) or string is printed in full and padded with blanks to the width on the side its alignment demands, whatever the values and settings. "
     "Parameters given together with a value apply to that value only - also if printing it fails - and parameters set on the formatter to all later ones, in any history of both, with values that are never printed and with copies of the formatter. "
     "This holds when formatters of several threads are in use at once; a formatter without a value prints nothing, and one whose stream's device refuses text writes nothing but a part of that text, leaves the failure visible and leaks nothing.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every value, setting and sequence of operations, several formatters in use at once, and devices taking parts or refusing",
     "the tests print a few values for somebody to look at",
     ["ecl_formatters/include/ecl/formatters/number.hpp", "ecl_formatters/include/ecl/formatters/floats.hpp", "ecl_formatters/include/ecl/formatters/strings.hpp"],
     [("integers", "FormatNumber::operator(), formatDec, formatHex, formatBin"), ("reals", "FormatFloat::operator(), formatFixed"), ("padding", "prePad, postPad")], NOTE + "Scientific notation and precisions above 20 are exempt; parameters given with a string are permanent, as implemented. ")

prop("C25", "Containers hold exactly what was put into them, also when memory or a copy fails",
     "Arrays (fixed and dynamic), windows (stencils) on arrays or on plain memory, FiFo and PushAndPop hold at every index, in either iteration direction and at every size exactly what the history of construction, assignment (also to itself), comma lists, fills, pushes, pops, resizes and copies put there; a full PushAndPop drops its oldest element, resize() starts afresh. "
     "An access beyond the array is refused by at() always and by [], lists, windows and empty pops in debug builds, one inside never is. "
     "When memory runs out or copying an element throws, construction leaves nothing behind, element-wise operations (fill, lists, copying into windows or fixed arrays) leave only their targets unspecified, and every other operation leaves its container as it was; nothing leaks and no dead element is touched.",
     ["histories", "inputs", "fault_sequences"], "every history of operations on containers of elements with memory of their own, with any allocation or element copy failing",
     "the tests fill a few containers of numbers and never meet a failure",
     ["ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp", "ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp", "ecl_containers/include/ecl/containers/stencil/stencil.hpp", "ecl_containers/include/ecl/containers/fifo.hpp", "ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp"],
     [("arrays", "Array::resize, Array::operator=, Array::Array"), ("windows", "Stencil"), ("queues", "FiFo::push_back, PushAndPop::push_back, PushAndPop::pop_front")], NOTE + "The memory-checked variant (ECL_MEM_CHECK_ARRAYS), queues of length zero, popping an empty queue in release builds and access beyond a window inside its array are exempt. ")

prop("C26", "realpath gives the real path, or a truthful error and leaves the answer alone",
     "ecl::realpath() delivers exactly the canonical path the system resolved, up to the longest one possible, whatever links, dots and relative parts it was asked with. "
     "When the system refuses (nothing there, no permission, too many links, too long, not a directory, I/O error) or memory runs out, the matching error is returned (or the exception passed on), the caller's answer string is unchanged and nothing leaks. "
     "Calls of several threads do not disturb each other.",
     ["inputs", "fault_sequences", "schedules"], "every tree and path, every failure of the system call or of an allocation, and concurrent calls",
     "the test resolves one existing path",
     ["ecl_filesystem/src/lib/realpath.cpp"],
     [("resolution", "ecl::realpath")], NOTE)

prop("C27", "A Singleton is constructed exactly once, whichever threads ask first",
     "Singleton<T>::instance() constructs its object exactly once in a process's life, whichever threads ask for it first and however long construction takes: every caller gets the same, completely constructed object, and objects of different types are independent. "
     "When construction fails (throws, out of memory) each caller it failed for gets that exception, nobody gets a half-made object, and the next call tries again.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of first calls, with construction slow or failing",
     "the test asks for one singleton from one thread",
     ["ecl_utilities/include/ecl/utilities/singleton.hpp"], [("instance", "Singleton::instance")], NOTE + "Destruction at the end of the process is exempt. ")

prop("C28", "Random numbers are in range, distributed as promised and repeatable by seed",
     "uniform() lies in [0,1], uniform(r) in [-r,r], gaussian(s) and gaussian(s,m) are always finite; each has the promised mean and deviation and the draws do not follow from each other. "
     "A generator given a seed delivers the same sequence whatever this or other generators delivered before; generators which seed themselves in different processes or at different times deliver different sequences; no generator's numbers are another thread's.",
     ["inputs", "histories", "schedules"], "every seed, history of draws of several generators, and interleaving of threads drawing numbers",
     "the example prints histograms",
     ["ecl_time/include/ecl/time/random_number_generator.hpp"], [("drawing", "RandomNumberGenerator::uniform, RandomNumberGenerator::gaussian"), ("seeding", "RandomNumberGenerator::seed")],
     NOTE + "Generators share one sequence in a process, so a sequence is repeatable only while no other generator draws or is seeded. Integer number types are exempt. ")

prop("C29", "Exceptions tell where, what and how along their whole way",
     "A StandardException or DataException carries the flag, message, data and place it was raised with, and each rethrow adds its place, newest first, so that what() shows the whole way - through copies, rethrows and hand-over to other threads, with other exceptions in flight. "
     "PosixErrorHandler gives the error's text; ecl_throw throws in every build, ecl_debug_throw and ecl_assert_throw in debug builds only and evaluate nothing otherwise. "
     "When memory runs out while one is built the caller sees bad_alloc (or a shortened text) and nothing else, and nothing leaks.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every flag, text and chain of rethrows, in several threads, with any allocation failing",
     "the tests look at no texts and never run out of memory",
     ["ecl_exceptions/src/lib/standard_exception.cpp", "ecl_exceptions/include/ecl/exceptions/data_exception.hpp", "ecl_exceptions/include/ecl/exceptions/posix_error_handler.hpp", "ecl_exceptions/include/ecl/exceptions/macros.hpp"],
     [("exceptions", "StandardException::StandardException, StandardException::what, DataException"), ("macros", "ecl_throw, ecl_debug_throw, ecl_assert_throw")], NOTE)

prop("C30", "Printed containers show every element in order, in the layout asked for",
     "Inserting an array, a window, a queue or a byte array into a text stream writes every element once and in order, in the layout of its kind (byte arrays in hex, queues oldest first); formatters of float containers show each element with the width and precision asked for - those given together with the container for that time only, also if printing fails, those set on the formatter until changed - and empty containers as empty; without a container they print nothing. "
     "A device which takes parts or refuses gets nothing but a part of that text; printing by several threads at once mixes no texts, and nothing leaks.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every content, setting and sequence of both, several threads printing at once, and devices taking parts or refusing",
     "the tests print containers for somebody to look at",
     ["ecl_containers/include/ecl/containers/array/formatters.hpp", "ecl_containers/include/ecl/containers/stencil/formatters.hpp", "ecl_containers/include/ecl/containers/common/formatters.hpp"],
     [("formatters", "FloatContainerFormatter"), ("insertion", "operator<<")], NOTE + "A formatter used without a container is exempt. ")

prop("C31", "Every failure is reported as what it is and leaves the object usable",
     "Whatever call of the system fails, with whatever error, in files, shared files, sockets, serial lines, semaphores, shared memory, threads, mutexes, priorities, sleeps and stamps - and whichever allocation fails - the operation which needed it never looks successful: it throws, or answers its failure value with error() set, as documented for the build (exceptions enabled or disabled, debug or release), with the error class that belongs to the cause and the place where it happened. "
     "Causes which are not failures (a lock taken by others, a time out, a partner who left) come as the documented answer. "
     "Nothing is leaked or left locked, open() tells the truth, no state is changed halfway, and the same operation succeeds when the system does not refuse it any more.",
     ["fault_sequences", "histories", "schedules"], "every operation with every documented error of every call it makes, at any point of a history of operations, one after the other",
     "the tests never see a system call fail",
     ["ecl_devices/src/lib/detail/error_handler.cpp", "ecl_devices/src/lib/detail/exception_handler_pos.cpp", "ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp", "ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp", "ecl_ipc/src/lib/semaphore_pos.cpp", "ecl_ipc/src/lib/shared_memory_pos.cpp", "ecl_threads/src/lib/thread_pos.cpp", "ecl_threads/src/lib/mutex_pos.cpp", "ecl_threads/src/lib/priority_pos.cpp", "ecl_time/src/lib/sleep_pos.cpp"],
     [("devices", "open_exception, write_exception, close_exception, bind_exception, accept_exception, receive_exception, send_exception, connection_exception"), ("ipc", "openSharedSectionException, memoryMapException, openSemaphoreException, tryLockSemaphoreException"), ("threads", "throwPthreadCreateException, throwMutexLockException, throwPriorityException")], NOTE + "Errors outside POSIX's lists only have to be reported, in any class; failures documented to be reported in debug builds only are not made in release builds; ends of connections by the partner are exempt here (C14). ")

prop("C32", "Memory checked arrays behave as arrays and notice every stray write",
     "Built with ECL_MEM_CHECK_ARRAYS, arrays of any element type - and the containers on top of them - hold exactly what was put into them, through any history, with any allocation or element copy failing, as those without checks do. "
     "When the program writes to any of the four bytes before the first or behind the last element, bufferUnderRun(), bufferOverRun() and bufferOverFlow() say so, at the right end and from then on until the storage is replaced; no use of the array itself, no copy and no assignment ever makes them say so, and a copy of a damaged array is sound. Elements are properly made, aligned and unmade.",
     ["histories", "inputs", "fault_sequences"], "every element type, size, history of operations and stray writes at either end, with any allocation or copy failing",
     "the tests damage one array of int at one place",
     ["ecl_containers/include/ecl/containers/array/array_mem_check.hpp", "ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp"],
     [("borders", "bufferUnderRun, bufferOverRun, bufferOverFlow, initialiseMagicSections"), ("storage", "Array<Type,DynamicStorage>::resize, clear, operator=")], NOTE + "A byte overwritten with the value it had is no damage; an array without elements has no ends to damage. ")

PURE = ("A pure computation on its arguments and the object's own state: no thread, clock, I/O, other party or failing call can change its answer, so there is no schedule or fault for a simulator to decide; "
        "under this technique it would only be input sampling. ")

na("N01", "Byte and string conversions are exact inverses within their ranges",
   "Converting a number to its bytes or characters and back gives the number again for every value of every supported type, in the documented byte order, and characters that are no number are reported as an error.",
   ["inputs"], "every value, width and malformed string", "the tests convert a few values",
   ["ecl_converters/include/ecl/converters"], [("conversions", "Converter<To, From>::operator()")],
   PURE + "Where a stream, console or formatter prints or parses through a converter the result is checked under C17, C21, C22 and C24.")
na("N02", "Command lines are parsed into exactly the values the user gave, or refused",
   "Every declared switch, valued and unlabelled argument ends up with exactly what the command line says, defaults stay where it says nothing, and unknown, missing, repeated or exclusive arguments are refused with a message naming them.",
   ["inputs"], "every set of declarations and every command line", "the tests parse a few lines",
   ["ecl_command_line/include/ecl/command_line"], [("parsing", "CmdLine::parse"), ("exclusion", "XorHandler::check")],
   PURE + "The argument vector is given once, before any other thread, and parsing does no I/O except printing a message before the program ends.")
na("N03", "Polynomials, splines and tension functions interpolate with promised continuity",
   "Linear functions, polynomials, smooth linear, cubic and tension splines pass through their knots, are continuous with the promised derivatives and boundary values, and refuse arguments outside their domain.",
   ["inputs"], "every set of knots, tensions and boundary conditions", "the tests sample a few curves",
   ["ecl_geometry/include/ecl/geometry", "ecl_geometry/src/lib"], [("splines", "CubicSpline, TensionSpline, SmoothLinearSpline, SplineFunction"), ("polynomials", "Polynomial, Synthesis, Intersection")], PURE)
na("N04", "Angles, poses and distances obey their group laws",
   "wrap_angle, Angle, Pose2D and Pose3D composition, inverse and relative pose are consistent with each other for every rotation, and distances are symmetric and zero only for equal points.",
   ["inputs"], "every angle and pose", "the tests compare a few poses",
   ["ecl_geometry/include/ecl/geometry/angle.hpp", "ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp", "ecl_geometry/include/ecl/geometry/pose2d.hpp"], [("poses", "LegacyPose2D::operator*, inverse, relative")], PURE)
na("N05", "Elementary mathematics keeps its documented identities",
   "sign, psign and nsign, the norms, and the fuzzy comparisons obey their documented bounds for every argument of every scalar type.",
   ["inputs"], "every argument", "the tests check a few values",
   ["ecl_math/include/ecl/math"], [("comparison", "isApprox, isApproxOrLessThan"), ("sign", "sign, psign, nsign")], PURE)
na("N06", "Statistics and linear algebra add up",
   "Cumulative statistics, covariance ellipsoids and the linear algebra helpers agree with their definitions for every sequence of samples and every matrix.",
   ["inputs", "histories"], "every sequence of samples", "the tests feed a few samples",
   ["ecl_linear_algebra/include/ecl/linear_algebra", "ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp", "ecl_statistics/include/ecl/statistics/covariance_ellipsoid.hpp"], [("running mean and variance", "CumulativeStatistics::operator()"), ("ellipsoid", "CovarianceEllipsoid::compute")], PURE)
na("N07", "Robot kinematics: forward and inverse agree",
   "Differential drive forward kinematics inverts its inverse for every wheel geometry and motion, and manipulator waypoints and interpolations honour the rates, durations and maximum accelerations given.",
   ["inputs"], "every geometry, command and list of waypoints", "the tests interpolate a few trajectories",
   ["ecl_mobile_robot/include/ecl/mobile_robot", "ecl_mobile_robot/src/lib", "ecl_manipulators/include/ecl/manipulators"], [("differential drive", "DifferentialDriveKinematics::forward, inverse"), ("trajectories", "Trajectory<JointAngles>")], PURE)
na("N08", "Compile-time types and traits answer correctly",
   "Type traits, limits, bit sizes, concepts and meta-programming helpers yield the documented type or constant for every type, and refuse at compile time what they must refuse.",
   ["inputs"], "every type", "the tests instantiate a few types",
   ["ecl_mpl/include/ecl/mpl", "ecl_type_traits/include/ecl/type_traits", "ecl_concepts/include/ecl/concepts"], [("traits", "is_reference, is_integral, numeric_limits, ...")],
   "Decided entirely by the compiler: nothing of it runs, so there is no execution to simulate. ")
na("N09", "Function objects call what they were bound to",
   "generateFunctionObject and the nullary, unary, partially bound, member and reference wrapped function objects call exactly the bound function with exactly the bound and given arguments, as often as they are called.",
   ["inputs"], "every signature and kind of binding", "the tests bind a few functions",
   ["ecl_utilities/include/ecl/utilities/function_objects.hpp", "ecl_utilities/include/ecl/utilities/references.hpp"], [("binding", "generateFunctionObject, ref")],
   PURE + "Where a thread or a signal runs a function object this is checked under C01 and C18.")
