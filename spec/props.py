#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=None):
    a = {'files': files, 'mechanism': [{'name': mechanism, 'where': ', '.join(files)}]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


p('C01', 'Shared container and table state is only touched under its own lock',
  'Every public operation of the inter-thread queues, maps, priority queues and semaphore, of the alarm list, of the configuration cache and of the statistics batch reads or changes the shared contents only while holding the mutex that protects that object. '
  'For two queues that were connected so that one thread can wait on either, that mutex is the shared one, for every operation including the one that hands out the lock. '
  'Iterators may be obtained, and the cache-age check may be run, without locking only because their caller is required to hold the lock already.',
  ['schedules'], 'all interleavings of any number of threads calling any public operations',
  'The tests run a couple of threads for a few seconds and check no result; a missing or wrong lock almost never shows in such a run.',
  ['Interthread.h', 'Threads.h', 'Logger.cpp', 'Configuration.cpp', 'Reporting.cpp'],
  'ScopedLock at the head of each operation; mLockPointer for connected queues; alarmsLock, gConfig.mLock, the batch lock')

p('C02', 'Every lock taken by an operation is released exactly once on every way out',
  'An operation that acquires a mutex releases it exactly once before control leaves the operation, whether it returns early, returns normally or is left by an exception, and never releases a mutex it does not hold. '
  'The only operations that may end with a lock still held are those whose purpose is to hand it over (console stream locking, the lock and guard primitives themselves).',
  ['schedules', 'inputs', 'fault_sequences'], 'every path through every function that takes a lock, including exceptional exits',
  'Tests exercise only the normal returns; early returns and exceptional exits of locking code are never driven.',
  ['Interthread.h', 'Threads.h', 'Threads.cpp', 'Logger.cpp', 'Configuration.cpp', 'Reporting.cpp', 'Utils.cpp'],
  'ScopedLock RAII and a few explicit lock()/unlock() pairs')

p('C03', 'Blocking reads return only when satisfied, and no wakeup is lost',
  'A blocking queue, map, priority-queue or semaphore read returns only after it has itself seen its condition true while holding the lock, so a spurious or stolen wakeup never makes it return early or return nothing. '
  'Every change that can make a waiting condition true (an item written or pushed to either end, a map entry stored, a semaphore posted, a queue drained below a low-water mark) is followed by a wakeup on the condition variable those waiters use; where different waiters wait for different conditions on the same variable, all of them are woken.',
  ['schedules'], 'all interleavings of readers, writers and timeouts',
  'A lost wakeup or an unchecked spurious wakeup needs a particular interleaving that the tests do not produce or detect.',
  ['Interthread.h', 'Threads.h'], 'while(condition) wait(lock) loops; signal()/broadcast() after the change')

p('C04', 'Timed waits end: an expired deadline always makes the call return',
  'A read or wait with a timeout sleeps only for the time left until its deadline and gives up once that deadline is reached: there is no execution in which it keeps looping, or sleeps again, after its remaining time has run out. '
  'A zero timeout never blocks at all, except for the two-queue wait and the low-water wait, where zero or no timeout is documented as waiting for ever.',
  ['schedules', 'inputs'], 'all timeouts, all wakeup patterns',
  'Tests use one or two timeouts that are always satisfied or ignore how the call ended.',
  ['Interthread.h', 'Threads.cpp', 'Timeval.h'], 'waitTime.remaining() tested before each timed condition wait; Signal::wait ignores non-positive timeouts')

p('C05', 'Locking several mutexes at once cannot deadlock and restores ownership',
  'Acquiring a group of mutexes never blocks waiting for one of them while this guard holds another, for any combination of mutexes the caller already owned. '
  'When construction finishes all of them are held by the caller, and when the guard is destroyed exactly those the caller owned on entry are still held.',
  ['schedules', 'inputs'], 'every owner combination and every pattern of contention on the other mutexes',
  'The lock test uses one owner combination; the deadlock needs contention in the middle of the retry rounds.',
  ['Threads.h', 'Threads.cpp'], 'ScopedLockMultiple: try-lock rounds that release everything before blocking again')

p('C06', 'Mutex results tell the truth about ownership',
  'Trying or timed locking reports success if and only if the calling thread now holds the mutex, whatever error the system reports. '
  'The lock count exposed for assertions goes up by one for each successful acquisition by any of its lock operations (lock, trylock, timedlock) and down by one for each release, and is changed only while the mutex is held. A thread that holds a mutex can lock it again.',
  ['schedules', 'fault_sequences'], 'every return code of the underlying calls, every sequence of lock, trylock, timedlock and unlock',
  'Tests never see EINVAL, EAGAIN or EBUSY from the pthread calls and never mix timed locking with the count.',
  ['Threads.h', 'Threads.cpp'], 'Mutex::lock, trylock, timedlock, unlock and mLockCnt')

p('C07', 'Library locks are ordered: no pair is ever taken in both orders',
  'Among the library-wide locks (configuration, alarm list, log file, console stream, report batch) no two are ever acquired in opposite nesting orders by any two call paths of the library. '
  'In particular logging, from any thread and at any level, cannot deadlock against reading or changing the configuration.',
  ['schedules'], 'all call paths of the library and all interleavings of them',
  'A lock inversion shows only when two threads hit the window together; tests run these paths in one thread.',
  ['Logger.cpp', 'Configuration.cpp', 'Threads.cpp', 'Reporting.cpp', 'Utils.cpp', 'sqlite3util.cpp'],
  'the order in which gConfig.mLock, alarmsLock, gLogLock, gStreamLock and the batch lock are nested')

p('C08', 'Queues and lists lose, duplicate and reorder nothing',
  'The linked FIFOs and lists deliver exactly the items put in, each once, first-in first-out, with an item pushed to the front delivered next. '
  'Their size (and total size, where kept) is always the number (total size) of items still inside, reading an empty list yields nothing and leaves it usable, and recycled nodes are never in two places at once and are all freed with the list.',
  ['histories'], 'every sequence of put, push to front, and get, from every reachable list state',
  'Tests push a short run of items and print them; the empty, one-item and refill-after-empty transitions are not checked.',
  ['LinkedLists.h', 'LinkedLists.cpp', 'Interthread.h'], 'mHead/mTail/mFreeList/mSize updates in put, push_front, get; PtrList; InterthreadQueue write/write_front/read')

p('C09', 'Containers of pointers own their elements exactly',
  'An element stored in a pointer map, pointer queue or priority queue is deleted exactly once: when it is overwritten, removed, cleared, or still inside when the container is destroyed. '
  'An element handed out to a reader with removal is no longer in the container and is not deleted by it, and an element that stays inside is not deleted.',
  ['histories'], 'every sequence of writes, reads, removals, clears and destruction',
  'Tests run without leak or double-free detection and never overwrite or destroy a non-empty container deliberately.',
  ['Interthread.h'], 'vdelete()/freeElement()/delete in write, remove, clear and the destructors')

p('C10', 'Reference-counted objects die exactly when the last pointer lets go',
  'The count of a shared object always equals the number of live counted pointers to it: creating, copying, assigning (including to itself), releasing and destroying pointers changes it by exactly the right amount, atomically. '
  'The object is deleted exactly once, by the release of the last pointer, and never while another counted pointer refers to it; a pointer that was released no longer refers to the object.',
  ['histories', 'schedules'], 'every sequence of pointer operations, by any number of threads holding their own pointers',
  'The utility test copies a few pointers in one thread and prints the count.',
  ['Utils.h', 'Utils.cpp'], 'RefCntPointer::rcInc/rcDec/operator=, RefCntBase::incRefCnt/decRefCnt under mRefMutex')

p('C11', 'Vector access stays inside the vector or stops the program',
  'Indexing, segmenting, copying, filling and bit-level reading or writing of vectors never touches memory outside the vectors involved: an out-of-range request is stopped by an assertion before any access. '
  'This includes filling, copying to and from segments, inverting, mapping through index tables and packing to and from bytes.',
  ['inputs'], 'every vector size, offset, length and index table entry that does not overflow an address',
  'Tests only use in-range requests; an off-by-one in a guard passes them all.',
  ['Vector.h', 'BitVector.h', 'BitVector.cpp'], 'assert on mStart/mEnd before each access or memcpy')

p('C12', 'Vector memory has one owner; copies and aliases behave',
  'Each allocated block of a vector is freed exactly once, by the one vector that owns it, through every combination of copying, assigning, aliasing, segmenting, resizing and destroying. '
  'Assigning a vector to itself, or assigning it one of its own segments, neither loses its contents nor leaves it pointing at freed memory.',
  ['histories'], 'every sequence of constructions, assignments and destructions over vectors and their aliases',
  'Tests use each operation once in isolation, without memory checking, and never on overlapping objects.',
  ['Vector.h', 'BitVector.h', 'BitVector.cpp'], 'mData ownership in vInit, clear, resize, clone, shiftMem, makeAlias, operator=')

p('C13', 'Bit-field readers and writers agree bit for bit',
  'What a bit-field writer stores at an offset with a width is what the matching reader returns from there, for every offset, width up to 64 and value, in both the normal (most significant first) and the reversed bit order, and nothing outside the field is changed. '
  'Packing to bytes and unpacking agree on the order of bits, and cursor-style reads and writes advance the cursor by exactly the width.',
  ['inputs'], 'all offsets, widths 0..64 and values',
  'The test checks a handful of printed fields by eye.',
  ['BitVector.h', 'BitVector.cpp'], 'fillField/peekField, fillFieldReversed/peekFieldReversed, writeField/readField, pack/unpack')

p('C14', 'Text encoders escape and decode within bounds and consistently',
  'URL encoding leaves only unreserved characters unescaped and writes every other byte, including zero, as a percent sign and its two hexadecimal digits. '
  'The base64 and hex coders read only the bytes they were given, write alphabet characters that the matching decoder maps back to the same value, and reject or skip anything else without reading outside their tables.',
  ['inputs'], 'every byte string and length',
  'The tests encode a few printable strings.',
  ['URLEncode.cpp', 'Utils.cpp', 'Utils.h'], 'the digit and alphabet tables and the loops over the input')

p('C15', 'Time values are normalised and time arithmetic cannot overflow',
  'Every time value the library itself produces has a microsecond part below one million, so deadlines handed to the system are always valid. '
  'Differences between any two times decades apart are computed without integer overflow, and a time is reported as passed exactly when the current time is later.',
  ['inputs'], 'all current times (every microsecond value) and all offsets',
  'The off-by-one needs the clock to hit one microsecond value out of a million; tests sleep for a second or two.',
  ['Timeval.h', 'Timeval.cpp'], 'Timeval::future carry, timespec(), delta(), passed()')

p('C16', 'SQL statements are always finalised and results used only while valid',
  'Every prepared SQL statement is finalised exactly once on every path, a path that failed to prepare uses no statement, and text read from a statement is copied before the statement is finalised. '
  'Rows are only read after the database said there is a row, and every busy answer is retried within the bounded number of retries rather than treated as data.',
  ['fault_sequences', 'inputs'], 'every sequence of result codes from the database library',
  'Tests only see the database answering OK; busy, locked, corrupt or out-of-memory answers never happen.',
  ['sqlite3util.cpp', 'sqlite3util.h', 'Configuration.cpp', 'Reporting.cpp'], 'sqlite3_prepare_statement/run_query/finalize pairs')

p('C17', 'A configuration change is visible to the next read',
  'After a value is stored or removed through the configuration interface and the call reports success, the next read through that interface, when the database can be read, returns the stored value (or the default again), never the value cached before. '
  'When the database write fails the call reports failure, and the in-memory copy is not changed to a value the database does not hold.',
  ['histories', 'fault_sequences'], 'every sequence of sets, removals and reads, with and without database errors',
  'The configuration test performs one fixed sequence without failures and prints the values.',
  ['Configuration.cpp', 'Configuration.h'], 'mCache updates and erasures in set, remove, lookup')

p('C18', 'Configuration queries do not create keys',
  'Asking about a key - whether it exists, what it is, whether a value is valid for it, what it conflicts with - never adds the key to the schema or changes the stored configuration. '
  'Asking about an unknown key gives the documented unknown answer.',
  ['inputs', 'histories'], 'every key and value string, known or not',
  'Tests ask mostly about known keys and never look whether the tables grew.',
  ['Configuration.cpp', 'Configuration.h'], 'find() before access of mSchema and mCache; operator[] only for insertion')

p('C19', 'Search results keep their not-found answer, and value types are all handled',
  'A position returned by a string search is never narrowed so that the not-found answer is mistaken for a position: strings without the searched text take the not-found branch. '
  'Every declared configuration value type is handled explicitly by value validation, and every type and visibility level by the functions that print their names.',
  ['inputs'], 'every input string and every value type',
  'On strings that contain the separator both forms behave alike, and the tests contain it.',
  ['Configuration.cpp', 'Utils.cpp', 'Configuration.h'], 'find()/npos comparisons; switch over the value type enumeration')

p('C20', 'Values cannot break out of the SQL text that carries them',
  'Any key, value, comment or report name supplied by a caller appears in SQL text only as a quoted literal in which quotes are escaped (or as a bound parameter), so no content can change which statement is executed or which rows it touches. '
  'Statement text built from caller data is never cut off.',
  ['inputs'], 'every string a caller can pass',
  'Tests only use harmless names and values.',
  ['Configuration.cpp', 'Reporting.cpp', 'sqlite3util.cpp'], 'the places where SQL command strings are assembled')

p('C21', 'Formatted text never overruns its buffer; string formatters return all of it',
  'Formatting, copying or concatenating text into a fixed-size buffer writes at most the size of that buffer including the terminating zero, for every argument. '
  'The library formatting functions that return strings return the complete formatted text up to the documented limit of 5000 characters, beyond which an error is logged.',
  ['inputs'], 'all argument values and string lengths',
  'Tests format short strings; an overrun or truncation needs a long one or one of exactly the buffer size.',
  ['Utils.cpp', 'Utils.h', 'Sockets.cpp', 'Reporting.cpp', 'Logger.cpp', 'Configuration.cpp', 'Timeval.cpp', 'sqlite3util.cpp'],
  'sprintf/snprintf/strcpy/strncpy/strcat/vsnprintf call sites with fixed buffers')

p('C22', 'Alarms are kept, bounded and delivered once',
  'Every message logged through the log stream at critical level or above is recorded once in the alarm list and sent once to the system log; less severe messages are not recorded as alarms. '
  'The alarm list never holds more than the configured maximum, and it is the oldest alarms that are dropped to make room.',
  ['histories', 'inputs'], 'every sequence of log messages and every configured maximum',
  'The log test prints a few messages and checks nothing.',
  ['Logger.cpp', 'Logger.h'], 'addAlarm, Log::~Log, gLogEarly, gGetLoggerAlarms')

p('C23', 'Level names and numbers agree in both directions',
  'Each log level name maps to its system log number and back to the same name, every severity from 0 to 7 has exactly one name, and the names accepted for configuration are exactly the names produced when printing. '
  'Log group names and group numbers correspond one to one, and every index into these tables stays inside them.',
  ['inputs', 'configurations'], 'all level numbers, names and groups',
  'Tests use two or three levels.',
  ['Logger.cpp', 'Logger.h', 'Threads.cpp'], 'levelNames table, lookupLevel, group name table and enumeration')

p('C24', 'No function returns a pointer into storage that has ended',
  'A pointer or reference returned by any function of the library, or stored where it outlives the call, never refers to a local variable, a temporary, or the text of a string object destroyed at the return. '
  'Memory is not read or written through a pointer after the function itself has freed it.',
  ['inputs', 'histories'], 'every path through every function',
  'Reading freed stack or heap text usually still shows the old text in a test.',
  ['Logger.cpp', 'Configuration.cpp', 'Utils.cpp', 'Sockets.cpp', 'sqlite3util.cpp', 'Threads.cpp'], 'returned c_str() and addresses, uses after delete/free/finalize')

p('C25', 'Heap blocks, compiled expressions and files are released on every path',
  'Memory obtained from the allocation functions, compiled regular expressions, opened files and sockets that a function creates for its own use are released exactly once on every path out of it, including failure paths (running out of memory aside). '
  'The original pointer is what is released, even when the code walks the block with another pointer.',
  ['inputs', 'fault_sequences'], 'every path, including malformed input and failed system calls',
  'A leak or double release on a malformed-input path is invisible to the tests.',
  ['Configuration.cpp', 'Utils.cpp', 'Sockets.cpp', 'sqlite3util.cpp', 'SelfDetect.cpp', 'Regexp.h', 'Configuration.h'], 'strdup/free, malloc/free, new/delete, regcomp/regfree, fopen/fclose pairs')

p('C26', 'Objects and results are initialised before they are used',
  'Every constructor leaves every member that the class later reads or releases with a defined value on all its paths, and no function reads a local variable or returns a result that was never set. '
  'Output parameters that report validity are set to the documented value on success and on failure.',
  ['inputs', 'fault_sequences'], 'every constructor and function path, including failed opens and unmatched input',
  'Uninitialised memory is usually zero in a fresh test process.',
  ['Configuration.cpp', 'Configuration.h', 'Reporting.h', 'Reporting.cpp', 'Sockets.cpp', 'Sockets.h', 'Utils.cpp', 'UnixSignal.cpp', 'SelfDetect.cpp'], 'constructors and locals of the library classes')

p('C27', 'Signal handlers are registered and run only for valid signal numbers',
  'Registering a handler for a signal number outside the supported range is refused and changes nothing, and no table is indexed outside its bounds by any signal number. '
  'When a signal is delivered every handler registered for it runs, and a fatal signal ends the process with the default action restored.',
  ['inputs', 'histories'], 'all signal numbers and registration sequences',
  'The test registers two handlers for valid signals.',
  ['UnixSignal.cpp', 'UnixSignal.h'], 'range tests before mListenerList[sig]; Handler dispatch loop')

p('C28', 'At most one instance of a program registers itself',
  'The pid file that marks a running program is created so that two programs starting at the same moment cannot both succeed, and is removed on the exit paths that created it. '
  'A failure to create it is reported by stopping, never by continuing as if registered.',
  ['schedules', 'crash_points'], 'any two concurrent starts and any crash between the steps',
  'The test starts one program.',
  ['SelfDetect.cpp', 'SelfDetect.h'], 'RegisterProgram: stat/kill check, file creation, Exit clean-up')

p('C29', 'Socket reads are bounded and descriptors are closed once',
  'A datagram read never writes more bytes than the caller\'s buffer holds and reports failures as such instead of using them as lengths, and the source address is only used after a datagram was received. '
  'A socket descriptor is closed at most once, only if it was opened, and a timed read returns no data only on timeout or error.',
  ['inputs', 'fault_sequences'], 'all datagram sizes, all results of the system calls',
  'Tests exchange small datagrams on loopback without errors.',
  ['Sockets.cpp', 'Sockets.h'], 'recvfrom/sendto/select/fcntl/close result handling')

p('C30', 'Report counts are neither lost nor counted twice',
  'Every increment of a report counter eventually reaches the database exactly once: counts collected while a commit is running are kept for the next one, and counts whose commit fails are not discarded. '
  'Increments from any threads at any time are never lost to a race.',
  ['schedules', 'fault_sequences'], 'all interleavings of increments and commits, and every database failure',
  'The reporting test increments in one thread with a working database.',
  ['Reporting.cpp', 'Reporting.h'], 'the batch map swapped under its lock by commit(); incr()')

p('C31', 'A started thread runs its task once with its own argument',
  'Starting a thread runs the given function exactly once with exactly the given argument, the hand-over record is freed exactly once and only by its receiver, and a failed start is never treated as success whatever the error number. '
  'Concurrent starts cannot see each other\'s function or argument.',
  ['schedules', 'fault_sequences'], 'all interleavings of concurrent starts, all error numbers',
  'Tests start a few threads that all succeed.',
  ['Threads.cpp', 'Threads.h'], 'wrapArgs hand-over in Thread::start and thread_main; status of pthread_create')

p('C32', 'Comparison and compound operators of a class agree with each other',
  'Within each class the comparison operators describe one consistent order: equal is the negation of unequal, greater-than is less-than with the operands exchanged, and the or-equal forms are their negations. '
  'Each compound assignment has the same effect as the corresponding plain operator followed by assignment, an assignment yields the value assigned, and increments and decrements change the value by exactly one in the right direction.',
  ['inputs'], 'all operand values',
  'Tests use a few operators with one or two values.',
  ['F16.h', 'Configuration.h', 'ScalarTypes.h', 'Utils.h', 'Interthread.h'], 'operator definitions of F16, HashString, the scalar wrappers, RefCntPointer and PointerCompare')

p('C33', 'Running statistics summarise exactly the points added',
  'After adding points, the current value is the last one, the minimum and maximum are the smallest and largest ever added whatever their sign or order, the count is the number of points and the average is their sum divided by the count. '
  'With no points added every query has a defined value and nothing divides by zero.',
  ['histories', 'inputs'], 'every sequence of added points',
  'The tests add a short increasing run, if any.',
  ['Utils.h'], 'Statistic::addPoint, getAvg, getCurrent')

p('C34', 'The lowest layers never call back into logging or configuration',
  'The mutex primitives never look up configuration or log levels and never write log records, apart from the text formatters reporting oversized text at a non-alarm level. '
  'The database helpers, the configuration lookup, the log-level lookup and the log record itself never depend on a log-level check, and recording an alarm writes no unconditional record that would itself be an alarm, so logging can never recurse into itself without end.',
  ['inputs', 'schedules'], 'all call paths from the primitives',
  'The recursion needs an unusual level or error path that tests do not take.',
  ['Threads.cpp', 'Logger.cpp', 'Configuration.cpp', 'sqlite3util.cpp'], 'call graph from Mutex::lock/unlock, getLoggingLevel, lookupLevel, sqlite helpers')

p('C35', 'Vector numeric results (soft-bit quality, convolution, CRC) are accurate',
  'Soft vectors, parity generators and convolutional coders compute the numerically defined results for every input: parity divides by the generator polynomial, decoding maximises likelihood, quality measures stay in range.',
  ['inputs'], 'all inputs', 'Only a few vectors are encoded and decoded.',
  ['BitVector.cpp', 'BitVector.h'], 'Parity, Generator, ViterbiR2O4 style arithmetic')

p('C36', 'Sixteen-bit fixed-point arithmetic is correctly rounded and saturates',
  'Fixed-point addition, subtraction, multiplication and division give the nearest representable value and saturate instead of wrapping.',
  ['inputs'], 'all operand pairs', 'A few pairs are printed.', ['F16.h'], 'F16 operators')

p('C37', 'Timed operations are precise and waiters are served fairly',
  'Timed waits last within a small tolerance of the requested time, and no waiting thread starves.',
  ['schedules'], 'all schedules and loads', 'Depends on the scheduler.', ['Threads.cpp', 'Interthread.h'], 'condition variables and mutexes')

p('C38', 'Fixed-size arrays are only indexed inside their bounds',
  'The fixed-size tables and local arrays of the library - the lock holder records of a mutex, the mutex, owner and state arrays of a multiple lock, the signal tables, the level and group tables of the logger, the memory statistics, the column widths of the table printer, the argument array of the string splitter, the digit tables of the text encoders - are only read and written at positions inside them. '
  'This holds for every nesting depth of a recursive lock, number of words or columns, byte of the encoded or decoded text, log priority, group, statistic and descriptor number, including the first position beyond the end and negative ones.',
  ['inputs', 'histories'], 'all argument and member values',
  'Tests use short inputs, shallow lock nesting and valid numbers.',
  ['Threads.cpp', 'Threads.h', 'Utils.cpp', 'Logger.cpp', 'Logger.h', 'UnixSignal.cpp', 'Sockets.cpp'], 'every computed index of a constant size array, and every local array handed to another function')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
