"""Per property: deciding method and what it covers (MANIFEST technique / level_note); reasons for the ones not claimed."""
_E = 'Sound up to the engine\'s abstraction (see DESIGN.md); paths it cannot follow precisely are counted as undecided in the evidence, never reported.'
TECH = {
 'C01': ('lockset analysis by path-sensitive abstract interpretation of the LLVM IR', 'Every public operation of the lockable classes and every function touching the shared tables, on all paths. ' + _E),
 'C02': ('lock typestate analysis including exceptional paths', 'Every function that takes a lock, with an exception possible at every library call that can throw. ' + _E),
 'C03': ('abstract interpretation with wakeup typestate: grow/shrink events, wait loops', 'Every blocking read and every state-changing operation on all paths, spurious and stolen wakeups included. ' + _E),
 'C04': ('abstract interpretation with a ghost clock', 'Every timed operation, for every timeout and clock advance at each wait. ' + _E),
 'C05': ('lock typestate analysis, finite-state exploration of the guard\'s abstract states', 'Every constructor, every owner mask, every outcome of each try-lock. ' + _E),
 'C06': ('lock typestate with failing outcomes of each system call', 'Every Mutex operation for callers that do and do not hold the mutex already. ' + _E),
 'C07': ('lock-order graph over the resolved call graph', 'All call paths of the library; locks are told apart by the object they protect. ' + _E),
 'C08': ('shape analysis on exact heap shapes closed under all operations', 'Every operation of the FIFO, the intrusive list, the pointer list and the queues on every shape with at most three elements, recycled nodes included. ' + _E),
 'C09': ('shape analysis with ownership events', 'Every operation and the destructor of each container on every shape with at most three elements (maps: two keys), each overload, with and without removal. ' + _E),
 'C10': ('abstract interpretation over all pointer configurations (aliasing included)', 'Every RefCntPointer operation for every combination of null, same and different targets with arbitrary counts. ' + _E),
 'C11': ('abstract interpretation with affine bounds of every vector operation', 'Every public member of the vector classes in every instantiation: all sizes with loops summarised, then every path for sizes up to 17 elements and numbers up to 12 (fewer for the puncturing copies). ' + _E),
 'C12': ('ownership analysis by abstract interpretation of every operation from every ownership situation', 'Every public vector operation, constructor and destructor in every instantiation, for every combination of empty, owner, narrowed owner, alias and same-object operands on blocks of 5 elements. ' + _E),
 'C13': ('bit-provenance dataflow analysis', 'Every bit-field member of BitVector for widths 0 to 64 at any offset, packers and unpackers for 0 to 24 and 61 to 64 elements. ' + _E),
 'C14': ('dataflow with values as functions of single input bytes, byte-set narrowing at branches', 'URLEncode for up to 3 arbitrary bytes, hex and base64 coding of up to 7 arbitrary bytes, decoding of up to 5 (hex) and 4 (base64) arbitrary characters and of longer texts over the alphabet, with the tables the static initialisers build; every byte value at every position. ' + _E),
 'C15': ('abstract interpretation with interval and linear facts', 'Every function that produces or compares a time value, for every clock reading and offset. ' + _E),
 'C16': ('typestate analysis of statement handles and column text', 'Every function that prepares, runs or reads a statement, with every answer at each database call and up to two rows; the query class in every sequence of up to three questions; the retry loops for 0 to 3 retries. ' + _E),
 'C17': ('abstract interpretation of call sequences over symbolic database and cache contents', 'get/set/remove/get sequences for keys in and outside the schema, four cache situations, every command outcome. ' + _E),
 'C18': ('effect analysis by abstract interpretation of every query', 'Every ConfigurationTable method that is not a setter, for known and unknown keys, database contents symbolic, first and repeated questions. ' + _E),
 'C19': ('forward dataflow of search results through conversions, plus abstract interpretation per enumerator', 'Every call of the string searches in the library, every comparison of their results; validation and both name functions for every declared enumerator. ' + _E),
 'C20': ('taint analysis of SQL texts: abstract string construction followed to the statement-preparing calls', 'Every function of the library that forms or passes on an SQL text; quotes, conversions, bounds and raw parts of each text. ' + _E),
 'C21': ('interval and symbolic-length dataflow at every buffer-writing call; all-lengths abstract execution of the string formatters', 'Every call that formats, copies or scans text into an array of known size (locals, members, globals, variable-length and heap blocks), the variadic string formatters for every length of the text, and the typed overloads. ' + _E),
 'C22': ('abstract interpretation over concrete list shapes', 'addAlarm on lists of 0 to 3 alarms and maxima 0 to 4, the record destructor for every priority. ' + _E),
 'C23': ('table lint plus abstract interpretation of every lookup', 'Every entry of the level and group tables in both directions, every other text, every index. ' + _E),
 'C24': ('use-after-lifetime typestate by path-sensitive abstract interpretation of every function', 'Every function of the library and of the driver\'s template instances on all paths the engine follows; every call sequence constructor, public method, destructor. ' + _E),
 'C25': ('resource typestate by path-sensitive abstract interpretation of every function', 'Every heap block, regular expression, file, directory and socket made in any function, on every path including failed system calls and exceptions of the library\'s own functions; blocks handed to a member or a new thread are followed into the destructor or the thread function. ' + _E),
 'C26': ('definite-initialisation dataflow with poisoned storage', 'Every constructor with undefined members followed by every public method and the destructor; every local variable and result of every function; the documented output parameters on all paths. ' + _E),
 'C27': ('bounds analysis of table indexes plus typestate of the delivery sequence', 'Every signal number for the indexes; registration and delivery for every valid number and representative invalid ones, two handlers. ' + _E),
 'C28': ('typestate analysis of the pid file', 'Every outcome of every file operation in RegisterProgram; Exit and RegisterFile with 0 to 2 registered files. ' + _E),
 'C29': ('abstract interpretation of receives with all system call outcomes, descriptor typestate', 'Every public read of the datagram sockets with every result of the receive and wait calls; every constructor, destructor, open and close for an open and for no descriptor. ' + _E),
 'C30': ('conservation typestate by abstract interpretation with a symbolic string-map domain', 'commit on 0 to 2 counters with arbitrary counts and arbitrary concurrent additions, incr/create/indexed forms for every name. ' + _E),
 'C31': ('ownership typestate across the thread hand-over', 'Every path of Thread::start, with the new thread analysed from the memory handed over. ' + _E),
 'C32': ('abstract interpretation of each operator on all orderings of its operands', 'Every comparison, compound assignment, increment and assignment operator of the classes named. ' + _E),
 'C33': ('abstract interpretation with ordering facts', 'Statistic<T> for all integer and floating instantiations in the driver, every ordering of the points, empty case included. ' + _E),
 'C34': ('call-graph reachability', 'All call paths from the primitives, calls through virtual functions included. ' + _E),
 'C38': ('interval and linear-invariant abstract interpretation of array indices', 'Every computed index of a constant size array in the library, every access through a local array handed to a callee; loops by inductive invariants, private helpers by the demands they put on their callers. ' + _E),
}
NA = {
 'C35': 'Numerical accuracy of floating-point results: no static argument in reach bounds them.',
 'C36': 'Rounding and saturation are arithmetic facts over runtime values; the code documents none, and deciding them needs a solver rather than a static rule.',
 'C37': 'Precision and fairness depend on the scheduler and the clock at run time; no property of the source decides them.',
}
