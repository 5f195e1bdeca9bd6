AI = "path-sensitive abstract interpretation of compiler IR (value numbering, linear/congruence domain, inductive loop summaries) with "
NOTE = ("Decides the property for all inputs of every analysed entry point at the listed template instantiations; three-valued: only a refuted "
        "obligation is reported, an undecided one is counted in the evidence and stays quiet. ")
BITS = "abstract interpretation of compiler IR with the provenance of every bit, for a little- and a big-endian target: "
BNOTE = ("Decides the property for all values at the listed instantiations: a bit is a constant or a named bit of an input, so nothing depends on "
         "sampled values. An undecided obligation is counted in the evidence and stays quiet. ")
TEXTS = {
 "C01": (AI + "size, alignment and wrap obligations on every path that returns a block", NOTE + "Wrap-around is decided by cases on how often each sum can wrap; the free list satisfies the list invariants that C03 re-establishes."),
 "C02": (AI + "accounting obligations on every exit", NOTE + "Figures are the members the public getters return."),
 "C03": (AI + "free-list split, order and join obligations", NOTE + "Single-step: each operation preserves the partition, given that it held before; the ordering walk is decided by its loop alternatives."),
 "C04": (AI + "typestate of the failure callback, reachability of refusals and effect analysis of refused requests", NOTE + "What a request needs is its size, rounded up to the alignment, plus a header."),
 "C05": (AI + "mark/link typestate of block headers", NOTE + "A header is what lies in front of the pointer given; a stray pointer whose preceding bytes happen to look like a marked header is outside the property."),
 "C06": (AI + "identity-flow of the heap reference through the adaptor", NOTE),
 "C09": (AI + "array registry obligations and constructor/destructor pairing", NOTE + "Capacity, append, shift and pairing are decided on the instantiated manager and module."),
 "C10": (AI + "for-each-entry delivery obligations and identity/payload flow", NOTE + "Type identities are symbolic: the hash of a type's name stands for the type; names that hash alike are outside."),
 "C11": (AI + "guarded-call and byte-origin obligations on the identity chain", NOTE + "Every byte of the delivered value is traced to the message through the copy loop's inductive summary; padding bytes are not compared."),
 "C12": (AI + "array/vector registry obligations", NOTE + "Assumes callbacks do not modify the registry and that the count starts within the capacity (preserved by every operation, which is checked)."),
 "C13": (AI + "erase/compaction-loop obligations", NOTE + "The surviving order is decided from the shift or filter loop that moves the entries."),
 "C14": (AI + "for-each-entry delivery obligations", NOTE + "Delivery is the virtual call (or the atomic store into the observed value) on the entry; a callback is assumed not to alter the registry it is called from."),
 "C15": (AI + "typestate of the recursion guard", NOTE + "The guard is the flag of the subject that is tested before the first delivery."),
 "C16": (AI + "for-each-entry disconnect obligations, destructor paths included", NOTE),
 "C17": (AI + "event-trace obligations on the inlined chain", NOTE + "Chains of up to five (thorough: eight) observers; the order, multiplicity, datum and source of the notifications are read off the trace."),
 "C19": (AI + "single-atomic-step and publication obligations", NOTE + "The shared cell yields a fresh value at every read, so that re-reading it is never taken for the value stored. Floating-point arithmetic is not interpreted."),
 "C20": (AI + "store-before-call typestate and symbolic callback-slot contents", NOTE + "std::function is modelled by its contract."),
 "C07": (AI + "abstract container semantics: list/index correspondence, position and capacity obligations", NOTE + "std::list and the maps are modelled by their contracts; every path of put and get, including those left by an allocation failure, keeps list and index in step. Hash and comparison of keys are assumed not to raise."),
 "C08": (AI + "abstract container semantics: lookup-outcome typestate and age/lifetime comparison", NOTE + "The clock is an arbitrary reading per call; ages are compared in the clock's own resolution."),
 "C18": (AI + "lockset typestate over every path, exceptional edges included", NOTE + "Analysed in the configuration that defines PTHREAD_MUTEX_DEFAULT as a macro (glibc does not, so the default build has no locks at all: see DESIGN.md)."),
 "C21": (AI + "single-atomic-step and slot-function obligations", NOTE + "The slot is a function of the position; it is compared with the remainder modulo the buffer size in shape and, to refute, at sample positions."),
 "C22": (AI + "worker-loop obligations over fresh reads of everything other threads write", NOTE + "The worker is the single writer of its own counter. Two known findings (overflowing the buffer, reuse of a slot) are listed per class."),
 "C23": (AI + "announce/wait typestate of the destructor and exit-condition order of the worker", NOTE + "The look at the accepted count that lets the worker end must come after the look at the flag."),
 "C24": (AI + "thread-creation loop, queue binding and minimum-search obligations", NOTE + "Compared backlogs are the values read at that moment; other threads may change them afterwards."),
 "C25": (AI + "initialise-before-start order over the constructor's trace", NOTE + "Uses the members the thread's own summary touches."),
 "C26": (AI + "lockset/atomicity comparison of the accesses of the thread and of every public operation", NOTE + "The unsynchronised ring slots are known findings, one per class; any other member is still reported."),
 "C27": (AI + "stop/signal typestate of the flag protocol", NOTE + "std::atomic_flag::wait and notify are modelled by their contract. The destruction of the flag right after the wait is outside the property."),
 "C28": (AI + "schedule-variable dataflow of the checking loop", NOTE + "Compares the clock's resolution with the period exactly; the sleep's real duration is the scheduler's (C90)."),
 "C29": (AI + "what one callback compares, reads and changes for a symbolic index and argument count; the coverage of the scan; what each registered callback holds", NOTE + "Strings, streams, the map and std::function are opaque and known by their contract (a text is followed from the argument to the member). Two options types. How a stream reads a number is the library's."),
 "C30": ("witness programs type-checked by the compiler's front end: assertions on overload resolution of copy and move operations, for each class and a class derived from it",
         "Decides whether any program that duplicates one of the listed types can compile, at the listed instantiations; templates are instantiated, nothing is generated or run."),
 "C31": (BITS + "obligations on stored and returned bytes; comparisons decided for every relation of the two values' bytes", BNOTE),
 "C32": (BITS + "every byte of the object against every byte of the range, and the extent of every access", BNOTE + "Iterators: pointers, vector, reversed and positional ones, at eleven types; padding bytes carry no obligation."),
 "C33": (BITS.replace("for a little- and a big-endian target: ", "with a lifetime typestate of the held object: ") + "construction, destruction, assignment and access on every normal and exceptional path; accepted and rejected programs by the compiler's front end", BNOTE + "Size, alignment and strictness are decided by 60-odd small programs that must, or must not, compile."),
 "C34": (BITS + "layout, the exact bytes given to the checksum, and the condition under which a packet is valid", BNOTE + "The checksum algorithm is an opaque function of the bytes it is given; five combinations of header, fields and checksum type are analysed, 75 for the layout."),
 "C37": (AI + "effect, clock-flow and sum-loop obligations on each worker's history", NOTE + "A std::deque is taken at its interface: what is added, dropped and summed up is decided from the calls on it; the clock is any std::chrono clock, and what it returns is arbitrary. The number of entries kept is the ten of the property."),
 "C35": (AI + "fit, written bytes, checksum range, verdict, count and extent of every access, for a symbolic size and element count", NOTE + "Sizes and counts are unbounded 64-bit unknowns; element sizes 1, 2, 3, 4 and 24, storages 6 to 1024. The checksum is an opaque function; the data handed in are assumed not to lie inside the packet's own storage."),
 "C36": ("about 950 generated programs type-checked by the front ends of clang++ and g++, among them an explicit instantiation of every template; each error is attributed to the repository's line",
         "Every public operation is used with int, wide, packed, move-sensitive, not default-constructible, not comparable and not printable argument types, const and non-const objects, with and without DEBUG, every header on its own. Nothing is generated or run. Volatile operators of the values are a known finding."),
}
NA = {
 "C90": "wall-clock timing of a scheduler-dependent thread; no static argument bounds it",
 "C91": "quantifies over the relative speed of producers and workers; the code has no back-pressure at all, see DESIGN.md",
 "C92": "linearizability of concurrent histories (update then separate delivery); not visible in the shape of any one path",
 "C93": "quantifies over whole allocation histories and the sizes in them; no static bound in reach",
}
