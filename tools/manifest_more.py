def add(chk, TV, COMMON):
    chk("C07", TV + "; sharing of one object is part of the model-checked API machine",
        COMMON + "Real FFT objects, and FFT0/DCT0 with the caller's work arrays: the instrumented library shows that no call writes anything but the caller's arrays (so any schedule of any number of callers is covered by the footprint), preemptive schedules and native threads confirm it; bounded by lengths, sampled beyond a few hundred.")
    chk("C12", "TLA+ specification of the choice, model-checked over all machines; machines enumerated by TLC, factory calls run on emulated machines instruction by instruction, recorded trace validated by TLC",
        "Every consistent CPUID/XCR0 state (354 reports of 26 machines), every kind and request; cpuid and xgetbv are replaced in the assembly of the dispatch source, every instruction executed in library code is observed (back end and ISA class). Trusted: the decoder of ISA classes, the emulated machine.")
    chk("C13", TV + "; team discipline model-checked (MCOmp), schedules enumerated by TLC (GenSched)",
        COMMON + "Instrumented library (every memory access and OpenMP call observed): team sizes to 64, TLC-enumerated and random orders, preemptive schedules; race freedom is decided per barrier epoch over all schedules by footprint disjointness; results bitwise equal to the one-thread run.")
    chk("C14", TV + "; interleavings enumerated by TLC (GenMix)",
        COMMON + "Concurrent user threads with own objects: preemptive cooperative schedules on instrumented code and native threads; first-call races included. Bounded by schedules explored.")
    chk("C15", TV, COMMON + "Exact footprints of every access from instrumented builds plus guard pages, canaries, write-protected inputs on the plain build; lengths to several hundred exhaustively per kind, larger sampled.")
    chk("C17", "TLA+ specification of complex arithmetic on Gaussian integers, model-checked field laws; single instructions enumerated and programs generated by TLC, compiled (several compilers and levels) against the header, recorded runs validated by TLC",
        "All operand values of small parts at five scales, all aliasing patterns, generated straight-line programs, four (thorough: eight) compiler configurations; arbitrary operands sampled against long double.")
    chk("C18", "TLA+ specification of ownership, model-checked; histories enumerated by TLC, executed on the header, recorded trace validated by TLC",
        "All histories to depth 5 (one array) / 4 (two arrays and a raw block), failing allocation at any of them, seven element sizes, five builds (16/32/64 byte vectors), long random histories, requests beyond 2^31 bytes.")
    chk("C19", TV, COMMON + "Caller state (MXCSR and x87 control, signal mask, OpenMP settings, worker threads, thread count, standard streams, IEEE flags) recorded around every call, under four rounding modes, flush modes, thread settings and calls from inside parallel regions; all small lengths, powers of two, sampled others.")
    chk("C20", TV + "; mixed-radix plan model-checked for whole, prime steps and cost bound (Plan)",
        COMMON + "Bytes moved by every call are counted in the instrumented library, bytes held by the interposed allocator; bounds of the specification keep a factor 2.5 to 4 from the present code, so a constant-factor slowdown is not a violation. All small lengths, powers of two, rough composites, sampled others.")
