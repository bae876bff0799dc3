#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b) for a,b in state]
    P.append(d)

ALGO=["src/otfft_algo.cpp","src/otfft_avxdif4.h","src/otfft_avxdif8.h","src/otfft_avxdif16.h","src/otfft_avxdit4.h","src/otfft_avxdit8.h",
      "src/otfft_avxdif8omp.h","src/otfft_avxdit8omp.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h","src/otfft_mixedradix.h","src/otfft_misc.h"]
prop("C01","Forward complex FFT is the DFT at every length, with the documented scaling",
 "For every sequence length N >= 1 and every input vector, the forward operations of a complex FFT object replace the N array elements by the discrete Fourier transform X[k] = sum_p x[p] exp(-2 pi i k p / N), multiplied by 1 (fwd0), 1/N (fwd, fwdn) or 1/sqrt(N) (fwdu). Every output element is correct up to floating-point rounding (a small multiple of machine epsilon times log2 N times the magnitude of the exact result vector; for a length with a prime factor r > 5, times a further term that grows with r). This holds for each instruction-set back end.",
 ["inputs","configurations"],"all N >= 1 (powers of two, composite, odd, prime), all input vectors, all four forward operations, all back ends",
 "The unit tests run fwd0 followed by invn on a handful of lengths and compare a 0.1 percent tolerance on half of the vector, so a transform that is a wrong but invertible map, wrong scaling in one of the entry points, wrong order of outputs, or one wrong butterfly at an untested length is invisible; correctness must hold for all lengths and vectors.",
 ALGO,["FFT0::setup picks one of 6 kernels and one code path by log2 N; each kernel has separate fwd0/fwd/fwdu template instances, SIMD and scalar end cases, and serial and OpenMP versions"])
prop("C02","Inverse complex FFT inverts the forward one at every length and scaling",
 "For every length N >= 1 and every vector, the inverse operations replace the array by sum_k X[k] exp(+2 pi i k p / N), multiplied by 1 (inv, inv0), 1/N (invn) or 1/sqrt(N) (invu), up to floating-point rounding. Hence each documented pair - fwd/inv, fwd0/invn, fwdu/invu, fwdn/inv0, in either order - returns the original vector, every element of it.",
 ["inputs","configurations","histories"],"all N >= 1, all vectors, all four inverse operations, all forward/inverse pairings and chains of them",
 "Tests exercise mostly one pair (fwd0, invn) at selected lengths with a 0.1 percent tolerance over the first half of the vector; the other pairs, the rest of the vector and all other lengths are not decided.",
 ALGO,["separate inv0/inv/invn/invu template instances per kernel (otfft_*dif*, *dit*, sixstep, eightstep, mixed radix)"])
prop("C03","Forward real FFT yields the full Hermitian spectrum and leaves its input alone",
 "For every even N >= 2 and every real vector x, the forward operations of a real FFT object store all N complex values X[k] = sum_p x[p] exp(-2 pi i k p / N), scaled by 1 (fwd0), 1/N (fwd, fwdn) or 1/sqrt(N) (fwdu), up to rounding, including the redundant upper half. X[N-k] is the exact conjugate of X[k], and the input array is not modified.",
 ["inputs","configurations"],"all even N >= 2, all real vectors, all four forward operations, all back ends",
 "Tests compare a round trip only, at a few lengths; no test looks at the upper half of the spectrum, at the scaling variants, or at the input array after the call.",
 ["src/otfft_algo.cpp","src/otfft_misc.h","inc/otfft.h"],["RFFT packs N reals in N/2 complex values, runs a half-length complex FFT, then unpacks with the weights U; the weight table has five construction cases by N"])
prop("C04","Inverse real FFT reconstructs the signal from its spectrum",
 "For every even N >= 2 and every Hermitian spectrum X, the inverse operations of a real FFT object store the N real values sum_k X[k] exp(+2 pi i k p / N), scaled by 1 (inv, inv0), 1/N (invn) or 1/sqrt(N) (invu), up to rounding. Applied to the output of the matching forward operation they return the original real signal; the result is determined by the elements 0..N/2 of the spectrum.",
 ["inputs","configurations"],"all even N >= 2, all Hermitian spectra, all four inverse operations, all back ends",
 "Tests use a few lengths and one pair; neither a direct inverse of a given spectrum nor the unitary and normalized variants at all lengths are decided by them.",
 ["src/otfft_algo.cpp","src/otfft_misc.h"],["RFFT::inv/invu/invn rebuild the packed half-length spectrum from x[0..N/2] with the weights U, using the upper half of x as work area"])
prop("C05","DCT object computes DCT-II and its inverse for every even length",
 "For every even N >= 2 and every real vector, fwd0 replaces the array by X[k] = sum_p x[p] cos(pi (2p+1) k / (2N)), fwd and fwdn by the same divided by N, up to rounding. inv and inv0 are the exact inverse of fwd (X[0] + 2 sum_k X[k] cos(...)), invn the exact inverse of fwd0.",
 ["inputs","configurations"],"all even N >= 2, all real vectors, all six operations, all back ends",
 "The tests check a round trip at a few lengths; a wrong but invertible cosine transform, or a wrong scaling of one entry point, passes them.",
 ["src/otfft_algo.cpp"],["DCT0 reorders x, runs the real FFT, multiplies with the quarter-wave weights V; serial and OpenMP version per operation"])
prop("C06","Bluestein FFT computes the DFT for every natural length",
 "For every N >= 1, prime or not, all eight operations of a Bluestein FFT object compute the forward or inverse discrete Fourier transform of length N with the same definition and scaling as the complex FFT object. Every element is correct up to rounding (machine epsilon times the logarithm of the padded length, relative to the vector's magnitude).",
 ["inputs","configurations"],"all N >= 1, all vectors, all eight operations, all back ends",
 "The tests run one forward/normalized-inverse pair over few lengths; the chirp index p*p mod 2N, the padding of the convolution and the tail elements depend on N in ways a sample does not cover.",
 ["src/otfft_algo.cpp"],["Bluestein::setup pads to L = power of two >= 2N-1; chirp table W of 2N+1 entries indexed by p*p mod 2N in 64 bit; convolution by three length-L FFTs"])
prop("C07","One real-FFT object serves many threads at once; so do FFT0 and DCT0 with the caller's work arrays",
 "A transform on a real FFT object, or on one of the transforms that take their work arrays from the caller (FFT0, DCT0: the form the documentation names for a multi-threaded environment), writes nothing but the arrays it was given: no state of the object, no state shared between calls. Hence any number of threads may use one such object at the same time, each with its own arrays, and every result is bit for bit what the same call yields with nobody else about, whatever the work arrays held before, and in any schedule; nothing outside the given arrays is touched.",
 ["schedules","inputs","configurations"],"all lengths, operations and back ends; any number of concurrent callers of one object, any interleaving of their accesses, from threads of their own or from the members of an OpenMP team; any content of the work arrays",
 "No test calls one object from two threads, and a scratch member or a cached factor that only a concurrent second caller would see corrupted passes every sequential test.",
 ["src/otfft_algo.cpp","src/otfft_base.h","README.md"],["RFFT has no work array: inv uses the caller's spectrum as one; all its operations and those of FFT0/DCT0 are const and leave N, log_N and the tables alone","DCT0 contains an RFFT and relies on it"])
prop("C08","Reconfiguration: behaviour depends only on the last setup",
 "After any sequence of construction, setup calls and transforms, an object of any of the four kinds behaves exactly (bit for bit) like a new object constructed with the length given last, whatever lengths - larger, smaller, equal, power of two or not, 1, or the default 0 - it had before. An object created with the default length 0 can be set up later, and is destroyed safely in any state.",
 ["histories","inputs"],"all finite sequences of create(n) / setup(n) / transform / destroy, over the four kinds, all lengths",
 "Tests construct an object per length and use it once; reuse histories (shrink then grow, kernel changes, odd after even, default constructed) are a combinatorial space no test samples.",
 ["src/otfft_algo.cpp","inc/otfft_complex.h","src/otfft_misc.h","src/otfft_mixedradix.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h"],
 ["FFT0::setup drops the old kernel and makes a new one; simd_array::setup frees then allocates; raw aliases y, U, V, W, a, b are refreshed after each (re)allocation"],
 [("N, log_N, obj, work, weight","length, kernel and tables an object currently has")])
prop("C09","Repeatable results: no dependence on earlier calls or stale memory",
 "On an object with a given length, a transform's result is a function of the operation and the input vector only: the same call gives the same bits however many other transforms of any kind ran on the object before, whatever they had as data (including NaN and infinities), whatever the scratch memory contained when it was allocated, and wherever the user's buffers are placed. In particular nothing uninitialised is read.",
 ["histories","inputs","configurations"],"all call histories on an object, all contents of freshly allocated memory, all buffer alignments that are valid for double",
 "A test sees one allocator state, one placement and a fixed order of calls; a stale or uninitialised read usually shows nothing there.",
 ["src/otfft_algo.cpp","inc/otfft_complex.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h","src/otfft_mixedradix.h"],
 ["transforms are const but write the mutable work arrays of the object (FFT::work, DCT::work1/2, Bluestein::a,b) that persist between calls"])
prop("C10","Linearity: homogeneity is exact, zero maps to zero, NaN is never lost",
 "Every transform is a linear map at run time: the transform of a sum is the sum of the transforms up to rounding, scaling the input by a power of two (without overflow or underflow) scales every output element by exactly that power, bit for bit, and the zero vector gives exactly zero. A NaN in an input element shows up as NaN in every output element that depends on that element.",
 ["inputs","configurations"],"all input vectors, at all magnitudes in range of double, all lengths, kinds and operations",
 "Tests use one well-scaled test signal; data-dependent shortcuts or clamps (zero tests, magnitude thresholds, special-value handling) show only for inputs no test has.",
 ["src/otfft_algo.cpp","src/otfft_misc.h","src/otfft_mixedradix.h"],["kernels are straight-line arithmetic without data-dependent branches"])
prop("C11","All instruction-set back ends compute the same transform",
 "For every kind, length, operation and input, the SSE2, AVX and AVX2 back ends give results that agree with each other up to rounding, and they accept the same lengths with the same in/out conventions. Which back end the factory happens to pick changes accuracy in the last digits at most.",
 ["configurations","inputs"],"all pairs of back ends, all kinds, lengths, operations, inputs",
 "The tests run whatever the build machine selects, or skip the comparison; a defect in one back end's register type or in a path compiled only there stays invisible on a machine that picks another.",
 ["src/otfft_misc.h","src/otfft_sse2.h","src/otfft_avx.h","src/otfft_avx2.h","src/otfft_factory.h","src/otfft_if.h"],
 ["the algorithm sources are compiled three times with different macros and namespaces; otfft_misc.h has separate SSE2/SSE3/AVX/AVX2 implementations of every complex primitive"])
prop("C12","The factory honours the CPU's features and the requested optimization",
 "For every combination of CPU features the processor and operating system report, a factory call with AUTO gives an object of the best back end that both support (AVX2, else AVX, else SSE2) and a call naming a back end gives exactly that one if it is supported. If it is not, the call throws std::domain_error and nothing else happens: no instruction that the machine does not support is executed (in particular while detecting), and the objects created are destroyed without error.",
 ["configurations","histories"],"all architecturally consistent CPUID / XGETBV states, all four kinds, all optimization requests",
 "A test runs on one CPU; machines without AVX, with AVX but without OS support, or without XSAVE cannot be sampled by it.",
 ["src/otfft.cpp","inc/otfft.h"],["sysinfo singleton reads CPUID leaves 0, 1, 7 and XCR0; each Factory function and each deleter tests the features in the order AVX2, AVX, SSE2"],
 [("sysinfo::instance()","CPU feature flags detected once per process")])
prop("C13","Results do not depend on thread count or on how internal threads are scheduled",
 "For every number of threads in the internal parallel regions (1 up to any team size, including sizes that do not divide the work) and every interleaving of these threads, each setup and each transform writes the same bits as with one thread. Between two synchronisation points no thread writes memory that another thread reads or writes, so no interleaving can matter, and every transform terminates.",
 ["schedules","configurations"],"all team sizes and all thread interleavings of the internal parallel regions, for every length that takes a parallel code path",
 "A test run sees a few interleavings with one team size, on lengths mostly below the parallel thresholds; a missing barrier or an overlapping partition is hit with tiny probability.",
 ["src/otfft_avxdif8omp.h","src/otfft_avxdit8omp.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h","src/otfft_mixedradix.h","src/otfft_misc.h","src/otfft_algo.cpp"],
 ["OpenMP parallel regions with static work-sharing loops, single, barrier and nowait; orphaned work-sharing in six/eight-step part 2"])
prop("C14","Separate objects are independent, also when used at the same time",
 "Operations on distinct objects with distinct buffers never influence one another: any interleaving or true concurrency of create, setup, transform and destroy calls on different objects, from threads of the user's own or from the members of his OpenMP parallel regions, gives each object the same results as if it ran alone. No operation writes memory that belongs to another object, to the library's global state (outside one-time initialisation), or to a user buffer it was not given.",
 ["schedules","histories"],"all interleavings of operations on any set of objects of the four kinds from several threads, be they threads of the user's own or the members of a parallel region of his",
 "Tests are single threaded and use one object at a time; a hidden shared table or cache would be hit only by particular interleavings.",
 ["src/otfft_algo.cpp","src/otfft.cpp","src/otfft_misc.h","src/otfft_mixedradix.h"],["each object owns its kernel, tables and work arrays; the only globals are constants and the sysinfo singleton"],
 [("work, weight, obj","heap memory owned by one object")])
prop("C15","Memory confinement: only the given N elements and own memory are touched",
 "A transform of length N reads and writes only the N elements of the arrays it is given (reads only of const ones) and memory its object owns, and setup touches only memory of its object; nothing outside, not even a few bytes beyond the ends of any array. This holds for every length, kind, operation and team size, and for user buffers with any alignment valid for double.",
 ["inputs","configurations"],"all kinds, lengths, operations, back ends, placements and alignments of the user buffers",
 "Tests use over-aligned, loosely packed buffers, where an access beyond an end or an aligned access to unaligned user data does no visible harm.",
 ["src/otfft_misc.h","src/otfft_algo.cpp","src/otfft_mixedradix.h","src/otfft_avxdif4.h","src/otfft_avxdit4.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h"],
 ["SIMD loads of 2..4 complex values (getpz2, getpz3, getpz4), USE_UNALIGNED_MEMORY, tail cases per kernel, table sizes in setup"])
prop("C16","Resource safety: no leak, no double free, clean allocation failure",
 "Over any history, destroying all objects gives back all memory and every block is freed exactly once. If any single allocation in a create or setup call fails, the call throws std::bad_alloc and nothing leaks; a failed create leaves no object, and an object whose setup failed can be destroyed, or set up again after which it works normally.",
 ["fault_sequences","histories"],"all histories of create/setup/transform/destroy and every position of a failing allocation in them",
 "Tests never make an allocation fail and do not count blocks; failure positions times histories is a space only enumeration covers.",
 ["src/otfft_algo.cpp","inc/otfft_complex.h","src/otfft.cpp","src/otfft_mixedradix.h","src/otfft_sixstepsq.h"],
 ["simd_array ownership, unique_ptr<FFT_IF> kernel, raw new in the factory wrapped in unique_ptr, catch(...) in FFT0::setup"])
prop("C17","complex_t obeys complex arithmetic, also when operands alias",
 "All public operations on complex_t - construction and conversion from and to std::complex, compound and binary + - * /, scaling by a real, norm, conj, abs, arg, polar, expj, jx, mjx, neg - agree with the field of complex numbers: exactly whenever no step of the textbook formula needs rounding, otherwise within a few units of rounding, for all operands whose squares neither overflow nor underflow. The result depends on the operands' current values only: also when the target of an assignment is one of its operands, or its argument is a part (Re, Im) of the target, and wherever the operation stands in a compiled program.",
 ["inputs"],"all operands, including zero parts, signs, and aliasing of target and argument; all straight-line programs over complex variables",
 "No test addresses complex_t; users write their signal code with it, and a sign or ordering slip depends on operand values.",
 ["inc/otfft_complex.h"],["complex_t member and free operators; in-place *= uses a temporary"])
prop("C18","simd_array owns its memory: right size, alignment, and exactly one release",
 "Over any history of construction, setup, destroy and destruction, a simd_array holds at most one block, sized for the elements last requested and aligned for the widest vector type of the build; each block is released exactly once, and a failed allocation throws std::bad_alloc and leaves the array empty. Elements written through [] or & are read back unchanged until the next setup or destroy, and simd_malloc/simd_free pair likewise.",
 ["histories","fault_sequences"],"all histories of simd_array operations with any element type and size, and every position of a failing allocation",
 "No test uses it directly; double release or reuse after a failed setup depends on the history.",
 ["inc/otfft_complex.h"],["simd_array::setup frees the old block before it allocates; destroy() clears the pointer"],[("p","the block owned, or null")])
prop("C19","Calls leave the caller's thread, OpenMP settings and process as they found them",
 "No create, setup, transform or destroy call changes the calling thread's floating-point control state (rounding mode, flush-to-zero and denormals-are-zero modes, exception masks, x87 control word), its signal mask or any OpenMP setting, nor the floating-point control state of the OpenMP worker threads; the library starts no more threads than the OpenMP thread count in force allows, writes nothing to the standard streams, and on finite data of moderate magnitude raises none of the IEEE exceptions invalid, divide-by-zero and overflow. This holds under any rounding and flush mode and OpenMP setting the caller has chosen, also inside a parallel region, and whatever those are, results stay within the library's accuracy.",
 ["inputs","configurations","histories"],"all calls of all kinds, lengths, operations and back ends under any caller floating-point mode and OpenMP setting",
 "Tests never look at the thread state after a call; a mode that leaks out changes other code of the user's program, long after the call that set it.",
 ["src/otfft_algo.cpp","src/otfft_misc.h","src/otfft_mixedradix.h","src/otfft.cpp","src/otfft_sixstep.h","src/otfft_eightstep.h"],
 ["no code of the library writes MXCSR, the x87 control word or an OpenMP setting; parallel regions take the team size in force"])
prop("C20","A transform is fast and lean: its work and memory are those of an FFT at every length",
 "For every kind and length N the number of bytes one transform call moves is at most proportional to N log N; only for a length (of the complex FFT; N or N/2 inside the real FFT and the DCT) with prime factors above 5 may it also grow with N times the sum of these prime factors - never with the square of a composite length, and the Bluestein FFT stays at N log N for all lengths, primes included. A setup moves, and an object holds (scratch memory of a call included), a number of bytes at most proportional to the largest length the object has had. The factors do not depend on the operation, the back end, or the number of threads.",
 ["inputs","configurations"],"all kinds, lengths, operations, back ends and team sizes",
 "Tests check results only, on few lengths; a plan that falls back to a direct sum, a padded length that is far too large, or tables that grow faster than the length give right results at those lengths in negligible time.",
 ["src/otfft_mixedradix.h","src/otfft_algo.cpp","src/otfft_algo_mixed.cpp","inc/otfft_complex.h","src/otfft_sixstep.h","src/otfft_eightstep.h"],
 ["the mixed-radix recursion picks radix 8, 4, 2, 5, 3, else the smallest divisor; Bluestein pads to the next power of two; tables and work arrays are sized in setup"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
