import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe,hook=False,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: a['state']=[dict(name=s,meaning=s,where='') for s in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

add("C01","Complex FFT computes the DFT, in every variant, for every length and backend",
 "For every supported sequence length, every instruction-set backend and every finite input, each forward transform returns the discrete Fourier transform of the input and each inverse transform returns the conjugate (inverse) one, multiplied by exactly the documented factor (1/N for fwd, fwdn and invn; 1/sqrt(N) for fwdu and invu; 1 for fwd0, inv and inv0), up to accumulated rounding error (relative to the input norm, a small multiple of the machine precision per butterfly stage). Scaling an input by a power of two scales the output by exactly that power of two.",
 ["inputs","configurations"],"all lengths (powers of two, every factorisation, primes), 3 backends, 8 operations, all finite inputs (complete by linearity: basis vectors)",
 "The tests run forward/inverse round trips and one sine peak on a few lengths with 0.1% tolerance; matching errors in forward and inverse cancel, unitary and plain inverse variants are never run, and each length class uses different code, so neither lengths nor variants nor input positions can be settled by samples.",
 ["src/otfft_algo.cpp","src/otfft_mixedradix.h","src/otfft_eightstep.h","src/otfft_sixstep.h","src/otfft_sixstepsq.h","src/otfft_avxdif4.h","src/otfft_avxdif8.h","src/otfft_avxdif16.h","src/otfft_avxdit4.h","src/otfft_avxdit8.h","src/otfft_misc.h"],
 [("length-to-algorithm selection","src/otfft_algo.cpp FFT0::setup"),("radix-4/8/16 Stockham kernels and their OpenMP twins","src/otfft_avxdif*.h, src/otfft_avxdit*.h"),("mixed radix incl. arbitrary prime factors","src/otfft_mixedradix.h"),("six/eight step","src/otfft_sixstep*.h, src/otfft_eightstep.h"),("twiddle tables","src/otfft_misc.h init_W*")],
 ["output array of every ComplexFFT operation"])
add("C02","Real FFT returns the full DFT spectrum and its inverse, preserving the input",
 "For every even length, backend and finite real input, each real forward transform writes all N bins of the DFT of the input (upper half the exact complex conjugate mirror of the lower half) times the documented factor, and does not modify the input array. Each real inverse transform of a conjugate-symmetric spectrum returns the corresponding real sequence times the documented factor.",
 ["inputs","configurations"],"all even lengths, 3 backends, 8 operations, all finite inputs (basis-complete by linearity)",
 "Tests only do fwd0+invn round trips with loose tolerance on some lengths; wrong bins in the mirrored half, wrong unitary/normalised scale, or length classes with odd half length are not covered.",
 ["src/otfft_algo.cpp","inc/otfft.h"],
 [("packing into half-length complex FFT and un-mixing with weights","src/otfft_algo.cpp RFFT::fwd*/inv*"),("weight table by length class","src/otfft_algo.cpp RFFT::setup")],
 ["spectrum and real output arrays, input array after the call"])
add("C03","DCT computes the DCT-II and its inverse for every length and backend",
 "For every even length, backend and finite real input, each forward DCT returns the type-II discrete cosine transform of the input times the documented factor (1/N for fwd and fwdn, 1 for fwd0). The inverse transforms invert them: inv and inv0 undo fwd, and invn undoes fwd0.",
 ["inputs","configurations"],"all even lengths, 3 backends, 6 operations, all finite inputs (basis-complete by linearity)",
 "Tests only do a round trip; a permuted or wrongly weighted but consistently inverted transform passes them.",
 ["src/otfft_algo.cpp","inc/otfft.h"],[("even/odd reordering, real FFT and cosine weights","src/otfft_algo.cpp DCT0")],["in-place output array of every RealDCT operation"])
add("C04","Bluestein FFT computes the DFT for any natural length",
 "For every natural length (odd and prime lengths included), backend and finite input, each Bluestein transform returns the forward or inverse DFT times the documented factor, up to rounding error that grows only logarithmically with the length.",
 ["inputs","configurations"],"all lengths 1..bound and lengths around each internal threshold, 3 backends, 8 operations, all finite inputs (basis-complete by linearity)",
 "Tests do round trips on a few lengths; chirp index overflow, convolution length and padding errors show only for particular lengths, positions or variants.",
 ["src/otfft_algo.cpp","inc/otfft.h"],[("chirp tables, zero padding, convolution length","src/otfft_algo.cpp Bluestein")],["in-place output array of every operation of a Bluestein instance"])
add("C05","Factory dispatch picks the best usable backend and never an unusable one",
 "For every combination of processor feature flags and operating-system register-state support, an automatic request returns the most capable backend that both processor and operating system support, an explicit request returns exactly that backend if it is usable and otherwise throws std::domain_error, and no instruction that is undefined in that environment is executed while deciding. Every instance obtained this way can be destroyed in the same environment, and the decision is the same on every call.",
 ["configurations"],"all consistent answers of the feature-detection instructions x 4 transform kinds x 4 requests",
 "A test binary sees the one processor it runs on; the other environments (no AVX2, no AVX, OS without extended state, old CPUs) never occur in it.",
 ["src/otfft.cpp","inc/otfft.h"],[("CPUID/XGETBV decoding","src/otfft.cpp sysinfo"),("per-kind factory selection and deleters","src/otfft.cpp Factory::create*, unique_ptr_delete")],
 ["dynamic type of the returned object, exception type, executed detection instructions"])
add("C06","Results depend only on the current length and the input, never on history",
 "Whatever sequence of creations, setups to other lengths, transforms and destructions (of this or any other instance) went before, a transform on an instance set up for length N gives bit for bit the result a freshly created instance of length N gives on the same input. In particular, creating empty and then setting up, changing the length any number of times, setting up the same length again, or repeating a transform makes no difference.",
 ["histories"],"all sequences of setup/transform/create/destroy events over one and two instances up to a depth, over lengths from every algorithm class",
 "Tests use every instance once, for one length and one or two transforms; stale tables, scratch contents and state shared between instances need specific multi-step histories.",
 ["src/otfft_algo.cpp","src/otfft_mixedradix.h","src/otfft_eightstep.h","src/otfft_sixstep.h","src/otfft_misc.h"],[("setup/re-setup of tables and work buffers","src/otfft_algo.cpp *::setup; setup/setup2 of every kernel class"),("scratch buffers reused across calls","src/otfft_algo.cpp work/work1/work2")],
 ["output arrays"],state=["table and scratch contents of an instance","library-level static state"])
add("C07","Transforms touch only their own arrays and need no particular alignment",
 "Creating, setting up and running any transform reads and writes only the arrays the caller passed (exactly N elements each) and memory the instance owns, never reads memory it has not initialised in a way that affects the result, and never writes to input-only arrays. Arrays need only the natural alignment of a double, and the result does not depend on where arrays lie.",
 ["inputs","configurations"],"all lengths to a bound and one length per algorithm and factorisation class above, all operations, 3 backends, 4 array alignments, guard page directly before or behind every array",
 "Over-reads and over-writes of a few bytes land in allocator slack in an ordinary test, and malloc'd arrays always have the same alignment.",
 ["src/otfft_algo.cpp","src/otfft_misc.h","src/otfft_mixedradix.h","inc/otfft_complex.h","inc/otfft_types.h"],[("unaligned loads/stores, vector tails","src/otfft_misc.h getpz*/setpz*"),("work buffer sizes","src/otfft_algo.cpp, inc/otfft_complex.h simd_array")],
 ["page faults, canaries around arrays, const arrays, outputs under different memory fill patterns"])
add("C08","Parallel execution is race free and independent of team size and schedule",
 "For every length that is processed in parallel, every transform and setup gives the same bits as with one thread, whatever number of threads the runtime provides and however their execution interleaves. No two threads of a team access the same memory without ordering where at least one access is a write, and every thread passes the same barriers (no deadlock).",
 ["schedules","configurations"],"all interleavings (by race freedom: one per partial order), all team sizes 1..bound, all executor choices of single regions up to a deviation bound, every parallel length class",
 "A test run sees one team size and one arbitrary schedule per execution; a missing barrier gives wrong values only in rare interleavings.",
 ["src/otfft_avxdif4omp.h","src/otfft_avxdif8omp.h","src/otfft_avxdif16omp.h","src/otfft_avxdit4omp.h","src/otfft_avxdit8omp.h","src/otfft_sixstepsq.h","src/otfft_eightstep.h","src/otfft_mixedradix.h","src/otfft_algo.cpp","src/otfft_misc.h"],[("parallel regions, work sharing, nowait, single","the *omp.h kernels, src/otfft_sixstepsq.h, src/otfft_eightstep.h, src/otfft_mixedradix.h, src/otfft_algo.cpp"),("parallel table initialisation","src/otfft_misc.h init_W*, src/otfft_algo.cpp *::setup")],
 ["every memory access of every team member, barriers, output arrays"])
add("C09","Distinct instances can be used concurrently, including on first use",
 "Threads that create, set up, use and destroy their own instances at the same time, from the very first library call on and with any backend, get exactly the results they would get alone. No unordered conflicting accesses to memory happen between them.",
 ["schedules","histories"],"all pairs of short thread programs over the four transform kinds, all interleavings of synchronisation points up to a preemption bound, unsynchronised accesses by happens-before analysis",
 "The tests are single threaded; a shared static table, cache or scratch buffer is invisible to them.",
 ["src/otfft.cpp","src/otfft_algo.cpp","src/otfft_misc.h"],[("lazy feature detection singleton","src/otfft.cpp sysinfo::instance"),("per-instance tables and scratch","src/otfft_algo.cpp")],
 ["every memory access of each thread, synchronisation calls, output arrays"],state=["library-level static state"])
add("C10","Running out of memory is reported and leaves no damage",
 "If any single memory allocation, or all from some point on, fails during creation or setup, the call throws std::bad_alloc, nothing is leaked or released twice, and an instance that was being set up can be destroyed or set up again and then works like a fresh one. Other instances are not affected.",
 ["fault_sequences"],"every allocation of every short create/setup/transform history as the failing one (single and persistent failure), all transform kinds, length classes and backends",
 "Tests never make an allocation fail.",
 ["src/otfft_algo.cpp","inc/otfft_complex.h"],[("exception path of setup","src/otfft_algo.cpp FFT0::setup catch"),("array ownership","inc/otfft_complex.h simd_array")],
 ["exception type, allocation ledger, results after recovery"])
add("C11","Complex number arithmetic follows its definition for all operands and aliasings",
 "Every arithmetic operator and helper of the public complex number type returns the value of its mathematical definition evaluated in double precision, for all combinations of operands. Compound assignments give the same result when the right-hand side is the object itself or one of its components.",
 ["inputs"],"all operand pairs from a grid of exactly representable values incl. signed zeros, all operators, all aliasing patterns",
 "No test covers the complex type; aliasing patterns are not sampled by ordinary use.",
 ["inc/otfft_complex.h"],[("complex_t operators and helpers","inc/otfft_complex.h")],["returned values and assigned objects"])
add("C12","A backend never executes instructions above its instruction-set level",
 "Whatever is called on an instance of the SSE2 backend (creation, setup, transforms, destruction), no AVX or later vector instruction is executed in library code; on an instance of the AVX backend no AVX2, FMA or later instruction is executed. The dispatching code itself executes only baseline instructions before the check for the feature.",
 ["configurations","programs"],"every instruction executed by every operation over one length of every algorithm and factorisation class, per backend",
 "On a machine that has all instruction sets a wrong-level instruction works, so no test can fail.",
 ["src/otfft.cpp","src/otfft_misc.h","src/otfft_algo.cpp","CMakeLists.txt"],[("per-backend compilation in separate namespaces","CMakeLists.txt, src/otfft_misc.h"),("shared inline functions merged by the linker","inc/otfft_complex.h, src/otfft_misc.h")],
 ["every executed instruction (single stepping)"])
add("C13","Instances release exactly what they acquired, and transforms acquire nothing",
 "After any sequence of creations, setups, transforms and destructions, once all instances are destroyed every block of memory acquired on their behalf has been released exactly once and with the matching function, for every backend. A setup releases what the previous length needed, so repeated setups to the same lengths do not grow memory, and running a transform allocates no memory.",
 ["histories"],"all event sequences to a depth over create/setup/transform/destroy, length classes, transform kinds and backends",
 "Tests never count allocations, and a leak or mismatched release needs a particular setup sequence to show.",
 ["src/otfft_algo.cpp","inc/otfft_complex.h","src/otfft.cpp"],[("array ownership","inc/otfft_complex.h simd_array"),("polymorphic deletion through the dispatcher","src/otfft.cpp unique_ptr_delete")],
 ["allocation ledger"])
add("C14","One set-up instance may serve several threads that supply all arrays",
 "Once set up, an instance whose operations receive every array from the caller (RealFFT through the public interface; the FFT0 and DCT0 objects with explicit work arrays that the documentation offers for multi-threaded use) can be used by any number of threads at the same time, each with its own arrays: every call returns bit for bit what it returns when it is the only user, whatever operations the other threads run on the same instance and while other threads create, set up and destroy instances of their own. The operations write to nothing but the arrays passed to them (no unordered conflicting accesses to memory).",
 ["schedules","histories"],"all interleavings of synchronisation points up to a deviation bound of two to four threads running all operations on one instance in differing orders, unsynchronised accesses by happens-before analysis, every algorithm class and backend",
 "The tests are single threaded; a cached factor, lazily built table or scratch array inside a const operation is invisible to them.",
 ["src/otfft_base.h","src/otfft_algo.cpp","src/otfft_mixedradix.h","src/otfft_eightstep.h","src/otfft_sixstep.h","src/otfft_sixstepsq.h","README.md"],[("const operations with caller-supplied arrays","src/otfft_base.h RFFT, FFT0, DCT0"),("function-local statics and scratch","src/otfft_algo.cpp, kernels")],
 ["every memory access of each thread, synchronisation calls, output arrays"],state=["tables of a set-up instance"])
add("C15","Calls neither change nor depend on the caller's execution environment",
 "Creation, setup, transforms and destruction leave every setting of the calling thread and process as they found it: floating-point control words (rounding, denormal handling, exception masks) of the calling thread and of team threads, OpenMP control variables, signal mask and handlers, locale, environment variables, directory, affinity, resource limits and open descriptors; nothing is written to standard output or standard error. Whatever these settings are, results stay the same up to rounding (bit for bit if the rounding mode is the default), and finite, moderately scaled inputs raise no invalid, divide-by-zero or overflow exception even where the caller has unmasked them.",
 ["configurations","histories"],"the product of rounding mode, denormal handling, exception masks, x87 settings and OpenMP control variables x all calls of an instance's life x length classes x kinds x backends",
 "Tests run in one environment with default settings and never look at settings after a call.",
 ["src/otfft_algo.cpp","src/otfft_misc.h","src/otfft.cpp","src/otfft_mixedradix.h"],[("arithmetic on tables and scratch","src/otfft_algo.cpp, src/otfft_misc.h"),("OpenMP regions","all kernels")],
 ["control registers, OpenMP query functions, process attributes after each call; output arrays; signals"])
add("C16","Non-finite data stays visible and leaves no trace",
 "If an input element is NaN or infinite, every output element to which the transform's definition gives it a non-zero coefficient is non-finite (never a finite, plausible-looking value), and a sum beyond the range of double gives a non-finite result; this holds for every position, operation, length and backend. The call has no other effect: later transforms of finite data, on the same or another instance, return the same bits as if it had not happened.",
 ["inputs","histories"],"every input position and component x NaN, +Inf, -Inf x all operations, 3 backends, all lengths to a bound and class representatives above, each followed by transforms of finite data",
 "The tests use finite data only; a data-dependent shortcut, a clamping minimum/maximum or scratch memory that keeps a NaN is invisible to them.",
 ["src/otfft_algo.cpp","src/otfft_misc.h","src/otfft_mixedradix.h"],[("straight-line kernels on data and scratch","src/otfft_avx*.h, src/otfft_mixedradix.h"),("work arrays reused between calls","src/otfft_algo.cpp work/work1/work2")],
 ["output arrays of the call and of later calls"],state=["scratch contents of an instance"])
add("C17","simd_malloc memory suits the vector code; simd_array owns its block once",
 "A block from simd_malloc, for every size, is usable over its whole extent, overlaps no other live block, is aligned for the widest vector instructions the including file is compiled for, and is released completely by simd_free, also where allocation and release are compiled with different instruction-set options. After every sequence of construction, set-up, write, destroy and destruction a simd_array holds exactly the elements of its last successful set-up, aligned as above, and all blocks it ever held but the present one have been released exactly once. Lack of memory, at any of these steps and for any representable element count, is reported by std::bad_alloc, leaves nothing held twice or leaked, and the array remains usable.",
 ["histories","configurations"],"all operation sequences to a depth with every allocation failing or not, all sizes to a bound and element counts around every power of two, over compilers, optimisation levels and pairs of instruction-set options",
 "The tests only ever create a few arrays of moderate size in one compile mode and never run out of memory.",
 ["inc/otfft_complex.h","README.md"],[("simd_malloc, simd_free, simd_array","inc/otfft_complex.h")],
 ["pointers and contents; allocation ledger with guard pages"],state=["simd_array::p"])
add("C18","Instances are tied to no thread and no stage of the process",
 "Creation, setup, transforms and destruction of an instance may each happen on a different thread and at any stage of the process, one after the other: in constructors of static objects before main (whether or not the library's own statics are initialised), in main, on threads that have ended by the time the instance is used further, in members of an OpenMP team, in thread-local destructors, exit handlers and destructors of static objects, on either side of a fork, and in a plugin that contains the library and is loaded, unloaded (before or after the threads that used it end) and loaded again. The results are bit for bit those of an instance used in main only, and the process ends normally.",
 ["histories","configurations"],"every non-decreasing assignment of the four events to 13 stages of a process, every fork point between them, every assignment to threads in load/unload cycles of a plugin; all kinds, requests, length classes",
 "The tests use every instance within one function of the main thread; a table owned by a thread, an exit handler or a static object with constructor or destructor is invisible to them.",
 ["src/otfft.cpp","src/otfft_algo.cpp","inc/otfft.h"],[("processor detection on first use","src/otfft.cpp sysinfo::instance"),("state held in instances only","src/otfft_algo.cpp")],
 ["output arrays; exceptions; exit status of the process"],state=["static and thread-local storage of the library"])
add("C19","Work and memory stay in proportion to the length",
 "The work of every transform and of every setup is within a constant factor of N times the sum over the prime factors of N (logarithmic for 2, 3 and 5, proportional to the factor above), and for the Bluestein transform within a constant factor of N log N for every length, large primes included, as documented; the memory an instance holds is within a constant factor of N, and the stack a call uses is bounded whatever the length (32 KiB suffice, in the calling and in team threads). This holds for the first and every later setup and transform of an instance, and whatever the data.",
 ["inputs","configurations"],"all lengths to a bound, all powers of two and representatives of every factorisation class above, 3 backends, all kinds and operations",
 "A wrong choice of algorithm, a composite left unfactored or an oversized padding returns correct results; the tests do not measure anything.",
 ["src/otfft_algo.cpp","src/otfft_mixedradix.h","README.md"],[("choice of algorithm by length","src/otfft_algo.cpp FFT0::setup"),("factorisation","src/otfft_mixedradix.h"),("padding","src/otfft_algo.cpp Bluestein::setup")],
 ["instrumented memory accesses, trigonometric calls, allocation ledger"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import sys
for p in P: assert len(p['title'])<=80,(p['id'],len(p['title']))
