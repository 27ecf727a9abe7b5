COMMON=("Bounded: the solver covers every schedule with at most R segments per thread (round-robin rounds), every nondeterministic timeout, cancellation, failure and input value of the scenarios listed in evidence, loops unwound to the stated K; nothing is claimed beyond those bounds. "
 "Trusted: clang's lowering to IR, engine/lsx, model/winmodel.c (Win32 semantics), kissat, sequentially consistent memory, the C (setjmp/longjmp) build of the library.")
