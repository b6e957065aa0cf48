"""What each property's check runs."""
TARGETS = {
    "x64": "x86_64-unknown-linux-gnu",
    "x86": "i686-unknown-linux-gnu",
    "a64": "aarch64-unknown-linux-gnu",
    "a32": "armv7-unknown-linux-gnueabihf",
    "t32": "thumbv7neon-unknown-linux-gnueabihf",
}
ALL = list(TARGETS)
OPTS = {"secs": 400, "witnesses": 4, "query-ms": 60000}

CHECKS = {
    0: "memory access or control transfer outside what the program owns",
    100: "the closure ran exactly once per call",
    101: "every argument reached the closure unchanged",
    102: "the closure's result reached the caller unchanged",
    103: "the captured values reached the closure unchanged",
    104: "one executable block per capturing wrapper",
    105: "the block is released with the wrapper, and kept when leaked",
    106: "no allocator call for a non-capturing closure",
    107: "no heap block left behind",
    200: "a captured value is dropped as it was built",
    201: "a large captured value is intact",
    202: "an over-aligned captured value is aligned",
    210: "a mutable closure sees the state left by its previous call",
    211: "a shared closure's result",
    212: "conversions keep the bare function's address",
    213: "nothing is dropped or released while the wrapper lives",
    214: "the closure ran once per call",
    215: "the captured value is dropped exactly once with the wrapper",
    216: "each block is released exactly once with the wrapper",
    217: "no block stays behind",
    218: "no heap block stays behind",
    219: "leaking keeps the bare function's address",
    220: "leaking drops and releases nothing",
    221: "a leaked function still reaches its closure",
    222: "calling a leaked function drops and releases nothing",
    223: "one executable block per capturing wrapper, none otherwise",
    230: "a once closure receives its captured value undropped",
    231: "a once closure owns its captured value",
    232: "a once closure that was not called did not run",
    233: "a once closure runs once",
    234: "a once closure receives its captured value intact",
    235: "a called once closure's captured value is dropped by the call, once",
    236: "a leaked block is not released",
    300: "a shared closure answers with its own capture",
    301: "a shared closure of another type answers with its own capture",
    302: "a mutable closure answers with its own state",
    303: "blocks alive = wrappers alive",
    304: "all blocks released at the end",
    305: "no heap block left at the end",
    306: "each captured value dropped once",
    310: "construction without executable memory does not succeed",
    311: "construction drops nothing",
    312: "construction fails only when the allocator fails",
    313: "fallible constructors return the error",
    314: "the refused closure is dropped once",
    315: "a refused construction leaves no heap block",
    316: "a refused construction releases nothing",
    317: "panics only when the allocator fails",
    318: "infallible constructors panic",
    319: "the refused closure is dropped once (panicking constructor)",
    320: "a panicking constructor releases nothing",
    321: "the other constructions succeed",
    322: "the other blocks stay",
    323: "existing wrappers keep working",
    324: "all closures dropped once at the end",
    325: "an infallible constructor without memory panics",
    330: "the closure has no size",
    331: "a closure without captures never fails",
    332: "a zero-sized captured value is dropped exactly once",
    333: "no heap block left behind",
    334: "the bare function works",
    335: "the closure ran",
    336: "the allocator was never used",
    337: "the bare function works",
    340: "same result as a direct call of the same closure",
    341: "no heap block left behind",
    342: "same result after leaking",
    350: "the call works from this placement",
    351: "released in the end",
    360: "pointer to function pointer keeps the address",
    361: "function pointer to pointer keeps the address",
    370: "each caller gets the result for its own argument",
    371: "every call works on the one captured counter",
    400: "the closure ran exactly once",
    401: "the arguments arrive unchanged and in order",
    402: "the result arrives unchanged",
    403: "the captured value arrives unchanged",
    404: "captured values are dropped exactly once and not before",
    405: "the second call sees the state the first one left",
    410: "the closure ran exactly once",
    411: "the captured value arrives unchanged",
    **{k: "borrowed and plain arguments and the result arrive unchanged" for k in range(412, 429)},
    500: "the request reaches the backing allocator exactly once",
    501: "the requested size is unchanged",
    502: "the pointers handed out are unchanged",
    503: "success or failure of the backing allocator comes back unchanged",
    504: "the released pointer is unchanged",
    505: "the access mode is unchanged",
    506: "the range is unchanged",
    507: "the request reaches the right allocator",
    508: "the backing allocator is created once",
    509: "a block is released once, where it came from",
    510: "the backing allocator is never entered by two threads at the same time",
    511: "every request completes with a block of its own and none is lost",
    512: "a wrapper using the built-in allocator reaches its closure",
    513: "code is unlocked, locked and flushed through the built-in allocator",
    600: "an instruction whose effect depends on its address and that cannot be moved is refused",
    601: "an instruction that does not depend on its address is copied unchanged",
    602: "a computed address is the original's",
    603: "a load relative to the instruction reads the original's location into the same register",
    604: "the closure pointer reaches the same register",
    605: "the continuation is reached",
    606: "branches inside the prologue reach the same instruction",
    607: "the copy stays inside its block",
    700: "a nested call gives the same result as the plain closures",
    701: "each closure ran as often as it was called",
    702: "nothing is dropped or released early, nothing is lost",
    703: "everything is dropped and released once in the end",
    900: "requested size is sensible",
    901: "number of blocks",
    902: "a block is released once",
    903: "a block is handled by the allocator that handed it out",
    904: "only blocks that were handed out are released",
    905: "protection changes stay inside a live block",
    906: "nothing is written before the block is made writable",
    907: "a block is made executable after it was writable",
    908: "the range made executable covers what was made writable",
    909: "writes stay inside the range made writable",
    910: "cache maintenance stays inside a live block, executable view",
    911: "the entry point lies in a live block",
    912: "the entry point lies inside the block",
    913: "the block is executable when handed to the user",
    914: "the entry point was flushed from the instruction cache",
    915: "no write after the block was made executable",
    916: "everything written is visible to execution",
    920: "the allocator is destroyed once",
    921: "the allocator is not used after it was destroyed",
    922: "the allocator is destroyed with its wrapper",
    923: "the allocator lives as long as the code",
}

COMMON = [
    "IR is produced by rustc " "nightly-2026-10-29 with optimisation, panic=abort and no vectorisation; the properties are decided on that IR",
    "capstone is replaced by a model in /verif/models/capstone (compared with the real one by models/capcheck); the native replay uses the real one",
    "thunk functions are taken to begin with the crate's code block; register allocation around it is varied, compiler-made prologues are not modelled here",
    "z3 decides every query; undecided queries give no verdict",
]
BOUNDS = {}
ASSUMES = {}
JOBS = {}

CCS = {
    "x64": ["c", "c_unwind", "system", "system_unwind", "efiapi", "rust", "sysv64", "sysv64_unwind", "win64", "win64_unwind"],
    "x86": ["c", "c_unwind", "system", "system_unwind", "efiapi", "rust"] + [c + u for c in ("cdecl", "stdcall", "fastcall", "thiscall") for u in ("", "_unwind")],
    "a64": ["c", "c_unwind", "system", "system_unwind", "efiapi", "rust"],
    "a32": ["c", "c_unwind", "system", "system_unwind", "efiapi", "rust", "aapcs", "aapcs_unwind"],
    "t32": ["c", "c_unwind", "system", "system_unwind", "efiapi", "rust", "aapcs", "aapcs_unwind"],
}
JOBS["C01"] = [{"isa": i, "entry": "h_call_" + c, "covers": [1, 2]} for i in ALL for c in CCS[i]]
BOUNDS["C01"] = (
    "all calling conventions of each target, arities 0-12 with one signature each (integers, floats, small and large "
    "structs), all argument, capture and result values, six closure kinds, block placement modulo 16, one or two views"
)

# the crate refuses to build without relocation on 32-bit x86
PLAIN = ["x64", "a64", "a32", "t32"]


def on(isas, *entries, **kw):
    return [dict({"isa": i, "entry": e}, **kw) for e in entries for i in isas]


CAPS = ["small", "large", "aligned", "boxed", "zst"]
LIFE = ["h_life_%s_%s" % (k, c) for c in CAPS for k in ("fn", "mut", "once")] + ["h_life_hr_" + c for c in ("small", "boxed", "aligned", "zst")]
DEEP = ["h_deep_%s_small" % k for k in ("fn", "mut", "once")]
LIFE_BOUND = (
    "all sequences of up to three conversions and calls (four in the thorough tier) from {weaken bounds x3, erase "
    "signature, convert x2, move, call}, then drop or leak; "
)

JOBS["C02"] = on(ALL, "h_hist3", covers=[1, 2]) + on(["x64", "a32"], "h_hist4", covers=[1, 2], cost=9) + on(ALL, "h_hist5", covers=[1, 2], cost=50, thorough_only=True)
BOUNDS["C02"] = "one wrapper, then all histories of 3 operations (4 on x86_64 and A32, 5 in the thorough tier) from create x3 kinds, call, drop over three slots, then calls and drops in two orders; freed blocks are reused; all captured and argument values"

JOBS["C03"] = on(ALL, "h_place_fn", "h_place_mut", "h_place_once", "h_place_fn3", "h_place_mut12", covers=[1]) + on(ALL, "h_call_c", covers=[1, 2], cost=5) + on(ALL, "h_hist3", covers=[1, 2])
BOUNDS["C03"] = "all block placements modulo 16, one or two views, fresh and reused blocks, five closure/signature shapes plus all arities of the C convention; code bytes compared again after calls"

JOBS["C03"] += on(PLAIN, "h_place_fn", "h_place_mut", "h_place_once", "h_place_mut12", covers=[1], feats="nosafe")
JOBS["C01"] += on(PLAIN, "h_call_c", "h_call_rust", covers=[1, 2], feats="nosafe")
JOBS["C02"] += on(PLAIN, "h_hist3", covers=[1, 2], feats="nosafe")

JOBS["C04"] = on(ALL, *LIFE, covers=[1, 2]) + on(ALL, *DEEP, covers=[1, 2], cost=20, thorough_only=True)
BOUNDS["C04"] = LIFE_BOUND + "three closure traits, five capture shapes, release succeeding or failing, two placements"

JOBS["C05"] = on(ALL, *LIFE, covers=[1, 2]) + on(ALL, "h_fail_fn", "h_fail_once", covers=[1, 2, 3]) + on(ALL, *DEEP, covers=[1, 2], cost=20, thorough_only=True)
BOUNDS["C05"] = LIFE_BOUND + "capture shapes: one byte to 64 bytes, over-aligned, heap-owning, zero-sized with a destructor"

JOBS["C06"] = on(ALL, "h_none_fn", "h_none_mut", "h_none_once", covers=[1, 2]) + on(ALL, "h_life_fn_zst", "h_life_mut_zst", "h_life_once_zst", "h_life_hr_zst", covers=[1, 2])
BOUNDS["C06"] = "six constructors, three closure traits, no capture or zero-sized captures, one conversion, drop or leak; all arguments; every allocator request fails and is recorded"

JOBS["C07"] = on(ALL, "h_fail_fn", "h_fail_mut", "h_fail_once", covers=[1, 2, 3])
BOUNDS["C07"] = "failure of the first, second or third of three constructions through each of eight constructors, three closure traits; all captured and argument values"

JOBS["C08"] = on(ALL, "h_state_scalar", "h_state_heap", "h_state_array", covers=[1]) + on(ALL, "h_life_mut_small", "h_life_mut_large", "h_life_once_small", "h_life_once_boxed", "h_life_hr_small", "h_life_hr_boxed", covers=[1, 2])
BOUNDS["C08"] = "three calls with arbitrary arguments with all pairs of conversions in between, then leak and a fourth call or drop; captured scalars, heap blocks, arrays"

_M = {"steps": 100000}
_X = {"steps": 8000000}
_M2 = ["h_move2a", "h_move2b", "h_move2c", "h_move2d"]
JOBS["C09"] = (on(["x64"], "h_move1", covers=[1, 3, 4], opts=_X) + on(["x64"], *_M2, covers=[1, 3, 4], opts=_X, cost=9) + on(["x64"], "h_move3", "h_jump4", covers=[1, 3, 4], opts=_X, cost=9) + on(["x64"], "h_jump3", covers=[1, 3, 4], opts=_X, cost=5)
    + on(["x64"], "h_move3t", "h_jump4t", covers=[1, 3, 4], opts=_X, cost=30, thorough_only=True))
JOBS["C10"] = (on(["x86"], "h_move1", covers=[1, 2], opts=_X) + on(["x86"], *_M2, covers=[1], opts=_X, cost=2) + on(["x86"], "h_move3", "h_call3", covers=[1, 2], opts=_X, cost=4)
    + on(["x86"], "h_move3t", covers=[1, 2], opts=_X, cost=9, thorough_only=True))
JOBS["C11"] = on(["a64"], "h_move1", "h_move2", "h_move3", covers=[1, 2, 3, 4], opts=_M) + on(["a64"], "h_move4", covers=[1, 2, 3, 4], opts=_M, thorough_only=True, cost=5)
JOBS["C12"] = on(["a32"], "h_move1", "h_move2", covers=[1, 2, 3, 4], opts=_M) + on(["a32"], "h_move3", covers=[1, 2, 3, 4], opts=_M, thorough_only=True, cost=20)
JOBS["C13"] = on(["t32"], "h_move1", covers=[1, 2, 3, 4], opts=_M) + on(["t32"], "h_move2", "h_move3", covers=[1, 2, 3, 4, 5], opts=_M, cost=3) + on(["t32"], "h_move4", covers=[1, 2, 3, 4, 5], opts=_M, thorough_only=True, cost=20)
_T = "; template at two to three addresses, code memory at two alignments, registers of the closure-loading sequence symbolic"
BOUNDS["C09"] = "prologues of one instruction out of 45 forms with eight registers and symbolic displacements, immediates, registers and loaded values; of two instructions out of all forms with two registers; of three and four out of six forms (ten in the thorough tier) including conditional jumps to every instruction; at most four jumps and 24 instructions executed; template at two addresses, six closure registers"
BOUNDS["C10"] = "prologues of one instruction out of 30 forms with eight registers and symbolic displacements, immediates, registers and loaded values; of two instructions out of all forms with two registers; of three out of five forms (seven in the thorough tier); of two call/pop pairs around another instruction with eight registers; template at two addresses, three closure registers"
BOUNDS["C14"] = "AArch64: three instruction words, Arm: two, Thumb: three halfwords, each any encoding of the handled forms and of the usual position-independent instructions; x86_64: one and two instructions of 36 forms, two position-relative ones around another, one after eight pushes, conditional jumps over vector stores before and after one; 32-bit x86: the same with the call/pop idiom; builds with overflow checks (thorough tier: also without, one more instruction on Arm and Thumb)"
ASSUMES["C09"] = ASSUMES["C10"] = ["instructions outside the menu are not considered", "position-relative operands lie outside the template; no access touches the copy except its own slots", "jump targets are instruction boundaries", "multiplications and shifts are uninterpreted functions of their operands; flags are compared as operation and operands"]
ASSUMES["C11"] = ASSUMES["C12"] = ASSUMES["C13"] = ["no prologue word equals the marker of the closure slots", "no literal load of the closure slots, or into sp or the zero register, outside the closure-loading sequence", "Thumb branches lead to instruction starts; IT blocks with the condition AL are not generated", "at most ten instructions are executed in lock step", "words the disassembler model calls undecodable are refused"]
ASSUMES["C14"] = ["addresses computed stay inside the address space", "a register not used by the prologue receives the closure pointer (x86_64)"]
BOUNDS["C11"] = "prologues of up to three arbitrary instruction words (four in the thorough tier)" + _T
BOUNDS["C12"] = "prologues of up to two instruction words (three in the thorough tier) of the classes in models/capstone/src/a32.rs, other words being refused by construction of the disassembler model" + _T
BOUNDS["C13"] = "prologues of up to three halfwords (four in the thorough tier), any mix of 16- and 32-bit encodings of the classes in models/capstone/src/t32.rs, IT blocks included; narrow and wide loads of the closure" + _T

FEATS = ("default_jit", "std_jit")
JOBS["C14"] = (on(["a64", "a32"], "h_ok1", "h_ok2", covers=[1, 2], opts=_M, profile="checked") + on(["t32"], "h_ok1", "h_ok2", "h_ok3", covers=[1, 2], opts=_M, profile="checked", cost=2) + on(["a64"], "h_ok3", covers=[1, 2], opts=_M, profile="checked", cost=2)
    + on(["x64", "x86"], "h_ok1", "h_ok2", "h_ok3", "h_ok9", covers=[1], opts=_X, profile="checked", cost=2) + on(["x64"], "h_okj", "h_okk", covers=[1], opts=_X, profile="checked")
    + on(["a64", "a32", "t32"], "h_ok1", "h_ok2", covers=[1, 2], opts=_M, thorough_only=True) + on(["x64", "x86"], "h_ok1", "h_ok2", "h_ok3", "h_ok9", covers=[1], opts=_X, thorough_only=True)
    + on(["a32"], "h_ok3", covers=[1, 2], opts=_M, profile="checked", cost=20, thorough_only=True) + on(["t32"], "h_ok4", covers=[1, 2], opts=_M, profile="checked", cost=20, thorough_only=True))
JOBS["C15"] = on(ALL, "h_fwd", covers=[1, 2, 3, 4])
JOBS["C16"] = []
for _f in FEATS:
    JOBS["C15"] += on(ALL, "h_global", covers=[1, 2, 3, 4], feats=_f) + on(ALL, "h_global_wrap", covers=[1], feats=_f)
    JOBS["C16"] += on(ALL, "h_race2", "h_race_wrap", covers=[1], feats=_f, opts={"preempt": 3}, thorough={"preempt": 5}, cost=3) + on(["x64", "a64"], "h_race3", covers=[1], feats=_f, thorough={"preempt": 3}, cost=5)
JOBS["C15"] += on(ALL, "h_thread", covers=[1, 2, 3, 4], feats="std_jit") + on(ALL, "h_thread2", covers=[1], feats="std_jit")
BOUNDS["C15"] = "all sizes, pointers, ranges, access modes and answers; references, nested references, mutable references, Box, Rc, Arc, Arc<Box>, registered global allocator, built-in global allocator (hosted and bare-metal), thread-local allocator; first and later use; wrappers built on them; two threads for the thread-local one"
BOUNDS["C16"] = "two threads with up to three preemptions (five in the thorough tier) at lock operations and inside the backing allocator, three threads with up to two (three); first use included; each thread allocates and releases, or builds, calls and drops a wrapper; hosted (futex) and bare-metal (spin) locks"
ASSUMES["C16"] = ["sequentially consistent interleavings: reorderings a weak memory model would add are not explored", "destructors of thread-local values are not run at thread end"]
ASSUMES["C15"] = ["destructors of thread-local values are not run at thread end"]

JOBS["C17"] = on(ALL, "h_ptrs", covers=[1]) + on(ALL, *[x for x in LIFE if "aligned" not in x and "boxed" not in x], covers=[1, 2]) + on(ALL, *DEEP, covers=[1, 2], cost=20, thorough_only=True)
BOUNDS["C17"] = LIFE_BOUND + "all non-null pointer values for the pointer conversions of nine signatures"

JOBS["C18"] = on(ALL, "h_packed_c", "h_packed_system", "h_packed_rust", covers=[1, 2, 3], cost=3) + on(ALL, "h_hr0", "h_hr1", "h_hr2", "h_hr3", "h_hrs", "h_hrg", covers=[1, 2, 3, 4, 5]) + on(ALL, "h_life_hr_small", "h_life_hr_boxed", covers=[1, 2])
BOUNDS["C18"] = "arities 0-12 with one signature each under three conventions, three closure traits, four flavours, called in process, through the bare function and through the generic call; six declared signatures with zero to three lifetimes, five ways of wrapping; all values"

JOBS["C19"] = on(ALL, "h_threads2", "h_threads_packed", "h_threads_count", "h_threads_count_packed", covers=[1]) + on(["x64", "a64"], "h_threads_count3", covers=[1], cost=5) + on(ALL, "h_threads3", covers=[1], cost=3)
BOUNDS["C19"] = "two and three threads, all interleavings with up to two preemptions at scheduling points (thread start/end, inside the closure, atomic operations), all arguments and captures"

JOBS["C22"] = on(ALL, "h_fail_fn", "h_fail_mut", "h_fail_once", covers=[1, 2, 3]) + on(ALL, "h_none_fn", "h_none_mut", "h_none_once", "h_hist3", covers=[1, 2]) + on(ALL, *[x for x in LIFE if "small" in x or "boxed" in x or "zst" in x], covers=[1, 2])
BOUNDS["C22"] = LIFE_BOUND + "three closure traits, heap-owning, plain and zero-sized captures; the three-operation histories over three slots; failure of one of three constructions; closures without captures through six constructors"

JOBS["C23"] = on(ALL, "h_nest_rec", covers=[1]) + on(ALL, "h_nest_make", "h_nest_own", covers=[1, 2, 3])
for _f in FEATS:
    JOBS["C23"] += on(ALL, "h_nest_rec", covers=[1], feats=_f) + on(ALL, "h_nest_make", "h_nest_own", covers=[1, 2, 3], feats=_f)
BOUNDS["C23"] = "recursion up to depth three directly or through a second closure, wrappers made inside two calls of a shared or mutable closure and dropped there, in the next call or leaked, three wrappers owning each other ending in drop, once call or leak; a recording allocator that reuses blocks, and the built-in global allocator (hosted and bare-metal); all captured and argument values"

NOTES = {}
NA = {
    "C20": "what happens after an unwind starts is decided by the platform unwinder and by unwind tables the compiler and linker write; neither is visible to an executor of LLVM IR and thunk machine code, and modelling the unwinder would check the model",
    "C21": "auto-trait markers exist only at compile time; there is no run-time value for a solver to range over",
}
