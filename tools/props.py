# Writes properties.jsonl (kept as a script so that the wording lives in one readable place).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "Calls through the bare function deliver arguments, captures and result intact",
  "Calling the bare function obtained from a wrapped closure runs exactly that closure exactly once, with every argument, every captured value and the returned value bit-for-bit unchanged, under the calling convention the bare function type declares. This holds for shared, mutable and once closures, whether or not they capture anything, and for every supported target.",
  ["inputs", "configurations"],
  "All argument, capture and return values of each checked signature (all arities 0-12, every calling convention the target offers, scalar/float/struct/by-memory types), all three closure traits, capturing and non-capturing, any block placement; five targets.",
  "Tests call a few fixed signatures with fixed numbers; a dropped, swapped or truncated argument for another arity, convention or value is never executed.",
  ["src/cc.rs", "src/arch.rs", "src/bare_closure.rs"],
  [("per-convention thunk templates", "src/cc.rs"), ("closure pointer and return address patched into the copy", "src/arch.rs")],
  ["arguments seen by the closure", "value returned to the caller", "number of invocations"])

p("C02", "Live wrappers are independent of each other",
  "However many wrapped closures are alive, in whatever order they were created, called and dropped, and even when executable memory is reused, each bare function keeps reaching its own closure and its own state only. Dropping one wrapper never changes what calling another one does.",
  ["histories", "inputs"],
  "All histories of up to four operations (create, call, drop) over three slots of closures of the same and of different types, sharing one allocator that reuses freed blocks, all captured values.",
  "Tests create wrappers one at a time or in one fixed order.",
  ["src/arch.rs", "src/bare_closure.rs"],
  [("one code block per wrapper holding its closure pointer", "src/arch.rs")],
  ["captured value and state reached by each call"])

p("C03", "Generated code is written only where allowed and is executable when handed out",
  "Building a bare function writes only through the writable view and only inside the range the allocator handed out and was told to make writable; before the pointer is handed out, every byte written has been made executable again and has been flushed for the address at which it will execute. This holds for every alignment of the block and whether or not the two views are the same memory, and the code in the block never changes afterwards.",
  ["inputs", "configurations"],
  "All block placements modulo 16, single or dual mapping, all closure kinds of C01's signatures; blocks have exactly the requested size and are surrounded by inaccessible memory.",
  "The stock allocator always returns 64-byte aligned, oversized, identity-mapped or coherent memory, so misplacement, overrun or a missing flush goes unnoticed on the test machines.",
  ["src/arch.rs", "src/jit_alloc.rs"],
  [("alignment adjustment, protect, copy, patch, protect, flush", "src/arch.rs")],
  ["calls reaching the allocator", "bytes of both views"])

p("C04", "Executable memory is given back exactly once, to the allocator it came from",
  "Every block of executable memory obtained for a wrapper is released exactly once, when the wrapper is destroyed, with the very pointer the allocator returned for execution, to the same allocator instance. It is never released while the wrapper lives or after the wrapper was leaked, and an error reported by the allocator on release does no harm.",
  ["histories", "fault_sequences", "configurations"],
  "All sequences of up to four conversions (erase signature, weaken bounds, convert, move) ending in drop or leak, all three closure traits, all placements, release succeeding or failing.",
  "Tests never look at the allocator; a leaked, doubly released or misdirected block does not fail an assertion.",
  ["src/arch.rs", "src/bare_closure.rs"],
  [("destructor of the allocated thunk", "src/arch.rs"), ("leak and upcast via ManuallyDrop", "src/bare_closure.rs")],
  ["release calls reaching the allocator"])

p("C05", "A captured value is dropped exactly once, or never if leaked",
  "Whatever conversions a wrapper goes through, the values captured by its closure are dropped exactly once when the wrapper is destroyed, are never dropped after a leak, and are never dropped while the bare function may still be called. For a once closure that has been called, the captured values are dropped by that call and not again.",
  ["histories", "configurations"],
  "All sequences of up to four conversions ending in drop or leak, with zero to two calls in between, closures of zero size, small and large and over-aligned, all three closure traits.",
  "Tests check one drop of one wrapper kind; conversions combined with calls and zero-sized captures with destructors are not exercised.",
  ["src/bare_closure.rs", "src/cc.rs", "src/traits.rs"],
  [("destructor reclaiming the boxed closure", "src/bare_closure.rs"), ("once thunk reading the closure by value", "src/cc.rs")],
  ["destructor runs of captured values", "heap blocks alive"])

p("C06", "Closures that capture nothing use no executable memory",
  "Wrapping a closure that captures nothing never asks the allocator for anything and never calls it at all, through every constructor, and the bare function still works. This includes captures that merely have zero size.",
  ["inputs", "histories", "configurations"],
  "All constructors and closure traits, an allocator that fails every request, all argument values, conversions and destruction included.",
  "The stock allocator would silently serve an unnecessary request.",
  ["src/arch.rs", "src/cc.rs", "src/bare_closure.rs"],
  [("size test before allocating", "src/arch.rs"), ("zero-size branch of each thunk template", "src/cc.rs")],
  ["calls reaching the allocator", "result of calling the bare function"])

p("C07", "A failing allocator is reported cleanly and nothing leaks",
  "When executable memory cannot be obtained, the fallible constructors return the error, the infallible ones panic, and in both cases the closure that was passed in is dropped exactly once, no heap block stays behind and no release is attempted. Wrappers that already existed keep working.",
  ["fault_sequences", "histories"],
  "Failure of any one of up to three successive allocations, all constructors and closure traits, all captured values.",
  "Tests never make the allocator fail.",
  ["src/bare_closure.rs", "src/arch.rs"],
  [("error propagation from the allocator", "src/arch.rs"), ("boxing before the thunk is built", "src/bare_closure.rs")],
  ["returned result or panic", "destructor runs", "heap blocks alive"])

p("C08", "State of mutable closures persists between calls; once closures are consumed",
  "A mutable closure called repeatedly through its bare function sees the state left by its previous call, and what it returns is what a directly called closure would have returned. A once closure receives its captured values by move and intact.",
  ["histories", "inputs"],
  "All sequences of three calls with arbitrary arguments, plain/erased/upcast wrappers, captured scalars, heap objects and arrays.",
  "Tests call a mutable closure a fixed number of times with fixed values.",
  ["src/cc.rs", "src/bare_closure.rs"],
  [("thunk templates passing a unique reference or moving out", "src/cc.rs")],
  ["returned values", "captured state"])

for (i, isa, f, bound) in [
  ("C09", "x86_64", ["src/safe_jit/x86_64.rs", "src/safe_jit/mod.rs"], "All prologues of up to two instructions drawn from a menu of 45 register, memory, RIP-relative, flag-setting, call and jump forms, and of three and four from the central ones, with symbolic displacements, immediates, register and memory contents, at several load addresses."),
  ("C10", "32-bit x86", ["src/safe_jit/x86.rs", "src/safe_jit/mod.rs"], "All prologues of up to two instructions drawn from a menu of 30 register, memory, stack, call-next/pop and branch forms, and of three from the central ones, with symbolic displacements, immediates, register and memory contents, at several load addresses."),
  ("C11", "AArch64", ["src/safe_jit/aarch64.rs", "src/safe_jit/arm_util.rs", "src/safe_jit/arm_util/encoding_aarch64.rs"], "All prologues of up to three arbitrary instruction words (four in the thorough tier) in front of the closure-loading sequence, at several load addresses."),
  ("C12", "Arm (A32)", ["src/safe_jit/arm.rs", "src/safe_jit/arm_util.rs", "src/safe_jit/arm_util/encoding_arm.rs"], "All prologues of up to two arbitrary conditional-space instruction words of the modelled classes (three in the thorough tier) in front of the closure-loading sequence, at several load addresses."),
  ("C13", "Thumb (T32)", ["src/safe_jit/arm.rs", "src/safe_jit/arm_util.rs", "src/safe_jit/arm_util/encoding_thumb.rs"], "All prologues of up to three halfwords (four in the thorough tier), any mix of 16- and 32-bit encodings of the modelled classes, in front of the closure-loading sequence, at several load addresses and both halfword alignments."),
]:
    p(i, f"Moved {isa} prologues behave the same or are refused",
      f"On {isa}, when the compiler-generated entry sequence of a thunk is moved to new memory, running the moved copy computes the same register contents, touches the same memory and reaches the same closure and continuation as the original would have. If that cannot be guaranteed the construction fails with a panic instead of producing code; it never hands out code that behaves differently.",
      ["programs", "configurations"], bound,
      "Tests see only the handful of prologues the installed compilers happen to emit for the test closures.",
      f, [("instruction-by-instruction relocation", f[0])],
      ["bytes of the generated code", "panic or success of the constructor"])

p("C14", "Supported prologue forms are accepted",
  "Entry sequences made of position-independent instructions and of the position-dependent forms the library documents as handled (address computations, PC-relative loads, short forward branches inside the prologue, and on 32-bit x86 the call-next/pop idiom) are relocated successfully: construction neither panics nor fails, with arithmetic overflow checks on or off.",
  ["programs", "configurations"],
  "All encodings of each documented form (all registers, all displacements in range for the copy), alone and in pairs with others, at several load addresses on five targets, with overflow checks enabled.",
  "Which form a compiler emits depends on the closure and flags; a spurious refusal aborts the user's program only for that closure.",
  ["src/safe_jit/x86_64.rs", "src/safe_jit/x86.rs", "src/safe_jit/aarch64.rs", "src/safe_jit/arm.rs", "src/safe_jit/arm_util/encoding_thumb.rs"],
  [("decoders of the supported forms", "src/safe_jit")],
  ["panic or success of the constructor"])

p("C15", "Allocator adapters forward every request unchanged",
  "Using an allocator through a reference, a smart pointer, the globally registered custom allocator or the built-in global and thread-local allocators passes every request on unchanged to exactly one underlying allocator: same sizes, same pointers, same ranges, same access mode, and its success or failure comes back unchanged. The built-in allocators release to the same backing allocator they allocated from.",
  ["inputs", "configurations", "fault_sequences"],
  "All sizes, pointers and access modes, success and failure of the backing allocator, each adapter.",
  "On the test platforms protect and flush are no-ops, so a swapped access mode or a dropped forward is invisible.",
  ["src/jit_alloc.rs"],
  [("blanket implementation for smart pointers", "src/jit_alloc.rs"), ("custom and default global allocators", "src/jit_alloc.rs")],
  ["requests arriving at the backing allocator", "values returned to the caller"])

p("C16", "The built-in global allocator is safe to use from several threads at once",
  "When several threads create and destroy wrappers through the built-in global allocator, the backing allocator is created once, is never entered by two threads at the same time, and every request completes. No interleaving loses or duplicates a block.",
  ["schedules", "histories"],
  "All interleavings with up to three preemptions (five in the thorough tier) of two threads performing an allocation and a release each, first use included; hosted and bare-metal lock variants.",
  "Threaded tests see the few interleavings the scheduler produces.",
  ["src/jit_alloc.rs"],
  [("mutex around the lazily created allocator", "src/jit_alloc.rs")],
  ["entries into the backing allocator"])

p("C17", "Changing the wrapper's type never changes the bare function",
  "Erasing the signature, weakening the thread-safety bounds, converting and leaking never change the address of the bare function, and casting that address back to the original signature reaches the same closure. Function pointers survive conversion to an untyped pointer and back.",
  ["histories", "inputs"],
  "All sequences of up to four conversions, all three closure traits, all captured and argument values, arbitrary pointer values.",
  "Tests perform single conversions on one closure type.",
  ["src/bare_closure.rs", "src/cc.rs", "proc_macros/src/lib.rs"],
  [("transparent wrapper and transmuting upcast", "src/bare_closure.rs")],
  ["address returned by each accessor", "closure reached"])

p("C18", "Packed-argument factories and borrowed-argument signatures are faithful",
  "Closures wrapped through the factory functions that take all arguments as one tuple, through every thread-safety flavour of them, and through declared higher-ranked signatures receive the same arguments in the same order, by the same references, and return the same value as a direct call. Calling such a thunk in process, without generated code, behaves the same as calling its bare function.",
  ["inputs", "configurations"],
  "All argument and capture values for each checked signature (0 to 12 arguments for tuples, up to three lifetimes for borrowed signatures), all closure traits and flavours.",
  "Tests use a few arities with distinct constant arguments.",
  ["src/thunk_factory.rs", "src/cc.rs", "src/traits.rs", "proc_macros/src/lib.rs"],
  [("tuple unpacking closures", "src/cc.rs"), ("generated thunk implementations", "proc_macros/src/lib.rs")],
  ["arguments seen by the closure", "value returned"])

p("C19", "A shared closure may be called from several threads at once",
  "A wrapped shared closure called concurrently through its bare function from several threads gives every caller the result for its own arguments. All these calls work on the one captured state: what one call changes in it through synchronised access is seen by the others, and no change is lost.",
  ["schedules", "inputs"],
  "All interleavings with up to two preemptions of two and three threads calling the same bare function, closures that only read what they capture and closures that count in a captured atomic, all argument and capture values.",
  "Threaded tests see few interleavings and fixed values.",
  ["src/cc.rs", "src/arch.rs"],
  [("thunk code keeps no state of its own", "src/cc.rs")],
  ["values returned to each thread", "captured counter"])

p("C20", "Unwinding conventions let a panic pass through the bare function",
  "A panic raised inside a closure wrapped with an unwinding calling convention reaches the caller of the bare function with its payload, running the destructors in between.",
  ["inputs", "configurations"],
  "All closures and conventions that allow unwinding.",
  "Depends on unwind tables for relocated code.",
  ["src/cc.rs"], [("unwinding calling conventions", "src/cc.rs")], ["panic payload at the caller"])

p("C21", "Thread-safety markers of wrappers follow those of the closure",
  "A wrapper can be sent to or shared with another thread by safe code only when its closure and its allocator may be.",
  ["programs"],
  "All safe programs using the wrappers.",
  "A negative fact about which programs compile.",
  ["src/bare_closure.rs", "src/thunk_factory.rs"], [("conditional marker implementations", "src/bare_closure.rs")], ["acceptance by the compiler"])

p("C22", "A wrapper owns its allocator value for as long as its code exists",
  "The allocator value given to a constructor is destroyed exactly once: together with the wrapper, after it has taken back the wrapper's executable memory, or when construction fails. It is never used after it was destroyed, and it is not destroyed while the wrapper lives in whatever form or once the wrapper was leaked; this also holds for closures that need no executable memory.",
  ["histories", "fault_sequences", "configurations"],
  "All sequences of up to three conversions and calls ending in drop or leak, failing and succeeding constructions, zero-sized and other captures, all three closure traits.",
  "The tests' allocators are zero-sized or static, so destroying one early, twice or never has no visible effect.",
  ["src/arch.rs", "src/bare_closure.rs"],
  [("the allocated thunk stores the allocator", "src/arch.rs"), ("upcast, erase and leak via ManuallyDrop", "src/bare_closure.rs")],
  ["destructor runs of the allocator value", "calls reaching the allocator"])

p("C23", "Closures may call, create, destroy and own other wrapped closures",
  "A wrapped closure may, while it runs, call bare functions including its own if it is shared, and create, call, destroy or leak other wrappers; it may also own other wrappers. Every such call gives the result the plain closures would give, nothing is destroyed early, and everything is destroyed and released exactly once in the end, with a user's allocator as well as with the built-in global one.",
  ["inputs", "histories", "configurations"],
  "Recursion to depth three, directly and through a second closure; wrappers created inside calls of shared and mutable closures; chains of three wrappers owning each other, dropped, consumed or leaked; all values.",
  "Tests never nest: no closure under test calls a bare function or touches another wrapper.",
  ["src/arch.rs", "src/bare_closure.rs", "src/jit_alloc.rs"],
  [("thunk code keeps no state of its own", "src/arch.rs"), ("lock of the global allocator is not held while user code runs", "src/jit_alloc.rs")],
  ["values returned by nested calls", "destructor runs", "release calls reaching the allocator"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
