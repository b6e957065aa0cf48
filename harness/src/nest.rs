//! Wrapped closures that call bare functions, make and destroy wrappers, or own wrappers.

use crate::life::*;
use crate::vf::*;
use closure_ffi::traits::Any;
use closure_ffi::*;

/// The allocator: the recording one, or the crate's own when it is built in.
#[cfg(not(feature = "default_jit"))]
mod with {
    pub use crate::jit::Jit as A;
    use crate::jit::*;
    use crate::vf::*;
    pub fn a() -> A {
        Jit(1)
    }
    pub fn begin() {
        crate::life::start();
        unsafe {
            J.off = 6;
            J.dual = choose(2) == 1;
            J.reuse = true;
            J.keep = true;
        }
    }
    pub fn blocks() -> usize {
        live_blocks()
    }
}
#[cfg(feature = "default_jit")]
mod with {
    pub use closure_ffi::jit_alloc::GlobalJitAlloc as A;
    pub fn a() -> A {
        A
    }
    pub fn begin() {
        crate::life::start();
        crate::adapt::builtin::real();
    }
    pub fn blocks() -> usize {
        crate::adapt::builtin::left()
    }
}
use with::*;

/// Runs `f` with plain values first: the built-in allocator and the decoder's tables are created on
/// first use and stay.
static mut FIRST: bool = false;
fn twice(f: impl Fn(&dyn Fn() -> u64)) {
    begin();
    unsafe { FIRST = true };
    f(&|| core::hint::black_box(9));
    unsafe { FIRST = false };
    again();
    f(&sym::<u64>);
}

/// Depth and the function to call.
type R = unsafe extern "C" fn(u64, u64, usize) -> u64;
fn rec(p: usize, n: u64, x: u64, q: usize) -> u64 {
    unsafe { core::mem::transmute::<usize, R>(p)(n, x, q) }
}

// A shared closure calling itself, or another one that calls it back.
entry!(h_nest_rec, {
    let depth = 1 + choose(3);
    let cross = choose(2);
    twice(|v| nest_rec(depth, cross, v));
    cover(1);
});
unsafe fn nest_rec(depth: u64, cross: u64, v: &dyn Fn() -> u64) {
    let (k, l, x) = (v(), v(), v());
    let live = vf_live();
    let (d, e) = (Small::mk(k), Large::mk(l));
    // each level keeps something of its own across the inner call
    let f: BareFnAny<R, dyn Any, A> = BareFnAny::new_c_in(
        move |n: u64, x: u64, q: usize| {
            RAN += 1;
            if n == 0 {
                return d.val() ^ x;
            }
            let y = rec(q, n - 1, x.wrapping_add(d.val()), q);
            y.wrapping_add(d.val() ^ x)
        },
        a(),
    );
    let fp = f.bare() as usize;
    let g: BareFnAny<R, dyn Any, A> = BareFnAny::new_c_in(
        move |n: u64, x: u64, _: usize| {
            RAN += 1;
            let y = rec(fp, n, x ^ e.val(), fp);
            y.wrapping_sub(e.val())
        },
        a(),
    );
    let gp = g.bare() as usize;
    fn model_f(k: u64, n: u64, x: u64) -> u64 {
        if n == 0 {
            return k ^ x;
        }
        model_f(k, n - 1, x.wrapping_add(k)).wrapping_add(k ^ x)
    }
    if cross == 0 {
        check(rec(fp, depth, x, fp) == model_f(k, depth, x), 700);
        check(RAN as u64 == depth + 1, 701);
    } else {
        // f calls g, which calls f to the end
        let y = x.wrapping_add(k);
        let inner = model_f(k, depth - 1, y ^ l).wrapping_sub(l);
        check(rec(fp, depth, x, gp) == inner.wrapping_add(k ^ x), 700);
        check(RAN as u64 == depth + 2, 701);
    }
    check(DROPS == 0 && blocks() == 2, 702);
    drop(f);
    drop(g);
    check(DROPS == 2 && blocks() == 0 && (FIRST || vf_live() == live), 703);
}

static mut KEPT: Option<BareFnAny<B, dyn Any, A>> = None;

// Wrappers made, called and destroyed while a wrapped closure runs.
entry!(h_nest_make, {
    // 0: gone at the end of the call, 1: kept and destroyed by the next call, 2: leaked
    let end = choose(3);
    let kind = choose(2);
    twice(|v| nest_make(end, kind, v));
    cover(1 + end as u32);
});
unsafe fn nest_make(end: u64, kind: u64, v: &dyn Fn() -> u64) {
    let k = v();
    let live = vf_live();
    let had = blocks();
    fn work(c: &Small, end: u64, x: u64) -> u64 {
        unsafe {
            RAN += 1;
            KEPT = None;
            let v = c.val().wrapping_add(x);
            let d = Small::mk(v);
            let w: BareFnAny<B, dyn Any, A> = BareFnAny::new_c_in(move |y: u64| d.val() ^ y, a());
            let r = call(w.bare() as usize, x);
            match end {
                0 => drop(w),
                1 => KEPT = Some(w),
                _ => check(call(w.leak() as usize, x) == r, 700),
            }
            r ^ c.val()
        }
    }
    let c = Small::mk(k);
    enum Outer {
        F(BareFnAny<B, dyn Any, A>),
        M(BareFnMutAny<B, dyn Any, A>),
    }
    let o = if kind == 0 {
        Outer::F(BareFnAny::new_c_in(move |x: u64| work(&c, end, x), a()))
    } else {
        Outer::M(BareFnMutAny::new_c_in(move |x: u64| work(&c, end, x), a()))
    };
    let p = match &o {
        Outer::F(b) => b.bare() as usize,
        Outer::M(b) => b.bare() as usize,
    };
    for i in 1..3u32 {
        let x = v();
        check(call(p, x) == k.wrapping_add(x) ^ x ^ k, 700);
        check(RAN == i, 701);
        let (drops, left) = match end {
            0 => (i, 1),
            1 => (i - 1, 2),
            _ => (0, 1 + i),
        };
        check(DROPS == drops && blocks() == had + left as usize, 702);
        if end == 1 {
            if let Some(w) = &*core::ptr::addr_of!(KEPT) {
                let y = v();
                check(call(w.bare() as usize, y) == k.wrapping_add(x) ^ y, 700);
            }
        }
    }
    drop(o);
    KEPT = None;
    if end < 2 {
        check(DROPS == 3 && blocks() == had && (FIRST || vf_live() == live), 703);
    } else {
        check(DROPS == 1 && blocks() == had + 2, 703);
    }
}

// Wrappers owned by wrapped closures.
entry!(h_nest_own, {
    let end = choose(3);
    twice(|v| nest_own(end, v));
    cover(1 + end as u32);
});
unsafe fn nest_own(end: u64, v: &dyn Fn() -> u64) {
    let k = v();
    let live = vf_live();
    let had = blocks();
    let d = Small::mk(k);
    let mut n = 0u64;
    let inner: BareFnMutAny<B, dyn Any, A> = BareFnMutAny::new_c_in(
        move |x: u64| {
            n += 1;
            d.val().wrapping_add(n) ^ x
        },
        a(),
    );
    let e = Large::mk(k);
    let middle: BareFnAny<B, dyn Any, A> = BareFnAny::new_c_in(move |x: u64| call(inner.bare() as usize, x) ^ e.val(), a());
    match end {
        0 => {
            let outer: BareFnAny<B, dyn Any, A> = BareFnAny::new_c_in(move |x: u64| call(middle.bare() as usize, x), a());
            for i in 1..3u64 {
                let x = v();
                check(call(outer.bare() as usize, x) == k.wrapping_add(i) ^ x ^ k, 700);
            }
            check(DROPS == 0 && blocks() == had + 3, 702);
            drop(outer);
            check(DROPS == 2 && blocks() == had && (FIRST || vf_live() == live), 703);
        }
        1 => {
            // a once closure gives up what it owns when it returns
            let outer: BareFnOnceAny<B, dyn Any, A> = BareFnOnceAny::new_c_in(
                move |x: u64| {
                    let r = call(middle.bare() as usize, x);
                    check(DROPS == 0 && blocks() == had + 3, 702);
                    drop(middle);
                    check(DROPS == 2 && blocks() == had + 1, 702);
                    r
                },
                a(),
            );
            let x = v();
            check(call(outer.leak() as usize, x) == k.wrapping_add(1) ^ x ^ k, 700);
            check(DROPS == 2 && blocks() == had + 1, 703);
        }
        _ => {
            // leaked with everything it owns
            let p = middle.leak() as usize;
            for i in 1..3u64 {
                let x = v();
                check(call(p, x) == k.wrapping_add(i) ^ x ^ k, 700);
            }
            check(DROPS == 0 && blocks() == had + 2, 703);
        }
    }
}
