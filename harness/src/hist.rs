//! Histories over several wrappers sharing an allocator, and allocation failures.

use crate::jit::*;
use crate::life::*;
use crate::vf::*;
use alloc::boxed::Box;
use closure_ffi::traits::Any;
use closure_ffi::*;

type BS = unsafe extern "C" fn(u64, u8) -> u64;

enum Slot {
    Empty,
    /// shared closure, its constant
    F(BareFnAny<B, dyn Any, Jit>, u64),
    /// the same closure type again would be indistinguishable, so a second signature as well
    G(BareFnAny<BS, dyn Any, Jit>, u64),
    /// mutable closure and its present state
    M(BareFnMutAny<B, dyn Any, Jit>, u64),
}
use Slot::*;

fn make_f(k: u64) -> BareFnAny<B, dyn Any, Jit> {
    let d = Small::mk(k);
    BareFnAny::new_c_in(move |x: u64| d.val() ^ x, Jit(1))
}
fn make_g(k: u64) -> BareFnAny<BS, dyn Any, Jit> {
    let d = Large::mk(k);
    BareFnAny::new_c_in(move |x: u64, y: u8| d.val().wrapping_add(x) ^ y as u64, Jit(2))
}
fn make_m(k: u64) -> BareFnMutAny<B, dyn Any, Jit> {
    let mut d = Small::mk(k);
    BareFnMutAny::new_c_in(
        move |x: u64| {
            let r = d.val();
            d.set(r.wrapping_add(x));
            r
        },
        Jit(3),
    )
}
/// Calls a slot; its own closure must answer with its own state.
fn poke(s: &mut Slot) {
    unsafe {
        let x: u64 = sym();
        match s {
            Empty => {}
            F(b, k) => check((b.bare())(x) == *k ^ x, 300),
            G(b, k) => {
                let y: u8 = sym();
                check((b.bare())(x, y) == k.wrapping_add(x) ^ y as u64, 301)
            }
            M(b, k) => {
                check((b.bare())(x) == *k, 302);
                *k = k.wrapping_add(x);
            }
        }
    }
}
fn create(kind: u64) -> Slot {
    let k: u64 = sym();
    match kind {
        0 => F(make_f(k), k),
        1 => G(make_g(k), k),
        _ => M(make_m(k), k),
    }
}
fn history(n: usize) {
    unsafe {
        start();
        J.reuse = true;
        J.dual = choose(2) == 1;
        J.off = 3;
        J.keep = n > 3 || choose(2) == 1;
        let live = vf_live();
        let mut s = [create(choose(3)), Empty, Empty];
        let mut alive = 1u32;
        for _ in 0..n {
            // 0..3: create in the first free slot, 3..6: call, 6..9: drop
            let op = choose(9);
            let i = (op % 3) as usize;
            if op < 3 {
                let mut j = 0;
                while j < 3 && !matches!(s[j], Empty) {
                    j += 1;
                }
                if j == 3 {
                    return;
                }
                s[j] = create(op);
                alive += 1;
            } else {
                if matches!(s[i], Empty) {
                    return;
                }
                if op < 6 {
                    poke(&mut s[i]);
                } else {
                    s[i] = Empty;
                    alive -= 1;
                }
            }
            check(live_blocks() as u32 == alive, 303);
        }
        if J.reused > 0 {
            cover(1);
        }
        for i in 0..3 {
            poke(&mut s[i]);
        }
        // dropping in either order leaves the others working
        if choose(2) == 0 {
            s[0] = Empty;
            poke(&mut s[1]);
            poke(&mut s[2]);
            s[1] = Empty;
            poke(&mut s[2]);
        } else {
            s[2] = Empty;
            poke(&mut s[0]);
            poke(&mut s[1]);
        }
        drop(s);
        check(live_blocks() == 0, 304);
        check(vf_live() == live, 305);
        check(DROPS == J.allocs, 306);
        check(J.gone == J.allocs, 922);
        cover(2);
    }
}
entry!(h_hist3, { history(3) });
entry!(h_hist4, { history(4) });
entry!(h_hist5, { history(5) });

// ---------------------------------------------------------------------------------------------
// allocation failure

/// What construction attempt `i` gave.
static mut GOT: [Option<usize>; 4] = [None; 4];

macro_rules! attempt {
    ($name:ident, $t:ident, $thunk:ident, $call:expr) => {
        entry!($name, {
            start();
            J.dual = false;
            J.off = 0;
            let fail = choose(3) as u32;
            J.fail_at = fail;
            let k: u64 = sym();
            let mut kept: [Option<$t<B, dyn Any, Jit>>; 3] = [None, None, None];
            let mut made = 0;
            for i in 0..3u32 {
                let how = if i == fail { choose(8) } else { 7 };
                let before = vf_live();
                let d0 = DROPS;
                let r0 = J.releases;
                let g0 = J.gone;
                let c = Boxed::mk(k.wrapping_add(i as u64));
                // everything a refused construction may leave behind is what was there before it
                let res = build(c, how);
                let failed = i == fail;
                match res {
                    Built::Ok(b) => {
                        check(!failed, 310);
                        check(DROPS == d0, 311);
                        check(J.gone == g0, 923);
                        kept[i as usize] = Some(b);
                        made += 1;
                    }
                    Built::Err => {
                        check(failed, 312);
                        check(how == 6 || how == 7, 313);
                        check(DROPS == d0 + 1, 314);
                        check(J.gone == g0 + 1, 922);
                        check(vf_live() == before, 315);
                        check(J.releases == r0, 316);
                        cover(1);
                    }
                    Built::Panicked => {
                        check(failed, 317);
                        check(how < 6, 318);
                        check(DROPS == d0 + 1, 319);
                        check(J.releases == r0, 320);
                        // the panic machinery itself may hold memory
                        cover(2);
                    }
                }
            }
            check(made == 2, 321);
            check(live_blocks() == 2, 322);
            J.fail_at = u32::MAX;
            for i in 0..3 {
                if let Some(b) = kept[i].take() {
                    let x: u64 = sym();
                    let call: fn($t<B, dyn Any, Jit>, u64) -> u64 = $call;
                    check(call(b, x) == k.wrapping_add(i as u64) ^ x, 323);
                }
            }
            check(DROPS == 3, 324);
            cover(3);

            enum Built {
                Ok($t<B, dyn Any, Jit>),
                Err,
                Panicked,
            }
            struct Req(Option<Boxed>, u64, Option<$t<B, dyn Any, Jit>>);
            fn build(c: Boxed, how: u64) -> Built {
                let f = move |c: Boxed| move |x: u64| c.val() ^ x;
                unsafe {
                    match how {
                        6 => match $t::<B, dyn Any, Jit>::try_with_thunk_in($thunk(f(c)), Jit(4)) {
                            Ok(b) => Built::Ok(b),
                            Err(_) => Built::Err,
                        },
                        7 => match $t::<B, dyn Any, Jit>::try_with_cc_in(cc::C, f(c), Jit(4)) {
                            Ok(b) => Built::Ok(b),
                            Err(_) => Built::Err,
                        },
                        _ => {
                            let mut q = Req(Some(c), how, None);
                            extern "C-unwind" fn run(q: *mut u8) {
                                unsafe {
                                    let q = &mut *(q as *mut Req);
                                    let c = q.0.take().unwrap();
                                    let f = move |x: u64| c.val() ^ x;
                                    q.2 = Some(match q.1 {
                                        0 => $t::new_c_in(f, Jit(4)),
                                        1 => $t::with_cc_in(cc::C, f, Jit(4)),
                                        2 => $t::with_thunk_in($thunk(f), Jit(4)),
                                        3 => $t::new_in(f, Jit(4)),
                                        4 => {
                                            // other signature types share the code, not the result
                                            let _ = $t::<unsafe extern "system" fn(u64) -> u64, dyn Any, Jit>::new_system_in(f, Jit(4));
                                            return;
                                        }
                                        _ => {
                                            let _ = $t::<unsafe extern "Rust" fn(u64) -> u64, dyn Any, Jit>::new_rust_in(f, Jit(4));
                                            return;
                                        }
                                    });
                                }
                            }
                            vf_panic_mode(0);
                            let p = vf_catch(run, &mut q as *mut Req as *mut u8);
                            vf_panic_mode(1);
                            check(p == 1, 325);
                            Built::Panicked
                        }
                    }
                }
            }
        });
    };
}
fn thunk_shared<F: Fn(u64) -> u64>(f: F) -> impl traits::FnThunk<B> {
    <B as traits::FnPtr>::make_thunk(move |(x,): (u64,)| f(x))
}
fn thunk_mut<F: FnMut(u64) -> u64>(mut f: F) -> impl traits::FnMutThunk<B> {
    <B as traits::FnPtr>::make_mut_thunk(move |(x,): (u64,)| f(x))
}
fn thunk_once<F: FnOnce(u64) -> u64>(f: F) -> impl traits::FnOnceThunk<B> {
    <B as traits::FnPtr>::make_once_thunk(move |(x,): (u64,)| f(x))
}
attempt!(h_fail_fn, BareFnAny, thunk_shared, |b, x| unsafe { (b.bare())(x) });
attempt!(h_fail_mut, BareFnMutAny, thunk_mut, |b, x| unsafe { (b.bare())(x) });
attempt!(h_fail_once, BareFnOnceAny, thunk_once, |b, x| unsafe { (b.leak())(x) });

// ---------------------------------------------------------------------------------------------
// no executable memory for closures that capture nothing

pub static mut ARG: u64 = 0;
macro_rules! nothing {
    ($name:ident, $t:ident, $m:ident, $thunk:ident, $call:expr) => {
        entry!($name, {
            start();
            // any request fails; there must be none
            J.fail_at = 0;
            let x: u64 = sym();
            let k: u64 = sym();
            ZVAL = k;
            RAN = 0;
            let z = choose(3);
            let how = choose(6);
            let live = vf_live();
            fn make<F: Fn(u64) -> u64 + Send + Sync + 'static>(f: F, how: u64) -> $m::W {
                check(core::mem::size_of::<F>() == 0, 330);
                type T = $t<B, dyn Send + Sync, Jit>;
                match how {
                    0 => $m::W::T0(T::new_c_in(f, Jit(4))),
                    1 => $m::W::T0(T::with_cc_in(cc::C, f, Jit(4))),
                    2 => match T::try_with_cc_in(cc::C, f, Jit(4)) {
                        Ok(b) => $m::W::T0(b),
                        Err(_) => unsafe { vf_fail(331) },
                    },
                    3 => $m::W::T3($t::with_thunk_in($thunk(f), Jit(4))),
                    4 => match $t::try_with_thunk_in($thunk(f), Jit(4)) {
                        Ok(b) => $m::W::T3(b),
                        Err(_) => unsafe { vf_fail(331) },
                    },
                    _ => $m::W::T0(T::new_in(f, Jit(4))),
                }
            }
            let w = if z == 0 {
                make(
                    |x: u64| {
                        RAN += 1;
                        ZVAL ^ x
                    },
                    how,
                )
            } else if z == 1 {
                let c = Zst;
                let e: [u64; 0] = [];
                make(
                    move |x: u64| {
                        RAN += 1;
                        c.val() ^ x ^ e.len() as u64
                    },
                    how,
                )
            } else {
                let c = ZAligned(Zst);
                make(
                    move |x: u64| {
                        RAN += 1;
                        c.val() ^ x
                    },
                    how,
                )
            };
            let w = $m::convert(w, choose(7));
            let end = choose(2);
            let call: fn(&$m::W, u64) -> u64 = $call;
            if end == 0 {
                call(&w, x);
                drop(w);
                check(DROPS == (z > 0) as u32, 332);
                check(J.gone == 1, 922);
                check(vf_live() == live, 333);
            } else {
                let p = $m::leak(w);
                check(crate::life::call(p, x) == k ^ x, 334);
                check(RAN >= 1, 335);
                check(J.gone == 0, 923);
            }
            check(J.allocs == 0 && J.releases == 0 && J.other_calls == 0, 336);
            cover(1 + end as u32);
        });
    };
}
nothing!(h_none_fn, BareFnAny, f, thunk_shared, |w, x| {
    let r = call(w.bare(), x);
    unsafe { check(r == ZVAL ^ x && RAN == 1, 337) };
    r
});
nothing!(h_none_mut, BareFnMutAny, m, thunk_mut, |w, x| {
    let r = call(w.bare(), x);
    unsafe { check(r == ZVAL ^ x && RAN == 1, 337) };
    r
});
nothing!(h_none_once, BareFnOnceAny, o, thunk_once, |_, x| x);

// ---------------------------------------------------------------------------------------------
// state between calls

macro_rules! state {
    ($name:ident, $c:expr) => {
        entry!($name, {
            start();
            J.off = 8;
            J.dual = false;
            let k: u64 = sym();
            let make = $c;
            // the same closure called directly
            let mut twin = make(k);
            let live = vf_live();
            let mut w = m::W::T0(BareFnMutAny::<B, dyn Send + Sync, Jit>::new_c_in(make(k), Jit(9)));
            for i in 0..3 {
                if i < 2 {
                    w = m::convert(w, choose(7));
                }
                let x: u64 = sym();
                let r = call(w.bare(), x);
                check(r == twin(x), 340);
                note(4, r);
            }
            if choose(2) == 0 {
                drop(w);
                check(vf_live() <= live, 341);
            } else {
                let p = m::leak(w);
                let x: u64 = sym();
                check(call(p, x) == twin(x), 342);
            }
            drop(twin);
            cover(1);
        });
    };
}
state!(h_state_scalar, |k: u64| {
    let mut a = k;
    let mut n = 0u8;
    move |x: u64| {
        n += 1;
        a = a.wrapping_mul(3) ^ x;
        a.wrapping_add(n as u64)
    }
});
state!(h_state_heap, |k: u64| {
    let mut a = Box::new([k, k ^ 1, k ^ 2]);
    let mut i = 0usize;
    move |x: u64| {
        let r = a[i % 3];
        a[(i + 1) % 3] = r.wrapping_add(x);
        i += 1;
        r
    }
});
state!(h_state_array, |k: u64| {
    let mut a = [k as u8; 24];
    let mut i = 0usize;
    move |x: u64| {
        let mut s = 0u64;
        for b in a {
            s = s.wrapping_mul(31).wrapping_add(b as u64);
        }
        a[i] = x as u8;
        a[23 - i] = (x >> 8) as u8;
        i += 1;
        s
    }
});

// ---------------------------------------------------------------------------------------------
// placement of generated code

macro_rules! place {
    ($name:ident, $t:ident, $sig:ty, $m:ident, $f:expr, $call:expr) => {
        entry!($name, {
            start();
            any_placement();
            J.reuse = choose(2) == 1;
            J.keep = J.reuse;
            let k: u64 = sym();
            let x: u64 = sym();
            for _ in 0..2 {
                let c = Small::mk(k);
                let b = $t::<$sig, dyn Any, Jit>::new_c_in($f(c), Jit(6));
                let i = J.last;
                let call: fn($sig, u64) -> u64 = $call;
                let p = place_get!($t, b);
                ready(i, p as usize);
                check(call(p, x) == k ^ x, 350);
                // calling does not modify the code
                ready(i, p as usize);
                place_end!($t, b);
            }
            check(live_blocks() == 0 || stringify!($t).len() == "BareFnOnceAny".len(), 351);
            cover(1);
        });
    };
}
macro_rules! place_get {
    (BareFnOnceAny, $b:ident) => {
        $b.leak()
    };
    ($t:ident, $b:ident) => {
        $b.bare()
    };
}
macro_rules! place_end {
    (BareFnOnceAny, $b:ident) => {};
    ($t:ident, $b:ident) => {
        drop($b)
    };
}
type B3 = unsafe extern "C" fn(u64, f64, Big) -> Big;
type B12 = unsafe extern "C" fn(u64, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u64) -> u64;
const BIG: Big = Big { a: 1, b: 2, c: 3, d: 4 };
place!(h_place_fn, BareFnAny, B, f, |c: Small| move |x: u64| c.val() ^ x, |p, x| unsafe { p(x) });
place!(h_place_mut, BareFnMutAny, B, m, |c: Small| move |x: u64| c.val() ^ x, |p, x| unsafe { p(x) });
place!(h_place_once, BareFnOnceAny, B, o, |c: Small| move |x: u64| c.val() ^ x, |p, x| unsafe { p(x) });
place!(
    h_place_fn3,
    BareFnAny,
    B3,
    f,
    |c: Small| move |x: u64, _: f64, mut g: Big| {
        g.a = c.val() ^ x;
        g
    },
    |p, x| unsafe { p(x, 1.0, BIG).a }
);
place!(
    h_place_mut12,
    BareFnMutAny,
    B12,
    m,
    |c: Small| move |_: u64, _: u8, _: u8, _: u8, _: u8, _: u8, _: u8, _: u8, _: u8, _: u8, _: u8, x: u64| c.val() ^ x,
    |p, x| unsafe { p(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, x) }
);

// ---------------------------------------------------------------------------------------------
// function pointers to and from untyped pointers

macro_rules! ptrs {
    ($($t:ty),*) => { $( {
        let a: usize = sym();
        assume(a != 0);
        let p = a as *const ();
        let f = <$t as traits::FnPtr>::from_ptr(p);
        check(f as usize == a, 360);
        check(traits::FnPtr::to_ptr(f) as usize == a, 361);
    } )* };
}
entry!(h_ptrs, {
    vf_panic_mode(1);
    ptrs!(
        unsafe extern "C" fn(),
        B,
        BS,
        B3,
        B12,
        unsafe extern "C-unwind" fn(f64) -> f64,
        unsafe extern "system" fn(u8, u8, u8) -> u8,
        unsafe fn(&'static u8, u64) -> Big
    );
    let a: usize = sym();
    assume(a != 0);
    let f = <Hr as traits::FnPtr>::from_ptr(a as *const ());
    check(traits::FnPtr::to_ptr(f) as usize == a, 361);
    cover(1);
});
bare_hrtb! { type Hr = for<'a> unsafe extern "C" fn(&'a u64) -> &'a u64; }

// ---------------------------------------------------------------------------------------------
// one shared closure, two threads

static mut PTR: usize = 0;
static mut KEY: u64 = 0;
static mut AX: [u64; 3] = [0; 3];
static mut RES: [u64; 3] = [0; 3];
extern "C-unwind" fn caller(i: usize) {
    unsafe {
        RES[i] = call(PTR, AX[i]);
    }
}
macro_rules! threads {
    ($name:ident, $n:expr, $make:expr) => {
        entry!($name, {
            start();
            J.off = 1;
            J.dual = true;
            KEY = sym();
            let make = $make;
            let b: BareFnAny<B, dyn Send + Sync, Jit> = make(KEY);
            PTR = b.bare() as usize;
            for i in 0..$n {
                AX[i] = sym();
                vf_spawn(caller, i);
            }
            vf_join();
            for i in 0..$n {
                // the closure combines its argument with itself across a point of preemption
                check(RES[i] == (AX[i] ^ KEY).wrapping_add(AX[i]), 370);
                note(5, RES[i]);
            }
            drop(b);
            cover(1);
        });
    };
}
fn slow(k: u64) -> impl Fn(u64) -> u64 + Send + Sync + 'static {
    let d = Large::mk(k);
    move |x: u64| unsafe {
        let a = d.val() ^ x;
        vf_yield();
        a.wrapping_add(x)
    }
}
threads!(h_threads2, 2, |k| BareFnAny::new_c_in(slow(k), Jit(1)));
threads!(h_threads3, 3, |k| BareFnAny::new_c_in(slow(k), Jit(1)));
threads!(h_threads_packed, 2, |k| {
    let f = slow(k);
    BareFnAny::with_thunk_in(thunk_factory::make_send_sync::<B, _>(move |(x,): (u64,)| f(x)), Jit(1))
});

/// All calls work on the one captured counter: none is lost and no two see the same value.
macro_rules! counter {
    ($name:ident, $n:expr, $make:expr) => {
        entry!($name, {
            start();
            J.off = 2;
            J.dual = false;
            let k: u32 = sym();
            KEY = sym();
            let make = $make;
            let b: BareFnAny<B, dyn Send + Sync, Jit> = make(k, KEY);
            PTR = b.bare() as usize;
            for i in 0..$n {
                AX[i] = KEY;
                vf_spawn(caller, i);
            }
            vf_join();
            let mut seen = [false; 3];
            for i in 0..$n {
                let d = (RES[i] as u32).wrapping_sub(k) as usize;
                check(d < $n && !seen[d % 3], 371);
                seen[d % 3] = true;
            }
            check(call(PTR, KEY) as u32 == k.wrapping_add($n), 371);
            drop(b);
            cover(1);
        });
    };
}
fn count(k: u32, key: u64) -> impl Fn(u64) -> u64 + Send + Sync + 'static {
    let n = core::sync::atomic::AtomicU32::new(k);
    move |x: u64| unsafe {
        if x != key {
            return 0;
        }
        vf_yield();
        let r = n.fetch_add(1, core::sync::atomic::Ordering::SeqCst);
        vf_yield();
        r as u64
    }
}
counter!(h_threads_count, 2, |k, key| BareFnAny::new_c_in(count(k, key), Jit(1)));
counter!(h_threads_count3, 3, |k, key| BareFnAny::new_c_in(count(k, key), Jit(1)));
counter!(h_threads_count_packed, 2, |k, key| {
    let f = count(k, key);
    BareFnAny::with_thunk_in(thunk_factory::make_send_sync::<B, _>(move |(x,): (u64,)| f(x)), Jit(1))
});
