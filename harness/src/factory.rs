//! Closures taking their arguments as one tuple, and declared higher-ranked signatures.

use crate::jit::*;
use crate::life::*;
use crate::vf::*;
use closure_ffi::traits::{Any, FnMutThunk, FnOnceThunk, FnPtr, FnThunk};
use closure_ffi::*;

static mut N: u32 = 0;
static mut K: u64 = 0;
static mut K1: u64 = 0;

/// One signature: three closure traits, four flavours each, called in process or through generated
/// code.
macro_rules! packed {
    ($name:ident, $abi:literal, $r:ty, ($($a:ident: $t:ty),*)) => {
        #[inline(never)]
        fn $name() {
            #[allow(non_camel_case_types)]
            #[derive(Clone, Copy)]
            struct Args { $($a: $t,)* }
            static mut SEEN: core::mem::MaybeUninit<Args> = core::mem::MaybeUninit::uninit();
            static mut FIRST: core::mem::MaybeUninit<Args> = core::mem::MaybeUninit::uninit();
            type F = unsafe extern $abi fn($($t),*) -> $r;
            unsafe {
                let k: u64 = sym();
                let r: $r = sym();
                let sent = Args { $($a: sym(),)* };
                let flavour = choose(4);
                let kind = choose(3);
                let how = choose(3);
                J.off = 4;
                J.dual = false;
                reset();
                N = 0;
                K = 0;
                DROPS = 0;
                let c = Small::mk(k);
                let again = Args { $($a: sym(),)* };
                let args: ($($t,)*) = ($(sent.$a,)*);
                let args2: ($($t,)*) = ($(again.$a,)*);
                // first call's result, then the second one's where there is one
                let (ret, ret2): ($r, $r) = if kind == 0 {
                    let f = move |($($a,)*): ($($t,)*)| -> $r {
                        N += 1;
                        K = c.val();
                        SEEN.write(Args { $($a,)* });
                        r
                    };
                    match flavour {
                        0 => shared(thunk_factory::make::<F, _>(f), args, args2, how),
                        1 => shared(thunk_factory::make_send::<F, _>(f), args, args2, how),
                        2 => shared(thunk_factory::make_sync::<F, _>(f), args, args2, how),
                        _ => shared(thunk_factory::make_send_sync::<F, _>(f), args, args2, how),
                    }
                } else if kind == 1 {
                    let mut c = c;
                    let f = move |($($a,)*): ($($t,)*)| -> $r {
                        N += 1;
                        K = c.val();
                        // the second call sees what the first one left
                        c.set(K ^ 0x5a);
                        SEEN.write(Args { $($a,)* });
                        r
                    };
                    match flavour {
                        0 => mutable(thunk_factory::make_mut::<F, _>(f), args, args2, how),
                        1 => mutable(thunk_factory::make_mut_send::<F, _>(f), args, args2, how),
                        2 => mutable(thunk_factory::make_mut_sync::<F, _>(f), args, args2, how),
                        _ => mutable(thunk_factory::make_mut_send_sync::<F, _>(f), args, args2, how),
                    }
                } else {
                    let f = move |($($a,)*): ($($t,)*)| -> $r {
                        let c = core::hint::black_box(c);
                        N += 1;
                        K = c.val();
                        SEEN.write(Args { $($a,)* });
                        r
                    };
                    match flavour {
                        0 => once(thunk_factory::make_once::<F, _>(f), args, how),
                        1 => once(thunk_factory::make_once_send::<F, _>(f), args, how),
                        2 => once(thunk_factory::make_once_sync::<F, _>(f), args, how),
                        _ => once(thunk_factory::make_once_send_sync::<F, _>(f), args, how),
                    }
                };
                // between two calls: the first has arrived, nothing has been dropped
                fn between() {
                    unsafe {
                        check(N == 1, 400);
                        check(DROPS == 0, 404);
                        FIRST.write(SEEN.assume_init());
                        K1 = K;
                    }
                }
                fn shared<T: FnThunk<F> + 'static>(t: T, args: ($($t,)*), args2: ($($t,)*), how: u64) -> ($r, $r) {
                    unsafe {
                        if how == 0 {
                            let a = t.call(args);
                            between();
                            let b = t.call(args2);
                            check(DROPS == 0, 404);
                            return (a, b);
                        }
                        let w = BareFnAny::<F, dyn Any, Jit>::with_thunk_in(t, Jit(1));
                        let f = w.bare();
                        let a = { let ($($a,)*) = args; if how == 1 { f($($a),*) } else { FnPtr::call(f, args) } };
                        between();
                        let b = { let ($($a,)*) = args2; if how == 1 { f($($a),*) } else { FnPtr::call(f, args2) } };
                        check(DROPS == 0, 404);
                        (a, b)
                    }
                }
                fn mutable<T: FnMutThunk<F> + 'static>(mut t: T, args: ($($t,)*), args2: ($($t,)*), how: u64) -> ($r, $r) {
                    unsafe {
                        if how == 0 {
                            let a = t.call_mut(args);
                            between();
                            let b = t.call_mut(args2);
                            check(DROPS == 0, 404);
                            return (a, b);
                        }
                        let w = BareFnMutAny::<F, dyn Any, Jit>::with_thunk_in(t, Jit(1));
                        let f = w.bare();
                        let a = { let ($($a,)*) = args; if how == 1 { f($($a),*) } else { FnPtr::call(f, args) } };
                        between();
                        let b = { let ($($a,)*) = args2; if how == 1 { f($($a),*) } else { FnPtr::call(f, args2) } };
                        check(DROPS == 0, 404);
                        (a, b)
                    }
                }
                fn once<T: FnOnceThunk<F> + 'static>(t: T, args: ($($t,)*), how: u64) -> ($r, $r) {
                    unsafe {
                        let ($($a,)*) = args;
                        let r = match how {
                            0 => t.call_once(args),
                            1 => (BareFnOnceAny::<F, dyn Any, Jit>::with_thunk_in(t, Jit(1)).leak())($($a),*),
                            _ => FnPtr::call(BareFnOnceAny::<F, dyn Any, Jit>::with_thunk_in(t, Jit(1)).leak(), args),
                        };
                        check(DROPS == 1, 404);
                        FIRST.write(SEEN.assume_init());
                        K1 = K;
                        (r, r)
                    }
                }
                check(N == if kind == 2 { 1 } else { 2 }, 400);
                let got = FIRST.assume_init();
                $( check(got.$a.same(&sent.$a), 401); note(1, got.$a.bits()); )*
                if kind != 2 {
                    let got = SEEN.assume_init();
                    let _ = &got;
                    $( check(got.$a.same(&again.$a), 401); )*
                }
                let _ = (&got, &sent, &again);
                check(ret.same(&r) && ret2.same(&r), 402);
                check(K1 == k, 403);
                check(kind == 2 || K == if kind == 1 { k ^ 0x5a } else { k }, 405);
                check(DROPS == 1, 404);
                note(2, ret.bits());
                cover(1 + how as u32);
            }
        }
    };
}
macro_rules! packed_all {
    ($name:ident, $m:ident, $abi:literal) => {
        mod $m {
            use super::*;
            packed!(a0, $abi, u32, ());
            packed!(a1, $abi, u64, (a0: u8));
            packed!(a2, $abi, (), (a0: u32, a1: u64));
            packed!(a3, $abi, Big, (a0: f64, a1: u16, a2: f32));
            packed!(a4, $abi, f64, (a0: Pair, a1: u64, a2: u8, a3: u32));
            packed!(a5, $abi, u8, (a0: u64, a1: u8, a2: Big, a3: u32, a4: u16));
            packed!(a6, $abi, Pair, (a0: i8, a1: i16, a2: i32, a3: i64, a4: isize, a5: usize));
            packed!(a7, $abi, f32, (a0: u32, a1: f32, a2: u32, a3: f32, a4: u32, a5: f32, a6: u64));
            packed!(a8, $abi, u32, (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64));
            packed!(a9, $abi, i16, (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8));
            packed!(a10, $abi, i64, (a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32, a8: u32, a9: u32));
            packed!(a11, $abi, usize, (a0: u16, a1: u64, a2: u16, a3: u64, a4: u16, a5: u64, a6: u16, a7: u64, a8: u16, a9: u64, a10: u8));
            packed!(a12, $abi, u32, (a0: u32, a1: u64, a2: u32, a3: u64, a4: u32, a5: u64, a6: u32, a7: u64, a8: u32, a9: u64, a10: f64, a11: u8));
            pub fn run(arity: u64) {
                match arity {
                    0 => a0(),
                    1 => a1(),
                    2 => a2(),
                    3 => a3(),
                    4 => a4(),
                    5 => a5(),
                    6 => a6(),
                    7 => a7(),
                    8 => a8(),
                    9 => a9(),
                    10 => a10(),
                    11 => a11(),
                    _ => a12(),
                }
            }
        }
        entry!($name, {
            vf_panic_mode(1);
            warm();
            $m::run(choose(13));
        });
    };
}
packed_all!(h_packed_c, p_c, "C");
packed_all!(h_packed_system, p_system, "system-unwind");
packed_all!(h_packed_rust, p_rust, "Rust");

// ---------------------------------------------------------------------------------------------

bare_hrtb! { type H0 = unsafe extern "C" fn(u32, u64) -> u64; }
bare_hrtb! { type H1 = for<'a> unsafe extern "C" fn(&'a u64) -> &'a u64; }
bare_hrtb! { type H2 = for<'a, 'b> extern "C" fn(&'a mut u64, &'b u64, u32) -> &'a mut u64; }
bare_hrtb! { type H3 = for<'a, 'b, 'c> unsafe extern "C" fn(&'a u32, &'b Big, Option<&'c u64>, f64) -> &'b Big; }
bare_hrtb! { type HS = for<'x> unsafe extern "Rust" fn(&'x [u8], usize) -> &'x [u8]; }
bare_hrtb! { type HG<T: Copy + 'static> = for<'a, 'b> unsafe extern "C-unwind" fn(T, &'a T, &'b mut T); }

pub static mut P: [usize; 4] = [0; 4];
pub static mut V: [u64; 6] = [0; 6];

/// The ways to wrap a closure for a declared signature; `$use` gets the function pointer, `$thunk`
/// calls the thunk in process.
macro_rules! each_way {
    ($h:ty, $cc:expr, $f:expr, $packed:expr, $kind:expr, $how:expr, $call:expr, $args:expr) => {
        match ($kind, $how) {
            (0, 0) => $call(BareFnAny::<$h, dyn Any, Jit>::with_cc_in($cc, $f, Jit(1)).leak()),
            (1, 0) => $call(BareFnMutAny::<$h, dyn Any, Jit>::with_cc_in($cc, $f, Jit(1)).leak()),
            (_, 0) => $call(BareFnOnceAny::<$h, dyn Any, Jit>::with_cc_in($cc, $f, Jit(1)).leak()),
            (0, 1) => $call(BareFnAny::<$h, dyn Send, Jit>::with_thunk_in(thunk_factory::make_send::<$h, _>($packed), Jit(1)).leak()),
            (1, 1) => $call(BareFnMutAny::<$h, dyn Sync, Jit>::with_thunk_in(thunk_factory::make_mut_sync::<$h, _>($packed), Jit(1)).leak()),
            (_, 1) => $call(BareFnOnceAny::<$h, dyn Send + Sync, Jit>::with_thunk_in(thunk_factory::make_once_send_sync::<$h, _>($packed), Jit(1)).leak()),
            (0, 2) => FnThunk::<$h>::call(&($cc, $f), $args),
            (1, 2) => FnMutThunk::<$h>::call_mut(&mut ($cc, $f), $args),
            (_, 2) => FnOnceThunk::<$h>::call_once(($cc, $f), $args),
            (0, 3) => FnPtr::call(BareFnAny::<$h, dyn Any, Jit>::with_cc_in($cc, $f, Jit(1)).leak(), $args),
            (1, 3) => FnPtr::call(BareFnMutAny::<$h, dyn Any, Jit>::with_cc_in($cc, $f, Jit(1)).leak(), $args),
            (_, 3) => FnPtr::call(BareFnOnceAny::<$h, dyn Any, Jit>::with_cc_in($cc, $f, Jit(1)).leak(), $args),
            (0, 4) => thunk_factory::make::<$h, _>($packed).call($args),
            (1, 4) => thunk_factory::make_mut::<$h, _>($packed).call_mut($args),
            (_, _) => thunk_factory::make_once::<$h, _>($packed).call_once($args),
        }
    };
}
macro_rules! hr {
    ($name:ident, |$kind:ident, $how:ident, $k:ident| $b:block) => {
        entry!($name, {
            start();
            J.off = 4;
            J.dual = false;
            N = 0;
            let $kind = choose(3);
            let $how = choose(5);
            let $k: u64 = sym();
            $b
            check(N == 1, 410);
            check(K == $k, 411);
            cover(1 + $how as u32);
        });
    };
}
hr!(h_hr0, |kind, how, k| {
    let (x, y): (u32, u64) = (sym(), sym());
    let f = move |a: u32, b: u64| {
        N += 1;
        K = k;
        V = [a as u64, b, 0, 0, 0, 0];
        k ^ b
    };
    let r = each_way!(H0, H0::cc(), f, move |(a, b): (u32, u64)| f(a, b), kind, how, |p: H0| p.0(x, y), (x, y));
    check(V[0] == x as u64 && V[1] == y, 412);
    check(r == k ^ y, 413);
});
hr!(h_hr1, |kind, how, k| {
    let x: u64 = sym();
    fn f(k: u64) -> impl for<'a> Fn(&'a u64) -> &'a u64 + Copy + Send + Sync + 'static {
        fn same<F: for<'a> Fn(&'a u64) -> &'a u64>(f: F) -> F {
            f
        }
        same(move |a: &u64| unsafe {
            N += 1;
            K = k;
            P[0] = a as *const u64 as usize;
            V[0] = *a;
            a
        })
    }
    fn packed(k: u64) -> impl for<'a, 'b, 'c> traits::PackedFn<'a, 'b, 'c, H1> + Send + Sync + 'static {
        fn same<F: for<'a> Fn((&'a u64,)) -> &'a u64>(f: F) -> F {
            f
        }
        let g = f(k);
        same(move |(a,)| g(a))
    }
    let r: &u64 = each_way!(H1, H1::cc(), f(k), packed(k), kind, how, |p: H1| p.0(&x), (&x,));
    check(P[0] == &x as *const u64 as usize && V[0] == x, 414);
    check(r as *const u64 == &x as *const u64, 415);
    check(*r == x, 416);
});
hr!(h_hr2, |kind, how, k| {
    let x0: u64 = sym();
    let (mut x, y, z): (u64, u64, u32) = (x0, sym(), sym());
    let at = (&raw mut x as usize, &raw const y as usize);
    fn f(k: u64) -> impl for<'a, 'b> Fn(&'a mut u64, &'b u64, u32) -> &'a mut u64 + Copy + Send + Sync + 'static {
        fn same<F: for<'a, 'b> Fn(&'a mut u64, &'b u64, u32) -> &'a mut u64>(f: F) -> F {
            f
        }
        same(move |a: &mut u64, b: &u64, c: u32| unsafe {
            N += 1;
            K = k;
            P[0] = a as *mut u64 as usize;
            P[1] = b as *const u64 as usize;
            V[0] = c as u64;
            *a = a.wrapping_add(*b);
            a
        })
    }
    fn packed(k: u64) -> impl for<'a, 'b, 'c> traits::PackedFn<'a, 'b, 'c, H2> + Send + Sync + 'static {
        fn same<F: for<'a, 'b> Fn((&'a mut u64, &'b u64, u32)) -> &'a mut u64>(f: F) -> F {
            f
        }
        let g = f(k);
        same(move |(a, b, c)| g(a, b, c))
    }
    let r: *mut u64 = each_way!(H2, H2::cc(), f(k), packed(k), kind, how, |p: H2| p.0(&mut *(at.0 as *mut u64), &y, z), (&mut *(at.0 as *mut u64), &y, z));
    check(P[0] == at.0 && P[1] == at.1 && V[0] == z as u64, 417);
    check(r as usize == at.0, 418);
    check(x == x0.wrapping_add(y), 419);
});
hr!(h_hr3, |kind, how, k| {
    let (a, b, c, d): (u32, Big, u64, f64) = (sym(), sym(), sym(), sym());
    let some = choose(2) == 1;
    fn f(k: u64) -> impl for<'a, 'b, 'c> Fn(&'a u32, &'b Big, Option<&'c u64>, f64) -> &'b Big + Copy + Send + Sync + 'static {
        fn same<F: for<'a, 'b, 'c> Fn(&'a u32, &'b Big, Option<&'c u64>, f64) -> &'b Big>(f: F) -> F {
            f
        }
        same(move |a: &u32, b: &Big, c: Option<&u64>, d: f64| unsafe {
            N += 1;
            K = k;
            P[0] = a as *const u32 as usize;
            P[1] = b as *const Big as usize;
            P[2] = c.map_or(0, |c| c as *const u64 as usize);
            V[0] = *a as u64;
            V[1] = d.to_bits();
            b
        })
    }
    fn packed(k: u64) -> impl for<'a, 'b, 'c> traits::PackedFn<'a, 'b, 'c, H3> + Send + Sync + 'static {
        fn same<F: for<'a, 'b, 'c> Fn((&'a u32, &'b Big, Option<&'c u64>, f64)) -> &'b Big>(f: F) -> F {
            f
        }
        let g = f(k);
        same(move |(a, b, c, d)| g(a, b, c, d))
    }
    let o = if some { Some(&c) } else { None };
    let r: &Big = each_way!(H3, H3::cc(), f(k), packed(k), kind, how, |p: H3| p.0(&a, &b, o, d), (&a, &b, o, d));
    check(P[0] == &a as *const u32 as usize && V[0] == a as u64, 420);
    check(P[1] == &b as *const Big as usize, 421);
    check(P[2] == if some { &c as *const u64 as usize } else { 0 }, 422);
    check(V[1] == d.to_bits(), 423);
    check(r as *const Big == &b as *const Big && r.same(&b), 424);
});
hr!(h_hrs, |kind, how, k| {
    let a: [u8; 6] = sym();
    let n = choose(6) as usize;
    fn f(k: u64) -> impl for<'a> Fn(&'a [u8], usize) -> &'a [u8] + Copy + Send + Sync + 'static {
        fn same<F: for<'a> Fn(&'a [u8], usize) -> &'a [u8]>(f: F) -> F {
            f
        }
        // out of line: the compiler must not move address computations in front of the thunk's code
        #[inline(never)]
        fn rec(k: u64, a: &[u8], n: usize) -> &[u8] {
            unsafe {
                N += 1;
                K = k;
                P[0] = a.as_ptr() as usize;
                P[1] = a.len();
                &a[n..]
            }
        }
        same(move |a: &[u8], n: usize| rec(k, a, n))
    }
    fn packed(k: u64) -> impl for<'a, 'b, 'c> traits::PackedFn<'a, 'b, 'c, HS> + Send + Sync + 'static {
        fn same<F: for<'a> Fn((&'a [u8], usize)) -> &'a [u8]>(f: F) -> F {
            f
        }
        let g = f(k);
        same(move |(a, n)| g(a, n))
    }
    let r: &[u8] = each_way!(HS, HS::cc(), f(k), packed(k), kind, how, |p: HS| p.0(&a, n), (&a[..], n));
    check(P[0] == a.as_ptr() as usize && P[1] == 6, 425);
    check(r.as_ptr() as usize == P[0] + n && r.len() == 6 - n, 426);
});
hr!(h_hrg, |kind, how, k| {
    let (x, y, z0): (u16, u16, u16) = (sym(), sym(), sym());
    let mut z = z0;
    fn f(k: u64) -> impl for<'a, 'b> Fn(u16, &'a u16, &'b mut u16) + Copy + Send + Sync + 'static {
        move |a: u16, b: &u16, c: &mut u16| unsafe {
            N += 1;
            K = k;
            V = [a as u64, *b as u64, *c as u64, 0, 0, 0];
            *c = a ^ *b;
        }
    }
    fn packed(k: u64) -> impl for<'a, 'b, 'c> traits::PackedFn<'a, 'b, 'c, HG<u16>> + Send + Sync + 'static {
        let g = f(k);
        move |(a, b, c): (u16, &u16, &mut u16)| g(a, b, c)
    }
    each_way!(HG<u16>, HG::<u16>::cc(), f(k), packed(k), kind, how, |p: HG<u16>| p.0(x, &y, &mut z), (x, &y, &mut z));
    check(V[0] == x as u64 && V[1] == y as u64 && V[2] == z0 as u64, 427);
    check(z == x ^ y, 428);
});
