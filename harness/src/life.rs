//! Ownership through a wrapper's life: executable memory, captured values, the bare function's
//! address.

use crate::jit::*;
use crate::vf::*;
use alloc::boxed::Box;
use closure_ffi::traits::Any;
use closure_ffi::*;

pub static mut DROPS: u32 = 0;
pub static mut RAN: u32 = 0;

/// Captured values of various shapes that count their drops.
pub trait Cap: Send + Sync + Sized + 'static {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
    const ZST: bool = false;
}
pub struct D(pub u8);
impl Drop for D {
    fn drop(&mut self) {
        unsafe {
            // dropped as it was built
            check(self.0 == 0x5d, 200);
            DROPS += 1;
        }
    }
}
pub struct Tiny(D);
impl Cap for Tiny {
    fn mk(_: u64) -> Self {
        Tiny(D(0x5d))
    }
    fn val(&self) -> u64 {
        self.0 .0 as u64
    }
    fn set(&mut self, _: u64) {}
}
pub struct Small(D, u64);
impl Cap for Small {
    fn mk(v: u64) -> Self {
        Small(D(0x5d), v)
    }
    fn val(&self) -> u64 {
        self.1
    }
    fn set(&mut self, v: u64) {
        self.1 = v
    }
}
pub struct Large([u64; 5], D, u64);
impl Cap for Large {
    fn mk(v: u64) -> Self {
        Large([v ^ 1, v ^ 2, v ^ 3, v ^ 4, v ^ 5], D(0x5d), v)
    }
    fn val(&self) -> u64 {
        let mut ok = true;
        for i in 0..5 {
            ok &= self.0[i] == self.2 ^ (i as u64 + 1);
        }
        check(ok, 201);
        self.2
    }
    fn set(&mut self, v: u64) {
        for i in 0..5 {
            self.0[i] = v ^ (i as u64 + 1);
        }
        self.2 = v
    }
}
#[repr(align(64))]
pub struct Aligned(u64, D);
impl Cap for Aligned {
    fn mk(v: u64) -> Self {
        Aligned(v, D(0x5d))
    }
    fn val(&self) -> u64 {
        check(self as *const Self as usize % 64 == 0, 202);
        self.0
    }
    fn set(&mut self, v: u64) {
        self.0 = v
    }
}
pub struct Boxed(Box<(u64, D)>);
impl Cap for Boxed {
    fn mk(v: u64) -> Self {
        Boxed(Box::new((v, D(0x5d))))
    }
    fn val(&self) -> u64 {
        self.0 .0
    }
    fn set(&mut self, v: u64) {
        self.0 .0 = v
    }
}
pub struct Zst;
pub static mut ZVAL: u64 = 0;
impl Drop for Zst {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
impl Cap for Zst {
    fn mk(v: u64) -> Self {
        unsafe { ZVAL = v };
        Zst
    }
    fn val(&self) -> u64 {
        unsafe { ZVAL }
    }
    fn set(&mut self, v: u64) {
        unsafe { ZVAL = v }
    }
    const ZST: bool = true;
}

#[repr(align(64))]
pub struct ZAligned(pub Zst);
impl Cap for ZAligned {
    fn mk(v: u64) -> Self {
        ZAligned(Zst::mk(v))
    }
    fn val(&self) -> u64 {
        check(self as *const Self as usize % 64 == 0, 202);
        self.0.val()
    }
    fn set(&mut self, v: u64) {
        check(self as *const Self as usize % 64 == 0, 202);
        self.0.set(v)
    }
    const ZST: bool = true;
}

pub type B = unsafe extern "C" fn(u64) -> u64;

/// All states a wrapper can be in, and how one gets from each to the others.
macro_rules! states {
    ($m:ident, $t:ident, $u:ident) => {
        pub mod $m {
            use super::*;
            pub enum W {
                T0($t<B, dyn Send + Sync, Jit>),
                T1($t<B, dyn Send, Jit>),
                T2($t<B, dyn Sync, Jit>),
                T3($t<B, dyn Any, Jit>),
                U0($u<dyn Send + Sync, Jit>),
                U1($u<dyn Send, Jit>),
                U2($u<dyn Sync, Jit>),
                U3($u<dyn Any, Jit>),
            }
            use W::*;
            /// The conversion `op` if the state has it.
            pub fn convert(w: W, op: u64) -> W {
                match (w, op) {
                    (T0(x), 0) => T1(x.upcast()),
                    (T0(x), 1) => T2(x.upcast()),
                    (T0(x), 2) => T3(x.upcast()),
                    (T0(x), 3) => U0(x.into_untyped()),
                    (T0(x), 4) => U0(x.into()),
                    (T0(x), 5) => U3(x.into()),
                    (T1(x), 0) => T1(x.upcast()),
                    (T1(x), 2) => T3(x.upcast()),
                    (T1(x), 3) => U1(x.into_untyped()),
                    (T1(x), 4) => U1(x.into()),
                    (T1(x), 5) => U3(x.into()),
                    (T2(x), 2) => T3(x.upcast()),
                    (T2(x), 3) => U2(x.into_untyped()),
                    (T2(x), 5) => U3(x.into()),
                    (T3(x), 2) => T3(x.upcast()),
                    (T3(x), 3) => U3(x.into_untyped()),
                    (T3(x), 5) => U3(x.into()),
                    (U0(x), 0) => U1(x.upcast()),
                    (U0(x), 1) => U2(x.upcast()),
                    (U0(x), 2) => U3(x.upcast()),
                    (U1(x), 2) => U3(x.upcast()),
                    (U2(x), 2) => U3(x.upcast()),
                    (U3(x), 2) => U3(x.upcast()),
                    // move through the heap
                    (w, _) => *core::hint::black_box(Box::new(w)),
                }
            }
            pub fn leak(w: W) -> usize {
                match w {
                    T0(x) => x.leak() as usize,
                    T1(x) => x.leak() as usize,
                    T2(x) => x.leak() as usize,
                    T3(x) => x.leak() as usize,
                    U0(x) => x.leak() as usize,
                    U1(x) => x.leak() as usize,
                    U2(x) => x.leak() as usize,
                    U3(x) => x.leak() as usize,
                }
            }
        }
    };
}
macro_rules! bare_of {
    ($m:ident) => {
        impl $m::W {
            pub fn bare(&self) -> usize {
                use $m::W::*;
                match self {
                    T0(x) => x.bare() as usize,
                    T1(x) => x.bare() as usize,
                    T2(x) => x.bare() as usize,
                    T3(x) => x.bare() as usize,
                    U0(x) => x.bare() as usize,
                    U1(x) => x.bare() as usize,
                    U2(x) => x.bare() as usize,
                    U3(x) => x.bare() as usize,
                }
            }
        }
    };
}
states!(f, BareFnAny, UntypedBareFn);
states!(m, BareFnMutAny, UntypedBareFnMut);
states!(o, BareFnOnceAny, UntypedBareFnOnce);
bare_of!(f);
bare_of!(m);

pub fn call(p: usize, x: u64) -> u64 {
    unsafe { core::mem::transmute::<usize, B>(p)(x) }
}

pub fn start() {
    unsafe {
        vf_panic_mode(1);
        warm();
        again();
    }
}
pub fn again() {
    unsafe {
        reset();
        DROPS = 0;
        RAN = 0;
    }
}

/// Shared and mutable closures: up to `n` conversions with calls in between, then drop or leak.
macro_rules! reusable {
    ($name:ident, $m:ident, $t:ident, $factory:ident, $cap:ty, $n:expr, $mutable:expr, |$c:ident, $x:ident| $body:expr) => {
        entry!($name, {
            start();
            let way = choose(2);
            let make = |v: u64| {
                let mut $c = <$cap>::mk(v);
                if way == 0 {
                    $m::W::T0($t::<B, dyn Send + Sync, Jit>::new_c_in(move |$x: u64| -> u64 { $body }, Jit(9)))
                } else {
                    $m::W::T0($t::with_thunk_in(thunk_factory::$factory::<B, _>(move |($x,): (u64,)| -> u64 { $body }), Jit(9)))
                }
            };
            // tables built lazily for this very prologue
            drop(make(0));
            again();
            J.off = choose(2) as usize * 5;
            J.dual = true;
            J.solo = true;
            J.release_err = choose(2) == 1;
            let v: u64 = sym();
            let live = vf_live();
            {
                let mut w = make(v);
                let p = w.bare();
                if !<$cap>::ZST {
                    ready(0, p);
                }
                let mut cur = v;
                let mut calls = 0;
                for _ in 0..$n {
                    let op = choose(9);
                    if op == 8 {
                        break;
                    }
                    if op == 7 {
                        // a call in this state sees the closure's current state
                        let x: u64 = sym();
                        let r = call(w.bare(), x);
                        calls += 1;
                        if $mutable {
                            check(r == cur, 210);
                            if core::mem::size_of::<$cap>() > 1 || <$cap>::ZST {
                                cur = x;
                            }
                        } else {
                            check(r == cur ^ x, 211);
                        }
                        note(3, r);
                    } else {
                        w = $m::convert(w, op);
                    }
                    check(w.bare() == p, 212);
                    check(DROPS == 0 && J.releases == 0, 213);
                    check(J.gone == 0, 923);
                }
                check(RAN == calls, 214);
                if choose(2) == 0 {
                    drop(w);
                    check(DROPS == 1, 215);
                    check(J.releases == J.allocs, 216);
                    check(live_blocks() == 0, 217);
                    check(J.gone == 1, 922);
                    check(vf_live() == live, 218);
                    cover(1);
                } else {
                    let q = $m::leak(w);
                    check(q == p, 219);
                    check(DROPS == 0 && J.releases == 0, 220);
                    let x: u64 = sym();
                    let r = call(q, x);
                    check(r == if $mutable { cur } else { cur ^ x }, 221);
                    check(DROPS == 0 && J.releases == 0, 222);
                    check(J.gone == 0, 923);
                    cover(2);
                }
                check(J.allocs == if <$cap>::ZST { 0 } else { 1 }, 223);
            }
        });
    };
}
/// Once closures: conversions, then drop uncalled or leak and call.
macro_rules! once {
    ($name:ident, $cap:ty, $n:expr) => {
        entry!($name, {
            start();
            let way = choose(2);
            fn run<C: Cap>(c: C, x: u64) -> u64 {
                unsafe {
                    RAN += 1;
                    // by value and intact
                    let c = core::hint::black_box(c);
                    let r = c.val() ^ x;
                    check(DROPS == 0, 230);
                    drop(c);
                    check(DROPS == 1, 231);
                    r
                }
            }
            let make = |v: u64| {
                let c = <$cap>::mk(v);
                if way == 0 {
                    o::W::T0(BareFnOnceAny::<B, dyn Send + Sync, Jit>::new_c_in(move |x: u64| -> u64 { run(c, x) }, Jit(9)))
                } else {
                    o::W::T0(BareFnOnceAny::with_thunk_in(
                        thunk_factory::make_once_send_sync::<B, _>(move |(x,): (u64,)| -> u64 { run(c, x) }),
                        Jit(9),
                    ))
                }
            };
            drop(make(0));
            again();
            J.off = choose(2) as usize * 5;
            J.solo = true;
            J.release_err = choose(2) == 1;
            let v: u64 = sym();
            let live = vf_live();
            {
                let mut w = make(v);
                for _ in 0..$n {
                    let op = choose(8);
                    if op == 7 {
                        break;
                    }
                    w = o::convert(w, op);
                    check(DROPS == 0 && J.releases == 0, 213);
                    check(J.gone == 0, 923);
                }
                if choose(2) == 0 {
                    drop(w);
                    check(RAN == 0, 232);
                    check(DROPS == 1, 215);
                    check(J.releases == J.allocs, 216);
                    check(live_blocks() == 0, 217);
                    check(J.gone == 1, 922);
                    check(vf_live() == live, 218);
                    cover(1);
                } else {
                    let q = o::leak(w);
                    if !<$cap>::ZST {
                        ready(0, q);
                    }
                    check(DROPS == 0 && J.releases == 0, 220);
                    let x: u64 = sym();
                    let r = call(q, x);
                    check(RAN == 1, 233);
                    if core::mem::size_of::<$cap>() != 1 {
                        check(r == v ^ x, 234);
                    }
                    check(DROPS == 1, 235);
                    check(J.releases == 0, 236);
                    check(J.gone == 0, 923);
                    cover(2);
                }
                check(J.allocs == if <$cap>::ZST { 0 } else { 1 }, 223);
            }
        });
    };
}
macro_rules! family {
    ($cap:ty, $f:ident, $m:ident, $o:ident, $n:expr) => {
        reusable!($f, f, BareFnAny, make_send_sync, $cap, $n, false, |c, x| {
            RAN += 1;
            c.val() ^ x
        });
        reusable!($m, m, BareFnMutAny, make_mut_send_sync, $cap, $n, true, |c, x| {
            RAN += 1;
            let r = c.val();
            c.set(x);
            r
        });
        once!($o, $cap, $n);
    };
}
family!(Small, h_life_fn_small, h_life_mut_small, h_life_once_small, 3);
family!(Large, h_life_fn_large, h_life_mut_large, h_life_once_large, 3);
family!(Aligned, h_life_fn_aligned, h_life_mut_aligned, h_life_once_aligned, 2);
family!(Boxed, h_life_fn_boxed, h_life_mut_boxed, h_life_once_boxed, 2);
family!(Zst, h_life_fn_zst, h_life_mut_zst, h_life_once_zst, 3);
family!(Small, h_deep_fn_small, h_deep_mut_small, h_deep_once_small, 4);

// ---------------------------------------------------------------------------------------------
// declared higher-ranked signatures

bare_hrtb! { type HM = for<'a> unsafe extern "C" fn(&'a u64) -> u64; }

/// As above for wrappers of a higher-ranked signature: state, drops, blocks.
macro_rules! ranked {
    ($name:ident, $cap:ty) => {
        entry!($name, {
            start();
            let kind = choose(3);
            let way = choose(2);
            J.off = 9;
            J.dual = choose(2) == 1;
            let v: u64 = sym();
            type C = $cap;
            fn shared(v: u64, way: u64) -> BareFnAny<HM, dyn Send, Jit> {
                let c = C::mk(v);
                if way == 0 {
                    BareFnAny::with_cc_in(HM::cc(), move |x: &u64| c.val() ^ *x, Jit(3))
                } else {
                    BareFnAny::with_thunk_in(thunk_factory::make_send::<HM, _>(move |(x,): (&u64,)| c.val() ^ *x), Jit(3))
                }
            }
            fn mutable(v: u64, way: u64) -> BareFnMutAny<HM, dyn Send, Jit> {
                let mut c = C::mk(v);
                let mut f = move |x: &u64| {
                    let r = c.val();
                    c.set(*x);
                    r
                };
                if way == 0 {
                    BareFnMutAny::with_cc_in(HM::cc(), f, Jit(3))
                } else {
                    BareFnMutAny::with_thunk_in(thunk_factory::make_mut_send::<HM, _>(move |(x,): (&u64,)| f(x)), Jit(3))
                }
            }
            fn once(v: u64, way: u64) -> BareFnOnceAny<HM, dyn Send, Jit> {
                let c = C::mk(v);
                let f = move |x: &u64| {
                    let c = core::hint::black_box(c);
                    c.val() ^ *x
                };
                if way == 0 {
                    BareFnOnceAny::with_cc_in(HM::cc(), f, Jit(3))
                } else {
                    BareFnOnceAny::with_thunk_in(thunk_factory::make_once_send::<HM, _>(move |(x,): (&u64,)| f(x)), Jit(3))
                }
            }
            match kind {
                0 => drop(shared(0, way)),
                1 => drop(mutable(0, way)),
                _ => drop(once(0, way)),
            }
            again();
            let live = vf_live();
            let end = choose(2);
            let mut cur = v;
            match kind {
                0 => {
                    let b = shared(v, way);
                    for _ in 0..2 {
                        let x: u64 = sym();
                        check(b.bare().0(&x) == v ^ x, 211);
                        check(DROPS == 0 && J.releases == 0, 213);
                    check(J.gone == 0, 923);
                    }
                    let u = b.into_untyped();
                    if end == 0 {
                        drop(u)
                    } else {
                        let p = u.leak();
                        let x: u64 = sym();
                        check(<HM as traits::FnPtr>::from_ptr(p).0(&x) == v ^ x, 221);
                    }
                }
                1 => {
                    let b = mutable(v, way);
                    for _ in 0..3 {
                        let x: u64 = sym();
                        check(b.bare().0(&x) == cur, 210);
                        check(DROPS == 0 && J.releases == 0, 213);
                    check(J.gone == 0, 923);
                        cur = x;
                    }
                    let u = b.upcast::<dyn Any>();
                    if end == 0 {
                        drop(u)
                    } else {
                        let p = u.leak();
                        let x: u64 = sym();
                        check(p.0(&x) == cur, 221);
                    }
                }
                _ => {
                    let b = once(v, way).upcast::<dyn Any>();
                    if end == 0 {
                        drop(b)
                    } else {
                        let p = b.leak();
                        check(DROPS == 0, 220);
                        let x: u64 = sym();
                        check(p.0(&x) == v ^ x, 234);
                        check(DROPS == 1, 235);
                    }
                }
            }
            if end == 0 {
                check(DROPS == 1, 215);
                check(J.releases == J.allocs, 216);
                check(live_blocks() == 0, 217);
                    check(J.gone == 1, 922);
                check(vf_live() == live, 218);
            } else {
                check(kind == 2 || DROPS == 0, 222);
                check(J.releases == 0, 236);
                    check(J.gone == 0, 923);
            }
            cover(1 + end as u32);
        });
    };
}
ranked!(h_life_hr_small, Small);
ranked!(h_life_hr_boxed, Boxed);
ranked!(h_life_hr_aligned, Aligned);
ranked!(h_life_hr_zst, Zst);
