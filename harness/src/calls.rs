//! Calls through wrapped closures deliver arguments, captures and results unchanged.

use crate::jit::*;
use crate::vf::*;
use closure_ffi::{cc, traits::Any, BareFnAny, BareFnMutAny, BareFnOnceAny};

pub static mut CALLS: u32 = 0;
pub static mut CAP: (u64, u16) = (0, 0);

/// One signature under one calling convention, all six closure kinds.
macro_rules! fid {
    ($name:ident, $abi:literal, $cc:expr, $r:ty, ($($a:ident: $t:ty),*)) => {
        #[inline(never)]
        fn $name() {
            #[allow(non_camel_case_types)]
            #[derive(Clone, Copy)]
            struct Args { $($a: $t,)* }
            static mut SEEN: core::mem::MaybeUninit<Args> = core::mem::MaybeUninit::uninit();
            static mut RET: core::mem::MaybeUninit<$r> = core::mem::MaybeUninit::uninit();
            type B = unsafe extern $abi fn($($t),*) -> $r;
            unsafe {
                let k: u64 = sym();
                let k2: u16 = sym();
                let r: $r = sym();
                RET.write(r);
                let kind = choose(6);
                any_placement();
                let sent = Args { $($a: sym(),)* };
                // the first round may build lazily initialised tables
                for round in 0..2 {
                reset();
                CALLS = 0;
                CAP = (0, 0);
                let ret: $r;
                let live = vf_live();
                match kind {
                    0 => {
                        let b = BareFnAny::<B, dyn Any, Jit>::with_cc_in($cc, move |$($a: $t),*| -> $r {
                            CALLS += 1; CAP = (k, k2); SEEN.write(Args { $($a,)* }); r
                        }, Jit(1));
                        ready(0, b.bare() as usize);
                        ret = (b.bare())($(sent.$a),*);
                    }
                    1 => {
                        let b = BareFnMutAny::<B, dyn Any, Jit>::with_cc_in($cc, move |$($a: $t),*| -> $r {
                            CALLS += 1; CAP = (k, k2); SEEN.write(Args { $($a,)* }); r
                        }, Jit(1));
                        ready(0, b.bare() as usize);
                        ret = (b.bare())($(sent.$a),*);
                    }
                    2 => {
                        let b = BareFnOnceAny::<B, dyn Any, Jit>::with_cc_in($cc, move |$($a: $t),*| -> $r {
                            CALLS += 1; CAP = (k, k2); SEEN.write(Args { $($a,)* }); r
                        }, Jit(1));
                        let f = b.leak();
                        ready(0, f as usize);
                        ret = f($(sent.$a),*);
                    }
                    3 => {
                        let b = BareFnAny::<B, dyn Any, Jit>::with_cc_in($cc, |$($a: $t),*| -> $r {
                            CALLS += 1; SEEN.write(Args { $($a,)* }); RET.assume_init()
                        }, Jit(1));
                        ret = (b.bare())($(sent.$a),*);
                    }
                    4 => {
                        let b = BareFnMutAny::<B, dyn Any, Jit>::with_cc_in($cc, |$($a: $t),*| -> $r {
                            CALLS += 1; SEEN.write(Args { $($a,)* }); RET.assume_init()
                        }, Jit(1));
                        ret = (b.bare())($(sent.$a),*);
                    }
                    _ => {
                        let b = BareFnOnceAny::<B, dyn Any, Jit>::with_cc_in($cc, |$($a: $t),*| -> $r {
                            CALLS += 1; SEEN.write(Args { $($a,)* }); RET.assume_init()
                        }, Jit(1));
                        ret = (b.leak())($(sent.$a),*);
                    }
                }
                check(CALLS == 1, 100);
                let got = SEEN.assume_init();
                $( check(got.$a.same(&sent.$a), 101); note(1, got.$a.bits()); )*
                let _ = (&got, &sent);
                check(ret.same(&r), 102);
                note(2, ret.bits());
                if kind < 3 {
                    check(CAP.0 == k && CAP.1 == k2, 103);
                    check(J.allocs == 1, 104);
                    check(J.releases == if kind == 2 { 0 } else { 1 }, 105);
                    cover(1);
                } else {
                    check(J.allocs == 0 && J.releases == 0 && J.other_calls == 0, 106);
                    cover(2);
                }
                if kind != 2 && round == 1 {
                    // everything allocated for the wrapper is gone again
                    check(vf_live() == live, 107);
                }
                }
            }
        }
    };
}

/// All thirteen arities under one calling convention.
macro_rules! fid_all {
    ($name:ident, $m:ident, $abi:literal, $cc:expr) => {
        mod $m {
            use super::*;
            fid!(a0, $abi, $cc, u32, ());
            fid!(a1, $abi, $cc, u64, (a0: u8));
            fid!(a2, $abi, $cc, (), (a0: u32, a1: u64));
            fid!(a3, $abi, $cc, Big, (a0: f64, a1: u16, a2: f32));
            fid!(a4, $abi, $cc, f64, (a0: Pair, a1: u64, a2: u8, a3: u32));
            fid!(a5, $abi, $cc, u8, (a0: u64, a1: u8, a2: Big, a3: u32, a4: u16));
            fid!(a6, $abi, $cc, Pair, (a0: i8, a1: i16, a2: i32, a3: i64, a4: isize, a5: usize));
            fid!(a7, $abi, $cc, f32, (a0: u32, a1: f32, a2: u32, a3: f32, a4: u32, a5: f32, a6: u64));
            fid!(a8, $abi, $cc, u32, (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64));
            fid!(a9, $abi, $cc, i16, (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8));
            fid!(a10, $abi, $cc, i64, (a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32, a8: u32, a9: u32));
            fid!(a11, $abi, $cc, usize, (a0: u16, a1: u64, a2: u16, a3: u64, a4: u16, a5: u64, a6: u16, a7: u64, a8: u16, a9: u64, a10: u8));
            fid!(a12, $abi, $cc, u32, (a0: u32, a1: u64, a2: u32, a3: u64, a4: u32, a5: u64, a6: u32, a7: u64, a8: u32, a9: u64, a10: f64, a11: u8));
            pub fn run(arity: u64) {
                match arity {
                    0 => a0(),
                    1 => a1(),
                    2 => a2(),
                    3 => a3(),
                    4 => a4(),
                    5 => a5(),
                    6 => a6(),
                    7 => a7(),
                    8 => a8(),
                    9 => a9(),
                    10 => a10(),
                    11 => a11(),
                    _ => a12(),
                }
            }
        }
        entry!($name, {
            vf_panic_mode(1);
            warm();
            $m::run(choose(13));
        });
    };
}

fid_all!(h_call_c, m_c, "C", cc::C);
fid_all!(h_call_c_unwind, m_c_unwind, "C-unwind", cc::CUnwind);
fid_all!(h_call_system, m_system, "system", cc::System);
fid_all!(h_call_system_unwind, m_system_unwind, "system-unwind", cc::SystemUnwind);
fid_all!(h_call_efiapi, m_efiapi, "efiapi", cc::Efiapi);
fid_all!(h_call_rust, m_rust, "Rust", cc::Rust);
#[cfg(target_arch = "x86_64")]
fid_all!(h_call_sysv64, m_sysv64, "sysv64", cc::Sysv64);
#[cfg(target_arch = "x86_64")]
fid_all!(h_call_sysv64_unwind, m_sysv64_unwind, "sysv64-unwind", cc::Sysv64Unwind);
#[cfg(target_arch = "x86_64")]
fid_all!(h_call_win64, m_win64, "win64", cc::Win64);
#[cfg(target_arch = "x86_64")]
fid_all!(h_call_win64_unwind, m_win64_unwind, "win64-unwind", cc::Win64Unwind);
#[cfg(target_arch = "arm")]
fid_all!(h_call_aapcs, m_aapcs, "aapcs", cc::Aapcs);
#[cfg(target_arch = "arm")]
fid_all!(h_call_aapcs_unwind, m_aapcs_unwind, "aapcs-unwind", cc::AapcsUnwind);
#[cfg(target_arch = "x86")]
fid_all!(h_call_cdecl, m_cdecl, "cdecl", cc::Cdecl);
#[cfg(target_arch = "x86")]
fid_all!(h_call_cdecl_unwind, m_cdecl_unwind, "cdecl-unwind", cc::CdeclUnwind);
#[cfg(target_arch = "x86")]
fid_all!(h_call_stdcall, m_stdcall, "stdcall", cc::Stdcall);
#[cfg(target_arch = "x86")]
fid_all!(h_call_stdcall_unwind, m_stdcall_unwind, "stdcall-unwind", cc::StdcallUnwind);
#[cfg(target_arch = "x86")]
fid_all!(h_call_fastcall, m_fastcall, "fastcall", cc::Fastcall);
#[cfg(target_arch = "x86")]
fid_all!(h_call_fastcall_unwind, m_fastcall_unwind, "fastcall-unwind", cc::FastcallUnwind);
#[cfg(target_arch = "x86")]
fid_all!(h_call_thiscall, m_thiscall, "thiscall", cc::Thiscall);
#[cfg(target_arch = "x86")]
fid_all!(h_call_thiscall_unwind, m_thiscall_unwind, "thiscall-unwind", cc::ThiscallUnwind);
