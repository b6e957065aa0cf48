//! Compares the disassembler model with the real disassembler on pseudo-random words of every
//! modelled class: `capcheck SEED COUNT`. Exit 1 on a disagreement.
use std::collections::BTreeMap;

#[derive(PartialEq, Debug, Clone)]
struct F {
    len: usize,
    id: u32,
    pc_r: bool,
    pc_w: bool,
    bad_group: bool,
    al: bool,
    target: Option<i32>,
}

macro_rules! facts {
    ($c:ident, $cs:expr, $arm:expr, $bytes:expr, $addr:expr, $nth:expr) => {{
        use $c::arch::DetailsArchInsn;
        let mut it = $cs.disasm_iter($bytes, $addr).unwrap();
        let mut r = None;
        for k in 0..=$nth {
            match it.next() {
                None => { r = None; break }
                Some(i) => if k == $nth {
                    let d = $cs.insn_detail(&i).unwrap();
                    let bad_group = d.groups().iter().any(|g| g.0 < 8);
                    let mut f = F { len: i.len(), id: i.id().0, pc_r: false, pc_w: false, bad_group, al: true, target: None };
                    if $arm {
                        f.pc_r = d.regs_read().iter().any(|r| r.0 == 11);
                        f.pc_w = d.regs_write().iter().any(|r| r.0 == 11);
                        let ad = d.arch_detail();
                        let ad = ad.arm().unwrap();
                        f.al = ad.cc() == $c::arch::arm::ArmCC::ARM_CC_AL;
                        if f.id == 11 {
                            if let $c::arch::arm::ArmOperandType::Imm(t) = ad.operands().next().unwrap().op_type {
                                f.target = Some(t);
                            }
                        }
                    }
                    r = Some(f);
                }
            }
        }
        r
    }};
}

#[no_mangle]
extern "C-unwind" fn vf_pick(x: u64) -> u64 {
    x
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut s: u64 = a[1].parse::<u64>().unwrap().wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let n: u64 = a[2].parse().unwrap();
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s.wrapping_mul(0x2545f4914f6cdd1d) >> 32) as u32
    };
    use model::arch::BuildsCapstone as _;
    use real::arch::BuildsCapstone as _;
    let mut bad = 0u64;
    for isa in 0..3 {
        let arm = isa != 0;
        let mk = || match isa {
            0 => real::Capstone::new().arm64().mode(real::arch::arm64::ArchMode::Arm).detail(true).build(),
            1 => real::Capstone::new().arm().mode(real::arch::arm::ArchMode::Arm).detail(true).build(),
            _ => real::Capstone::new().arm().mode(real::arch::arm::ArchMode::Thumb).detail(true).build(),
        }
        .unwrap();
        let mut r = mk();
        let m = match isa {
            0 => model::Capstone::new().arm64().mode(model::arch::arm64::ArchMode::Arm).detail(true).build(),
            1 => model::Capstone::new().arm().mode(model::arch::arm::ArchMode::Arm).detail(true).build(),
            _ => model::Capstone::new().arm().mode(model::arch::arm::ArchMode::Thumb).detail(true).build(),
        }
        .unwrap();
        let (mut cmp, mut skip) = (0u64, 0u64);
        let mut seen: BTreeMap<String, u32> = BTreeMap::new();
        for k in 0..n {
            let mut w = rnd();
            // PC as an operand more often than by chance
            if isa == 1 {
                if rnd() & 1 == 0 { w = w & 0x0fff_ffff | 0xe000_0000 }
                if rnd() & 3 == 0 { w |= 0xf_0000 }
                if rnd() & 3 == 0 { w |= 0xf000 }
                if rnd() & 3 == 0 { w &= !0xf000 }
            }
            let mut b = w.to_le_bytes().to_vec();
            let mut nth = 0;
            if isa == 2 {
                if k & 1 == 0 {
                    // wide encodings
                    b[1] |= 0xe8;
                    if b[1] & 0x18 == 0 { b[1] |= 0x10 }
                    if rnd() & 3 == 0 { b[0] |= 0xf }
                }
                if rnd() & 7 == 0 {
                    let c = (rnd() % 14) as u8;
                    b.splice(0..0, [(c << 4) | 8, 0xbf]);
                    nth = 1;
                }
            }
            if isa == 2 {
                // the real disassembler's IT state outlives an iterator
                r = mk();
            }
            let addr = 0x10000u64 + (rnd() as u64 & 0xff) * if isa == 2 { 2 } else { 4 };
            let Some(fm) = facts!(model, m, arm, &b, addr, nth) else { skip += 1; continue };
            cmp += 1;
            let mut fr = facts!(real, r, arm, &b, addr, nth);
            if let Some(x) = fr.as_mut() {
                const KEY: [u32; 14] = [4, 11, 16, 17, 19, 83, 84, 85, 86, 91, 93, 95, 97, 127];
                if !arm || !KEY.contains(&x.id) && !KEY.contains(&fm.id) || (x.id == 79 || x.id == 127) && (fm.id == 79 || fm.id == 127) || (x.id==97||x.id==85)&&x.pc_r==false {
                    x.id = fm.id;
                }
            }
            let same = match &fr {
                // a word the real disassembler rejects ends the scan: harmless for A64
                None => !arm,
                Some(x) => *x == fm,
            };
            if !same {
                bad += 1;
                let key = format!("{:?}", (&fm, &fr).clone());
                let c = seen.entry(key.split("target").next().unwrap().into()).or_default();
                *c += 1;
                if *c <= 2 && seen.len() < 14 {
                    let d = r.disasm_all(&b, addr).unwrap();
                    let t = d.iter().nth(nth).map(|i| format!("{} {}", i.mnemonic().unwrap(), i.op_str().unwrap()));
                    println!("isa {isa} {b:02x?} at {addr:x} [{t:?}]\n  model {fm:?}\n  real  {fr:?}");
                }
            }
        }
        println!("isa {isa}: compared {cmp}, not modelled {skip}");
    }
    println!("disagreements {bad}");
    std::process::exit((bad != 0) as i32);
}
