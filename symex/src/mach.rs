//! The machine-code side: code images for functions containing the crate's thunk code block, and a
//! small interpreter for emitted thunks.

use crate::exec::V;
use std::collections::HashMap;
use std::process::Command;

/// The crate's own code block is recognised by shape (it embeds data words after a jump), so other
/// inline assembly is never mistaken for it.
pub fn is_thunk_block(t: &str) -> bool {
    t.contains("byte") && (t.contains("jmp") || t.contains("br ") || t.contains("bx "))
}

fn kind(triple: &str) -> &'static str {
    if triple.starts_with("x86_64") {
        "x64"
    } else if triple.starts_with("i686") || triple.starts_with("i586") {
        "x86"
    } else if triple.starts_with("aarch64") {
        "a64"
    } else if triple.starts_with("thumb") {
        "t32"
    } else {
        "a32"
    }
}

/// Registers assigned to the block's outputs, varied between functions.
pub fn regs(triple: &str, idx: usize) -> Vec<u32> {
    match kind(triple) {
        "x64" => {
            let c = [0u32, 11, 10, 3, 12, 14];
            (0..3).map(|k| c[(idx + k) % 6]).collect()
        }
        "x86" => {
            let c = [0u32, 1, 3, 6];
            (0..3).map(|k| c[(idx + k) % 4]).collect()
        }
        "a64" => {
            let c = [8u32, 9, 17, 0, 30, 19];
            (0..3).map(|k| c[(idx + k) % 6]).collect()
        }
        _ => {
            let c = [12u32, 4, 3, 8, 0];
            (0..3).map(|k| c[(idx + k) % 5]).collect()
        }
    }
}

fn reg_name(triple: &str, r: u32, modif: Option<char>, intel: bool) -> String {
    let n64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
    let n32 = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"];
    match kind(triple) {
        "x64" => {
            let s = match modif {
                Some('k') if r < 8 => n32[r as usize].to_string(),
                Some('k') => format!("r{r}d"),
                _ => n64[r as usize].to_string(),
            };
            if intel { s } else { format!("%{s}") }
        }
        "x86" => {
            let s = n32[r as usize];
            if intel { s.to_string() } else { format!("%{s}") }
        }
        "a64" => if modif == Some('w') { format!("w{r}") } else { format!("x{r}") },
        _ => format!("r{r}"),
    }
}

pub fn asm_source(triple: &str, text: &str, code: u64, idx: usize) -> String {
    let k = kind(triple);
    let rs = regs(triple, idx);
    let intel = k == "x64" || text.contains("dword ptr") || text.contains("[rip");
    let mut out = String::new();
    match k {
        "x64" | "x86" => {
            if intel {
                out += ".intel_syntax noprefix\n";
            }
            out += &format!(".text\n.balign 64\n.fill {}, 1, 0x90\n", code % 64);
        }
        "a64" => out += &format!(".text\n.balign 64\n.rept {}\nnop\n.endr\n", (code % 64) / 4),
        "a32" => out += &format!(".syntax unified\n.arm\n.text\n.balign 64\n.rept {}\nnop\n.endr\n", (code % 64) / 4),
        _ => out += &format!(".syntax unified\n.thumb\n.text\n.balign 64\n.rept {}\nnop\n.endr\n", (code % 64) / 2),
    }
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' {
            if b.get(i + 1) == Some(&'$') {
                if !intel {
                    out.push('$');
                }
                i += 2;
                continue;
            }
            let mut j = i + 1;
            let brace = b.get(j) == Some(&'{');
            if brace {
                j += 1;
            }
            let mut n = String::new();
            while j < b.len() && b[j].is_ascii_digit() {
                n.push(b[j]);
                j += 1;
            }
            let mut m = None;
            if brace {
                if b.get(j) == Some(&':') {
                    m = b.get(j + 1).copied();
                    j += 2;
                }
                j += 1;
            }
            let r = rs[n.parse::<usize>().unwrap_or(0).min(2)];
            out += &reg_name(triple, r, m, intel);
            i = j;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out.push('\n');
    out
}

pub fn assemble(triple: &str, src: &str, tmp: &str) -> Result<Vec<u8>, String> {
    let k = kind(triple);
    let (cmd, args, oc): (&str, &[&str], &str) = match k {
        "x64" => ("as", &["--64"], "objcopy"),
        "x86" => ("as", &["--32"], "objcopy"),
        "a64" => ("aarch64-linux-gnu-as", &[], "aarch64-linux-gnu-objcopy"),
        "a32" => ("arm-linux-gnueabihf-as", &["-march=armv7-a"], "arm-linux-gnueabihf-objcopy"),
        _ => ("arm-linux-gnueabihf-as", &["-march=armv7-a", "-mthumb"], "arm-linux-gnueabihf-objcopy"),
    };
    let base = format!("{tmp}/img_{}", std::process::id());
    let (s, o, bin) = (format!("{base}.s"), format!("{base}.o"), format!("{base}.bin"));
    std::fs::write(&s, src).map_err(|e| e.to_string())?;
    let r = (|| {
        let x = Command::new(cmd).args(args).args([&s, "-o", &o]).output().map_err(|e| e.to_string())?;
        if !x.status.success() {
            return Err(format!("{}\n{src}", String::from_utf8_lossy(&x.stderr)));
        }
        let x = Command::new(oc).args(["-O", "binary", "-j", ".text", &o, &bin]).output().map_err(|e| e.to_string())?;
        if !x.status.success() {
            return Err(String::from_utf8_lossy(&x.stderr).to_string());
        }
        let mut b = std::fs::read(&bin).map_err(|e| e.to_string())?;
        // trailing alignment padding of the section is not part of the block: the sections of all
        // targets used here are padded to at most 4 bytes and the block's size is a multiple of 4
        b.truncate(b.len());
        Ok(b)
    })();
    for f in [&s, &o, &bin] {
        let _ = std::fs::remove_file(f);
    }
    r
}

/// Is the register listed as overwritten?
pub fn clobbered(triple: &str, r: u32, cons: &str) -> bool {
    cons.contains(&format!("~{{{}}}", reg_name(triple, r, None, true)))
}

pub struct Out {
    pub regs: HashMap<u32, V>,
    pub target: V,
}

/// Executes emitted code until it jumps through a register or memory slot.
pub fn follow(triple: &str, start: u64, rd: &mut dyn FnMut(u64, u64) -> Result<V, String>) -> Result<Out, String> {
    let k = kind(triple);
    let mut pc = start;
    let mut regs: HashMap<u32, V> = HashMap::new();
    for _ in 0..256 {
        match k {
            "x64" | "x86" => {
                let m64 = k == "x64";
                let ps = if m64 { 8 } else { 4 };
                let mut p = pc;
                let mut rex = 0u64;
                let mut b = c(rd, p, 1)?;
                while b == 0x66 || b == 0x2e || b == 0x3e {
                    p += 1;
                    b = c(rd, p, 1)?;
                }
                if m64 && b & 0xf0 == 0x40 {
                    rex = b;
                    p += 1;
                    b = c(rd, p, 1)?;
                }
                let rexw = rex & 8 != 0;
                let rr = (rex & 4) << 1;
                let rb = (rex & 1) << 3;
                match b {
                    0x90 => pc = p + 1,
                    0x0f if c(rd, p + 1, 1)? == 0x1f => pc = p + 2 + modrm_len(c(rd, p + 2, 1)?, c(rd, p + 3, 1)?),
                    0x8d if !m64 => {
                        // assembler padding: lea esi,[esi+0] and friends
                        let m = c(rd, p + 1, 1)?;
                        let l = modrm_len(m, c(rd, p + 2, 1)?);
                        let sib = m & 7 == 4 && m >> 6 != 3;
                        let base = if sib { c(rd, p + 2, 1)? & 7 } else { m & 7 };
                        let dl = l - 1 - sib as u64;
                        let disp = if dl > 0 { c(rd, p + 1 + l - dl, dl)? } else { 0 };
                        if base != (m >> 3) & 7 || disp != 0 {
                            return Err(format!("undecoded instruction at {pc:#x}"));
                        }
                        pc = p + 1 + l;
                    }
                    0x8b => {
                        let m = c(rd, p + 1, 1)?;
                        let r = ((m >> 3) & 7) | rr;
                        if m64 && !rexw {
                            return Err(format!("undecoded instruction at {pc:#x}"));
                        }
                        let a = if m >> 6 == 0 && m & 7 == 5 {
                            let d = c(rd, p + 2, 4)? as i32 as i64;
                            pc = p + 6;
                            if m64 { pc.wrapping_add_signed(d) } else { d as u32 as u64 }
                        } else {
                            return Err(format!("undecoded instruction at {pc:#x}"));
                        };
                        let v = rd_v(rd, a, ps)?;
                        regs.insert(r as u32, v);
                    }
                    0xb8..=0xbf => {
                        let r = (b & 7) | rb;
                        let n = if rexw { 8 } else { 4 };
                        let v = c(rd, p + 1, n)?;
                        regs.insert(r as u32, V::C(v as u128));
                        pc = p + 1 + n;
                    }
                    0xe9 => pc = (p + 5).wrapping_add_signed(c(rd, p + 1, 4)? as i32 as i64),
                    0xeb => pc = (p + 2).wrapping_add_signed(c(rd, p + 1, 1)? as i8 as i64),
                    0xff => {
                        let m = c(rd, p + 1, 1)?;
                        if (m >> 3) & 7 != 4 {
                            return Err(format!("undecoded instruction at {pc:#x}"));
                        }
                        if m >> 6 == 3 {
                            let r = ((m & 7) | rb) as u32;
                            let t = regs.get(&r).cloned().ok_or("emitted code jumps through an unset register")?;
                            return Ok(Out { regs, target: t });
                        }
                        if m >> 6 == 0 && m & 7 == 5 {
                            let d = c(rd, p + 2, 4)? as i32 as i64;
                            let a = if m64 { (p + 6).wrapping_add_signed(d) } else { d as u32 as u64 };
                            let t = rd_v(rd, a, ps)?;
                            return Ok(Out { regs, target: t });
                        }
                        return Err(format!("undecoded instruction at {pc:#x}"));
                    }
                    _ => return Err(format!("emitted code contains unexpected byte {b:#x} at {pc:#x}")),
                }
            }
            "a64" => {
                let w = c(rd, pc, 4)? as u32;
                if w == 0xd503201f {
                    pc += 4;
                } else if w >> 24 == 0x58 {
                    let imm = ((w << 8) as i32 >> 13) as i64 * 4;
                    let a = pc.wrapping_add_signed(imm);
                    let v = rd_v(rd, a, 8)?;
                    regs.insert(w & 31, v);
                    pc += 4;
                } else if w & 0xffff_fc1f == 0xd61f_0000 {
                    let t = regs.get(&((w >> 5) & 31)).cloned().ok_or("emitted code jumps through an unset register")?;
                    return Ok(Out { regs, target: t });
                } else if w >> 26 == 5 {
                    pc = pc.wrapping_add_signed(((w << 6) as i32 >> 6) as i64 * 4);
                } else {
                    return Err(format!("emitted code contains unexpected instruction {w:#x} at {pc:#x}"));
                }
            }
            "a32" => {
                let w = c(rd, pc, 4)? as u32;
                if w == 0xe320f000 || w == 0xe1a00000 {
                    pc += 4;
                } else if w & 0xff7f_0000 == 0xe51f_0000 {
                    let o = (w & 0xfff) as u64;
                    let a = if w >> 23 & 1 == 1 { pc + 8 + o } else { pc + 8 - o };
                    let v = rd_v(rd, a, 4)?;
                    regs.insert((w >> 12) & 15, v);
                    pc += 4;
                } else if w & 0xffff_fff0 == 0xe12f_ff10 {
                    let t = regs.get(&(w & 15)).cloned().ok_or("emitted code jumps through an unset register")?;
                    return Ok(Out { regs, target: t });
                } else {
                    return Err(format!("emitted code contains unexpected instruction {w:#x} at {pc:#x}"));
                }
            }
            _ => {
                let h = c(rd, pc, 2)? as u32;
                let base = (pc + 4) & !3;
                if h == 0xbf00 || h == 0x46c0 {
                    pc += 2;
                } else if h >> 11 == 0b01001 {
                    let v = rd_v(rd, base + (h & 0xff) as u64 * 4, 4)?;
                    regs.insert((h >> 8) & 7, v);
                    pc += 2;
                } else if h == 0xf3af {
                    pc += 4;
                } else if h & 0xff7f == 0xf85f {
                    let h2 = c(rd, pc + 2, 2)? as u32;
                    let o = (h2 & 0xfff) as u64;
                    let v = rd_v(rd, if h >> 7 & 1 == 1 { base + o } else { base - o }, 4)?;
                    regs.insert(h2 >> 12, v);
                    pc += 4;
                } else if h & 0xff87 == 0x4700 {
                    let t = regs.get(&((h >> 3) & 15)).cloned().ok_or("emitted code jumps through an unset register")?;
                    return Ok(Out { regs, target: t });
                } else {
                    return Err(format!("emitted code contains unexpected instruction {h:#x} at {pc:#x}"));
                }
            }
        }
    }
    Err("emitted code does not leave the thunk".into())
}
fn rd_v(rd: &mut dyn FnMut(u64, u64) -> Result<V, String>, a: u64, n: u64) -> Result<V, String> {
    rd(a, n).map_err(|e| format!("emitted code reads outside its block: {e}"))
}
fn modrm_len(m: u64, sib: u64) -> u64 {
    let (md, rm) = (m >> 6, m & 7);
    let mut l = 1;
    if md != 3 && rm == 4 {
        l += 1;
        if md == 0 && sib & 7 == 5 {
            l += 4;
        }
    }
    l + match md {
        0 => if rm == 5 { 4 } else { 0 },
        1 => 1,
        2 => 4,
        _ => 0,
    }
}
fn c(rd: &mut dyn FnMut(u64, u64) -> Result<V, String>, a: u64, n: u64) -> Result<u64, String> {
    match rd(a, n)? {
        V::C(k) => Ok(k as u64),
        _ => Err("undecoded: symbolic instruction bytes".into()),
    }
}
