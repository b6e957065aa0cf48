//! Path-forking symbolic execution of LLVM IR.

use crate::expr::{self as e, Id, Model};
use crate::ir::*;
use crate::mach;
use crate::solver::Solver;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;
use std::time::Instant;

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
}
pub type Fx<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(Id),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn id(&self, w: u8) -> Id {
        match self {
            V::C(k) => e::konst(*k, w),
            V::S(i) => *i,
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn from(i: Id) -> V {
        match e::as_const(i) {
            Some(k) => V::C(k),
            None => V::S(i),
        }
    }
}

pub const PG: u64 = 4096;
#[derive(Clone)]
pub struct Page {
    data: [u8; PG as usize],
    sym: Option<Box<BTreeMap<u16, Id>>>,
}
type Pages = Fx<u64, Rc<Page>>;

#[derive(Clone)]
pub struct HeapObj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub live: bool,
}

pub struct Frame {
    f: Rc<Func>,
    blk: usize,
    ip: usize,
    prev: usize,
    regs: Vec<V>,
    dst: Option<u32>,
    sp: u64,
    /// closure pointer delivered by the emitted thunk through which this function was entered
    thunk: Option<Rc<Vec<V>>>,
    asm_done: bool,
    catch: bool,
    unw: Option<(usize, usize)>,
}
impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame {
            f: self.f.clone(),
            regs: self.regs.clone(),
            thunk: self.thunk.clone(),
            ..*self
        }
    }
}

#[derive(Clone)]
pub struct Thread {
    frames: Vec<Frame>,
    sp: u64,
    done: bool,
    wait: Option<u64>, // futex address
    joining: bool,
}

#[derive(Clone)]
pub struct State {
    threads: Vec<Thread>,
    cur: usize,
    pages: Pages,
    heap: Rc<Vec<HeapObj>>,
    heap_top: u64,
    placed: Vec<(u64, u64)>,
    pc: Vec<Id>,
    known: Rc<HashMap<Id, bool>>,
    /// bits (zero, one) implied by the path condition, per term
    bits: Rc<e::Bits>,
    model: Rc<Model>,
    inputs: Vec<(u32, Vec<Id>)>,
    notes: Vec<(u32, V)>,
    covers: Vec<u32>,
    sched: Vec<u8>,
    preempt: u32,
    yielded: bool,
    steps: u64,
    depth: u32,
    panic_mode: u32,
    strict_mem: bool,
    /// (thread, static, copy of the static for that thread)
    tls: Vec<(usize, u64, u64)>,
}

pub enum Stop {
    /// path ended: reason
    End(&'static str),
    Panic(String),
    Violation(u32, String),
    Error(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Witness {
    pub id: u32,
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u32, Vec<u8>)>,
    pub notes: Vec<(u32, u64)>,
    pub sched: Vec<u8>,
    pub path: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ended: BTreeMap<String, u64>,
    pub panics: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub pruned: u64,
    pub checks: BTreeMap<u32, (u64, u64)>,
    pub covers: BTreeMap<u32, u64>,
    pub funcs: HashSet<String>,
}

pub struct Opts {
    pub max_steps: u64,
    pub paranoid: bool,
    pub max_secs: f64,
    pub max_paths: u64,
    pub max_viol: usize,
    pub preempt: u32,
    pub witnesses: usize,
    pub trace: bool,
    pub tmp: String,
}

struct Img {
    base: u64,
    bytes: Vec<u8>,
    entry: u64,
    name: String,
    thunk: bool,
    outs: Vec<u32>,
    cons: String,
}

pub struct Machine {
    pub m: Module,
    pub s: Solver,
    pub o: Opts,
    pub stats: Stats,
    pub viol: Vec<Witness>,
    pub wit: Vec<Witness>,
    pub errors: BTreeMap<String, u64>,
    fcache: HashMap<String, Rc<Func>>,
    gaddr: HashMap<String, u64>,
    base: Pages,
    glob_top: u64,
    globs: BTreeMap<u64, u64>,
    fn_by_addr: HashMap<u64, usize>,
    imgs: Vec<Img>,
    work: Vec<State>,
    start: Instant,
    pw: u8,
    noreturn: HashMap<String, bool>,
    asm_cache: HashMap<String, Vec<u8>>,
}

const GLOB_BASE: u64 = 0x1000_0000;
const FN_BASE: u64 = 0x4000_0000;
const HEAP_BASE: u64 = 0x5000_0000;
const HEAP_END: u64 = 0x6000_0000;
const STACK_TOP: u64 = 0x7800_0000;
const STACK_SIZE: u64 = 0x0080_0000;

fn is_panic_name(n: &str) -> bool {
    ["panic", "_fail", "failed", "handle_error", "handle_alloc_error", "capacity_overflow", "rust_begin_unwind", "abort", "unwrap_failed", "expect_failed", "rust_oom"]
        .iter()
        .any(|p| n.contains(p))
}

impl Machine {
    pub fn new(m: Module, o: Opts, timeout: u32) -> Self {
        let pw = (m.ptr_bytes * 8) as u8;
        Machine {
            s: Solver::new(timeout),
            o,
            stats: Stats::default(),
            viol: vec![],
            wit: vec![],
            errors: BTreeMap::new(),
            fcache: HashMap::new(),
            gaddr: HashMap::new(),
            base: Pages::default(),
            glob_top: GLOB_BASE,
            globs: BTreeMap::new(),
            fn_by_addr: HashMap::new(),
            imgs: vec![],
            work: vec![],
            start: Instant::now(),
            pw,
            noreturn: HashMap::new(),
            asm_cache: HashMap::new(),
            m,
        }
    }
    pub fn thumb(&self) -> bool {
        self.m.triple.starts_with("thumb")
    }

    // ---------- globals ----------

    fn base_write(&mut self, a: u64, b: &[u8]) {
        for (i, &x) in b.iter().enumerate() {
            let a = a + i as u64;
            let p = self.base.entry(a / PG).or_insert_with(|| Rc::new(Page { data: [0; PG as usize], sym: None }));
            Rc::make_mut(p).data[(a % PG) as usize] = x;
        }
    }
    fn glob_addr(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(n) {
            return a;
        }
        if let Some(al) = self.m.aliases.get(n).cloned() {
            let a = self.glob_addr(&al);
            self.gaddr.insert(n.to_string(), a);
            return a;
        }
        if self.m.weak.contains(n) {
            self.gaddr.insert(n.to_string(), 0);
            return 0;
        }
        if self.m.fns.contains_key(n) || self.m.decls.contains_key(n) {
            return self.fn_addr(n);
        }
        let Some((t, init, konst, al)) = self.m.global(n) else { panic!("unknown symbol {n}") };
        let size = self.m.size(&t).max(if init.is_none() { 64 } else { 0 });
        let align = if konst { al.max(16) } else { PG };
        let a = self.glob_top.div_ceil(align) * align;
        self.glob_top = a + size + 16;
        if !konst {
            self.glob_top = self.glob_top.div_ceil(PG) * PG;
        }
        self.gaddr.insert(n.to_string(), a);
        self.globs.insert(a, size);
        if let Some(i) = init {
            let bytes = self.const_bytes(&t, &i);
            self.base_write(a, &bytes);
        }
        a
    }
    fn const_bytes(&mut self, t: &Ty, o: &Opd) -> Vec<u8> {
        let sz = self.m.size(t) as usize;
        match (o, t) {
            (Opd::Zero, _) => vec![0; sz],
            (Opd::Bytes(b), _) => b.clone(),
            (Opd::Agg(v), Ty::Struct(..)) => {
                let mut out = vec![0; sz];
                for (i, (ft, fo)) in v.iter().enumerate() {
                    let off = self.m.field_off(t, i) as usize;
                    let b = self.const_bytes(ft, fo);
                    out[off..off + b.len()].copy_from_slice(&b);
                }
                out
            }
            (Opd::Agg(v), _) => {
                let mut out = vec![];
                for (ft, fo) in v {
                    out.extend(self.const_bytes(ft, fo));
                }
                out.resize(sz, 0);
                out
            }
            _ => {
                let k = self.konst_opd(t, o);
                k.to_le_bytes()[..sz.min(16)].to_vec()
            }
        }
    }
    fn konst_opd(&mut self, t: &Ty, o: &Opd) -> u128 {
        match o {
            Opd::Const(k) => *k,
            Opd::Zero | Opd::BlockAddr => 0,
            Opd::Glob(n) => self.glob_addr(n) as u128,
            Opd::Cast(b, to, _) => {
                let v = self.konst_opd(&b.0, &b.1);
                let w = self.m.size(to) * 8;
                v & e::mask(w.min(128) as u8)
            }
            Opd::Gep(bt, ops) => {
                let mut a = self.konst_opd(&ops[0].0, &ops[0].1) as u64;
                let mut ty = bt.clone();
                for (i, (it, io)) in ops[1..].iter().enumerate() {
                    let k = self.konst_opd(it, io);
                    let Ty::Int(w) = it else { panic!() };
                    let k = e::sext_to(k, *w as u8) as i64;
                    if i == 0 {
                        a = a.wrapping_add((k as u64).wrapping_mul(self.m.size(&ty)));
                    } else {
                        match ty.clone() {
                            Ty::Struct(fs, _) => {
                                a = a.wrapping_add(self.m.field_off(&ty, k as usize));
                                ty = fs[k as usize].clone();
                            }
                            Ty::Arr(_, el) | Ty::Vec(_, el) => {
                                a = a.wrapping_add((k as u64).wrapping_mul(self.m.size(&el)));
                                ty = (*el).clone();
                            }
                            _ => panic!(),
                        }
                    }
                }
                a as u128 & e::mask(self.pw)
            }
            Opd::Bin(op, a, b) => {
                let (x, y) = (self.konst_opd(&a.0, &a.1), self.konst_opd(&b.0, &b.1));
                let w = self.m.size(t) * 8;
                (match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "mul" => x.wrapping_mul(y),
                    "shl" => x << y,
                    _ => panic!(),
                }) & e::mask(w as u8)
            }
            _ => panic!("constant {o:?}"),
        }
    }

    // ---------- functions and their code images ----------

    fn fn_addr(&mut self, n: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(n) {
            return a;
        }
        let idx = self.imgs.len();
        // one page per function; code starts at a varying, instruction-aligned offset
        let page = FN_BASE + idx as u64 * PG;
        let unit = if self.m.triple.starts_with("aarch64") || self.m.triple.starts_with("arm") { 4 } else { 2 };
        let unit = if self.m.triple.starts_with("x86_64") || self.m.triple.starts_with("i686") { 1 } else { unit };
        let off = (idx as u64 * 5 % 8) * unit;
        let code = page + 0x100 + off;
        let addr = if self.thumb() { code | 1 } else { code };
        self.gaddr.insert(n.to_string(), addr);
        self.imgs.push(Img { base: code, bytes: vec![], entry: 0, name: n.to_string(), thunk: false, outs: vec![], cons: String::new() });
        self.fn_by_addr.insert(addr, idx);
        // does the function contain the crate's code block?
        if let Some(&(s, en)) = self.m.fns.get(n) {
            if self.m.text[s..en].contains(" asm sideeffect ") {
                if let Some(f) = self.func(n) {
                    let mut asm = None;
                    for b in &f.blocks {
                        for i in &b.ins {
                            if let Ins::Call(_, _, Callee::Asm { text, cons }, _, _) = i {
                                if mach::is_thunk_block(text) && asm.is_none() {
                                    asm = Some((text.clone(), cons.clone()));
                                }
                            }
                        }
                    }
                    if let Some((text, cons)) = asm {
                        let src = mach::asm_source(&self.m.triple, &text, code, idx);
                        let bytes = match self.asm_cache.get(&src) {
                            Some(b) => b.clone(),
                            None => {
                                let b = mach::assemble(&self.m.triple, &src, &self.o.tmp).expect("assembler failed");
                                self.asm_cache.insert(src, b.clone());
                                b
                            }
                        };
                        // the assembled section starts at `code & !63`
                        let skip = (code % 64) as usize;
                        let bytes = bytes[skip..].to_vec();
                        self.base_write(code, &bytes);
                        // marker so that over-scanning is noticed rather than endless
                        self.imgs[idx].entry = code + bytes.len() as u64;
                        self.imgs[idx].bytes = bytes;
                        self.imgs[idx].thunk = true;
                        let n = cons.split(',').filter(|c| c.starts_with('=')).count();
                        self.imgs[idx].outs = mach::regs(&self.m.triple, idx)[..n].to_vec();
                        self.imgs[idx].cons = cons;
                    }
                }
            }
        }
        addr
    }

    fn func(&mut self, n: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.fcache.get(n) {
            return Some(f.clone());
        }
        if let Some(a) = self.m.aliases.get(n).cloned() {
            return self.func(&a);
        }
        let mut f = self.m.func(n)?;
        let mut blocks = std::mem::take(&mut f.blocks);
        for b in &mut blocks {
            for i in &mut b.ins {
                self.resolve(i);
            }
        }
        f.blocks = blocks;
        let f = Rc::new(f);
        self.fcache.insert(n.to_string(), f.clone());
        self.stats.funcs.insert(n.to_string());
        Some(f)
    }
    fn res1(&mut self, t: &Ty, o: &mut Opd) {
        match o {
            Opd::Glob(_) | Opd::Cast(..) | Opd::Gep(..) | Opd::Bin(..) | Opd::BlockAddr => {
                *o = Opd::Const(self.konst_opd(t, o));
            }
            Opd::Zero => {
                if matches!(t, Ty::Int(_) | Ty::Ptr) {
                    *o = Opd::Const(0);
                }
            }
            Opd::Agg(v) => {
                for (t, o) in v.iter_mut() {
                    self.res1(&t.clone(), o);
                }
            }
            _ => (),
        }
    }
    fn resolve(&mut self, i: &mut Ins) {
        match i {
            Ins::Bin(_, _, t, a, b) | Ins::Icmp(_, _, t, a, b) => {
                let t = t.clone();
                self.res1(&t, a);
                self.res1(&t, b);
            }
            Ins::Cast(_, _, t, a, _) | Ins::Freeze(_, t, a) => {
                let t = t.clone();
                self.res1(&t, a)
            }
            Ins::Select(_, c, t, a, b, ct) => {
                let (t, ct) = (t.clone(), ct.clone());
                self.res1(&ct, c);
                self.res1(&t, a);
                self.res1(&t, b);
            }
            Ins::Load(_, _, a, _) => self.res1(&Ty::Ptr, a),
            Ins::Store(t, v, a, _) => {
                let t = t.clone();
                self.res1(&t, v);
                self.res1(&Ty::Ptr, a);
            }
            Ins::Gep(_, _, v) => {
                for (t, o) in v {
                    let t = t.clone();
                    self.res1(&t, o);
                }
            }
            Ins::Call(_, _, c, args, _) => {
                if let Callee::Ptr(o, _) = c {
                    self.res1(&Ty::Ptr, o);
                }
                for (t, o, _) in args {
                    let t = t.clone();
                    self.res1(&t, o);
                }
            }
            Ins::CondBr(c, _, _) => self.res1(&Ty::Int(1), c),
            Ins::Switch(t, v, _, _) => {
                let t = t.clone();
                self.res1(&t, v)
            }
            Ins::Ret(Some((t, o))) | Ins::Extract(_, t, o, _) => {
                let t = t.clone();
                self.res1(&t, o)
            }
            Ins::Insert(_, t, o, t2, o2, _) => {
                let (t, t2) = (t.clone(), t2.clone());
                self.res1(&t, o);
                self.res1(&t2, o2);
            }
            Ins::Phi(_, t, v) => {
                let t = t.clone();
                for (o, _) in v {
                    self.res1(&t, o);
                }
            }
            Ins::Rmw(_, _, a, t, v) => {
                let t = t.clone();
                self.res1(&Ty::Ptr, a);
                self.res1(&t, v);
            }
            Ins::CmpXchg(_, a, t, c, n) => {
                let t = t.clone();
                self.res1(&Ty::Ptr, a);
                self.res1(&t, c);
                self.res1(&t, n);
            }
            _ => (),
        }
    }

    // ---------- solver-backed decisions ----------

    fn query(&mut self, st: &State, c: Id) -> R<Option<Model>> {
        match e::as_const(c) {
            Some(0) => return Ok(None),
            _ => (),
        }
        if st.model.eval(c) == 1 {
            // the path's own model is already a witness
            return Ok(Some(Model::new(st.model.vals.clone())));
        }
        if !st.bits.is_empty() && e::bits(&st.bits, c).0 & 1 == 1 {
            // contradicts bits fixed by the path condition
            self.stats.pruned += 1;
            if self.o.paranoid && !matches!(self.s.check(&st.pc, c), Some(None)) {
                return Err(Stop::Error("known bits disagree with the solver".into()));
            }
            return Ok(None);
        }
        match self.s.check(&st.pc, c) {
            Some(r) => {
                if let Some(m) = &r {
                    if m.eval(c) != 1 || st.pc.iter().any(|&p| m.eval(p) != 1) {
                        return Err(Stop::Error("solver model does not satisfy the query (encoding mismatch)".into()));
                    }
                }
                Ok(r)
            }
            None => Err(Stop::Error("solver returned unknown".into())),
        }
    }
    fn add(&self, st: &mut State, c: Id) {
        if e::as_const(c) == Some(1) {
            return;
        }
        if st.known.get(&c) == Some(&true) {
            return;
        }
        st.pc.push(c);
        e::learn(Rc::make_mut(&mut st.bits), c, 0, 1);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, true);
        k.insert(e::not(c), false);
        // split conjunctions so the parts are recognised later
        let mut todo = vec![c];
        while let Some(x) = todo.pop() {
            let n = e::node(x);
            if n.op == e::Op::And && n.w == 1 {
                for y in [n.a, n.b] {
                    k.insert(y, true);
                    k.insert(e::not(y), false);
                    todo.push(y);
                }
            }
        }
    }
    /// Decides a condition on this path; the other outcome, if possible, becomes a new state which
    /// re-executes the current instruction.
    fn fork_bool(&mut self, st: &mut State, c: Id) -> R<bool> {
        if let Some(k) = e::as_const(c) {
            return Ok(k == 1);
        }
        if let Some(&b) = st.known.get(&c) {
            return Ok(b);
        }
        let b = st.model.eval(c) == 1;
        let (yes, no) = if b { (c, e::not(c)) } else { (e::not(c), c) };
        if let Some(m) = self.query(st, no)? {
            let mut o = st.clone();
            self.add(&mut o, no);
            o.model = Rc::new(m);
            o.depth += 1;
            self.work.push(o);
            self.stats.forks += 1;
            self.add(st, yes);
            st.depth += 1;
        } else {
            let k = Rc::make_mut(&mut st.known);
            k.insert(yes, true);
            k.insert(no, false);
        }
        Ok(b)
    }
    fn conc(&mut self, st: &mut State, v: &V, w: u8) -> R<u128> {
        let i = match v {
            V::C(k) => return Ok(*k),
            V::S(i) => *i,
            V::A(_) => return Err(Stop::Error("aggregate".into())),
        };
        let k = st.model.eval(i);
        let eq = e::eq(i, e::konst(k, w));
        // fork_bool picks the model's side, i.e. equality
        let b = self.fork_bool(st, eq)?;
        debug_assert!(b);
        let fr = self.fr(st);
        for r in fr.regs.iter_mut() {
            if let V::S(x) = r {
                if *x == i {
                    *r = V::C(k);
                }
            }
        }
        Ok(k)
    }
    fn fr<'a>(&self, st: &'a mut State) -> &'a mut Frame {
        let c = st.cur;
        st.threads[c].frames.last_mut().unwrap()
    }

    // ---------- memory ----------

    fn valid(&self, st: &State, a: u64, n: u64, write: bool) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let end = a.wrapping_add(n);
        if (GLOB_BASE..self.glob_top).contains(&a) {
            if let Some((&b, &s)) = self.globs.range(..=a).next_back() {
                if end <= b + s {
                    return Ok(());
                }
            }
            return Err(format!("out of bounds access to a static at {a:#x}+{n}"));
        }
        if (HEAP_BASE..HEAP_END).contains(&a) {
            let i = st.heap.partition_point(|h| h.base <= a);
            if i > 0 {
                let h = &st.heap[i - 1];
                if end <= h.base + h.size {
                    return if h.live { Ok(()) } else { Err(format!("use of freed memory at {a:#x} (block of {} bytes)", h.size)) };
                }
            }
            return Err(format!("out of bounds heap access at {a:#x}+{n}"));
        }
        if a >= FN_BASE && a < FN_BASE + self.imgs.len() as u64 * PG {
            if write {
                return Err(format!("write to code of a function at {a:#x}"));
            }
            let im = &self.imgs[((a - FN_BASE) / PG) as usize];
            // compiler-generated code continues after the image
            if a >= im.base && end <= (im.base & !(PG - 1)) + PG {
                return Ok(());
            }
            return Err(format!("read outside of function code at {a:#x}"));
        }
        for (i, t) in st.threads.iter().enumerate() {
            let top = STACK_TOP - i as u64 * STACK_SIZE;
            if a >= t.sp && end <= top && a > top - STACK_SIZE {
                return Ok(());
            }
        }
        for &(b, s) in &st.placed {
            if a >= b && end <= b + s {
                return Ok(());
            }
        }
        Err(format!("invalid {} at {a:#x}+{n}", if write { "write" } else { "read" }))
    }
    fn page<'a>(&'a self, st: &'a State, p: u64) -> Option<&'a Page> {
        match st.pages.get(&p) {
            Some(x) => Some(x),
            None => self.base.get(&p).map(|r| &**r),
        }
    }
    fn page_mut<'a>(&self, st: &'a mut State, p: u64) -> &'a mut Page {
        let ent = st.pages.entry(p).or_insert_with(|| match self.base.get(&p) {
            Some(b) => b.clone(),
            None => Rc::new(Page { data: [0; PG as usize], sym: None }),
        });
        Rc::make_mut(ent)
    }
    pub fn rd8(&self, st: &State, a: u64) -> V {
        match self.page(st, a / PG) {
            None => V::C(0),
            Some(p) => {
                let o = (a % PG) as u16;
                if let Some(s) = &p.sym {
                    if let Some(&i) = s.get(&o) {
                        return V::S(i);
                    }
                }
                V::C(p.data[o as usize] as u128)
            }
        }
    }
    fn wr8(&self, st: &mut State, a: u64, v: V) {
        let o = (a % PG) as u16;
        let p = self.page_mut(st, a / PG);
        match v {
            V::C(k) => {
                p.data[o as usize] = k as u8;
                if let Some(s) = &mut p.sym {
                    s.remove(&o);
                    if s.is_empty() {
                        p.sym = None;
                    }
                }
            }
            V::S(i) => {
                p.sym.get_or_insert_with(Default::default).insert(o, i);
            }
            V::A(_) => unreachable!(),
        }
    }
    fn rd(&self, st: &State, a: u64, n: u64) -> V {
        if a % PG + n <= PG {
            match self.page(st, a / PG) {
                None => return V::C(0),
                Some(p) if p.sym.is_none() => {
                    let o = (a % PG) as usize;
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&p.data[o..o + n as usize]);
                    return V::C(u128::from_le_bytes(b));
                }
                _ => (),
            }
        }
        let mut acc: Option<Id> = None;
        let mut k = 0u128;
        let mut anysym = false;
        let bytes: Vec<V> = (0..n).map(|i| self.rd8(st, a + i)).collect();
        for (i, b) in bytes.iter().enumerate() {
            match b {
                V::C(x) => k |= x << (8 * i),
                _ => anysym = true,
            }
        }
        if !anysym {
            return V::C(k);
        }
        for b in bytes {
            let b = b.id(8);
            acc = Some(match acc {
                None => b,
                Some(l) => e::concat(b, l),
            });
        }
        V::from(acc.unwrap())
    }
    fn wr(&self, st: &mut State, a: u64, v: &V, n: u64, w: u8) {
        match v {
            V::C(k) => {
                if a % PG + n <= PG {
                    let o = (a % PG) as usize;
                    let p = self.page_mut(st, a / PG);
                    p.data[o..o + n as usize].copy_from_slice(&k.to_le_bytes()[..n as usize]);
                    if let Some(s) = &mut p.sym {
                        for i in o..o + n as usize {
                            s.remove(&(i as u16));
                        }
                        if s.is_empty() {
                            p.sym = None;
                        }
                    }
                } else {
                    for i in 0..n {
                        self.wr8(st, a + i, V::C((k >> (8 * i)) & 0xff));
                    }
                }
            }
            V::S(i) => {
                let full = if (w as u64) < n * 8 { e::zext(*i, (n * 8) as u8) } else { *i };
                for j in 0..n {
                    let b = e::extract(full, 8 * j as u32, 8);
                    self.wr8(st, a + j, V::from(b));
                }
            }
            V::A(_) => panic!(),
        }
    }
    fn mem_err<T>(&self, m: String) -> R<T> {
        Err(Stop::Violation(0, format!("memory: {m}")))
    }
    fn rd_chk(&self, st: &State, a: u64, n: u64) -> R<V> {
        if let Err(m) = self.valid(st, a, n, false) {
            return self.mem_err(m);
        }
        Ok(self.rd(st, a, n))
    }

    fn load_ty(&mut self, st: &mut State, t: &Ty, a: u64) -> R<V> {
        match t {
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let off = self.m.field_off(t, i);
                    v.push(self.load_ty(st, f, a.wrapping_add(off))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, el) | Ty::Vec(n, el) => {
                let s = self.m.size(el);
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, el, a + i * s)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let n = match t {
                    Ty::Int(w) => (*w as u64).div_ceil(8),
                    _ => self.m.size(t),
                };
                let v = self.rd_chk(st, a, n)?;
                let w = self.w(t);
                Ok(match v {
                    V::C(k) => V::C(k & e::mask(w)),
                    V::S(i) => V::from(e::extract(i, 0, w)),
                    v => v,
                })
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, t: &Ty, v: &V, a: u64) -> R<()> {
        match (t, v) {
            (Ty::Struct(fs, _), V::A(x)) => {
                for (i, f) in fs.iter().enumerate() {
                    let off = self.m.field_off(t, i);
                    self.store_ty(st, f, &x[i], a + off)?;
                }
                Ok(())
            }
            (Ty::Arr(_, el) | Ty::Vec(_, el), V::A(x)) => {
                let s = self.m.size(el);
                for (i, y) in x.iter().enumerate() {
                    self.store_ty(st, el, y, a + i as u64 * s)?;
                }
                Ok(())
            }
            _ => {
                let n = match t {
                    Ty::Int(w) => (*w as u64).div_ceil(8),
                    _ => self.m.size(t),
                };
                if let Err(m) = self.valid(st, a, n, true) {
                    return self.mem_err(m);
                }
                let w = self.w(t);
                self.wr(st, a, v, n, w);
                Ok(())
            }
        }
    }
    fn w(&self, t: &Ty) -> u8 {
        match t {
            Ty::Int(w) => *w as u8,
            Ty::Ptr => self.pw,
            Ty::Flt(w) => *w as u8,
            _ => panic!("width of {t:?}"),
        }
    }

    /// Feasible concrete values of `i` by its static range/bit facts, if few.
    fn cand(&self, i: Id, lim: usize) -> Option<Vec<u64>> {
        let n = e::node(i);
        let free = !(n.z | n.o) & e::mask(n.w);
        // enumerate via linear decomposition: base + k*x where x is narrow
        let mut out = vec![];
        if n.op == e::Op::Add || n.op == e::Op::Mul {
            let (x, k, c) = match (n.op, e::as_const(n.b)) {
                (e::Op::Add, Some(c)) => {
                    let m = e::node(n.a);
                    match (m.op, m.op == e::Op::Mul, e::as_const(m.b)) {
                        (e::Op::Mul, _, Some(k)) => (m.a, k, c),
                        _ => (n.a, 1, c),
                    }
                }
                (e::Op::Mul, Some(k)) => (n.a, k, 0),
                _ => return None,
            };
            let xs = self.cand(x, lim)?;
            for v in xs {
                out.push(((v as u128).wrapping_mul(k).wrapping_add(c) & e::mask(n.w)) as u64);
            }
            return Some(out);
        }
        if (free.count_ones() as u32) < 20 && 1usize << free.count_ones() <= lim {
            let mut s: u128 = 0;
            loop {
                let v = s | n.o;
                if v >= n.lo && v <= n.hi {
                    out.push(v as u64);
                }
                s = s.wrapping_sub(free) & free;
                if s == 0 {
                    break;
                }
            }
            return Some(out);
        }
        if n.hi - n.lo < lim as u128 {
            for v in n.lo..=n.hi {
                if v & n.z == 0 && v & n.o == n.o {
                    out.push(v as u64);
                }
            }
            return Some(out);
        }
        None
    }

    fn load_sym(&mut self, st: &mut State, t: &Ty, ai: Id) -> R<V> {
        let n = self.m.size(t);
        if matches!(t, Ty::Int(_) | Ty::Ptr) {
            let pw = self.pw;
            if let Some(c) = self.cand(ai, 1024) {
                let ok: Vec<u64> = c.iter().copied().filter(|&a| self.valid(st, a, n, false).is_ok()).collect();
                let mut inr = true;
                if ok.len() < c.len() {
                    // all feasible addresses must be valid
                    let mut bad = e::f();
                    for &a in c.iter().filter(|a| !ok.contains(a)) {
                        bad = e::or(bad, e::eq(ai, e::konst(a as u128, pw)));
                    }
                    if self.query(st, bad)?.is_some() {
                        inr = false;
                    }
                }
                if inr && !ok.is_empty() {
                    let w = self.w(t);
                    let mut groups: Vec<(V, Vec<u64>)> = vec![];
                    let mut idx: HashMap<u128, usize> = HashMap::new();
                    for &a in &ok {
                        let v = self.load_ty(st, t, a)?;
                        let key = match &v {
                            V::C(k) => *k,
                            V::S(i) => (1u128 << 127) | *i as u128,
                            _ => unreachable!(),
                        };
                        let g = *idx.entry(key).or_insert_with(|| {
                            groups.push((v, vec![]));
                            groups.len() - 1
                        });
                        groups[g].1.push(a);
                    }
                    // biggest group is the default
                    let big = (0..groups.len()).max_by_key(|&g| groups[g].1.len()).unwrap();
                    let d = groups.remove(big);
                    let mut acc = d.0.id(w);
                    for (v, asx) in groups {
                        let mut c = e::f();
                        for a in asx {
                            c = e::or(c, e::eq(ai, e::konst(a as u128, pw)));
                        }
                        acc = e::ite(c, v.id(w), acc);
                    }
                    return Ok(V::from(acc));
                }
            }
        }
        let a = self.conc(st, &V::S(ai), self.pw)? as u64;
        self.load_ty(st, t, a)
    }

    // ---------- operands ----------

    fn ev(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::Const(k) => V::C(*k),
            Opd::Agg(v) => V::A(Rc::new(v.iter().map(|(t, o)| self.ev_t(fr, t, o)).collect())),
            Opd::Zero => V::C(0),
            Opd::Bytes(b) => V::A(Rc::new(b.iter().map(|&x| V::C(x as u128)).collect())),
            _ => panic!("operand {o:?}"),
        }
    }
    fn ev_t(&self, fr: &Frame, t: &Ty, o: &Opd) -> V {
        if let Opd::Zero = o {
            return self.zero(t);
        }
        self.ev(fr, o)
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            Ty::Arr(n, el) | Ty::Vec(n, el) => V::A(Rc::new((0..*n).map(|_| self.zero(el)).collect())),
            _ => V::C(0),
        }
    }

    fn bin(&self, op: &str, w: u8, a: &V, b: &V) -> V {
        let m = e::mask(w);
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "mul" => x.wrapping_mul(y),
                "and" => x & y,
                "or" => x | y,
                "xor" => x ^ y,
                "shl" => if y >= w as u128 { 0 } else { x << y },
                "lshr" => if y >= w as u128 { 0 } else { x >> y },
                "ashr" => (e::sext_to(x, w) >> y.min(w as u128 - 1)) as u128,
                "udiv" => if y == 0 { 0 } else { x / y },
                "urem" => if y == 0 { 0 } else { x % y },
                "sdiv" => if y == 0 { 0 } else { e::sext_to(x, w).wrapping_div(e::sext_to(y, w)) as u128 },
                "srem" => if y == 0 { 0 } else { e::sext_to(x, w).wrapping_rem(e::sext_to(y, w)) as u128 },
                _ => panic!("{op}"),
            };
            return V::C(r & m);
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            return V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.bin(op, w, p, q)).collect()));
        }
        let (x, y) = (a.id(w), b.id(w));
        V::from(match op {
            "add" => e::add(x, y),
            "sub" => e::sub(x, y),
            "mul" => e::mul(x, y),
            "and" => e::and(x, y),
            "or" => e::or(x, y),
            "xor" => e::xor(x, y),
            "shl" => e::shl(x, y),
            "lshr" => e::lshr(x, y),
            "ashr" => e::ashr(x, y),
            "udiv" => e::udiv(x, y),
            "urem" => e::urem(x, y),
            "sdiv" => e::sdiv(x, y),
            "srem" => e::srem(x, y),
            _ => panic!("{op}"),
        })
    }
    fn vec_bitcast(&self, t: &Ty, x: &V, to: &Ty) -> V {
        // lane 0 is the least significant
        let mut bits = match (t, x) {
            (Ty::Vec(_, el), V::A(v)) => {
                let w = self.w(el);
                let mut acc = v[0].id(w);
                for l in &v[1..] {
                    acc = e::concat(l.id(w), acc);
                }
                acc
            }
            _ => x.id(self.w(t)),
        };
        match to {
            Ty::Vec(n, el) => {
                let w = self.w(el);
                let mut r = vec![];
                for i in 0..*n {
                    r.push(V::from(e::extract(bits, i as u32 * w as u32, w)));
                }
                V::A(Rc::new(r))
            }
            _ => {
                let w = self.w(to);
                if e::width(bits) != w {
                    bits = e::trunc(bits, w);
                }
                V::from(bits)
            }
        }
    }
    fn icmp(&self, op: &str, w: u8, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (e::sext_to(x, w), e::sext_to(y, w));
            return V::C(match op {
                "eq" => x == y,
                "ne" => x != y,
                "ult" => x < y,
                "ule" => x <= y,
                "ugt" => x > y,
                "uge" => x >= y,
                "slt" => sx < sy,
                "sle" => sx <= sy,
                "sgt" => sx > sy,
                "sge" => sx >= sy,
                _ => panic!("{op}"),
            } as u128);
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            return V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.icmp(op, w, p, q)).collect()));
        }
        let (x, y) = (a.id(w), b.id(w));
        V::from(match op {
            "eq" => e::eq(x, y),
            "ne" => e::not(e::eq(x, y)),
            "ult" => e::ult(x, y),
            "ule" => e::ule(x, y),
            "ugt" => e::ult(y, x),
            "uge" => e::ule(y, x),
            "slt" => e::slt(x, y),
            "sle" => e::sle(x, y),
            "sgt" => e::slt(y, x),
            "sge" => e::sle(y, x),
            _ => panic!("{op}"),
        })
    }

    fn gep(&self, fr: &Frame, bt: &Ty, ops: &[(Ty, Opd)]) -> V {
        let pw = self.pw;
        let mut acc = self.ev(fr, &ops[0].1);
        let mut ty = bt.clone();
        for (i, (it, io)) in ops[1..].iter().enumerate() {
            let v = self.ev(fr, io);
            let Ty::Int(iw) = it else { panic!() };
            let scale;
            if i == 0 {
                scale = self.m.size(&ty);
            } else {
                match ty.clone() {
                    Ty::Struct(fs, _) => {
                        let V::C(k) = v else { panic!() };
                        let off = self.m.field_off(&ty, k as usize);
                        acc = self.bin("add", pw, &acc, &V::C(off as u128));
                        ty = fs[k as usize].clone();
                        continue;
                    }
                    Ty::Arr(_, el) | Ty::Vec(_, el) => {
                        scale = self.m.size(&el);
                        ty = (*el).clone();
                    }
                    _ => panic!(),
                }
            }
            let off = match v {
                V::C(k) => V::C((e::sext_to(k, *iw as u8) as u128).wrapping_mul(scale as u128) & e::mask(pw)),
                V::S(x) => {
                    let x = if *iw as u8 > pw { e::trunc(x, pw) } else { e::sext(x, pw) };
                    V::from(e::mul(x, e::konst(scale as u128, pw)))
                }
                _ => panic!(),
            };
            acc = self.bin("add", pw, &acc, &off);
        }
        acc
    }

    // ---------- driver ----------

    pub fn run(&mut self, entry: &str) {
        self.start = Instant::now();
        let Some(f) = self.func(entry) else {
            self.errors.insert(format!("no function {entry}"), 1);
            return;
        };
        let mut st = State {
            threads: vec![],
            cur: 0,
            pages: Pages::default(),
            heap: Rc::new(vec![]),
            heap_top: HEAP_BASE,
            placed: vec![],
            pc: vec![],
            known: Rc::new(HashMap::new()),
            bits: Rc::new(HashMap::new()),
            model: Rc::new(Model::new(vec![])),
            inputs: vec![],
            notes: vec![],
            covers: vec![],
            sched: vec![],
            preempt: 0,
            yielded: false,
            steps: 0,
            depth: 0,
            panic_mode: 0,
            strict_mem: true,
            tls: vec![],
        };
        self.spawn(&mut st, f, vec![]);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.o.max_secs {
                self.err("time limit: exploration incomplete".into());
                break;
            }
            if self.stats.paths >= self.o.max_paths {
                self.err("path limit: exploration incomplete".into());
                break;
            }
            if self.viol.len() >= self.o.max_viol {
                break;
            }
            let s0 = st.steps;
            let r = self.run_state(&mut st);
            self.stats.steps += st.steps - s0;
            if let Err(stop) = r {
                self.finish(st, stop);
            }
        }
    }
    fn err(&mut self, m: String) {
        *self.errors.entry(m).or_default() += 1;
    }
    fn finish(&mut self, st: State, stop: Stop) {
        self.stats.paths += 1;
        let key;
        match stop {
            Stop::End(r) => {
                key = r.to_string();
                if r == "done" {
                    for c in &st.covers {
                        *self.stats.covers.entry(*c).or_default() += 1;
                    }
                    // keep the first few and then exponentially spaced completed paths
                    let n = self.stats.ended.get("done").copied().unwrap_or(0);
                    let keep = n < 4 || (n & (n - 1)) == 0;
                    if keep && self.wit.len() < self.o.witnesses {
                        let w = self.witness(&st, &st.model.clone(), 0, "path", String::new());
                        self.wit.push(w);
                    }
                }
            }
            Stop::Panic(loc) => {
                key = "panic".to_string();
                *self.stats.panics.entry(loc.clone()).or_default() += 1;
                for c in &st.covers {
                    *self.stats.covers.entry(*c).or_default() += 1;
                }
                if st.panic_mode == 1 {
                    let w = self.witness(&st, &st.model.clone(), 0, "panic", format!("panicked at {loc}"));
                    self.viol.push(w);
                }
            }
            Stop::Violation(id, m) => {
                key = "violation".to_string();
                let kind = if m.starts_with("memory") { "memory" } else if m.starts_with("hang") { "hang" } else { "check" };
                let w = self.witness(&st, &st.model.clone(), id, kind, m);
                self.viol.push(w);
            }
            Stop::Error(m) => {
                key = "error".to_string();
                let at = st.threads[st.cur].frames.last().map(|f| format!("{}:{}", f.f.name, f.f.blocks[f.blk].name)).unwrap_or_default();
                self.err(format!("{m} [in {at}]"));
            }
        }
        *self.stats.ended.entry(key).or_default() += 1;
    }
    fn witness(&self, st: &State, m: &Model, id: u32, kind: &str, msg: String) -> Witness {
        Witness {
            id,
            kind: kind.to_string(),
            msg,
            inputs: st
                .inputs
                .iter()
                .map(|(t, b)| (*t, b.iter().map(|&i| m.eval(i) as u8).collect()))
                .collect(),
            notes: st
                .notes
                .iter()
                .map(|(i, v)| {
                    (*i, match v {
                        V::C(k) => *k as u64,
                        V::S(x) => m.eval(*x) as u64,
                        _ => 0,
                    })
                })
                .collect(),
            sched: st.sched.clone(),
            path: self.stats.paths,
        }
    }

    fn spawn(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>) {
        let sp = STACK_TOP - st.threads.len() as u64 * STACK_SIZE - 64;
        let mut regs = vec![V::C(0); f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[p.0 as usize] = a;
        }
        st.threads.push(Thread {
            frames: vec![Frame {
                f,
                blk: 0,
                ip: 0,
                prev: 0,
                regs,
                dst: None,
                sp,
                thunk: None,
                asm_done: false,
                catch: false,
                unw: None,
            }],
            sp,
            done: false,
            wait: None,
            joining: false,
        });
    }

    fn goto(&mut self, st: &mut State, to: usize) {
        let fr = self.fr(st);
        let from = fr.blk;
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
        let f = fr.f.clone();
        let b = &f.blocks[to];
        if b.nphi > 0 {
            let fr: &Frame = st.threads[st.cur].frames.last().unwrap();
            let mut vals = Vec::with_capacity(b.nphi);
            for i in &b.ins[..b.nphi] {
                if let Ins::Phi(d, t, v) = i {
                    let o = &v.iter().find(|x| x.1 == from).expect("phi").0;
                    vals.push((*d, self.ev_t(fr, t, o)));
                }
            }
            let fr = self.fr(st);
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
            fr.ip = b.nphi;
        }
    }

    fn run_state(&mut self, st: &mut State) -> R<()> {
        let mut tick = 0u32;
        loop {
            st.steps += 1;
            tick += 1;
            if st.steps > self.o.max_steps {
                return Err(Stop::Violation(0, format!("hang: no result after {} instructions", self.o.max_steps)));
            }
            if tick & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.o.max_secs {
                return Err(Stop::Error("time limit: exploration incomplete".into()));
            }
            self.step(st)?;
        }
    }

    fn set(&self, st: &mut State, d: u32, v: V) {
        let fr = self.fr(st);
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        let fr = st.threads[cur].frames.last().unwrap();
        let f = fr.f.clone();
        let Some(ins) = f.blocks[fr.blk].ins.get(fr.ip) else {
            return Err(Stop::Error("fell off block".into()));
        };
        if self.o.trace {
            eprintln!("[{}] {}:{} {:?}", st.steps, f.name, f.blocks[fr.blk].name, ins);
        }
        match ins {
            Ins::Bin(d, op, t, a, b) => {
                let (x, y) = (self.ev_t(fr, t, a), self.ev_t(fr, t, b));
                let w = match t {
                    Ty::Vec(_, el) => self.w(el),
                    _ => self.w(t),
                };
                if matches!(op.as_str(), "udiv" | "urem" | "sdiv" | "srem") {
                    if let V::C(0) = y {
                        return Err(Stop::Error("division by zero".into()));
                    }
                }
                let v = self.bin(op, w, &x, &y);
                self.set(st, *d, v);
            }
            Ins::Icmp(d, op, t, a, b) => {
                let (x, y) = (self.ev_t(fr, t, a), self.ev_t(fr, t, b));
                let w = match t {
                    Ty::Vec(_, el) => self.w(el),
                    _ => self.w(t),
                };
                let v = self.icmp(op, w, &x, &y);
                self.set(st, *d, v);
            }
            Ins::Cast(d, op, t, a, to) => {
                let x = self.ev_t(fr, t, a);
                let v = match (op.as_str(), &x) {
                    ("bitcast", _) if matches!(t, Ty::Vec(..)) || matches!(to, Ty::Vec(..)) => self.vec_bitcast(t, &x, to),
                    (_, V::A(v)) => {
                        let (Ty::Vec(_, te), Ty::Vec(_, toe)) = (t, to) else {
                            return Err(Stop::Error("vector cast".into()));
                        };
                        let (w, tw) = (self.w(te), self.w(toe));
                        V::A(Rc::new(v.iter().map(|x| cast1(op, w, tw, x)).collect()))
                    }
                    _ => {
                        if matches!(to, Ty::Vec(..)) {
                            return Err(Stop::Error("vector bitcast".into()));
                        }
                        cast1(op, self.w(t), self.w(to), &x)
                    }
                };
                self.set(st, *d, v);
            }
            Ins::Select(d, c, t, a, b, _) => {
                let cv = self.ev(fr, c);
                let (x, y) = (self.ev_t(fr, t, a), self.ev_t(fr, t, b));
                let v = match cv {
                    V::C(k) => if k & 1 == 1 { x } else { y },
                    V::S(ci) => match (&x, &y) {
                        (V::A(_), _) | (_, V::A(_)) => {
                            if self.fork_bool(st, ci)? { x } else { y }
                        }
                        _ => {
                            let w = self.w(t);
                            V::from(e::ite(ci, x.id(w), y.id(w)))
                        }
                    },
                    V::A(cs) => match (t, &x, &y) {
                        (Ty::Vec(_, el), V::A(xs), V::A(ys)) => {
                            let w = self.w(el);
                            let mut r = vec![];
                            for (i, c) in cs.iter().enumerate() {
                                r.push(V::from(e::ite(c.id(1), xs[i].id(w), ys[i].id(w))));
                            }
                            V::A(Rc::new(r))
                        }
                        _ => return Err(Stop::Error("vector select".into())),
                    },
                };
                self.set(st, *d, v);
            }
            Ins::Load(d, t, a, at) => {
                let av = self.ev(fr, a);
                if *at {
                    self.sched_point(st)?;
                }
                let v = match av {
                    V::C(k) => self.load_ty(st, t, k as u64)?,
                    V::S(i) => self.load_sym(st, t, i)?,
                    _ => panic!(),
                };
                self.set(st, *d, v);
            }
            Ins::Store(t, v, a, at) => {
                let (vv, av) = (self.ev_t(fr, t, v), self.ev(fr, a));
                if *at {
                    self.sched_point(st)?;
                }
                let a = self.conc(st, &av, self.pw)? as u64;
                self.store_ty(st, t, &vv, a)?;
                self.fr(st).ip += 1;
            }
            Ins::Gep(d, t, ops) => {
                let v = self.gep(fr, t, ops);
                self.set(st, *d, v);
            }
            Ins::Alloca(d, t, n, al) => {
                let cnt = match n {
                    None => 1,
                    Some((_, o)) => match self.ev(fr, o) {
                        V::C(k) => k as u64,
                        v => self.conc(st, &v, 32)? as u64,
                    },
                };
                let sz = self.m.size(t) * cnt;
                let th = &mut st.threads[cur];
                let a = (th.sp - sz) / al.max(&1) * al.max(&1);
                th.sp = a;
                self.set(st, *d, V::C(a as u128));
            }
            Ins::Br(b) => self.goto(st, *b),
            Ins::CondBr(c, a, b) => {
                let t = match self.ev(fr, c) {
                    V::C(k) => k & 1 == 1,
                    V::S(i) => self.fork_bool(st, i)?,
                    _ => panic!(),
                };
                self.goto(st, if t { *a } else { *b });
            }
            Ins::Switch(t, v, def, cs) => {
                let w = self.w(t);
                let to = match self.ev(fr, v) {
                    V::C(k) => cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    V::S(i) => {
                        // group cases by target
                        let mut g: Vec<(usize, Id)> = vec![];
                        for (k, b) in cs {
                            let c = e::eq(i, e::konst(*k, w));
                            match g.iter_mut().find(|x| x.0 == *b) {
                                Some(x) => x.1 = e::or(x.1, c),
                                None => g.push((*b, c)),
                            }
                        }
                        // find the side chosen by the model and split it off
                        let k = st.model.eval(i);
                        let to = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        let cond = if to == *def {
                            let mut any = e::f();
                            for (b, c) in &g {
                                if *b != *def {
                                    any = e::or(any, *c);
                                }
                            }
                            e::not(any)
                        } else {
                            g.iter().find(|x| x.0 == to).unwrap().1
                        };
                        let r = self.fork_bool(st, cond)?;
                        debug_assert!(r);
                        to
                    }
                    _ => panic!(),
                };
                self.goto(st, to);
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|(t, o)| self.ev_t(fr, t, o));
                self.ret(st, v)?;
            }
            Ins::Unreachable => return Err(Stop::Violation(0, format!("memory: reached code the compiler considers impossible (undefined behaviour) in {}", f.name))),
            Ins::Extract(d, t, o, ix) => {
                let mut v = self.ev_t(fr, t, o);
                for &i in ix {
                    v = match v {
                        V::A(x) => x[i as usize].clone(),
                        _ => return Err(Stop::Error("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Ins::Insert(d, t, o, t2, o2, ix) => {
                let mut v = self.ev_t(fr, t, o);
                let n = self.ev_t(fr, t2, o2);
                fn put(v: &mut V, ix: &[u64], n: V) {
                    if ix.is_empty() {
                        *v = n;
                    } else if let V::A(x) = v {
                        put(&mut Rc::make_mut(x)[ix[0] as usize], &ix[1..], n);
                    }
                }
                put(&mut v, ix, n);
                self.set(st, *d, v);
            }
            Ins::Phi(..) => return Err(Stop::Error("phi".into())),
            Ins::Rmw(d, op, a, t, v) => {
                let (av, x) = (self.ev(fr, a), self.ev(fr, v));
                self.sched_point(st)?;
                let a = self.conc(st, &av, self.pw)? as u64;
                let w = self.w(t);
                let old = self.load_ty(st, t, a)?;
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" | "sub" | "and" | "or" | "xor" => self.bin(op, w, &old, &x),
                    _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                };
                self.store_ty(st, t, &new, a)?;
                self.set(st, *d, old);
            }
            Ins::CmpXchg(d, a, t, c, n) => {
                let (av, cv, nv) = (self.ev(fr, a), self.ev(fr, c), self.ev(fr, n));
                self.sched_point(st)?;
                let a = self.conc(st, &av, self.pw)? as u64;
                let w = self.w(t);
                let old = self.load_ty(st, t, a)?;
                let eq = self.icmp("eq", w, &old, &cv);
                let ok = match eq {
                    V::C(k) => k == 1,
                    V::S(i) => self.fork_bool(st, i)?,
                    _ => panic!(),
                };
                if ok {
                    self.store_ty(st, t, &nv, a)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
            }
            Ins::Fence => self.fr(st).ip += 1,
            Ins::Freeze(d, t, o) => {
                let v = self.ev_t(fr, t, o);
                self.set(st, *d, v);
            }
            Ins::Call(d, rt, callee, args, unw) => {
                let mut av = Vec::with_capacity(args.len());
                for (t, o, _) in args {
                    av.push(self.ev_t(fr, t, o));
                }
                match callee {
                    Callee::Fn(n) => self.call(st, *d, rt, n, av, args, *unw)?,
                    Callee::Ptr(o, sig) => {
                        let v = self.ev(fr, o);
                        let a = self.conc(st, &v, self.pw)? as u64;
                        self.call_addr(st, *d, rt, a, av, args, *unw, sig)?
                    }
                    Callee::Asm { text, .. } => {
                        if mach::is_thunk_block(text) {
                            let fr = self.fr(st);
                            let Some(v) = fr.thunk.clone() else {
                                return Err(Stop::Violation(0, "exec: a thunk template was executed directly, without its closure address filled in".into()));
                            };
                            if fr.asm_done {
                                return Err(Stop::Error("thunk block executed twice".into()));
                            }
                            fr.asm_done = true;
                            let v = match rt {
                                Ty::Struct(..) => V::A(v),
                                _ => v[0].clone(),
                            };
                            self.set(st, d.unwrap(), v);
                        } else if text.trim().is_empty() {
                            if let Some(d) = d {
                                let z = self.zero(rt);
                                self.fr(st).regs[*d as usize] = z;
                            }
                            self.fr(st).ip += 1;
                        } else {
                            return Err(Stop::Error(format!("inline asm {text:?}")));
                        }
                    }
                }
            }
            Ins::Unsupported(l) => return Err(Stop::Error(format!("unsupported instruction {l}"))),
        }
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let cur = st.cur;
        let fr = st.threads[cur].frames.pop().unwrap();
        st.threads[cur].sp = fr.sp;
        if st.threads[cur].frames.is_empty() {
            st.threads[cur].done = true;
            if cur == 0 {
                return Err(Stop::End("done"));
            }
            return self.pick_other(st);
        }
        let v = if fr.catch { Some(V::C(0)) } else { v };
        let up = st.threads[cur].frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (fr.dst, v) {
            up.regs[d as usize] = v;
        }
        match fr.unw {
            Some((n, _)) => self.goto(st, n),
            None => up.ip += 1,
        }
        Ok(())
    }

    fn enter(&mut self, st: &mut State, f: Rc<Func>, d: Option<u32>, av: Vec<V>, thunk: Option<Rc<Vec<V>>>, unw: Option<(usize, usize)>) -> R<()> {
        let cur = st.cur;
        if st.threads[cur].frames.len() > 400 {
            return Err(Stop::Error("call depth".into()));
        }
        let sp = st.threads[cur].sp;
        let mut regs = vec![V::C(0); f.nregs];
        let params: Vec<_> = f.params.iter().map(|p| (p.0, p.2)).collect();
        for (i, (r, by)) in params.into_iter().enumerate() {
            let Some(a) = av.get(i).cloned() else {
                return Err(Stop::Error(format!("argument count of {}", f.name)));
            };
            regs[r as usize] = match by {
                Some(n) => {
                    let src = self.conc(st, &a, self.pw)? as u64;
                    let dst = (st.threads[cur].sp - n) / 16 * 16;
                    st.threads[cur].sp = dst;
                    for j in 0..n {
                        let b = self.rd8(st, src + j);
                        self.wr8(st, dst + j, b);
                    }
                    V::C(dst as u128)
                }
                None => a,
            };
        }
        st.threads[cur].frames.push(Frame {
            f,
            blk: 0,
            ip: 0,
            prev: 0,
            regs,
            dst: d,
            sp,
            thunk,
            asm_done: false,
            catch: false,
            unw,
        });
        Ok(())
    }

    fn call_addr(&mut self, st: &mut State, d: Option<u32>, rt: &Ty, a: u64, av: Vec<V>, args: &[(Ty, Opd, Option<u64>)], unw: Option<(usize, usize)>, sig: &str) -> R<()> {
        if let Some(&i) = self.fn_by_addr.get(&a) {
            let n = self.imgs[i].name.clone();
            if let Some(f) = self.func(&n) {
                same_abi(sig, &f)?;
            }
            return self.call(st, d, rt, &n, av, args, unw);
        }
        // emitted code: follow it until it leaves for a compiled function
        if self.thumb() != (a & 1 == 1) && self.m.ptr_bytes == 4 && !self.m.triple.starts_with("i686") {
            return Err(Stop::Violation(0, format!("exec: call to {a:#x} switches instruction set state")));
        }
        let code = if self.thumb() { a & !1 } else { a };
        let triple = self.m.triple.clone();
        let r = {
            let this: &Machine = self;
            let mut rd = |addr: u64, n: u64| -> Result<V, String> {
                this.valid(st, addr, n, false)?;
                Ok(this.rd(st, addr, n))
            };
            mach::follow(&triple, code, &mut rd)
        };
        let out = match r {
            Ok(o) => o,
            Err(m) if m.starts_with("undecoded") => return Err(Stop::Error(m)),
            Err(m) => return Err(Stop::Violation(0, format!("exec: {m}"))),
        };
        let t = self.conc(st, &out.target, self.pw)? as u64;
        let t = if self.thumb() {
            if t & 1 == 0 {
                return Err(Stop::Violation(0, "exec: thunk returns to Thumb code without the Thumb bit".into()));
            }
            t & !1
        } else {
            t
        };
        let Some(im) = self.imgs.iter().position(|i| i.thunk && i.entry == t) else {
            return Err(Stop::Violation(0, format!("exec: emitted thunk jumps to {t:#x}, which is not the continuation of a compiled thunk")));
        };
        let n = self.imgs[im].name.clone();
        let f = self.func(&n).unwrap();
        same_abi(sig, &f)?;
        // the outputs of the block; a register that is neither output nor clobber must survive
        let outs = &self.imgs[im].outs;
        let c: Vec<V> = outs.iter().map(|r| out.regs.get(r).cloned().unwrap_or(V::C(0xbad0))).collect();
        if let Some(r) = out.regs.keys().find(|r| !outs.contains(r) && !mach::clobbered(&triple, **r, &self.imgs[im].cons)) {
            return Err(Stop::Violation(0, format!("exec: emitted thunk overwrites register {r}, which the compiler does not expect")));
        }
        let c = Rc::new(c);
        self.enter(st, f, d, av, Some(c), unw)
    }

    fn is_noreturn(&mut self, n: &str) -> bool {
        if let Some(&b) = self.noreturn.get(n) {
            return b;
        }
        // attribute groups are referenced by number; look at the definition/declaration line
        let line = match (self.m.fns.get(n), self.m.decls.get(n)) {
            (Some(&(s, _)), _) | (None, Some(&s)) => self.m.text[s..].lines().next().unwrap_or("").to_string(),
            _ => String::new(),
        };
        let mut b = line.contains("noreturn");
        for g in line.split('#').skip(1) {
            let k: String = g.chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Some(i) = self.m.text.find(&format!("\nattributes #{k} = ")) {
                let l = self.m.text[i + 1..].lines().next().unwrap_or("");
                if l.contains("noreturn") {
                    b = true;
                }
            }
        }
        self.noreturn.insert(n.to_string(), b);
        b
    }

    fn do_panic(&mut self, st: &mut State, av: &[V]) -> R<()> {
        let loc = self.panic_loc(st, av);
        let cur = st.cur;
        // unwind to the innermost catch
        if let Some(i) = st.threads[cur].frames.iter().rposition(|f| f.catch) {
            let fr = st.threads[cur].frames[i].clone();
            st.threads[cur].frames.truncate(i);
            st.threads[cur].sp = fr.sp;
            *self.stats.panics.entry(loc).or_default() += 1;
            let up = st.threads[cur].frames.last_mut().unwrap();
            if let Some(d) = fr.dst {
                up.regs[d as usize] = V::C(1);
            }
            match fr.unw {
                Some((n, _)) => self.goto(st, n),
                None => up.ip += 1,
            }
            return Ok(());
        }
        Err(Stop::Panic(loc))
    }
    fn panic_loc(&self, st: &State, av: &[V]) -> String {
        let pb = self.m.ptr_bytes;
        for v in av.iter().rev() {
            if let V::C(p) = v {
                let p = *p as u64;
                if self.valid(st, p, pb * 2 + 8, false).is_err() {
                    continue;
                }
                let (V::C(s), V::C(l), V::C(line)) = (self.rd(st, p, pb), self.rd(st, p + pb, pb), self.rd(st, p + 2 * pb, 4)) else { continue };
                let (s, l) = (s as u64, l as u64);
                if l == 0 || l > 300 || self.valid(st, s, l, false).is_err() {
                    continue;
                }
                let txt: Vec<u8> = (0..l)
                    .map(|i| match self.rd8(st, s + i) {
                        V::C(k) => k as u8,
                        _ => b'?',
                    })
                    .collect();
                if let Ok(t) = String::from_utf8(txt) {
                    if t.contains(".rs") {
                        return format!("{t}:{line}");
                    }
                }
            }
        }
        "?".into()
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, rt: &Ty, n: &str, av: Vec<V>, args: &[(Ty, Opd, Option<u64>)], unw: Option<(usize, usize)>) -> R<()> {
        if n.starts_with("llvm.") && st.threads.len() > 1 && (n.contains(".pause") || n.contains(".hint") || n.contains(".isb")) {
            // a spinning thread lets the others run
            self.fr(st).ip += 1;
            let r = self.runnable(st);
            if let Some(&f) = r.iter().find(|&&t| t > st.cur).or(r.first()) {
                if f != st.cur {
                    st.cur = f;
                    st.sched.push(f as u8);
                }
            }
            return Ok(());
        }
        if n.starts_with("llvm.") || n.starts_with("vf_") {
            let v = if n.starts_with("llvm.") {
                self.intrinsic(st, n, &av, args, rt)?
            } else {
                match self.vf(st, n, &av, d, unw)? {
                    Some(v) => v,
                    None => return Ok(()), // control already transferred
                }
            };
            let fr = self.fr(st);
            if let Some(d) = d {
                fr.regs[d as usize] = v;
            }
            return match unw {
                Some((b, _)) => {
                    self.goto(st, b);
                    Ok(())
                }
                None => {
                    fr.ip += 1;
                    Ok(())
                }
            };
        }
        if is_panic_name(n) && self.is_noreturn(n) {
            return self.do_panic(st, &av);
        }
        let cacheflush = n == "syscall" && matches!(av[0], V::C(0xf0002));
        if cacheflush || n == "__clear_cache" {
            // cache maintenance on 32-bit Arm
            if let Some(f) = self.func("vfja_cacheflush") {
                let k = cacheflush as usize;
                return self.enter(st, f, d, av[k..k + 2].to_vec(), None, unw);
            }
        }
        match n {
            "memcpy" | "memmove" | "bcmp" | "memcmp" | "strlen" | "memset" | "syscall" | "sched_yield" | "__errno_location" | "sysconf" | "memchr" | "pthread_key_create"
            | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "malloc" | "free" => {
                let v = self.libc(st, n, &av, args)?;
                let fr = self.fr(st);
                if let Some(d) = d {
                    fr.regs[d as usize] = v;
                }
                fr.ip += 1;
                if st.threads[st.cur].wait.is_some() {
                    return self.pick_other(st);
                }
                return Ok(());
            }
            _ => (),
        }
        if n.contains("no_alloc_shim_is_unstable") {
            self.fr(st).ip += 1;
            return Ok(());
        }
        match self.func(n) {
            Some(f) => self.enter(st, f, d, av, None, unw),
            None => Err(Stop::Error(format!("call to external function {n}"))),
        }
    }

    fn len(&mut self, st: &mut State, v: &V) -> R<u64> {
        Ok(self.conc(st, v, self.pw)? as u64)
    }
    fn lenw(&mut self, st: &mut State, v: &V, w: u8) -> R<u64> {
        Ok(self.conc(st, v, w)? as u64)
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if let Err(m) = self.valid(st, s, n, false) {
            return self.mem_err(m);
        }
        if let Err(m) = self.valid(st, d, n, true) {
            return self.mem_err(m);
        }
        let b: Vec<V> = (0..n).map(|i| self.rd8(st, s + i)).collect();
        for (i, v) in b.into_iter().enumerate() {
            self.wr8(st, d + i as u64, v);
        }
        Ok(())
    }

    fn libc(&mut self, st: &mut State, n: &str, av: &[V], args: &[(Ty, Opd, Option<u64>)]) -> R<V> {
        let pw = self.pw;
        Ok(match n {
            "memcpy" | "memmove" => {
                let (d, s, l) = (self.len(st, &av[0])?, self.len(st, &av[1])?, self.len(st, &av[2])?);
                self.copy(st, d, s, l)?;
                av[0].clone()
            }
            "memset" => {
                let (d, l) = (self.len(st, &av[0])?, self.len(st, &av[2])?);
                if let Err(m) = self.valid(st, d, l, true) {
                    return self.mem_err(m);
                }
                let b = cast1("trunc", 32, 8, &av[1]);
                for i in 0..l {
                    self.wr8(st, d + i, b.clone());
                }
                av[0].clone()
            }
            "bcmp" | "memcmp" => {
                let (a, b, l) = (self.len(st, &av[0])?, self.len(st, &av[1])?, self.len(st, &av[2])?);
                for p in [a, b] {
                    if let Err(m) = self.valid(st, p, l, false) {
                        return self.mem_err(m);
                    }
                }
                let mut all = e::t();
                let mut ord = e::konst(0, 32);
                for i in (0..l).rev() {
                    let (x, y) = (self.rd8(st, a + i).id(8), self.rd8(st, b + i).id(8));
                    let q = e::eq(x, y);
                    if n == "bcmp" {
                        all = e::and(all, q);
                    } else {
                        let lt = e::ite(e::ult(x, y), e::konst(0xffff_ffff, 32), e::konst(1, 32));
                        ord = e::ite(q, ord, lt);
                    }
                }
                if n == "bcmp" { V::from(e::zext(e::not(all), 32)) } else { V::from(ord) }
            }
            "strlen" => {
                let a = self.len(st, &av[0])?;
                let mut i = 0;
                loop {
                    let b = self.rd_chk(st, a + i, 1)?;
                    if self.conc(st, &b, 8)? == 0 {
                        break V::C(i as u128);
                    }
                    i += 1;
                }
            }
            "sched_yield" => {
                self.sched_point(st)?;
                V::C(0)
            }
            "syscall" => {
                let nr = match &av[0] {
                    V::C(k) => *k as u64,
                    _ => return Err(Stop::Error("syscall".into())),
                };
                let _ = (args, pw);
                self.syscall(st, nr, av)?
            }
            "sysconf" => V::C(4096),
            // the C heap, used by the runtime only
            "malloc" => {
                let s = self.len(st, &av[0])?;
                let b = st.heap_top.div_ceil(16) * 16;
                st.heap_top = b + s + 32;
                if s > 0x10_0000 || st.heap_top > HEAP_END {
                    return Err(Stop::Error("heap exhausted".into()));
                }
                Rc::make_mut(&mut st.heap).push(HeapObj { base: b, size: s, align: 0, live: true });
                V::C(b as u128)
            }
            "free" => {
                let p = self.len(st, &av[0])?;
                match Rc::make_mut(&mut st.heap).iter_mut().find(|h| h.base == p) {
                    Some(h) if h.align == 0 && h.live => h.live = false,
                    _ if p == 0 => (),
                    _ => return self.mem_err(format!("free of {p:#x}, which is not an allocated block")),
                }
                V::C(0)
            }
            // destructors of thread-local values are not run
            "pthread_key_create" => {
                let a = self.len(st, &av[0])?;
                if let Err(m) = self.valid(st, a, 4, true) {
                    return self.mem_err(m);
                }
                for i in 0..4 {
                    self.wr8(st, a + i, V::C((i == 0) as u128));
                }
                V::C(0)
            }
            "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" => V::C(0),
            _ => return Err(Stop::Error(format!("call to external function {n}"))),
        })
    }

    // ---------- threads ----------

    fn runnable(&self, st: &State) -> Vec<usize> {
        let all = (1..st.threads.len()).all(|i| st.threads[i].done);
        (0..st.threads.len()).filter(|&i| !st.threads[i].done && st.threads[i].wait.is_none() && (all || !st.threads[i].joining)).collect()
    }
    fn pick_other(&mut self, st: &mut State) -> R<()> {
        let r = self.runnable(st);
        if r.is_empty() {
            return Err(Stop::Violation(0, "hang: deadlock, no thread can run".into()));
        }
        for &t in &r[1..] {
            let mut o = st.clone();
            o.cur = t;
            o.sched.push(t as u8);
            self.stats.forks += 1;
            self.work.push(o);
        }
        st.cur = r[0];
        st.sched.push(r[0] as u8);
        Ok(())
    }
    /// A point where another thread may run first (bounded number of preemptions per path).
    fn sched_point(&mut self, st: &mut State) -> R<()> {
        if st.threads.len() < 2 {
            return Ok(());
        }
        if st.yielded {
            st.yielded = false;
            return Ok(());
        }
        if st.preempt < self.o.preempt {
            for t in self.runnable(st) {
                if t != st.cur {
                    let mut o = st.clone();
                    o.cur = t;
                    o.preempt += 1;
                    o.sched.push(t as u8);
                    self.stats.forks += 1;
                    self.work.push(o);
                }
            }
        }
        Ok(())
    }
    fn syscall(&mut self, st: &mut State, nr: u64, av: &[V]) -> R<V> {
        // futex only
        let futex = [202u64, 98, 240].contains(&nr);
        if !futex {
            return Err(Stop::Error(format!("syscall {nr}")));
        }
        let a = self.len(st, &av[1])?;
        let op = self.lenw(st, &av[2], 32)? & 0x7f;
        let val = self.lenw(st, &av[3], 32)?;
        match op {
            0 | 9 => {
                let cur = self.rd_chk(st, a, 4)?;
                let cur = self.conc(st, &cur, 32)? as u64;
                if cur != val {
                    return Ok(V::C(e::mask(self.pw)));
                }
                let c = st.cur;
                st.threads[c].wait = Some(a);
                Ok(V::C(0))
            }
            1 | 10 => {
                let mut n = 0;
                for t in st.threads.iter_mut() {
                    if t.wait == Some(a) && n < val {
                        t.wait = None;
                        n += 1;
                    }
                }
                Ok(V::C(n as u128))
            }
            _ => Err(Stop::Error(format!("futex op {op}"))),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, av: &[V], args: &[(Ty, Opd, Option<u64>)], rt: &Ty) -> R<V> {
        let base = n.split('.').nth(1).unwrap();
        let w0 = || match &args[0].0 {
            Ty::Int(w) => *w as u8,
            _ => 0,
        };
        Ok(match base {
            "memcpy" | "memmove" => {
                let w = self.w(&args[2].0);
                let (d, s) = (self.len(st, &av[0])?, self.len(st, &av[1])?);
                let l = self.lenw(st, &av[2], w)?;
                self.copy(st, d, s, l)?;
                V::C(0)
            }
            "memset" => {
                let w = self.w(&args[2].0);
                let d = self.len(st, &av[0])?;
                let l = self.lenw(st, &av[2], w)?;
                if let Err(m) = self.valid(st, d, l, true) {
                    return self.mem_err(m);
                }
                for i in 0..l {
                    self.wr8(st, d + i, av[1].clone());
                }
                V::C(0)
            }
            "umin" | "umax" | "smin" | "smax" => {
                let w = w0();
                let op = match base {
                    "umin" => "ult",
                    "umax" => "ugt",
                    "smin" => "slt",
                    _ => "sgt",
                };
                match self.icmp(op, w, &av[0], &av[1]) {
                    V::C(1) => av[0].clone(),
                    V::C(_) => av[1].clone(),
                    V::S(c) => V::from(e::ite(c, av[0].id(w), av[1].id(w))),
                    _ => return Err(Stop::Error("vector min".into())),
                }
            }
            "abs" => {
                let w = w0();
                let x = av[0].id(w);
                V::from(e::ite(e::slt(x, e::konst(0, w)), e::sub(e::konst(0, w), x), x))
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                let w = w0();
                let (x, y) = (av[0].id(w), av[1].id(w));
                let (r, ov);
                let signed = base.starts_with('s');
                match &base[1..] {
                    "add" => {
                        r = e::add(x, y);
                        ov = if signed {
                            let sx = e::extract(x, w as u32 - 1, 1);
                            let sy = e::extract(y, w as u32 - 1, 1);
                            let sr = e::extract(r, w as u32 - 1, 1);
                            e::and(e::eq(sx, sy), e::not(e::eq(sx, sr)))
                        } else {
                            e::ult(r, x)
                        };
                    }
                    "sub" => {
                        r = e::sub(x, y);
                        ov = if signed {
                            let sx = e::extract(x, w as u32 - 1, 1);
                            let sy = e::extract(y, w as u32 - 1, 1);
                            let sr = e::extract(r, w as u32 - 1, 1);
                            e::and(e::not(e::eq(sx, sy)), e::not(e::eq(sx, sr)))
                        } else {
                            e::ult(x, y)
                        };
                    }
                    _ => {
                        if w > 64 {
                            return Err(Stop::Error("wide mul overflow".into()));
                        }
                        let w2 = w * 2;
                        let (a, b) = if signed { (e::sext(x, w2), e::sext(y, w2)) } else { (e::zext(x, w2), e::zext(y, w2)) };
                        let p = e::mul(a, b);
                        r = e::mul(x, y);
                        let back = if signed { e::sext(r, w2) } else { e::zext(r, w2) };
                        ov = e::not(e::eq(p, back));
                    }
                }
                if n.contains(".sat.") {
                    if signed {
                        return Err(Stop::Error("signed sat".into()));
                    }
                    let lim = if &base[1..] == "sub" { 0 } else { e::mask(w) };
                    V::from(e::ite(ov, e::konst(lim, w), r))
                } else {
                    V::A(Rc::new(vec![V::from(r), V::from(ov)]))
                }
            }
            "ctpop" => {
                let w = w0();
                match &av[0] {
                    V::C(k) => V::C(k.count_ones() as u128),
                    V::S(i) => {
                        let mut acc = e::konst(0, w);
                        for b in 0..w {
                            acc = e::add(acc, e::zext(e::extract(*i, b as u32, 1), w));
                        }
                        V::from(acc)
                    }
                    _ => return Err(Stop::Error("ctpop".into())),
                }
            }
            "cttz" | "ctlz" => {
                let w = w0();
                match &av[0] {
                    V::C(k) => V::C(if base == "cttz" {
                        if *k == 0 { w as u128 } else { k.trailing_zeros() as u128 }
                    } else {
                        (k.leading_zeros() - (128 - w as u32)) as u128
                    }),
                    V::S(i) => {
                        let mut acc = e::konst(w as u128, w);
                        for j in 0..w {
                            // innermost = least preferred bit
                            let b = if base == "cttz" { w - 1 - j } else { j };
                            let pos = if base == "cttz" { b } else { w - 1 - b };
                            acc = e::ite(e::extract(*i, b as u32, 1), e::konst(pos as u128, w), acc);
                        }
                        V::from(acc)
                    }
                    _ => return Err(Stop::Error("cttz".into())),
                }
            }
            "bswap" => {
                let w = w0();
                let x = av[0].id(w);
                let mut acc = e::extract(x, 0, 8);
                for b in 1..w / 8 {
                    acc = e::concat(acc, e::extract(x, b as u32 * 8, 8));
                }
                V::from(acc)
            }
            "bitreverse" => {
                let w = w0();
                let x = av[0].id(w);
                let mut acc = e::extract(x, 0, 1);
                for b in 1..w {
                    acc = e::concat(acc, e::extract(x, b as u32, 1));
                }
                V::from(acc)
            }
            "fshl" | "fshr" => {
                let w = w0();
                let (a, b) = (av[0].id(w), av[1].id(w));
                let s = e::urem(av[2].id(w), e::konst(w as u128, w));
                let inv = e::sub(e::konst(w as u128, w), s);
                let z = e::eq(s, e::konst(0, w));
                V::from(if base == "fshl" {
                    e::ite(z, a, e::or(e::shl(a, s), e::lshr(b, inv)))
                } else {
                    e::ite(z, b, e::or(e::lshr(b, s), e::shl(a, inv)))
                })
            }
            "ucmp" | "scmp" => {
                let w = w0();
                let (x, y) = (av[0].id(w), av[1].id(w));
                let rw = self.w(rt);
                let lt = if base == "ucmp" { e::ult(x, y) } else { e::slt(x, y) };
                V::from(e::ite(lt, e::konst(e::mask(rw), rw), e::ite(e::eq(x, y), e::konst(0, rw), e::konst(1, rw))))
            }
            "expect" => av[0].clone(),
            "is" => V::C(0),
            "threadlocal" => {
                let a = self.len(st, &av[0])?;
                if st.cur == 0 {
                    return Ok(av[0].clone());
                }
                let cur = st.cur;
                if let Some(&(_, _, c)) = st.tls.iter().find(|x| x.0 == cur && x.1 == a) {
                    return Ok(V::C(c as u128));
                }
                let Some(&s) = self.globs.get(&a) else { return Err(Stop::Error("thread-local address".into())) };
                let c = st.heap_top.div_ceil(64) * 64;
                st.heap_top = c + s + 32;
                Rc::make_mut(&mut st.heap).push(HeapObj { base: c, size: s, align: 0, live: true });
                for i in 0..s {
                    let x = a + i;
                    let b = match self.base.get(&(x / PG)) {
                        Some(p) => p.data[(x % PG) as usize],
                        None => 0,
                    };
                    self.wr8(st, c + i, V::C(b as u128));
                }
                st.tls.push((cur, a, c));
                V::C(c as u128)
            }
            "trap" | "debugtrap" => return self.do_panic(st, &[]).and(Err(Stop::Error("trap in catch".into()))),
            "ptrmask" => {
                let w = self.pw;
                self.bin("and", w, &av[0], &av[1])
            }
            "objectsize" => V::C(e::mask(self.w(rt))),
            "aarch64" | "arm" | "x86" | "prefetch" | "va_start" | "va_end" | "stacksave" | "stackrestore" | "sideeffect" | "eh" => {
                // pause / yield hints
                V::C(0)
            }
            "load" | "ptr" | "ssa" => av[0].clone(),
            _ => return Err(Stop::Error(format!("intrinsic {n}"))),
        })
    }

    /// Harness interface. `None` means control was transferred.
    fn vf(&mut self, st: &mut State, n: &str, av: &[V], d: Option<u32>, unw: Option<(usize, usize)>) -> R<Option<V>> {
        let pw = self.pw;
        Ok(Some(match n {
            "vf_symbolic" => {
                let (p, l) = (self.len(st, &av[0])?, self.len(st, &av[1])?);
                let V::C(tag) = av[2] else { return Err(Stop::Error("tag".into())) };
                if let Err(m) = self.valid(st, p, l, true) {
                    return self.mem_err(m);
                }
                let k = st.inputs.len();
                let mut ids = vec![];
                for i in 0..l {
                    // variables are shared between paths that create the same input
                    let id = self.input_var(k, i);
                    self.wr8(st, p + i, V::S(id));
                    ids.push(id);
                }
                st.inputs.push((tag as u32, ids));
                V::C(0)
            }
            "vf_assume" => {
                let c = cond(&av[0]);
                match self.query(st, c)? {
                    None => return Err(Stop::End("assume")),
                    Some(m) => {
                        self.add(st, c);
                        st.model = Rc::new(m);
                    }
                }
                V::C(0)
            }
            "vf_check" => {
                let c = cond(&av[0]);
                let V::C(id) = av[1] else { return Err(Stop::Error("check id".into())) };
                let ent = self.stats.checks.entry(id as u32).or_default();
                ent.0 += 1;
                if e::as_const(c) != Some(1) && st.known.get(&c) != Some(&true) {
                    ent.1 += 1;
                    let nc = e::not(c);
                    // a failing check ends the path; the passing side continues
                    if let Some(m) = self.query(st, nc)? {
                        let w = self.witness(st, &m, id as u32, "check", format!("check {id} fails"));
                        self.viol.push(w);
                        *self.stats.ended.entry("violation".into()).or_default() += 1;
                        match self.query(st, c)? {
                            None => return Err(Stop::End("all inputs violate")),
                            Some(m) => {
                                self.add(st, c);
                                st.model = Rc::new(m);
                            }
                        }
                    } else {
                        let k = Rc::make_mut(&mut st.known);
                        k.insert(c, true);
                        k.insert(nc, false);
                    }
                }
                V::C(0)
            }
            "vf_cover" => {
                let V::C(id) = av[0] else { return Err(Stop::Error("cover id".into())) };
                if !st.covers.contains(&(id as u32)) {
                    st.covers.push(id as u32);
                }
                V::C(0)
            }
            "vf_note" => {
                let V::C(id) = av[0] else { return Err(Stop::Error("note id".into())) };
                st.notes.push((id as u32, av[1].clone()));
                V::C(0)
            }
            "vf_pick" => {
                let k = self.conc(st, &av[0], 64)?;
                V::C(k)
            }
            "vf_alloc" => {
                let (s, a) = (self.len(st, &av[0])?, self.len(st, &av[1])?.max(1));
                if s > 0x100_0000 {
                    return Err(Stop::Error(format!("allocation of {s} bytes")));
                }
                let b = st.heap_top.div_ceil(a) * a;
                st.heap_top = b + s + 32;
                if st.heap_top > HEAP_END {
                    return Err(Stop::Error("heap exhausted".into()));
                }
                Rc::make_mut(&mut st.heap).push(HeapObj { base: b, size: s, align: a, live: true });
                // uninitialised heap memory: same pattern as in the native replay
                for i in 0..s {
                    self.wr8(st, b + i, V::C(0xa5));
                }
                V::C(b as u128)
            }
            "vf_exec_alloc" => {
                let (s, o) = (self.len(st, &av[0])?, self.len(st, &av[1])?);
                let b = st.heap_top.div_ceil(PG) * PG + 0x100 + o;
                st.heap_top = b + s + 32;
                if st.heap_top > HEAP_END {
                    return Err(Stop::Error("heap exhausted".into()));
                }
                Rc::make_mut(&mut st.heap).push(HeapObj { base: b, size: s, align: 0, live: true });
                V::C(b as u128)
            }
            "vf_yield" => {
                self.sched_point(st)?;
                V::C(0)
            }
            "vf_free" => {
                let (p, s, a) = (self.len(st, &av[0])?, self.len(st, &av[1])?, self.len(st, &av[2])?);
                let Some(h) = Rc::make_mut(&mut st.heap).iter_mut().find(|h| h.base == p) else {
                    return self.mem_err(format!("free of {p:#x}, which is not an allocated block"));
                };
                if !h.live {
                    return self.mem_err(format!("double free of a {} byte block", h.size));
                }
                if h.size != s || h.align != a {
                    return self.mem_err(format!("block of size {} align {} freed as size {s} align {a}", h.size, h.align));
                }
                h.live = false;
                V::C(0)
            }
            "vf_live" => V::C(st.heap.iter().filter(|h| h.live && h.align != 0).count() as u128),
            "vf_place" => {
                let (p, s) = (self.len(st, &av[0])?, self.len(st, &av[1])?);
                st.placed.push((p, s));
                V::C(p as u128)
            }
            "vf_panic_mode" => {
                let V::C(k) = av[0] else { return Err(Stop::Error("mode".into())) };
                st.panic_mode = k as u32;
                V::C(0)
            }
            "vf_catch" => {
                let a = self.conc(st, &av[0], pw)? as u64;
                let Some(&i) = self.fn_by_addr.get(&a) else { return Err(Stop::Error("vf_catch target".into())) };
                let nm = self.imgs[i].name.clone();
                let f = self.func(&nm).unwrap();
                self.enter(st, f, d, vec![av[1].clone()], None, unw)?;
                self.fr(st).catch = true;
                return Ok(None);
            }
            "vf_spawn" => {
                let a = self.conc(st, &av[0], pw)? as u64;
                let Some(&i) = self.fn_by_addr.get(&a) else { return Err(Stop::Error("vf_spawn target".into())) };
                let nm = self.imgs[i].name.clone();
                let f = self.func(&nm).unwrap();
                self.spawn(st, f, vec![av[1].clone()]);
                V::C(0)
            }
            "vf_join" => {
                if (1..st.threads.len()).all(|i| st.threads[i].done) {
                    st.threads[0].joining = false;
                    V::C(0)
                } else {
                    // let others run; re-executes this call afterwards
                    st.threads[0].joining = true;
                    let r: Vec<usize> = self.runnable(st).into_iter().filter(|&t| t != st.cur).collect();
                    if r.is_empty() {
                        return Err(Stop::Violation(0, "hang: deadlock, no thread can run".into()));
                    }
                    for &t in &r[1..] {
                        let mut o = st.clone();
                        o.cur = t;
                        o.sched.push(t as u8);
                        self.stats.forks += 1;
                        self.work.push(o);
                    }
                    st.cur = r[0];
                    st.sched.push(r[0] as u8);
                    return Ok(None);
                }
            }
            "vf_self" => V::C(st.cur as u128),
            "vf_abort" => return Err(Stop::End("abort")),
            "vf_fail" => {
                let V::C(id) = av[0] else { return Err(Stop::Error("id".into())) };
                self.stats.checks.entry(id as u32).or_default().0 += 1;
                return Err(Stop::Violation(id as u32, format!("check {id} fails")));
            }
            _ => return Err(Stop::Error(format!("unknown harness call {n}"))),
        }))
    }
    fn input_var(&mut self, k: usize, i: u64) -> Id {
        thread_local! {
            static VARS: std::cell::RefCell<HashMap<(usize, u64), Id>> = Default::default();
        }
        VARS.with(|v| *v.borrow_mut().entry((k, i)).or_insert_with(|| e::var(&format!("in{k}_{i}"), 8)))
    }
}

/// Caller and callee must agree on how arguments and results travel.
fn same_abi(sig: &str, f: &Func) -> R<()> {
    if sig != &*f.sig {
        return Err(Stop::Violation(0, format!("exec: call with ABI [{sig}] reaches {} with ABI [{}]", f.name, f.sig)));
    }
    Ok(())
}
fn cond(v: &V) -> Id {
    match v {
        V::C(k) => e::konst(k & 1, 1),
        V::S(i) => {
            if e::width(*i) == 1 { *i } else { e::extract(*i, 0, 1) }
        }
        _ => panic!(),
    }
}

pub fn cast1(op: &str, w: u8, tw: u8, x: &V) -> V {
    match x {
        V::C(k) => match op {
            "sext" => V::C(e::sext_to(*k, w) as u128 & e::mask(tw)),
            _ => V::C(k & e::mask(tw)),
        },
        V::S(i) => V::from(match op {
            "zext" => e::zext(*i, tw),
            "sext" => e::sext(*i, tw),
            "trunc" => e::trunc(*i, tw),
            _ => {
                if tw < w {
                    e::trunc(*i, tw)
                } else {
                    e::zext(*i, tw)
                }
            }
        }),
        _ => panic!(),
    }
}
