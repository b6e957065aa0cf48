//! Parser for the subset of textual LLVM IR that rustc emits. Functions are parsed on first use.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Flt(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),     // keyword / bare identifier
    Loc(String),    // %name
    Glob(String),   // @name
    Num(i128),
    Str(Vec<u8>),   // "..." or c"..."
    P(char),
    Meta,
    Attr,
    Dots,
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    Const(u128),
    Glob(String),
    Zero,
    Agg(Vec<(Ty, Opd)>),
    Bytes(Vec<u8>),
    Cast(Box<(Ty, Opd)>, Ty, String),
    Gep(Ty, Vec<(Ty, Opd)>),
    Bin(String, Box<(Ty, Opd)>, Box<(Ty, Opd)>),
    BlockAddr,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(u32, String, Ty, Opd, Opd),
    Icmp(u32, String, Ty, Opd, Opd),
    Cast(u32, String, Ty, Opd, Ty),
    Select(u32, Opd, Ty, Opd, Opd, Ty),
    Load(u32, Ty, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    Gep(u32, Ty, Vec<(Ty, Opd)>),
    Alloca(u32, Ty, Option<(Ty, Opd)>, u64),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opd, Option<u64>)>, Option<(usize, usize)>),
    Br(usize),
    CondBr(Opd, usize, usize),
    Switch(Ty, Opd, usize, Vec<(u128, usize)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Extract(u32, Ty, Opd, Vec<u64>),
    Insert(u32, Ty, Opd, Ty, Opd, Vec<u64>),
    Phi(u32, Ty, Vec<(Opd, usize)>),
    Rmw(u32, String, Opd, Ty, Opd),
    CmpXchg(u32, Opd, Ty, Opd, Opd),
    Fence,
    Freeze(u32, Ty, Opd),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(String),
    Ptr(Opd, std::rc::Rc<str>),
    Asm { text: String, cons: String },
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub ins: Vec<Ins>,
    pub nphi: usize,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty, Option<u64>)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
    /// calling convention, types and ABI attributes
    pub sig: std::rc::Rc<str>,
}

pub struct Module {
    pub text: String,
    pub ptr_bytes: u64,
    pub triple: String,
    pub fns: HashMap<String, (usize, usize)>,
    pub decls: HashMap<String, usize>,
    pub globs: HashMap<String, (usize, usize)>,
    pub aliases: HashMap<String, String>,
    pub weak: std::collections::HashSet<String>,
    named: HashMap<String, (usize, usize)>,
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' && i + 2 < b.len() + 1 {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let e = i + 2 + s[i + 2..].find('"').unwrap();
                    name = s[i + 2..e].to_string();
                    i = e + 1;
                } else {
                    let st = i + 1;
                    i += 1;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            }
            b'"' => {
                let e = i + 1 + s[i + 1..].find('"').unwrap();
                out.push(Tok::Str(unesc(&s[i + 1..e])));
                i = e + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let e = i + 2 + s[i + 2..].find('"').unwrap();
                out.push(Tok::Str(unesc(&s[i + 2..e])));
                i = e + 1;
            }
            b'!' => {
                i += 1;
                while i < b.len() && (isid(b[i])) {
                    i += 1;
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (isid(b[i]) || (b[i] == b'+' && b[i - 1] == b'e' && s[st..i].contains('.'))) {
                    i += 1;
                }
                match s[st..i].parse::<i128>() {
                    Ok(n) => out.push(Tok::Num(n)),
                    Err(_) => match s[st..i].parse::<u128>() {
                        Ok(n) => out.push(Tok::Num(n as i128)),
                        Err(_) => out.push(Tok::Id(s[st..i].to_string())),
                    },
                }
            }
            _ if isid(c) => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Id(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

fn float(s: &str) -> Option<f64> {
    if let Some(h) = s.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).ok().map(f64::from_bits);
    }
    if s.contains('.') {
        return s.parse().ok();
    }
    None
}

pub struct P<'a> {
    pub t: Vec<Tok>,
    pub i: usize,
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, usize>,
    /// ABI-relevant attributes and calling conventions seen
    abi: String,
}

impl<'a> P<'a> {
    fn peek(&self) -> &Tok {
        static END: Tok = Tok::Meta;
        self.t.get(self.i).unwrap_or(&END)
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {c:?} at {:?}", &self.t[self.i.min(self.t.len() - 1)..]);
        }
    }
    fn id(&self) -> &str {
        match self.peek() {
            Tok::Id(s) => s,
            _ => "",
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.id() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_group(&mut self) {
        // at '(' or '{' or '['
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') | Tok::P('{') | Tok::P('[') => d += 1,
                Tok::P(')') | Tok::P('}') | Tok::P(']') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => (),
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_group();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Flt(32),
                "double" => Ty::Flt(64),
                "half" => Ty::Flt(16),
                "x86_fp80" | "fp128" => Ty::Flt(128),
                "label" | "metadata" | "token" | "opaque" => Ty::Other,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s}"))),
                _ => panic!("type {s}"),
            },
            Tok::P('[') => {
                let Tok::Num(n) = self.next() else { panic!() };
                self.i += 1;
                let e = self.ty();
                self.exp(']');
                Ty::Arr(n as u64, Rc::new(e))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    v.push(self.ty());
                    self.eat(',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P('<') => {
                if self.is('{') {
                    let Ty::Struct(v, _) = self.ty() else { panic!() };
                    self.exp('>');
                    Ty::Struct(v, true)
                } else {
                    let Tok::Num(n) = self.next() else { panic!() };
                    self.i += 1;
                    let e = self.ty();
                    self.exp('>');
                    Ty::Vec(n as u64, Rc::new(e))
                }
            }
            Tok::Loc(n) => {
                let (s, e) = self.m.named[&n];
                let mut p = self.m.parser(&self.m.text[s..e]);
                p.ty()
            }
            t => panic!("type {t:?}"),
        };
        t
    }
    fn note_abi(&mut self, s: &str) {
        if matches!(s, "inreg" | "byval" | "sret" | "zeroext" | "signext" | "inalloca" | "nest") || s.ends_with("cc") {
            self.abi += s;
            self.abi.push(' ');
        }
    }
    /// Skips parameter / return attributes; returns byval size if any
    fn attrs(&mut self) -> Option<u64> {
        let mut by = None;
        loop {
            match self.peek().clone() {
                Tok::Id(s)
                    if !matches!(
                        s.as_str(),
                        "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "inttoptr"
                            | "ptrtoint" | "getelementptr" | "add" | "sub" | "trunc" | "xor" | "none" | "asm"
                            | "blockaddress" | "dso_local_equivalent" | "void" | "ptr" | "float" | "double"
                    ) && !(s.starts_with('i') && s[1..].parse::<u32>().is_ok())
                        && float(&s).is_none() =>
                {
                    self.i += 1;
                    self.note_abi(&s);
                    if s == "align" || s == "alignstack" {
                        if let Tok::Num(_) = self.peek() {
                            self.i += 1;
                        }
                    }
                    if s == "byval" && self.is('(') {
                        self.i += 1;
                        let t = self.ty();
                        by = Some(self.m.size(&t));
                        self.exp(')');
                    } else if self.is('(') {
                        self.skip_group();
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Tok::Attr => self.i += 1,
                _ => return by,
            }
        }
    }
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    pub fn opd(&mut self, ty: &Ty) -> Opd {
        match self.next() {
            Tok::Loc(n) => Opd::Reg(self.reg(n)),
            Tok::Glob(n) => Opd::Glob(n),
            Tok::Num(n) => match ty {
                Ty::Int(w) => Opd::Const((n as u128) & crate::expr::mask(*w as u8)),
                _ => Opd::Const(0),
            },
            Tok::Str(b) => Opd::Bytes(b),
            Tok::Id(s) if matches!(ty, Ty::Flt(_)) && float(&s).is_some() => {
                let v = float(&s).unwrap();
                Opd::Const(if *ty == Ty::Flt(32) { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Opd::Const(1),
                "false" => Opd::Const(0),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Opd::Zero,
                "inttoptr" | "ptrtoint" | "trunc" | "zext" | "bitcast" | "addrspacecast" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.opd(&t);
                    assert!(self.eat_id("to"));
                    let to = self.ty();
                    self.exp(')');
                    Opd::Cast(Box::new((t, v)), to, s)
                }
                "getelementptr" => {
                    while matches!(self.peek(), Tok::Id(_)) && !self.is('(') {
                        self.i += 1;
                        if let Tok::Id(_) = self.peek() {
                            continue;
                        }
                        if self.is('(') {
                            // `inrange(...)` group or the operand list: the operand list holds a type first
                            if self.t[self.i - 1] == Tok::Id("inrange".into()) {
                                self.skip_group();
                            }
                        }
                    }
                    self.exp('(');
                    let t = self.ty();
                    let mut v = vec![];
                    while self.eat(',') {
                        let t = self.ty();
                        let o = self.opd(&t);
                        v.push((t, o));
                    }
                    self.exp(')');
                    Opd::Gep(t, v)
                }
                "add" | "sub" | "xor" | "and" | "or" | "shl" | "mul" => {
                    while matches!(self.peek(), Tok::Id(_)) {
                        self.i += 1;
                    }
                    self.exp('(');
                    let t1 = self.ty();
                    let a = self.opd(&t1);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.opd(&t2);
                    self.exp(')');
                    Opd::Bin(s, Box::new((t1, a)), Box::new((t2, b)))
                }
                "blockaddress" => {
                    self.skip_group();
                    Opd::BlockAddr
                }
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let o = self.opd(&t);
                    self.exp(')');
                    let Ty::Vec(n, _) = ty else { panic!() };
                    Opd::Agg((0..*n).map(|_| (t.clone(), o.clone())).collect())
                }
                _ => {
                    // float constants and other things nothing depends on
                    Opd::Zero
                }
            },
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}');
                    self.exp('>');
                    a
                } else {
                    self.agg('>')
                }
            }
            t => panic!("operand {t:?} in {:?}", self.t),
        }
    }
    fn agg(&mut self, end: char) -> Opd {
        let mut v = vec![];
        while !self.eat(end) {
            let t = self.ty();
            let o = self.opd(&t);
            v.push((t, o));
            self.eat(',');
        }
        Opd::Agg(v)
    }
    fn tv(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.attrs();
        let o = self.opd(&t);
        (t, o)
    }
    fn label(&mut self) -> usize {
        assert!(self.eat_id("label"));
        let Tok::Loc(n) = self.next() else { panic!() };
        self.blocks[&n]
    }
    fn flags(&mut self) {
        loop {
            match self.id() {
                "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "weak" => self.i += 1,
                _ => return,
            }
        }
    }
}

impl Module {
    pub fn parser<'a>(&'a self, s: &str) -> P<'a> {
        P { t: lex(s), i: 0, m: self, regs: HashMap::new(), blocks: HashMap::new(), abi: String::new() }
    }

    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            ptr_bytes: 8,
            triple: String::new(),
            fns: HashMap::new(),
            decls: HashMap::new(),
            globs: HashMap::new(),
            aliases: HashMap::new(),
            weak: Default::default(),
            named: HashMap::new(),
        };
        let mut pos = 0;
        let mut cur: Option<(String, usize)> = None;
        fn gname(s: &str, at: usize) -> Option<(String, usize)> {
            let r = &s[at + 1..];
            if let Some(q) = r.strip_prefix('"') {
                let e = q.find('"')?;
                Some((q[..e].to_string(), at + e + 3))
            } else {
                let e = r
                    .find(|c: char| !(c.is_ascii_alphanumeric() || "_.$-".contains(c)))
                    .unwrap_or(r.len());
                Some((r[..e].to_string(), at + 1 + e))
            }
        }
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            if cur.is_some() {
                if line.starts_with('}') {
                    let (n, s) = cur.take().unwrap();
                    m.fns.insert(n, (s, start));
                }
                continue;
            }
            if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                cur = Some((gname(line, at).unwrap().0, start));
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let n = gname(line, at).unwrap().0;
                if line.contains("extern_weak") {
                    m.weak.insert(n.clone());
                }
                m.decls.insert(n, start);
            } else if line.starts_with('@') {
                let (n, e) = gname(line, 0).unwrap();
                if line.contains(" alias ") {
                    let i = line.rfind('@').unwrap();
                    m.aliases.insert(n, gname(line, i).unwrap().0);
                } else {
                    if line.contains("extern_weak") {
                        m.weak.insert(n.clone());
                    }
                    m.globs.insert(n, (start + e, pos));
                }
            } else if line.starts_with('%') {
                let (n, e) = gname(line, 0).unwrap();
                if let Some(i) = line[e..].find("type ") {
                    m.named.insert(n, (start + e + i + 5, pos));
                }
            } else if line.starts_with("target datalayout") {
                if line.contains("p:32:32") {
                    m.ptr_bytes = 4;
                }
            } else if let Some(r) = line.strip_prefix("target triple = \"") {
                m.triple = r.trim_end().trim_end_matches('"').to_string();
                // Thumb targets share the ARM triple
                if m.triple.starts_with("arm") && text.contains("+thumb-mode") {
                    m.triple = m.triple.replacen("arm", "thumb", 1);
                }
            }
        }
        m.text = text;
        m
    }

    pub fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                match b {
                    8 if self.triple.starts_with("i686") => 4,
                    16 if self.ptr_bytes == 4 => 16,
                    b => b.min(16),
                }
            }
            Ty::Ptr => self.ptr_bytes,
            Ty::Flt(w) => (*w as u64 / 8).min(16),
            Ty::Arr(_, e) => self.align(e),
            Ty::Vec(..) => self.size(t).next_power_of_two().min(16),
            Ty::Struct(v, packed) => {
                if *packed { 1 } else { v.iter().map(|t| self.align(t)).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.div_ceil(self.align(t)) * self.align(t)
            }
            Ty::Ptr => self.ptr_bytes,
            Ty::Flt(w) => *w as u64 / 8,
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Vec(n, e) => match &**e {
                Ty::Int(w) => (n * *w as u64).div_ceil(8),
                e => n * self.size(e),
            },
            Ty::Struct(v, p) => {
                let (mut o, a) = (0u64, self.align(t));
                for f in v.iter() {
                    if !p {
                        let fa = self.align(f);
                        o = o.div_ceil(fa) * fa;
                    }
                    o += self.size(f);
                }
                o.div_ceil(a) * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: &Ty, idx: usize) -> u64 {
        let Ty::Struct(v, p) = t else { panic!() };
        let mut o = 0;
        for (i, f) in v.iter().enumerate() {
            if !p {
                let fa = self.align(f);
                o = u64::div_ceil(o, fa) * fa;
            }
            if i == idx {
                return o;
            }
            o += self.size(f);
        }
        panic!()
    }

    /// (type, initializer or None for external, constant?, align)
    pub fn global(&self, n: &str) -> Option<(Ty, Option<Opd>, bool, u64)> {
        let (s, e) = *self.globs.get(n)?;
        let line = &self.text[s..e];
        let mut p = self.parser(line);
        p.exp('=');
        let mut ext = false;
        let konst;
        loop {
            match p.next() {
                Tok::Id(k) => match k.as_str() {
                    "global" => {
                        konst = false;
                        break;
                    }
                    "constant" => {
                        konst = true;
                        break;
                    }
                    "external" | "extern_weak" => ext = true,
                    _ => {
                        if p.is('(') {
                            p.skip_group();
                        }
                    }
                },
                t => panic!("global {n}: {t:?}"),
            }
        }
        let t = p.ty();
        let init = if ext { None } else { Some(p.opd(&t)) };
        let mut al = self.align(&t);
        while p.i < p.t.len() {
            if p.eat_id("align") {
                if let Tok::Num(n) = p.next() {
                    al = n as u64;
                }
                break;
            }
            p.i += 1;
        }
        Some((t, init, konst, al))
    }

    pub fn func(&self, n: &str) -> Option<Func> {
        let (s, e) = *self.fns.get(n)?;
        let text = &self.text[s..e];
        let nl = text.find('\n').unwrap();
        let mut p = self.parser(&text[..nl]);
        // header
        p.i += 1;
        // linkage, attributes … until return type
        let ret = loop {
            match p.peek().clone() {
                Tok::Id(k) if matches!(k.as_str(), "void" | "ptr" | "float" | "double") => break p.ty(),
                Tok::Id(k) if k.starts_with('i') && k[1..].parse::<u32>().is_ok() => break p.ty(),
                Tok::P('{') | Tok::P('[') | Tok::P('<') => break p.ty(),
                t => {
                    if let Tok::Id(k) = t {
                        p.note_abi(&k);
                    }
                    p.i += 1;
                    if p.is('(') {
                        p.skip_group();
                    }
                }
            }
        };
        let mut sig = format!("{}{ret:?}", std::mem::take(&mut p.abi));
        p.i += 1; // name
        p.exp('(');
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.eat(')') {
            if *p.peek() == Tok::Dots {
                p.i += 1;
                continue;
            }
            let t = p.ty();
            let by = p.attrs();
            sig += &format!(", {t:?} {}", std::mem::take(&mut p.abi));
            if let Tok::Loc(nm) = p.next() {
                if nm.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                let r = p.reg(nm);
                params.push((r, t, by));
            } else {
                panic!("unnamed param in {n}");
            }
            p.eat(',');
        }
        // split into blocks
        let body = &text[nl + 1..];
        let mut raw: Vec<(String, Vec<String>)> = vec![];
        let mut acc = String::new();
        let mut depth = 0i32; // inside '[' of switch
        for l in body.lines() {
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let name = if let Some(q) = l.strip_prefix('"') {
                    q[..q.find('"').unwrap()].to_string()
                } else {
                    match l.find(':') {
                        Some(i) => l[..i].to_string(),
                        None => continue,
                    }
                };
                raw.push((name, vec![]));
                continue;
            }
            if raw.is_empty() {
                raw.push((unnamed.to_string(), vec![]));
            }
            let lt = l.trim_start();
            if lt.starts_with(';') || lt.starts_with("#dbg") {
                continue;
            }
            if depth == 0 && (lt.starts_with("switch ")) {
                depth = 1;
                acc = l.to_string();
                if l.trim_end().ends_with(']') || l.contains("], !") {
                    depth = 0;
                    raw.last_mut().unwrap().1.push(std::mem::take(&mut acc));
                }
                continue;
            }
            if depth == 1 {
                acc.push(' ');
                acc.push_str(lt);
                if lt.starts_with(']') {
                    depth = 0;
                    raw.last_mut().unwrap().1.push(std::mem::take(&mut acc));
                }
                continue;
            }
            // continuation lines of invoke / landingpad
            if lt.starts_with("to label") || lt.starts_with("cleanup") || lt.starts_with("catch ") || lt.starts_with("filter ") {
                let last = raw.last_mut().unwrap().1.last_mut().unwrap();
                last.push(' ');
                last.push_str(lt);
                continue;
            }
            raw.last_mut().unwrap().1.push(l.to_string());
        }
        let blocks: HashMap<String, usize> = raw.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
        p.blocks = blocks;
        let mut out = vec![];
        for (name, lines) in raw {
            let mut ins = vec![];
            for l in lines {
                p.t = lex(&l);
                p.i = 0;
                match self.ins(&mut p, &l) {
                    Some(x) => ins.push(x),
                    None => (),
                }
            }
            let nphi = ins.iter().take_while(|i| matches!(i, Ins::Phi(..))).count();
            out.push(Block { name, ins, nphi });
        }
        let nregs = p.regs.len();
        Some(Func { name: n.to_string(), params, ret, blocks: out, nregs, sig: sig.into() })
    }

    fn ins(&self, p: &mut P, line: &str) -> Option<Ins> {
        let mut dst = None;
        if let Tok::Loc(n) = p.peek().clone() {
            p.i += 1;
            p.exp('=');
            dst = Some(p.reg(n));
        }
        let Tok::Id(op) = p.next() else { panic!("{line}") };
        let d = dst.unwrap_or(u32::MAX);
        Some(match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                p.flags();
                let t = p.ty();
                let a = p.opd(&t);
                p.exp(',');
                let b = p.opd(&t);
                Ins::Bin(d, op, t, a, b)
            }
            "icmp" => {
                p.flags();
                let Tok::Id(pr) = p.next() else { panic!() };
                let t = p.ty();
                let a = p.opd(&t);
                p.exp(',');
                let b = p.opd(&t);
                Ins::Icmp(d, pr, t, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                p.flags();
                let t = p.ty();
                let a = p.opd(&t);
                assert!(p.eat_id("to"));
                let to = p.ty();
                Ins::Cast(d, op, t, a, to)
            }
            "select" => {
                p.flags();
                let ct = p.ty();
                let c = p.opd(&ct);
                p.exp(',');
                let t = p.ty();
                let a = p.opd(&t);
                p.exp(',');
                let t2 = p.ty();
                let b = p.opd(&t2);
                Ins::Select(d, c, t, a, b, ct)
            }
            "load" => {
                let at = p.eat_id("atomic");
                p.flags();
                let t = p.ty();
                p.exp(',');
                let pt = p.ty();
                let a = p.opd(&pt);
                Ins::Load(d, t, a, at)
            }
            "store" => {
                let at = p.eat_id("atomic");
                p.flags();
                let t = p.ty();
                let v = p.opd(&t);
                p.exp(',');
                let pt = p.ty();
                let a = p.opd(&pt);
                Ins::Store(t, v, a, at)
            }
            "getelementptr" => {
                p.flags();
                let t = p.ty();
                let mut v = vec![];
                while p.eat(',') {
                    if matches!(p.peek(), Tok::Meta) {
                        break;
                    }
                    let t = p.ty();
                    let o = p.opd(&t);
                    v.push((t, o));
                }
                Ins::Gep(d, t, v)
            }
            "alloca" => {
                let t = p.ty();
                let mut n = None;
                let mut al = self.align(&t);
                while p.eat(',') {
                    if p.eat_id("align") {
                        if let Tok::Num(k) = p.next() {
                            al = k as u64;
                        }
                    } else if matches!(p.peek(), Tok::Meta) {
                        break;
                    } else {
                        let t = p.ty();
                        let o = p.opd(&t);
                        n = Some((t, o));
                    }
                }
                Ins::Alloca(d, t, n, al)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.i += 1;
                }
                let inv = op == "invoke";
                // calling convention and return attributes
                let rt = loop {
                    match p.peek().clone() {
                        Tok::Id(k) if matches!(k.as_str(), "void" | "ptr" | "float" | "double" | "token" | "metadata") => break p.ty(),
                        Tok::Id(k) if k.starts_with('i') && k[1..].parse::<u32>().is_ok() => break p.ty(),
                        Tok::P('{') | Tok::P('[') | Tok::P('<') | Tok::Loc(_) => break p.ty(),
                        t => {
                            if let Tok::Id(k) = t {
                                p.note_abi(&k);
                            }
                            p.i += 1;
                            if p.is('(') {
                                p.skip_group();
                            } else if let Tok::Num(_) = p.peek() {
                                p.i += 1;
                            }
                        }
                    }
                };
                let mut sig = format!("{}{rt:?}", std::mem::take(&mut p.abi));
                if p.is('(') {
                    p.skip_group(); // function type of a varargs call
                }
                let mut callee = if p.eat_id("asm") {
                    while matches!(p.peek(), Tok::Id(_)) {
                        p.i += 1;
                    }
                    let Tok::Str(t) = p.next() else { panic!("{line}") };
                    p.exp(',');
                    let Tok::Str(c) = p.next() else { panic!() };
                    Callee::Asm {
                        text: String::from_utf8_lossy(&t).into_owned(),
                        cons: String::from_utf8_lossy(&c).into_owned(),
                    }
                } else {
                    match p.opd(&Ty::Ptr) {
                        Opd::Glob(n) => Callee::Fn(n),
                        o => Callee::Ptr(o, "".into()),
                    }
                };
                if let Callee::Fn(n) = &callee {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.donothing")
                    {
                        return None;
                    }
                }
                p.exp('(');
                let mut args = vec![];
                while !p.eat(')') {
                    if p.eat_id("metadata") {
                        p.i += 1;
                        p.eat(',');
                        continue;
                    }
                    let t = p.ty();
                    let by = p.attrs();
                    sig += &format!(", {t:?} {}", std::mem::take(&mut p.abi));
                    let o = p.opd(&t);
                    args.push((t, o, by));
                    p.eat(',');
                }
                if let Callee::Ptr(_, s) = &mut callee {
                    *s = sig.into();
                }
                let unw = if inv {
                    while p.id() != "to" {
                        p.i += 1;
                    }
                    p.i += 1;
                    let a = p.label();
                    assert!(p.eat_id("unwind"));
                    let b = p.label();
                    Some((a, b))
                } else {
                    None
                };
                Ins::Call(dst, rt, callee, args, unw)
            }
            "br" => {
                if p.id() == "label" {
                    Ins::Br(p.label())
                } else {
                    let t = p.ty();
                    let c = p.opd(&t);
                    p.exp(',');
                    let a = p.label();
                    p.exp(',');
                    let b = p.label();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = p.ty();
                let v = p.opd(&t);
                p.exp(',');
                let def = p.label();
                p.exp('[');
                let mut cs = vec![];
                while !p.eat(']') {
                    let t = p.ty();
                    let Opd::Const(k) = p.opd(&t) else { panic!() };
                    p.exp(',');
                    let l = p.label();
                    cs.push((k, l));
                }
                Ins::Switch(t, v, def, cs)
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let o = p.opd(&t);
                    Ins::Ret(Some((t, o)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => {
                let (t, o) = p.tv();
                let mut ix = vec![];
                while p.eat(',') {
                    match p.next() {
                        Tok::Num(n) => ix.push(n as u64),
                        _ => break,
                    }
                }
                Ins::Extract(d, t, o, ix)
            }
            "insertvalue" => {
                let (t, o) = p.tv();
                p.exp(',');
                let (t2, o2) = p.tv();
                let mut ix = vec![];
                while p.eat(',') {
                    match p.next() {
                        Tok::Num(n) => ix.push(n as u64),
                        _ => break,
                    }
                }
                Ins::Insert(d, t, o, t2, o2, ix)
            }
            "phi" => {
                p.flags();
                let t = p.ty();
                let mut v = vec![];
                loop {
                    p.exp('[');
                    let o = p.opd(&t);
                    p.exp(',');
                    let Tok::Loc(n) = p.next() else { panic!() };
                    let b = p.blocks[&n];
                    p.exp(']');
                    v.push((o, b));
                    if !p.eat(',') || !p.is('[') {
                        break;
                    }
                }
                Ins::Phi(d, t, v)
            }
            "atomicrmw" => {
                p.flags();
                let Tok::Id(o) = p.next() else { panic!() };
                let pt = p.ty();
                let a = p.opd(&pt);
                p.exp(',');
                let t = p.ty();
                let v = p.opd(&t);
                Ins::Rmw(d, o, a, t, v)
            }
            "cmpxchg" => {
                p.flags();
                let pt = p.ty();
                let a = p.opd(&pt);
                p.exp(',');
                let t = p.ty();
                let c = p.opd(&t);
                p.exp(',');
                let t2 = p.ty();
                let n = p.opd(&t2);
                Ins::CmpXchg(d, a, t, c, n)
            }
            "fence" => Ins::Fence,
            "freeze" => {
                let t = p.ty();
                let o = p.opd(&t);
                Ins::Freeze(d, t, o)
            }
            _ => Ins::Unsupported(line.trim().to_string()),
        })
    }
}
