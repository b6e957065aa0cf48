//! Hash-consed bit-vector expressions (width 1..=128) with a rewriting constructor per operator.

use std::cell::RefCell;
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    SExt,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
    /// bits known to be zero / one
    pub z: u128,
    pub o: u128,
    /// unsigned range
    pub lo: u128,
    pub hi: u128,
}

#[derive(PartialEq, Eq, Hash)]
struct Key(Op, u8, Id, Id, Id, u128);

#[derive(Default)]
pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<Key, Id>,
    pub vars: Vec<(String, u8)>,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext_to(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn node(i: Id) -> Node {
    AR.with(|a| a.borrow().n[i as usize])
}
pub fn width(i: Id) -> u8 {
    node(i).w
}
pub fn count() -> usize {
    AR.with(|a| a.borrow().n.len())
}

fn intern(op: Op, w: u8, a: Id, b: Id, c: Id, k: u128) -> Id {
    AR.with(|ar| {
        let mut ar = ar.borrow_mut();
        let key = Key(op, w, a, b, c, k);
        if let Some(&i) = ar.map.get(&key) {
            return i;
        }
        let m = mask(w);
        let mut n = Node { op, w, a, b, c, k, z: !m, o: 0, lo: 0, hi: m };
        let g = |i: Id| ar.n[i as usize];
        match op {
            Op::Const => {
                n.z = !k;
                n.o = k;
            }
            Op::And => {
                let (x, y) = (g(a), g(b));
                n.z = x.z | y.z;
                n.o = x.o & y.o;
                n.hi = x.hi.min(y.hi);
            }
            Op::Or => {
                let (x, y) = (g(a), g(b));
                n.z = x.z & y.z;
                n.o = x.o | y.o;
                n.lo = x.lo.max(y.lo);
            }
            Op::Xor => {
                let (x, y) = (g(a), g(b));
                n.z = (x.z & y.z) | (x.o & y.o);
                n.o = (x.z & y.o) | (x.o & y.z);
            }
            Op::Concat => {
                let (x, y) = (g(a), g(b));
                let s = y.w as u32;
                n.z = (x.z << s) | (y.z & mask(y.w));
                n.o = (x.o << s) | y.o;
                n.lo = (x.lo << s) | y.lo;
                n.hi = (x.hi << s) | y.hi;
            }
            Op::Extract => {
                let x = g(a);
                n.z = x.z >> b;
                n.o = x.o >> b;
                if b == 0 {
                    if x.hi <= m {
                        n.lo = x.lo;
                        n.hi = x.hi;
                    }
                } else if b + w as u32 == x.w as u32 {
                    n.lo = x.lo >> b;
                    n.hi = x.hi >> b;
                }
            }
            Op::SExt => {
                let x = g(a);
                let sb = 1u128 << (x.w - 1);
                let up = m & !mask(x.w);
                n.z = x.z & mask(x.w);
                n.o = x.o;
                if x.z & sb != 0 {
                    n.z |= up;
                } else if x.o & sb != 0 {
                    n.o |= up;
                }
            }
            Op::Ite => {
                let (x, y) = (g(b), g(c));
                n.z = x.z & y.z;
                n.o = x.o & y.o;
                n.lo = x.lo.min(y.lo);
                n.hi = x.hi.max(y.hi);
            }
            Op::Add => {
                let (x, y) = (g(a), g(b));
                if let Some(h) = x.hi.checked_add(y.hi) {
                    if h <= m {
                        n.lo = x.lo + y.lo;
                        n.hi = h;
                    }
                }
                // low bits known from both sides
                let known = (x.z | x.o) & (y.z | y.o);
                let t = (!known).trailing_zeros().min(127);
                if t > 0 {
                    let lm = (1u128 << t) - 1;
                    let s = (x.o & lm).wrapping_add(y.o & lm) & lm;
                    n.o = s & m;
                    n.z = (!s & lm) | !m;
                }
            }
            Op::Mul => {
                let (x, y) = (g(a), g(b));
                let t = (x.z.trailing_ones() + y.z.trailing_ones()).min(w as u32);
                if t > 0 {
                    n.z |= mask(t as u8);
                }
                if let Some(h) = x.hi.checked_mul(y.hi) {
                    if h <= m {
                        n.lo = x.lo * y.lo;
                        n.hi = h;
                    }
                }
            }
            Op::UDiv => {
                let (x, y) = (g(a), g(b));
                if y.lo > 0 {
                    n.lo = x.lo / y.hi;
                    n.hi = x.hi / y.lo;
                }
            }
            Op::URem => {
                let (x, y) = (g(a), g(b));
                if y.lo > 0 {
                    n.hi = x.hi.min(y.hi - 1);
                }
            }
            Op::LShr => {
                let x = g(a);
                n.hi = x.hi;
            }
            _ => (),
        }
        n.z |= !m;
        n.o &= m;
        // reconcile range and bits
        n.lo = n.lo.max(n.o);
        n.hi = n.hi.min(!n.z & m);
        if op != Op::Const {
            // common high prefix of lo..hi is known
            let d = n.lo ^ n.hi;
            let top = 128 - d.leading_zeros();
            if top < w as u32 {
                let pm = m & !(if top >= 128 { u128::MAX } else { (1u128 << top) - 1 });
                n.o |= n.lo & pm;
                n.z |= !n.lo & pm;
            }
        }
        let id = ar.n.len() as Id;
        ar.n.push(n);
        ar.map.insert(key, id);
        id
    })
}

pub fn konst(v: u128, w: u8) -> Id {
    intern(Op::Const, w, 0, 0, 0, v & mask(w))
}
pub fn var(name: &str, w: u8) -> Id {
    let k = AR.with(|a| {
        let mut a = a.borrow_mut();
        a.vars.push((name.to_string(), w));
        a.vars.len() - 1
    });
    intern(Op::Var, w, 0, 0, 0, k as u128)
}
pub fn as_const(i: Id) -> Option<u128> {
    let n = node(i);
    (n.op == Op::Const).then_some(n.k)
}

/// Interns, then replaces fully known results by a constant.
fn fin(op: Op, w: u8, a: Id, b: Id, c: Id, k: u128) -> Id {
    let i = intern(op, w, a, b, c, k);
    let n = node(i);
    if n.op != Op::Const && (n.z | n.o) == u128::MAX {
        return konst(n.o, w);
    }
    i
}

pub fn t() -> Id {
    konst(1, 1)
}
pub fn f() -> Id {
    konst(0, 1)
}

// ---- linear arithmetic normal form ----

type Lin = (Vec<(Id, u128)>, u128);

fn lin_add(l: &mut Lin, e: Id, coef: u128, w: u8, depth: u32) {
    let n = node(e);
    let m = mask(w);
    match n.op {
        Op::Const => l.1 = l.1.wrapping_add(n.k.wrapping_mul(coef)) & m,
        Op::Add if depth > 0 => {
            lin_add(l, n.a, coef, w, depth - 1);
            lin_add(l, n.b, coef, w, depth - 1);
        }
        Op::Mul if depth > 0 && as_const(n.b).is_some() => {
            lin_add(l, n.a, coef.wrapping_mul(node(n.b).k) & m, w, depth - 1)
        }
        _ => {
            if let Some(x) = l.0.iter_mut().find(|x| x.0 == e) {
                x.1 = x.1.wrapping_add(coef) & m;
            } else {
                l.0.push((e, coef & m));
            }
        }
    }
}

fn lin_build(mut l: Lin, w: u8) -> Id {
    l.0.retain(|x| x.1 != 0);
    l.0.sort();
    let mut acc: Option<Id> = None;
    for (e, c) in l.0 {
        let t = if c == 1 { e } else { fin(Op::Mul, w, e, konst(c, w), 0, 0) };
        acc = Some(match acc {
            None => t,
            Some(x) => fin(Op::Add, w, x, t, 0, 0),
        });
    }
    match acc {
        None => konst(l.1, w),
        Some(x) if l.1 == 0 => x,
        Some(x) => fin(Op::Add, w, x, konst(l.1, w), 0, 0),
    }
}

pub fn add(a: Id, b: Id) -> Id {
    let w = width(a);
    let mut l = (vec![], 0);
    lin_add(&mut l, a, 1, w, 8);
    lin_add(&mut l, b, 1, w, 8);
    lin_build(l, w)
}
pub fn sub(a: Id, b: Id) -> Id {
    let w = width(a);
    let mut l = (vec![], 0);
    lin_add(&mut l, a, 1, w, 8);
    lin_add(&mut l, b, mask(w), w, 8);
    lin_build(l, w)
}
pub fn mul(a: Id, b: Id) -> Id {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(x.wrapping_mul(y), w);
    }
    let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
    if let Some(k) = as_const(b) {
        let mut l = (vec![], 0);
        lin_add(&mut l, a, k, w, 8);
        return lin_build(l, w);
    }
    fin(Op::Mul, w, a, b, 0, 0)
}

pub fn udiv(a: Id, b: Id) -> Id {
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) if y != 0 => konst(x / y, w),
        (_, Some(y)) if y.is_power_of_two() => lshr_c(a, y.trailing_zeros()),
        _ => fin(Op::UDiv, w, a, b, 0, 0),
    }
}
pub fn urem(a: Id, b: Id) -> Id {
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) if y != 0 => konst(x % y, w),
        (_, Some(y)) if y.is_power_of_two() => and(a, konst(y - 1, w)),
        _ => fin(Op::URem, w, a, b, 0, 0),
    }
}
pub fn sdiv(a: Id, b: Id) -> Id {
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) if y != 0 => {
            konst(sext_to(x, w).wrapping_div(sext_to(y, w)) as u128, w)
        }
        _ => fin(Op::SDiv, w, a, b, 0, 0),
    }
}
pub fn srem(a: Id, b: Id) -> Id {
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) if y != 0 => {
            konst(sext_to(x, w).wrapping_rem(sext_to(y, w)) as u128, w)
        }
        _ => fin(Op::SRem, w, a, b, 0, 0),
    }
}

// ---- bit structure ----

pub fn extract(a: Id, lo: u32, w: u8) -> Id {
    let n = node(a);
    debug_assert!(lo + w as u32 <= n.w as u32, "extract {lo} {w} of {}", n.w);
    if lo == 0 && w == n.w {
        return a;
    }
    let m = mask(w);
    if ((n.z | n.o) >> lo) & m == m {
        return konst(n.o >> lo, w);
    }
    match n.op {
        Op::Extract => extract(n.a, n.b + lo, w),
        Op::Concat => {
            let lw = width(n.b) as u32;
            if lo >= lw {
                extract(n.a, lo - lw, w)
            } else if lo + w as u32 <= lw {
                extract(n.b, lo, w)
            } else {
                let l = extract(n.b, lo, (lw - lo) as u8);
                let h = extract(n.a, 0, (lo + w as u32 - lw) as u8);
                concat(h, l)
            }
        }
        Op::SExt => {
            let iw = width(n.a) as u32;
            if lo + w as u32 <= iw {
                extract(n.a, lo, w)
            } else if lo < iw {
                let l = extract(n.a, lo, (iw - lo) as u8);
                sext(l, w)
            } else {
                let s = extract(n.a, iw - 1, 1);
                sext(s, w)
            }
        }
        Op::And => and(extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Or => or(extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Xor => xor(extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Add if lo == 0 => add(extract(n.a, 0, w), extract(n.b, 0, w)),
        Op::Mul if lo == 0 => mul(extract(n.a, 0, w), extract(n.b, 0, w)),
        Op::Ite if as_const(n.b).is_some() || as_const(n.c).is_some() => {
            ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w))
        }
        _ => fin(Op::Extract, w, a, lo, 0, 0),
    }
}

pub fn concat(h: Id, l: Id) -> Id {
    let (x, y) = (node(h), node(l));
    let w = x.w + y.w;
    if let (Op::Const, Op::Const) = (x.op, y.op) {
        return konst((x.k << y.w) | y.k, w);
    }
    if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a && x.b == y.b + y.w as u32 {
        return extract(x.a, y.b, w);
    }
    // x = top part of the same expression whose low part is all of y's operand
    if x.op == Op::Extract && x.a == l && false {
        return l;
    }
    // right-associate: concat(concat(p,q),r) -> concat(p, concat(q,r)) when q,r merge
    if x.op == Op::Concat {
        let q = node(x.b);
        if (q.op == Op::Extract && y.op == Op::Extract && q.a == y.a && q.b == y.b + y.w as u32)
            || (q.op == Op::Const && y.op == Op::Const)
        {
            return concat(x.a, concat(x.b, l));
        }
    }
    if y.op == Op::Concat {
        let q = node(y.a);
        if (q.op == Op::Extract && x.op == Op::Extract && q.a == x.a && x.b == q.b + q.w as u32)
            || (q.op == Op::Const && x.op == Op::Const)
        {
            return concat(concat(h, y.a), y.b);
        }
    }
    // sign extension spelled as concat of equal Ite pieces stays as is
    fin(Op::Concat, w, h, l, 0, 0)
}

pub fn zext(a: Id, w: u8) -> Id {
    let aw = width(a);
    if aw == w { a } else { concat(konst(0, w - aw), a) }
}
pub fn sext(a: Id, w: u8) -> Id {
    let n = node(a);
    if n.w == w {
        return a;
    }
    if n.op == Op::Const {
        return konst(sext_to(n.k, n.w) as u128, w);
    }
    if n.z & (1u128 << (n.w - 1)) != 0 {
        return zext(a, w);
    }
    if n.op == Op::SExt {
        return sext(n.a, w);
    }
    fin(Op::SExt, w, a, 0, 0, 0)
}
pub fn trunc(a: Id, w: u8) -> Id {
    extract(a, 0, w)
}

pub fn lshr_c(a: Id, s: u32) -> Id {
    let w = width(a);
    if s == 0 {
        a
    } else if s >= w as u32 {
        konst(0, w)
    } else {
        zext(extract(a, s, w - s as u8), w)
    }
}
pub fn shl_c(a: Id, s: u32) -> Id {
    let w = width(a);
    if s == 0 {
        a
    } else if s >= w as u32 {
        konst(0, w)
    } else {
        let n = node(a);
        // keep sums linear
        if matches!(n.op, Op::Add | Op::Mul) {
            return mul(a, konst(1u128 << s, w));
        }
        concat(extract(a, 0, w - s as u8), konst(0, s as u8))
    }
}
pub fn ashr_c(a: Id, s: u32) -> Id {
    let w = width(a);
    let s = s.min(w as u32 - 1);
    if s == 0 { a } else { sext(extract(a, s, w - s as u8), w) }
}
pub fn shl(a: Id, b: Id) -> Id {
    match as_const(b) {
        Some(s) => shl_c(a, s.min(1000) as u32),
        None => fin(Op::Shl, width(a), a, b, 0, 0),
    }
}
pub fn lshr(a: Id, b: Id) -> Id {
    match as_const(b) {
        Some(s) => lshr_c(a, s.min(1000) as u32),
        None => fin(Op::LShr, width(a), a, b, 0, 0),
    }
}
pub fn ashr(a: Id, b: Id) -> Id {
    match as_const(b) {
        Some(s) => ashr_c(a, s.min(1000) as u32),
        None => fin(Op::AShr, width(a), a, b, 0, 0),
    }
}

fn ord(a: Id, b: Id) -> (Id, Id) {
    // constants last, otherwise by id
    match (as_const(a).is_some(), as_const(b).is_some()) {
        (true, false) => (b, a),
        (false, true) => (a, b),
        _ => (a.min(b), a.max(b)),
    }
}

pub fn and(a: Id, b: Id) -> Id {
    if a == b {
        return a;
    }
    let (a, b) = ord(a, b);
    let (x, y) = (node(a), node(b));
    let w = x.w;
    let m = mask(w);
    if y.op == Op::Const {
        if x.op == Op::Const {
            return konst(x.k & y.k, w);
        }
        if y.k == 0 {
            return b;
        }
        if (!y.k & m) & !x.z == 0 {
            return a; // masked-out bits are already zero
        }
        // contiguous mask -> extract
        let tz = y.k.trailing_zeros();
        let run = (y.k >> tz).trailing_ones();
        if (y.k >> tz) == mask(run as u8) {
            let e = extract(a, tz, run as u8);
            let lo = if tz > 0 { concat(e, konst(0, tz as u8)) } else { e };
            return zext(lo, w);
        }
        if x.op == Op::And && as_const(x.b).is_some() {
            return and(x.a, konst(node(x.b).k & y.k, w));
        }
        if x.op == Op::Concat {
            let lw = width(x.b);
            return concat(
                and(x.a, konst(y.k >> lw, w - lw)),
                and(x.b, konst(y.k & mask(lw), lw)),
            );
        }
    }
    if w == 1 && node(a).op == Op::Xor && is_not_of(a, b) {
        return f();
    }
    if w == 1 && is_not_of(b, a) {
        return f();
    }
    fin(Op::And, w, a, b, 0, 0)
}
fn is_not_of(a: Id, b: Id) -> bool {
    let n = node(a);
    n.op == Op::Xor && n.w == 1 && n.a == b && as_const(n.b) == Some(1)
}
pub fn or(a: Id, b: Id) -> Id {
    if a == b {
        return a;
    }
    let (a, b) = ord(a, b);
    let (x, y) = (node(a), node(b));
    let w = x.w;
    let m = mask(w);
    if y.op == Op::Const {
        if x.op == Op::Const {
            return konst(x.k | y.k, w);
        }
        if y.k == 0 {
            return a;
        }
        if y.k == m {
            return b;
        }
    }
    if w == 1 && (is_not_of(a, b) || is_not_of(b, a)) {
        return t();
    }
    // disjoint halves -> concat
    if w > 1 {
        if x.op == Op::Concat || y.op == Op::Concat {
            let s = if x.op == Op::Concat { width(x.b) } else { width(y.b) };
            let lm = mask(s);
            let hm = m & !lm;
            let split = ((x.z & hm) == hm || (y.z & hm) == hm) && ((x.z & lm) == lm || (y.z & lm) == lm);
            if split {
                let h = if (x.z & hm) == hm { extract(b, s as u32, w - s) } else { extract(a, s as u32, w - s) };
                let l = if (x.z & lm) == lm { extract(b, 0, s) } else { extract(a, 0, s) };
                return concat(h, l);
            }
            if y.op == Op::Const || (x.op == Op::Concat && y.op == Op::Concat) {
                let h = or(extract(a, s as u32, w - s), extract(b, s as u32, w - s));
                let l = or(extract(a, 0, s), extract(b, 0, s));
                return concat(h, l);
            }
        }
    }
    fin(Op::Or, w, a, b, 0, 0)
}
pub fn xor(a: Id, b: Id) -> Id {
    let w = width(a);
    if a == b {
        return konst(0, w);
    }
    let (a, b) = ord(a, b);
    let (x, y) = (node(a), node(b));
    if y.op == Op::Const {
        if x.op == Op::Const {
            return konst(x.k ^ y.k, w);
        }
        if y.k == 0 {
            return a;
        }
        if x.op == Op::Xor && as_const(x.b).is_some() {
            return xor(x.a, konst(node(x.b).k ^ y.k, w));
        }
        if x.op == Op::Concat {
            let lw = width(x.b);
            return concat(xor(x.a, konst(y.k >> lw, w - lw)), xor(x.b, konst(y.k & mask(lw), lw)));
        }
    }
    fin(Op::Xor, w, a, b, 0, 0)
}
pub fn not(a: Id) -> Id {
    xor(a, konst(mask(width(a)), width(a)))
}

pub fn ite(c: Id, a: Id, b: Id) -> Id {
    if let Some(k) = as_const(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    let cn = node(c);
    if cn.op == Op::Xor && as_const(cn.b) == Some(1) {
        return ite(cn.a, b, a);
    }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(1)) => return or(not(c), a),
            (None, Some(0)) => return and(c, a),
            _ => (),
        }
    }
    let bn = node(b);
    if bn.op == Op::Ite && bn.a == c {
        return ite(c, a, bn.c);
    }
    let an = node(a);
    if an.op == Op::Ite && an.a == c {
        return ite(c, an.b, b);
    }
    fin(Op::Ite, w, c, a, b, 0)
}

pub fn eq(a: Id, b: Id) -> Id {
    if a == b {
        return t();
    }
    let (a, b) = ord(a, b);
    let (x, y) = (node(a), node(b));
    if (x.z & y.o) | (x.o & y.z) != 0 || x.hi < y.lo || y.hi < x.lo {
        return f();
    }
    let w = x.w;
    if y.op == Op::Const {
        if x.op == Op::Const {
            return if x.k == y.k { t() } else { f() };
        }
        if w == 1 {
            return if y.k == 1 { a } else { not(a) };
        }
        match x.op {
            Op::Concat => {
                let lw = width(x.b);
                let h = eq(x.a, konst(y.k >> lw, w - lw));
                if as_const(h) == Some(0) {
                    return h;
                }
                return and(h, eq(x.b, konst(y.k & mask(lw), lw)));
            }
            Op::SExt => {
                let iw = width(x.a);
                if sext_to(y.k & mask(iw), iw) as u128 & mask(w) != y.k {
                    return f();
                }
                return eq(x.a, konst(y.k & mask(iw), iw));
            }
            Op::Add if as_const(x.b).is_some() => {
                return eq(x.a, konst(y.k.wrapping_sub(node(x.b).k), w));
            }
            Op::Mul if as_const(x.b) == Some(mask(w)) => {
                return eq(x.a, konst(y.k.wrapping_neg(), w));
            }
            Op::Xor if as_const(x.b).is_some() => {
                return eq(x.a, konst(y.k ^ node(x.b).k, w));
            }
            Op::Ite => {
                let (p, q) = (eq(x.b, b), eq(x.c, b));
                match (as_const(p), as_const(q)) {
                    (None, None) => (),
                    _ => return ite(x.a, p, q),
                }
            }
            _ => (),
        }
    } else {
        if x.op == Op::Concat && y.op == Op::Concat && width(x.b) == width(y.b) {
            let h = eq(x.a, y.a);
            if as_const(h) == Some(0) {
                return h;
            }
            return and(h, eq(x.b, y.b));
        }
        if x.op == Op::SExt && y.op == Op::SExt && width(x.a) == width(y.a) {
            return eq(x.a, y.a);
        }
        if matches!(x.op, Op::Add | Op::Mul) || matches!(y.op, Op::Add | Op::Mul) {
            let d = sub(a, b);
            if let Some(k) = as_const(d) {
                return if k == 0 { t() } else { f() };
            }
        }
    }
    fin(Op::Eq, 1, a, b, 0, 0)
}
pub fn ult(a: Id, b: Id) -> Id {
    if a == b {
        return f();
    }
    let (x, y) = (node(a), node(b));
    if x.hi < y.lo {
        return t();
    }
    if x.lo >= y.hi {
        return f();
    }
    if y.op == Op::Const && y.k == 1 {
        return eq(a, konst(0, x.w));
    }
    // compare zero-extended values at their natural width
    if x.op == Op::Concat && as_const(x.a) == Some(0) {
        let lw = width(x.b);
        if y.op == Op::Const && y.k <= mask(lw) {
            return ult(x.b, konst(y.k, lw));
        }
        if y.op == Op::Concat && as_const(y.a) == Some(0) && width(y.b) == lw {
            return ult(x.b, y.b);
        }
    }
    if y.op == Op::Concat && as_const(y.a) == Some(0) && x.op == Op::Const {
        let lw = width(y.b);
        if x.k <= mask(lw) {
            return ult(konst(x.k, lw), y.b);
        }
    }
    fin(Op::Ult, 1, a, b, 0, 0)
}
pub fn ule(a: Id, b: Id) -> Id {
    not(ult(b, a))
}
pub fn slt(a: Id, b: Id) -> Id {
    if a == b {
        return f();
    }
    let (x, y) = (node(a), node(b));
    let sb = 1u128 << (x.w - 1);
    if let (Op::Const, Op::Const) = (x.op, y.op) {
        return if sext_to(x.k, x.w) < sext_to(y.k, x.w) { t() } else { f() };
    }
    if x.z & sb != 0 && y.z & sb != 0 {
        return ult(a, b);
    }
    if x.o & sb != 0 && y.z & sb != 0 {
        return t();
    }
    if x.z & sb != 0 && y.o & sb != 0 {
        return f();
    }
    if as_const(b) == Some(0) {
        return extract(a, x.w as u32 - 1, 1);
    }
    if as_const(b) == Some(1) {
        // x < 1  <=>  x <= 0
        return or(extract(a, x.w as u32 - 1, 1), eq(a, konst(0, x.w)));
    }
    if as_const(a) == Some(mask(x.w)) {
        // -1 < b  <=>  b >= 0
        return not(extract(b, x.w as u32 - 1, 1));
    }
    fin(Op::Slt, 1, a, b, 0, 0)
}
pub fn sle(a: Id, b: Id) -> Id {
    not(slt(b, a))
}

// ---- concrete evaluation ----

pub struct Model {
    pub vals: Vec<u128>,
    memo: RefCell<HashMap<Id, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Self {
        Model { vals, memo: RefCell::new(HashMap::new()) }
    }
    pub fn eval(&self, e: Id) -> u128 {
        let n = node(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.vals.get(n.k as usize).copied().unwrap_or(0),
            _ => (),
        }
        if let Some(&v) = self.memo.borrow().get(&e) {
            return v;
        }
        let m = mask(n.w);
        let r = match n.op {
            Op::Extract => self.eval(n.a) >> n.b,
            Op::SExt => sext_to(self.eval(n.a), width(n.a)) as u128,
            Op::Ite => {
                if self.eval(n.a) == 1 { self.eval(n.b) } else { self.eval(n.c) }
            }
            _ => {
                let (a, b) = (self.eval(n.a), self.eval(n.b));
                let w = width(n.a);
                match n.op {
                    Op::Add => a.wrapping_add(b),
                    Op::Mul => a.wrapping_mul(b),
                    Op::UDiv => if b == 0 { m } else { a / b },
                    Op::URem => if b == 0 { a } else { a % b },
                    Op::SDiv => {
                        let (x, y) = (sext_to(a, w), sext_to(b, w));
                        if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
                    }
                    Op::SRem => {
                        let (x, y) = (sext_to(a, w), sext_to(b, w));
                        if y == 0 { a } else { x.wrapping_rem(y) as u128 }
                    }
                    Op::And => a & b,
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    Op::Shl => if b >= w as u128 { 0 } else { a << b },
                    Op::LShr => if b >= w as u128 { 0 } else { a >> b },
                    Op::AShr => (sext_to(a, w) >> b.min(w as u128 - 1)) as u128,
                    Op::Eq => (a == b) as u128,
                    Op::Ult => (a < b) as u128,
                    Op::Slt => (sext_to(a, w) < sext_to(b, w)) as u128,
                    Op::Concat => (a << width(n.b)) | b,
                    _ => unreachable!(),
                }
            }
        } & m;
        self.memo.borrow_mut().insert(e, r);
        r
    }
}

/// SMT-LIB definition body of one node (operands referred to as `nID`).
pub fn smt_body(i: Id) -> String {
    let n = node(i);
    let r = |x: Id| -> String {
        let m = node(x);
        match m.op {
            Op::Const => smt_const(m.k, m.w),
            _ => format!("n{x}"),
        }
    };
    let bin = |o: &str| format!("({o} {} {})", r(n.a), r(n.b));
    match n.op {
        Op::Const => smt_const(n.k, n.w),
        Op::Var => unreachable!(),
        Op::Add => bin("bvadd"),
        Op::Mul => bin("bvmul"),
        Op::UDiv => bin("bvudiv"),
        Op::URem => bin("bvurem"),
        Op::SDiv => bin("bvsdiv"),
        Op::SRem => bin("bvsrem"),
        Op::And => bin("bvand"),
        Op::Or => bin("bvor"),
        Op::Xor => bin("bvxor"),
        Op::Shl => bin("bvshl"),
        Op::LShr => bin("bvlshr"),
        Op::AShr => bin("bvashr"),
        Op::Concat => bin("concat"),
        Op::Eq => format!("(ite (= {} {}) #b1 #b0)", r(n.a), r(n.b)),
        Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", r(n.a), r(n.b)),
        Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", r(n.a), r(n.b)),
        Op::Ite => format!("(ite (= {} #b1) {} {})", r(n.a), r(n.b), r(n.c)),
        Op::Extract => format!("((_ extract {} {}) {})", n.b + n.w as u32 - 1, n.b, r(n.a)),
        Op::SExt => format!("((_ sign_extend {}) {})", n.w - width(n.a), r(n.a)),
    }
}
pub fn smt_const(k: u128, w: u8) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", k, width = w as usize / 4)
    } else {
        format!("#b{:0width$b}", k, width = w as usize)
    }
}

// ---------- bits fixed by a path condition ----------

/// Bits known to be zero / one per term, beyond what the term itself implies.
pub type Bits = HashMap<Id, (u128, u128)>;

/// Records that `t` has the given bits and what follows for its operands.
pub fn learn(m: &mut Bits, t: Id, z: u128, o: u128) {
    let n = node(t);
    let mk = mask(n.w);
    let (z, o) = (z & mk, o & mk);
    if n.op == Op::Const {
        return;
    }
    let e = m.entry(t).or_insert((0, 0));
    if e.0 | z == e.0 && e.1 | o == e.1 {
        return;
    }
    e.0 |= z;
    e.1 |= o;
    match n.op {
        Op::And => {
            let (x, y) = (bits(m, n.a), bits(m, n.b));
            learn(m, n.a, z & y.1, o);
            learn(m, n.b, z & x.1, o);
        }
        Op::Or => {
            let (x, y) = (bits(m, n.a), bits(m, n.b));
            learn(m, n.a, z, o & y.0);
            learn(m, n.b, z, o & x.0);
        }
        Op::Xor => {
            let (x, y) = (bits(m, n.a), bits(m, n.b));
            learn(m, n.a, z & y.0 | o & y.1, o & y.0 | z & y.1);
            learn(m, n.b, z & x.0 | o & x.1, o & x.0 | z & x.1);
        }
        Op::Concat => {
            let s = node(n.b).w as u32;
            learn(m, n.a, z >> s, o >> s);
            learn(m, n.b, z, o);
        }
        Op::Extract => learn(m, n.a, z << n.b, o << n.b),
        Op::SExt => learn(m, n.a, z, o),
        Op::Eq if o == 1 => {
            let (x, y) = (bits(m, n.a), bits(m, n.b));
            learn(m, n.a, y.0, y.1);
            learn(m, n.b, x.0, x.1);
        }
        Op::Eq if z == 1 && node(n.a).w == 1 => {
            let (x, y) = (bits(m, n.a), bits(m, n.b));
            learn(m, n.a, y.1, y.0);
            learn(m, n.b, x.1, x.0);
        }
        Op::Ult => {
            let w = node(n.a).w;
            let wm = mask(w);
            // a < b, or a >= b
            let (lt, ge) = if o == 1 { (n.a, n.b) } else { (n.b, n.a) };
            let (x, y) = (bits(m, lt), bits(m, ge));
            let less = (o == 1) as u128;
            // lt <= max(ge) - less, ge >= min(lt) + less
            let hi = (!y.0 & wm).saturating_sub(less);
            let lo = (x.1 & wm) + less;
            let up = |v: u128| if v == 0 { 0 } else { mask(128 - v.leading_zeros() as u8) };
            learn(m, lt, wm & !up(hi), 0);
            // the leading ones of a lower bound
            let mut k = 0;
            let mut b = w as u32;
            while b > 0 && lo >> (b - 1) & 1 == 1 {
                b -= 1;
                k |= 1 << b;
            }
            learn(m, ge, 0, k);
        }
        _ => (),
    }
}

/// Bits of `t` (zero, one) that follow from `m`; all positions outside the width are zero.
pub fn bits(m: &Bits, t: Id) -> (u128, u128) {
    let mut memo = HashMap::new();
    bits_in(m, t, &mut memo, 0)
}

fn bits_in(m: &Bits, t: Id, memo: &mut Bits, depth: u32) -> (u128, u128) {
    let n = node(t);
    if n.op == Op::Const {
        return (n.z, n.o);
    }
    if let Some(&r) = memo.get(&t) {
        return r;
    }
    let mk = mask(n.w);
    let (mut z, mut o) = m.get(&t).copied().unwrap_or((0, 0));
    z |= n.z | !mk;
    o |= n.o;
    if (z | o) & mk != mk && depth < 200 {
        let mut g = |i: Id| bits_in(m, i, memo, depth + 1);
        let (z1, o1) = match n.op {
            Op::And => {
                let (x, y) = (g(n.a), g(n.b));
                (x.0 | y.0, x.1 & y.1)
            }
            Op::Or => {
                let (x, y) = (g(n.a), g(n.b));
                (x.0 & y.0, x.1 | y.1)
            }
            Op::Xor => {
                let (x, y) = (g(n.a), g(n.b));
                (x.0 & y.0 | x.1 & y.1, x.0 & y.1 | x.1 & y.0)
            }
            Op::Concat => {
                let (x, y) = (g(n.a), g(n.b));
                let w = node(n.b).w;
                (x.0 << w | y.0 & mask(w), x.1 << w | y.1)
            }
            Op::Extract => {
                let x = g(n.a);
                (x.0 >> n.b, x.1 >> n.b)
            }
            Op::SExt => {
                let x = g(n.a);
                let w = node(n.a).w;
                let up = mk & !mask(w);
                let (s0, s1) = (x.0 >> (w - 1) & 1 == 1, x.1 >> (w - 1) & 1 == 1);
                (x.0 & mask(w) | if s0 { up } else { 0 }, x.1 | if s1 { up } else { 0 })
            }
            Op::Add => {
                let (x, y) = (g(n.a), g(n.b));
                let k = ((x.0 | x.1) & (y.0 | y.1)).trailing_ones().min(n.w as u32);
                let low = if k == 0 { 0 } else { mask(k as u8) };
                let s = (x.1 & low).wrapping_add(y.1 & low) & low;
                (low & !s, s)
            }
            Op::Ite => {
                let c = g(n.a);
                if c.1 & 1 == 1 {
                    g(n.b)
                } else if c.0 & 1 == 1 {
                    g(n.c)
                } else {
                    let (x, y) = (g(n.b), g(n.c));
                    (x.0 & y.0, x.1 & y.1)
                }
            }
            Op::Eq => {
                let (x, y) = (g(n.a), g(n.b));
                if x.0 & y.1 | x.1 & y.0 != 0 {
                    (1, 0)
                } else if (x.0 | x.1) & (y.0 | y.1) == u128::MAX {
                    (0, 1)
                } else {
                    (0, 0)
                }
            }
            Op::Ult => {
                let (x, y) = (g(n.a), g(n.b));
                let wm = mask(node(n.a).w);
                if !x.0 & wm < y.1 {
                    (0, 1)
                } else if x.1 >= !y.0 & wm {
                    (1, 0)
                } else {
                    (0, 0)
                }
            }
            _ => (0, 0),
        };
        z |= z1 | !mk;
        o |= o1 & mk;
    }
    memo.insert(t, (z, o));
    (z, o)
}
