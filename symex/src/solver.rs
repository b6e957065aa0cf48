//! One long-lived z3 process; the assertion stack follows the path condition of the current state.

use crate::expr::{self, Id, Model, Op};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub struct Solver {
    _child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: Vec<bool>,
    stack: Vec<Id>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub ms: f64,
    pub max_ms: f64,
    pub unknown: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut child = Command::new("z3")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver {
            _child: child,
            inp,
            out,
            defined: vec![],
            stack: vec![],
            queries: 0,
            sat: 0,
            unsat: 0,
            ms: 0.0,
            max_ms: 0.0,
            unknown: 0,
        };
        s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n");
        s.send(&format!("(set-option :timeout {timeout_ms})\n(set-logic QF_BV)\n"));
        s
    }
    fn send(&mut self, t: &str) {
        self.inp.write_all(t.as_bytes()).expect("z3 pipe");
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        self.out.read_line(&mut l).expect("z3 pipe");
        if l.contains("(error") || l.is_empty() {
            panic!("z3: {l}");
        }
        l
    }
    fn define(&mut self, e: Id, buf: &mut String) {
        if self.defined.len() <= e as usize {
            self.defined.resize(e as usize + 1024, false);
        }
        if self.defined[e as usize] {
            return;
        }
        let mut st = vec![(e, false)];
        while let Some((x, ready)) = st.pop() {
            if self.defined.len() > x as usize && self.defined[x as usize] {
                continue;
            }
            let n = expr::node(x);
            match n.op {
                Op::Const => continue,
                Op::Var => {
                    buf.push_str(&format!("(declare-const n{x} (_ BitVec {}))\n", n.w));
                    self.defined[x as usize] = true;
                    continue;
                }
                _ => (),
            }
            if ready {
                buf.push_str(&format!(
                    "(define-fun n{x} () (_ BitVec {}) {})\n",
                    n.w,
                    expr::smt_body(x)
                ));
                self.defined[x as usize] = true;
            } else {
                st.push((x, true));
                st.push((n.a, false));
                if !matches!(n.op, Op::Extract | Op::SExt) {
                    st.push((n.b, false));
                }
                if n.op == Op::Ite {
                    st.push((n.c, false));
                }
            }
        }
    }
    fn r(e: Id) -> String {
        match expr::as_const(e) {
            Some(k) => expr::smt_const(k, expr::width(e)),
            None => format!("n{e}"),
        }
    }

    /// Is `pc` ∧ `extra` satisfiable?  `None` = solver gave up.
    pub fn check(&mut self, pc: &[Id], extra: Id) -> Option<Option<Model>> {
        let mut buf = String::new();
        let common = self.stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
        if common < self.stack.len() {
            buf.push_str(&format!("(pop {})\n", self.stack.len() - common));
            self.stack.truncate(common);
        }
        for &p in &pc[common..] {
            self.define(p, &mut buf);
            buf.push_str(&format!("(push)\n(assert (= {} #b1))\n", Self::r(p)));
            self.stack.push(p);
        }
        self.define(extra, &mut buf);
        buf.push_str(&format!("(push)\n(assert (= {} #b1))\n(check-sat)\n", Self::r(extra)));
        let t = Instant::now();
        self.send(&buf);
        let ans = self.line();
        self.queries += 1;
        let res = match ans.trim() {
            "sat" => {
                self.sat += 1;
                Some(Some(self.model()))
            }
            "unsat" => {
                self.unsat += 1;
                Some(None)
            }
            _ => {
                self.unknown += 1;
                None
            }
        };
        let d = t.elapsed().as_secs_f64() * 1000.0;
        self.ms += d;
        self.max_ms = self.max_ms.max(d);
        self.send("(pop)\n");
        res
    }

    fn model(&mut self) -> Model {
        let vars: Vec<(Id, usize)> = expr::AR.with(|a| {
            let a = a.borrow();
            a.n.iter()
                .enumerate()
                .filter(|(_, n)| n.op == Op::Var)
                .map(|(i, n)| (i as Id, n.k as usize))
                .collect()
        });
        let mut vals = vec![0u128; vars.len()];
        let known: Vec<_> = vars
            .into_iter()
            .filter(|(i, _)| self.defined.get(*i as usize).copied().unwrap_or(false))
            .collect();
        if known.is_empty() {
            return Model::new(vals);
        }
        let mut q = String::from("(get-value (");
        for (i, _) in &known {
            q.push_str(&format!("n{i} "));
        }
        q.push_str("))\n");
        self.send(&q);
        // ((n1 #x..)\n (n2 #b..))
        let mut text = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.line();
            depth += l.matches('(').count() as i32 - l.matches(')').count() as i32;
            text.push_str(&l);
            if depth <= 0 {
                break;
            }
        }
        let map: std::collections::HashMap<Id, usize> = known.into_iter().collect();
        for part in text.split('(') {
            let mut it = part.trim().trim_end_matches(|c| c == ')' || c == '\n').split_whitespace();
            if let (Some(n), Some(v)) = (it.next(), it.next()) {
                let v = v.trim_end_matches(')');
                if let Some(id) = n.strip_prefix('n').and_then(|x| x.parse::<Id>().ok()) {
                    let val = if let Some(h) = v.strip_prefix("#x") {
                        u128::from_str_radix(h, 16).unwrap()
                    } else {
                        u128::from_str_radix(v.strip_prefix("#b").unwrap(), 2).unwrap()
                    };
                    vals[map[&id]] = val;
                }
            }
        }
        Model::new(vals)
    }
}
