mod exec;
mod expr;
mod ir;
mod mach;
mod solver;

use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn wit(w: &exec::Witness) -> String {
    let ins: Vec<String> = w.inputs.iter().map(|(t, b)| format!("[{t},\"{}\"]", hex(b))).collect();
    let notes: Vec<String> = w.notes.iter().map(|(t, b)| format!("[{t},\"{b}\"]")).collect();
    format!(
        "{{\"id\":{},\"kind\":\"{}\",\"msg\":\"{}\",\"path\":{},\"inputs\":[{}],\"notes\":[{}],\"sched\":{:?}}}",
        w.id,
        w.kind,
        esc(&w.msg),
        w.path,
        ins.join(","),
        notes.join(","),
        w.sched
    )
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut ll, mut entry) = (String::new(), String::new());
    let mut o = exec::Opts {
        max_steps: 5_000_000,
        paranoid: false,
        max_secs: 300.0,
        max_paths: 1_000_000,
        max_viol: 8,
        preempt: 2,
        witnesses: 16,
        trace: false,
        tmp: "/tmp".into(),
    };
    let mut tmo = 20000;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--steps" => o.max_steps = v().parse().unwrap(),
            "--secs" => o.max_secs = v().parse().unwrap(),
            "--paths" => o.max_paths = v().parse().unwrap(),
            "--viol" => o.max_viol = v().parse().unwrap(),
            "--preempt" => o.preempt = v().parse().unwrap(),
            "--witnesses" => o.witnesses = v().parse().unwrap(),
            "--tmp" => o.tmp = v(),
            "--query-ms" => tmo = v().parse().unwrap(),
            "--trace" => o.trace = true,
            "--paranoid" => o.paranoid = true,
            _ if ll.is_empty() => ll = a,
            _ => entry = a,
        }
    }
    let text = std::fs::read_to_string(&ll).expect("read IR");
    let m = ir::Module::load(text);
    let triple = m.triple.clone();
    let mut x = exec::Machine::new(m, o, tmo);
    let t0 = std::time::Instant::now();
    // deep recursion in expression construction needs stack
    x.run(&entry);
    let s = &x.stats;
    let mut out = String::new();
    let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect::<Vec<_>>().join(",");
    write!(out, "{{\"entry\":\"{entry}\",\"triple\":\"{triple}\",\"paths\":{},\"ended\":{{{}}},\"panics\":{{{}}},", s.paths, map(&s.ended), map(&s.panics)).unwrap();
    write!(out, "\"steps\":{},\"forks\":{},\"pruned\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_ms\":{:.0},\"max_query_ms\":{:.0},\"wall_s\":{:.2},\"terms\":{},", s.steps, s.forks, s.pruned, x.s.queries, x.s.sat, x.s.unsat, x.s.unknown, x.s.ms, x.s.max_ms, t0.elapsed().as_secs_f64(), expr::count()).unwrap();
    write!(out, "\"checks\":{{{}}},", s.checks.iter().map(|(k, v)| format!("\"{k}\":[{},{}]", v.0, v.1)).collect::<Vec<_>>().join(",")).unwrap();
    write!(out, "\"covers\":{{{}}},", s.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")).unwrap();
    write!(out, "\"errors\":{{{}}},", map(&x.errors)).unwrap();
    let mut fs: Vec<&String> = s.funcs.iter().collect();
    fs.sort();
    write!(out, "\"functions\":[{}],", fs.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(",")).unwrap();
    write!(out, "\"violations\":[{}],", x.viol.iter().map(wit).collect::<Vec<_>>().join(",\n")).unwrap();
    write!(out, "\"witnesses\":[{}]}}", x.wit.iter().map(wit).collect::<Vec<_>>().join(",\n")).unwrap();
    println!("{out}");
}
