//! mch list                       one line per scenario
//! mch worker                     explores "index pmin pmax smax seconds" lines from stdin
//! mch replay INDEX P S CHOICES   replays a recorded execution
mod api;
mod conc;
mod mc;
mod ops;
mod seq;
mod share;
mod hooks;
mod inner;
mod types;
mod val;
use std::io::{BufRead, Write};

#[global_allocator]
static A: mc::McAlloc = mc::McAlloc;

pub struct Scen {
    pub name: String,
    pub props: Vec<&'static str>,
    /// no threads: all nondeterminism is in the choices
    pub seq: bool,
    /// explored by the thorough checks only
    pub deep: bool,
    pub run: Box<dyn Fn()>,
}

fn scenarios() -> Vec<Scen> {
    let mut v: Vec<Scen> = conc::scenarios()
        .into_iter()
        .map(|c| {
            let p = c.prog;
            Scen { name: c.name, props: c.props, seq: false, deep: false, run: Box::new(move || ops::run(&p)) }
        })
        .collect();
    for c in share::scenarios().into_iter().chain(types::concurrent()).chain(hooks::concurrent()).chain(inner::concurrent()) {
        v.push(Scen { name: c.name, props: c.props, seq: false, deep: false, run: c.run });
    }
    for deep in [false, true] {
        let have: std::collections::HashSet<String> = v.iter().map(|s| s.name.clone()).collect();
        for c in seq::scenarios(deep).into_iter().chain(types::sequential(deep)).chain(hooks::sequential()).chain(inner::sequential(deep)) {
            if !have.contains(&c.name) {
                v.push(Scen { name: c.name, props: c.props, seq: true, deep, run: c.run });
            }
        }
    }
    v
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(i: usize, o: &mc::Outcome) -> String {
    let r = &o.res;
    let mut s = format!(
        "{{\"i\":{},\"states\":{},\"transitions\":{},\"executions\":{},\"pruned\":{},\"outcomes\":{},\"stale_reads\":{},\"spin_blocks\":{},\"max_depth\":{},\"branch_points\":{},\"completed_p\":{},\"exhausted\":{},\"timeout\":{},\"limited\":{},\"violation\":{},\"wall\":{:.4}",
        i, r.states, r.transitions, r.executions, r.pruned, r.outcomes, r.stale_reads, r.spin_blocks, r.max_depth, r.branch_points, r.completed_p, r.exhausted, r.timeout, r.limited, r.violation, r.wall
    );
    if r.violation != 0 {
        s += &format!(",\"text\":{},\"choices\":{},\"trace\":{}", js(&o.text), js(&o.choices), js(&o.trace));
    }
    s + "}"
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let sc = scenarios();
    let base = main as fn() as usize;
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            let out = std::io::stdout();
            let mut out = out.lock();
            for (i, s) in sc.iter().enumerate() {
                writeln!(out, "{{\"i\":{},\"name\":{},\"seq\":{},\"deep\":{},\"props\":{}}}", i, js(&s.name), s.seq, s.deep, js(&s.props.join(" "))).unwrap();
            }
        }
        Some("worker") => {
            println!("{{\"main\":{}}}", base);
            for line in std::io::stdin().lock().lines() {
                let line = line.unwrap();
                let f: Vec<&str> = line.split_whitespace().collect();
                let i: usize = f[0].parse().unwrap();
                let s = &sc[i];
                let cfg = mc::McCfg {
                    pmin: f[1].parse().unwrap(),
                    pmax: f[2].parse().unwrap(),
                    smax: f[3].parse().unwrap(),
                    seconds: f[4].parse().unwrap(),
                    cache: !s.seq as u32,
                };
                let o = mc::explore(&cfg, &*s.run);
                println!("{}", report(i, &o));
                if o.res.violation != 0 {
                    return;
                }
            }
        }
        Some("replay") => {
            let i: usize = a[2].parse().unwrap();
            let o = mc::replay(&a[5], a[3].parse().unwrap(), a[4].parse().unwrap(), &*sc[i].run);
            println!("{{\"main\":{}}}", base);
            // the trace, whether or not the execution violates anything
            let mut r = report(i, &o);
            if o.res.violation == 0 {
                r.pop();
                r += &format!(",\"trace\":{}}}", js(&o.trace));
            }
            println!("{}", r);
        }
        _ => {
            eprintln!("usage: mch list | worker | replay INDEX P S CHOICES");
            std::process::exit(2);
        }
    }
}
