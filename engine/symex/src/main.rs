//! symex MODULE.ll FUNCTION... : runs each function symbolically and prints
//! one JSON line per function.
mod exec;
mod expr;
mod ir;
mod solver;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o
}
fn env(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn work() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "selftest" {
        let (seed, n) = (a[2].parse().unwrap(), a[3].parse().unwrap());
        match expr::selftest(seed, n) {
            Ok(n) => println!("selftest: {} terms agree", n),
            Err(m) => {
                println!("selftest: {}", m);
                std::process::exit(1);
            }
        }
        return;
    }
    for f in &a[2..] {
        let t0 = Instant::now();
        let m = ir::Module::load(&a[1]);
        let mut s = solver::Solver::new(&std::env::var("SYMEX_Z3").unwrap_or("z3-new".into()), env("SYMEX_QUERY_MS", 60000));
        s.dump = std::env::var("SYMEX_DUMP").ok();
        let mut x = exec::Exec::new(m, s);
        x.p.c(1, 1);
        x.max_insts = env("SYMEX_INSTS", 4_000_000_000);
        x.max_paths = env("SYMEX_PATHS", 1_000_000);
        x.deadline = t0 + std::time::Duration::from_secs(env("SYMEX_SECS", 800));
        let r = x.start(f);
        let (status, extra) = match r {
            Ok(()) => {
                let never: Vec<String> = x.poss.iter().filter(|x| !x.1).map(|x| format!("\"{}\"", esc(x.0))).collect();
                if !x.lost.is_empty() {
                    ("noanswer", format!(",\"reason\":\"{} runs given up: {}\"", x.lost.len(), esc(&x.lost[0])))
                } else if !never.is_empty() {
                    ("impossible", format!(",\"msg\":\"cannot occur\",\"never\":[{}]", never.join(",")))
                } else if x.undecided.is_empty() {
                    ("ok", String::new())
                } else {
                    ("noanswer", format!(",\"reason\":\"undecided: {}\"", esc(&x.undecided.join("; "))))
                }
            }
            Err(exec::Fatal::Violation { msg, tape, ufs, at }) => (
                "violation",
                format!(
                    ",\"msg\":\"{}\",\"at\":\"{}\",\"tape\":[{}],\"ufs\":[{}]",
                    esc(&msg),
                    esc(&at),
                    tape.iter().map(|(v, w)| format!("[{},{}]", v, w)).collect::<Vec<_>>().join(","),
                    ufs.iter().map(|(s, a, v)| format!("[{},{},{}]", s, a, v)).collect::<Vec<_>>().join(",")
                ),
            ),
            Err(exec::Fatal::NoAnswer(s)) => ("noanswer", format!(",\"reason\":\"{}\"", esc(&s))),
        };
        if let Some(p) = &x.prof {
            let mut v: Vec<_> = p.values().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1));
            for (n, k) in v.iter().take(25) {
                eprintln!("{:>12} {}", k, n);
            }
        }
        let sl = &x.s;
        println!(
            "{{\"fn\":\"{}\",\"status\":\"{}\"{},\"insts\":{},\"paths\":{},\"panics\":{},\"forks\":{},\"merges\":{},\"unmerged\":{},\"checks\":{},\"trivial\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},\"wall_s\":{:.3},\"marks\":[{}],\"functions\":[{}],\"why\":\"{}\"}}",
            f, status, extra, x.insts, x.paths, x.panics, x.forks, x.merges, x.unmerged, x.checks, x.trivial, sl.queries, sl.sat, sl.unsat, sl.unknown, sl.cache_hits, sl.time, sl.slowest, t0.elapsed().as_secs_f64(),
            x.marks.iter().map(|m| format!("\"{}\"", esc(m))).collect::<Vec<_>>().join(","),
            x.used.iter().map(|m| format!("\"{}\"", esc(m))).collect::<Vec<_>>().join(","),
            esc(&format!("{:?}", x.why).replace('"', "'"))
        );
    }
}
fn main() {
    std::thread::Builder::new().stack_size(4 << 30).spawn(work).unwrap().join().unwrap();
}
