//! xn HARNESS FILE: run a harness natively on the values of a counterexample.
use std::collections::BTreeMap;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let (mut tape, mut content) = (vec![], BTreeMap::new());
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.get(0) {
            Some(&"tape") => tape = w[1..].iter().map(|x| x.parse().unwrap()).collect(),
            Some(&"arr") => {
                content.insert((w[1].parse().unwrap(), w[2].parse().unwrap()), w[3].parse().unwrap());
            }
            _ => {}
        }
    }
    let f = subject::verif_harness::TABLE.iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    std::panic::set_hook(Box::new(|_| {}));
    if a.len() > 3 {
        // sampling: which of the situations that must be possible never occur
        let n: u64 = a[3].parse().unwrap();
        for i in 1..=n {
            ndlib::randomize(i);
            let _ = std::panic::catch_unwind(f);
        }
        let never: Vec<String> = ndlib::POSS.lock().unwrap().iter().filter(|x| !x.1).map(|x| x.0.clone()).collect();
        match never.is_empty() {
            true => println!("PASSED"),
            false => println!("FAILED never in {} runs: {}", n, never.join("; ")),
        }
        return;
    }
    ndlib::load(tape, content);
    let r = std::panic::catch_unwind(f);
    match r {
        Ok(()) => println!("PASSED"),
        Err(e) => {
            if let Some(x) = e.downcast_ref::<ndlib::Failed>() {
                println!("FAILED {}", x.0)
            } else if e.downcast_ref::<ndlib::Stop>().is_some() {
                println!("STOPPED")
            } else {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("{} {}", if ndlib::panic_allowed() { "PANIC-OK" } else { "FAILED panic:" }, m)
            }
        }
    }
}
