//! Native build of the same harnesses: replays solver models and produces
//! concrete traces for validating the symbolic engine.
#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
#[path = "../../props/macros.rs"]
mod macros;
pub mod api {
    use std::cell::RefCell;
    use std::collections::HashMap;
    #[derive(Default)]
    pub struct St {
        pub replay: HashMap<String, u64>, pub params: HashMap<String, u64>, pub random: Option<u64>,
        pub counts: HashMap<String, u32>, pub used: Vec<(String, u32, u64)>, pub traces: Vec<u64>,
        pub expect: Option<String>, pub reach: Vec<String>,
    }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
    pub struct Stop; pub struct AssumeFail; pub struct CheckFail(pub String);
    pub fn sym(n: &str, bits: u32, lo: u64, hi: u64) -> u64 {
        ST.with(|s| { let s = &mut *s.borrow_mut();
            let c = s.counts.entry(n.to_string()).or_insert(0); let full = if *c > 0 { format!("{}.{}", n, c) } else { n.to_string() }; *c += 1;
            let v = if let Some(r) = &mut s.random {
                let mut next = || { *r = r.wrapping_add(0x9E3779B97F4A7C15); let mut z = *r; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) };
                let k = next() % 8; let span = hi.wrapping_sub(lo);
                let x = next(); let x = if k == 0 { 0 } else if k == 1 { span } else if k < 4 { x % 17 } else { x };
                if span == u64::MAX { x } else { lo + x % (span + 1) }
            } else { *s.replay.get(&full).unwrap_or(&lo) };
            s.used.push((full, bits, v)); v })
    }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(AssumeFail) } }
    pub fn check(c: bool, n: &str) { if !c { std::panic::panic_any(CheckFail(n.to_string())) } }
    pub fn reach(n: &str) { ST.with(|s| s.borrow_mut().reach.push(n.to_string())) }
    pub fn concretize(v: u64) -> u64 { v }
    pub fn expect_panic(n: &str) { ST.with(|s| s.borrow_mut().expect = Some(n.to_string())) }
    pub fn no_panic() { ST.with(|s| s.borrow_mut().expect = None) }
    pub fn trace(v: u64) { ST.with(|s| s.borrow_mut().traces.push(v)) }
    pub fn fork(c: bool) -> bool { c }
    pub fn param(n: &str, d: u64) -> u64 { ST.with(|s| *s.borrow().params.get(n).unwrap_or(&d)) }
    pub fn stop() { std::panic::panic_any(Stop) }
}
#[path = "../../props/util.rs"]
pub mod util;
pub mod prop {
    use crate::api::*;
    use crate::util::*;
    include!(env!("DSYM_PROP"));
}

// nath JOB (--replay FILE | --random SEED --save FILE) [--param n=v]...
// exit 0: ran to the end; 1: check failed / panic; 3: assumption not met; 2: usage
fn main() {
    let mut args = std::env::args().skip(1);
    let job = args.next().expect("job");
    let mut save = None;
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        api::ST.with(|s| { let s = &mut *s.borrow_mut(); match a.as_str() {
            "--replay" => { for l in std::fs::read_to_string(&v).expect("replay file").lines() { let f: Vec<&str> = l.split_whitespace().collect(); if l.starts_with('#') || f.len() < 3 { continue; } if f[0] == "!param" { s.params.insert(f[1].into(), f[2].parse().unwrap()); } else { s.replay.insert(f[0].into(), f[2].parse().unwrap()); } } }
            "--random" => s.random = Some(v.parse().unwrap()),
            "--save" => save = Some(v),
            "--param" => { let (n, x) = v.split_once('=').unwrap(); s.params.insert(n.into(), x.parse().unwrap()); }
            _ => panic!("bad option {}", a) } });
    }
    let f = prop::table().into_iter().find(|x| x.0 == job).expect("unknown job").1;
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| { let p = i.payload(); if p.is::<api::Stop>() || p.is::<api::AssumeFail>() || p.is::<api::CheckFail>() { return; } if api::ST.with(|s| s.borrow().expect.is_some()) { return; } hook(i); }));
    let r = std::panic::catch_unwind(|| f());
    let open = api::ST.with(|s| s.borrow().expect.clone());
    let code = match r {
        Ok(()) if open.is_some() => { println!("END accepted {}", open.unwrap()); 1 }
        Ok(()) => { println!("END ok"); 0 }
        Err(e) => {
            if e.is::<api::Stop>() { println!("END stop"); 0 }
            else if e.is::<api::AssumeFail>() { println!("END assume"); 3 }
            else if let Some(c) = e.downcast_ref::<api::CheckFail>() { println!("END check {}", c.0); 1 }
            else if let Some(l) = api::ST.with(|s| s.borrow().expect.clone()) { println!("END expected-panic {}", l); 0 }
            else { println!("END panic"); 1 }
        }
    };
    api::ST.with(|s| { let s = s.borrow();
        println!("TRACES {}", s.traces.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        if let Some(f) = save { std::fs::write(f, s.used.iter().map(|(n, w, v)| format!("{} {} {}\n", n, w, v)).collect::<String>()).unwrap(); }
    });
    std::process::exit(code);
}
