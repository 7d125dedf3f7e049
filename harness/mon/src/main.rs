//! mon <property> --tier T --seed S --shard i/n --cases N [--dict F] [--out F] [--distinct F]
//!                [--journal F] [--only INDEX]
//! Runs the cases of one shard against the system under observation and writes what was observed.

mod ball;
mod big;
mod c_calc;
mod c_lim;
mod c_meta;
mod c_num;
mod c_sim;
mod c_sys;
mod c_text;
mod ctx;
mod gen;
mod guide;
mod model;
mod rng;

use ctx::{js, Ctx, Journal};
use gen::Dict;
use rng::Rng;
use std::fmt::Write as _;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: ctx::Counting = ctx::Counting;

pub type Case = fn(&mut Ctx, &mut Rng);

fn case_of(prop: &str) -> Option<Case> {
    Some(match prop {
        "C01" => c_num::c01,
        "C02" => c_num::c02,
        "C03" => c_num::c03,
        "C04" => c_num::c04,
        "C05" => c_num::c05,
        "C06" => c_num::c06,
        "C07" => c_num::c07,
        "C08" => c_num::c08,
        "C09" => c_sim::c09,
        "C10" => c_sim::c10,
        "C12" => c_sim::c12,
        "C23" => c_sys::c23,
        "C24" => c_sys::c24,
        "C25" => c_sys::c25,
        "C26" => c_sim::c26,
        "C11" => c_text::c11,
        "C17" => c_text::c17,
        "C13" => c_calc::c13,
        "C14" => c_calc::c14,
        "C15" => c_calc::c15,
        "C16" => c_calc::c16,
        "C18" => c_lim::c18,
        "C19" => c_lim::c19,
        "C20" => c_lim::c20,
        "C21" => c_lim::c21,
        "C22" => c_lim::c22,
        "C27" => c_meta::c27,
        "C28" => c_meta::c28,
        "C29" => c_meta::c29,
        "C30" => c_lim::c30,
        _ => return None,
    })
}

struct Args {
    prop: String,
    tier: String,
    seed: u64,
    shard: u64,
    shards: u64,
    cases: u64,
    dict: Option<String>,
    out: Option<String>,
    distinct: Option<String>,
    journal: Option<String>,
    only: Option<u64>,
    reverse: bool,
    small: bool,
    guided: bool,
}

fn parse() -> Args {
    let mut a = Args {
        prop: String::new(),
        tier: "quick".into(),
        seed: 1,
        shard: 0,
        shards: 1,
        cases: 100,
        dict: None,
        out: None,
        distinct: None,
        journal: None,
        only: None,
        reverse: false,
        small: false,
        guided: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("option value");
        match x.as_str() {
            "--tier" => a.tier = val(),
            "--seed" => a.seed = val().parse().expect("seed"),
            "--shard" => {
                let v = val();
                let (i, n) = v.split_once('/').expect("i/n");
                a.shard = i.parse().expect("shard");
                a.shards = n.parse().expect("shards");
            }
            "--cases" => a.cases = val().parse().expect("cases"),
            "--dict" => a.dict = Some(val()),
            "--out" => a.out = Some(val()),
            "--distinct" => a.distinct = Some(val()),
            "--journal" => a.journal = Some(val()),
            "--reverse" => a.reverse = true,
            "--small" => a.small = true,
            "--guided" => a.guided = true,
            "--only" => a.only = Some(val().parse().expect("index")),
            _ => a.prop = x,
        }
    }
    a
}

fn read_dict(path: Option<&str>) -> Dict {
    let mut d = Dict::default();
    if let Some(p) = path {
        for line in std::fs::read_to_string(p).expect("dictionary").lines() {
            if let Some(v) = line.strip_prefix("i ") {
                if let Ok(v) = v.parse() {
                    d.ints.push(v);
                }
            } else if let Some(v) = line.strip_prefix("f ") {
                if let Ok(v) = v.parse() {
                    d.floats.push(v);
                }
            } else if let Some(v) = line.strip_prefix("n ") {
                d.names.push(v.to_string());
            }
        }
    }
    d
}

fn report(c: &Ctx) -> String {
    let mut s = String::from("{");
    let _ = write!(
        s,
        "\"evaluations\":{},\"calls\":{},\"distinct\":{},\"inconclusive\":{},\"max_allocs\":{},\"digest\":\"{:016x}\",",
        c.evaluations,
        c.calls,
        c.distinct.len(),
        c.inconclusive,
        c.max_allocs,
        c.digest
    );
    s.push_str("\"counts\":{");
    for (i, (k, v)) in c.counts.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
    }
    s.push_str("},\"samples\":[");
    for (i, x) in c.samples.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(x));
    }
    s.push_str("],\"violations\":[");
    for (i, v) in c.violations.iter().enumerate() {
        let _ = write!(s, "{}{{\"index\":{},\"message\":{}}}", if i > 0 { "," } else { "" }, v.index, js(&v.message));
    }
    s.push_str("],\"events\":[");
    for (i, e) in c.events.iter().enumerate() {
        // each event is a JSON value already
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, e);
    }
    s.push_str("]}\n");
    s
}

fn run(a: Args) -> i32 {
    let case = match case_of(&a.prop) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", a.prop);
            return 2;
        }
    };
    let mut c = Ctx::new(&a.prop, &a.tier, a.seed, read_dict(a.dict.as_deref()), Journal::open(a.journal.as_deref()), a.only.is_some());
    c.reverse = a.reverse;
    c.small = a.small;
    let one = |c: &mut Ctx, i: u64| {
        c.begin(i);
        let mut r = c.rng(i);
        case(c, &mut r);
    };
    match a.only {
        Some(i) if a.guided => guide::run(&mut c, case, i % a.shards, a.shards, a.cases, Some(i)),
        Some(i) => one(&mut c, i),
        None if a.guided => guide::run(&mut c, case, a.shard, a.shards, a.cases, None),
        None => {
            let mut order: Vec<u64> = (a.shard..a.cases).step_by(a.shards as usize).collect();
            if a.reverse {
                order.reverse();
            }
            for i in order {
                one(&mut c, i);
            }
        }
    }
    let text = report(&c);
    match &a.out {
        Some(p) => std::fs::write(p, text).expect("output"),
        None => print!("{}", text),
    }
    if let Some(p) = &a.distinct {
        let mut b = Vec::with_capacity(c.distinct.len() * 8);
        for h in &c.distinct {
            b.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(p, b).expect("distinct");
    }
    0
}

fn main() {
    let a = parse();
    if a.prop == "selftest" {
        big::self_test();
        ball::self_test();
        c_text::self_test();
        println!("ok");
        return;
    }
    if a.prop == "runmain" {
        symbolic_rust::verif_hook::run_main();
        return;
    }
    if a.prop == "readmain" {
        use std::io::Read;
        let mut text = String::new();
        std::io::stdin().read_to_string(&mut text).expect("text");
        for m in c_text::demonstration(&text) {
            println!("{}", m);
        }
        return;
    }
    ctx::install_panic_hook();
    #[cfg(not(miri))]
    ctx::start_watchdog(60.0);
    let stack = if cfg!(miri) { 64 << 20 } else { 1 << 29 };
    let code = std::thread::Builder::new().stack_size(stack).spawn(move || run(a)).expect("worker thread").join().unwrap_or(3);
    std::process::exit(code);
}
