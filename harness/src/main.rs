//! Conformance harness: drives the library and records what it answers.
//!   h3conf work  PROP TABLES SEED TIER OUTDIR   run the calls of a property
//!   h3conf active SLOTS                         calls that were in progress
//!   h3conf one   TABLES op w z a b c            run one call, print its event
//!   h3conf event TABLES OUTCOME op w z a b c    print the event of a call that hung or aborted
mod accept;
mod call;
mod clients;
mod gen;
mod geo;
mod json;
mod mirror;
mod props;
mod run;
mod sphere;

use accept::Cx;
use call::*;
use std::io::Write;

fn load(tables: &str) -> &'static Cx {
    let spec = mirror::Spec::load(tables);
    let geo = geo::Geo::new(&spec);
    let (lits, flits) = gen::literals();
    let cx: &'static Cx = Box::leak(Box::new(Cx { spec, geo, lits, flits }));
    props::set_cx(cx);
    cx
}
fn parse_call(a: &[String]) -> Call {
    let op = OPS[a[0].parse::<usize>().unwrap()];
    let u = |s: &String| s.parse::<u64>().unwrap();
    let i = |s: &String| s.parse::<i64>().unwrap();
    Call::new(op, u(&a[1]), u(&a[2]), i(&a[3]), i(&a[4]), i(&a[5]))
}
fn show_call(k: &Call) -> String {
    format!("{} {} {} {} {} {}", k.op as u8, k.w, k.z, k.a, k.b, k.c)
}
fn event(cx: &Cx, k: &Call, o: &Out) -> String {
    let s = json(&cx.geo, &cx.spec, k, o);
    format!("{},\"id\":\"{}\"}}", &s[..s.len() - 1], show_call(k))
}
fn quote(s: &str) -> String {
    format!("\"{}\"", s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { '\'' } else { c }).collect::<String>())
}

/// another answer than the one given
fn falsify(o: &Out, way: usize) -> Out {
    match (o, way) {
        (_, 0) => Out::Panic(String::new()),
        (Out::Ok(v), 1) if !matches!(v, Val::Unit) => Out::Err("Failed".into()),
        (Out::Ok(v), _) => Out::Ok(match v.clone() {
            Val::Unit => return Out::Hang,
            Val::Bool(b) => Val::Bool(!b),
            Val::Int(n) => Val::Int(n + 1),
            Val::Big(n) => Val::Big(if way == 2 { n - 1 } else { -n - 1 }),
            Val::Word(w) => Val::Word(w ^ (1 << (40 + way))),
            Val::WordRot(w, m) if way == 2 => Val::WordRot(w, (m + 1) % 6),
            Val::WordRot(w, m) => Val::WordRot(w ^ (1 << (40 + way)), m),
            Val::Words(mut v) => {
                match (way, v.len()) {
                    (_, 0) => v.push(1),
                    (2, _) => {
                        v.pop();
                    }
                    (3, n) if n > 1 => v[n - 1] = v[0],
                    (_, n) => v[n / 2] ^= 1 << 45,
                }
                Val::Words(v)
            }
            Val::Pairs(mut v) => {
                let n = v.len();
                match way {
                    2 => v[n - 1].1 += 1,
                    3 => v[n / 2].0 ^= 1 << 45,
                    _ => {
                        v.pop();
                    }
                }
                Val::Pairs(v)
            }
            Val::Ints(mut v) => {
                let i = way % v.len();
                v[i] += 1;
                Val::Ints(v)
            }
            Val::Reals(mut v) => {
                v[0] = v[0] * 0.9 + 0.1;
                Val::Reals(v)
            }
            Val::Floats(x, y) => {
                if way == 2 {
                    Val::Floats(x * 0.9 + 0.1, y)
                } else {
                    Val::Floats(x, y * 0.9 + 0.1)
                }
            }
        }),
        (Out::Err(e), _) => {
            Out::Err(if e == "Failed" { "Domain".into() } else { "Failed".into() })
        }
        (Out::Some(w), 2) => Out::Some(w ^ (1 << 45)),
        (Out::Some(_), _) => Out::End,
        (Out::End, _) => Out::Some(0x8001_ffff_ffff_ffff),
        (o, _) => o.clone(),
    }
}

fn work(a: &[String]) {
    let (prop, tables, seed, tier, out) = (&a[0], &a[1], a[2].parse::<u64>().unwrap(), &a[3], &a[4]);
    run::map_slots(&format!("{}/slots", out));
    run::clear_slots();
    let cx = load(tables);
    run::watchdog(if tier == "thorough" { 300_000 } else { 20_000 });
    let plan = props::plan(cx, prop, seed, tier == "thorough");
    let rec = run::run_jobs(plan.jobs);

    let mut lines: Vec<String> = vec![];
    let mut parts: Vec<(usize, usize)> = vec![];
    // the suspicious first, the cheapest of them, one part each
    let mut sus: Vec<String> = rec.sus.iter().map(|(k, o)| event(cx, k, o)).collect();
    sus.sort_by_key(|s| s.len());
    sus.truncate(60);
    // as many as TLC reads in a few minutes
    let mut few = 0;
    while few < sus.len() && sus[..=few].iter().map(|s| s.len()).sum::<usize>() < 5_000_000 {
        few += 1;
    }
    sus.truncate(few.max(1));
    for s in sus {
        lines.push(s);
        parts.push((lines.len(), lines.len()));
    }
    for r in &rec.runs {
        let first = lines.len() + 1;
        for (k, o) in r {
            lines.push(event(cx, k, o));
        }
        parts.push((first, lines.len()));
    }
    let n = 96.min(rec.sample.len());
    for i in 0..n {
        let first = lines.len() + 1;
        for (k, o) in rec.sample.iter().skip(i).step_by(n) {
            lines.push(event(cx, k, o));
        }
        parts.push((first, lines.len()));
    }
    // falsified answers, which the specification has to reject
    let mut seen: std::collections::BTreeMap<Op, usize> = Default::default();
    let mut canaries: Vec<usize> = vec![];
    let hop = (rec.sample.len() / 400).max(1);
    let stateless = |k: &Call| !matches!(k.op, Op::Iter | Op::Next | Op::Jump | Op::Left | Op::Last | Op::Hint | Op::Least | Op::Rest | Op::Walk | Op::Step | Op::Go | Op::At | Op::Len);
    let in_runs = rec.runs.iter().skip(if rec.bad_runs { rec.runs.len() } else { 0 }).take(60).flatten();
    for (k, o) in rec.sample.iter().step_by(hop).chain(rec.sample.iter()).chain(in_runs) {
        let n = seen.entry(k.op).or_insert(0);
        if *n >= 5 || !stateless(k) || k.a > 6 && matches!(k.op, Op::Disk | Op::FastDisk | Op::FastRing) {
            continue;
        }
        let bad = falsify(o, *n);
        if bad != *o && !cx.accept(k, &bad) {
            *n += 1;
            canaries.push(lines.len() + 1);
            lines.push(event(cx, k, &bad));
            parts.push((lines.len(), lines.len()));
        }
    }
    // and wrong answers of iterators, after what led to them
    for r in rec.runs.iter().filter(|_| !rec.bad_runs) {
        for (i, (k, o)) in r.iter().enumerate().rev() {
            if !matches!(k.op, Op::Next | Op::Jump | Op::Left | Op::Last | Op::Hint | Op::Least | Op::Rest) {
                continue;
            }
            let n = seen.entry(k.op).or_insert(0);
            let bad = falsify(o, if *n == 0 { 1 } else { *n });
            let bad = match (k.op, o) {
                (Op::Hint, _) => Out::Ok(Val::Ints(vec![1 << 60, -1])),
                _ => bad,
            };
            if *n >= 5 || i > 60 || bad == *o {
                continue;
            }
            *n += 1;
            let first = lines.len() + 1;
            for (j, p) in r[..i].iter() {
                if matches!(j.op, Op::Iter | Op::Next | Op::Jump | Op::Left | Op::Last | Op::Hint | Op::Least | Op::Rest) {
                    lines.push(event(cx, j, p));
                }
            }
            lines.push(event(cx, k, &bad));
            canaries.push(lines.len());
            parts.push((first, lines.len()));
            break;
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/trace.ndjson", out)).unwrap());
    for l in &lines {
        writeln!(f, "{}", l).unwrap();
    }
    f.flush().unwrap();
    let ps: Vec<String> = parts.iter().map(|p| format!("[{},{}]", p.0, p.1)).collect();
    std::fs::write(format!("{}/parts.json", out), format!("[{}]", ps.join(","))).unwrap();

    let total: u64 = rec.counts.values().sum();
    let counts: Vec<String> = rec.counts.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect();
    let kinds: Vec<String> = rec.kinds.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect();
    let step = (rec.sample.len() / 6).max(1);
    let shown: Vec<String> = rec.sample.iter().step_by(step).take(6).map(|(k, o)| quote(&raw(k, o))).collect();
    std::fs::write(
        format!("{}/stats.json", out),
        format!(
            "{{\"evaluations\":{},\"distinct\":{},\"exhaustive_calls\":{},\"events\":{},\"runs\":{},\"suspicious\":{},\"canaries\":{:?},\"bad_runs\":{},\"counts\":{{{}}},\"kinds\":{{{}}},\"samples\":[{}]}}",
            total,
            rec.seen.len() as u64 + rec.exhaustive_calls,
            rec.exhaustive_calls,
            lines.len(),
            rec.runs.len(),
            rec.nsus,
            canaries,
            rec.bad_runs,
            counts.join(","),
            kinds.join(","),
            shown.join(",")
        ),
    )
    .unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(OPS.iter().enumerate().all(|(i, op)| *op as usize == i));
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "work" => work(&a[1..]),
        "active" => {
            run::map_slots(&a[1]);
            let mut v = run::active();
            v.sort_by_key(|x| std::cmp::Reverse(x.1));
            for (k, ms) in v {
                println!("{} {}", ms, show_call(&k));
            }
        }
        "one" => {
            let cx = load(&a[1]);
            let k = parse_call(&a[2..]);
            let o = match std::panic::catch_unwind(|| exec(&k)) {
                Ok(o) => o,
                Err(_) => Out::Panic(String::new()),
            };
            println!("{}", event(cx, &k, &o));
        }
        "event" => {
            let cx = load(&a[1]);
            let o = if a[2] == "hang" { Out::Hang } else { Out::Abort };
            println!("{}", event(cx, &parse_call(&a[3..]), &o));
        }
        x => panic!("unknown command {}", x),
    }
}
