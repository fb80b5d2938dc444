//! Simulated runs of generated peers: search, minimisation and replay.
#[cfg_attr(not(variant), path = "../../../.build/gen/flow.rs")]
#[cfg_attr(variant, path = "../../../.build/genv/flow.rs")]
mod flow;
mod clients;
mod exec;
mod meta;
mod oracle;
mod os;
mod plan;
mod raw;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// Which workloads and faults a property is searched under, and how often.
fn diet(prop: &str) -> &'static [&'static str] {
    match prop {
        "R01" => &["calm", "raw", "net", "late", "frag", "mix", "errs", "calm", "bulk"],
        "R02" => &["raw", "frag", "errs", "raw", "ident", "mix"],
        "R03" => &["raw", "mitm", "mix", "mitm", "errs", "net"],
        "R04" => &["calm", "ident", "net", "mix", "raw", "values", "errs", "crash", "crowd"],
        "R05" => &["ident", "calm", "net", "ident", "mix", "raw", "crash", "crowd"],
        "R06" => &["net", "raw", "crash", "mix", "errs", "calm", "ident", "crowd"],
        "R07" => &["frag", "raw", "frag", "mix", "bulk"],
        "R08" => &["raw", "errs", "frag", "raw", "mix"],
        "R09" => &["errs", "net", "mix", "raw", "ident"],
        "R10" => &["errs", "raw", "ident", "raw", "mix", "crowd"],
        "R11" => &["ident", "raw", "ident", "mix", "calm", "crowd"],
        "R12" => &["errs", "ident", "raw", "errs", "ident", "mix"],
        "R13" => &["late", "net", "cshut", "mitm", "mix", "crash", "late", "shut", "bulk"],
        "R14" => &["calm", "errs", "late", "net", "mix", "raw", "bulk"],
        "R15" => &["net", "cshut", "crash", "mitm", "shut", "cshut", "mix", "calm"],
        "R16" => &["net", "crash", "cshut", "net", "mitm", "mix", "shut", "crash"],
        "R17" => &["shut", "shut", "shut", "mix", "crash", "crowd"],
        "R18" => &["cshut", "cshut", "cshut", "mix", "net"],
        "R19" => &["calm", "errs", "net", "mix", "late", "raw", "ident", "bulk"],
        "R20" => &["calm", "net", "shut", "mix", "ident", "crash", "crowd", "bulk"],
        "R21" => &["values", "values", "mix", "values", "frag"],
        "R22" => &["calm", "net", "mitm", "values", "mix", "ident", "bulk", "crowd"],
        "R24" => &["errs", "errs", "net", "net", "mix", "ident", "crash", "mitm", "calm"],
        "R25" => &["cshut", "net", "cshut", "crash", "ident", "mix", "shut", "late"],
        "R23" => &["mitm", "mitm", "mitm", "mix", "net"],
        _ => &["calm", "raw", "net", "mitm", "shut", "cshut", "ident", "errs", "crash", "frag", "values", "late", "mix", "bulk", "crowd"],
    }
}
fn profile(name: &str) -> Option<plan::Profile> {
    plan::PROFILES.iter().find(|p| p.0 == name).map(|p| p.1)
}
/// The seed of the n-th run of a search.
fn seed_of(base: u64, n: u64) -> u64 {
    let mut r = simrt::Rng::fork(base, n);
    r.next() >> 16
}
struct Case {
    profile: plan::Profile,
    seed: u64,
    meta: bool,
}
impl Case {
    fn name(&self) -> String {
        format!("{}{}", plan::profile_name(self.profile), if self.meta { "+as-is" } else { "" })
    }
}
struct Done {
    run: exec::Run,
    verdict: oracle::Verdict,
    items: u32,
}
fn execute(c: &Case, mask: &BTreeSet<u32>, trace: bool) -> Result<Done, String> {
    let (p, s, m, meta) = (c.profile, c.seed, mask.clone(), c.meta);
    catch_unwind(AssertUnwindSafe(move || {
        let scn = Arc::new(plan::make(s, p, &m, false));
        let run = exec::run(scn.clone(), trace);
        let mut verdict = oracle::check(&scn, &run);
        if meta {
            let scn2 = Arc::new(plan::make(s, p, &m, true));
            let run2 = exec::run(scn2.clone(), false);
            let v2 = oracle::check(&scn2, &run2);
            if verdict.viols.is_empty() && v2.viols.is_empty() {
                meta::compare(&scn, &run, &run2, &mut verdict);
            }
        }
        Done { items: scn.items, run, verdict }
    }))
    .map_err(|e| {
        let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()));
        format!("harness failure in {} {}: {}", c.name(), c.seed, s.unwrap_or_default())
    })
}
/// The kind of a violation: its text without the numbers.
fn class(m: &str) -> String {
    let mut s = String::new();
    for ch in m.chars() {
        if ch.is_ascii_digit() {
            if !s.ends_with('#') {
                s.push('#');
            }
        } else {
            s.push(ch);
        }
    }
    s.chars().take(60).collect()
}
fn minimise(c: &Case, prop: &str, cls: &str, items: u32, limit: Duration) -> (BTreeSet<u32>, u64) {
    let t0 = Instant::now();
    let mut gone: BTreeSet<u32> = BTreeSet::new();
    let mut left: Vec<u32> = (0..items).collect();
    let mut size = (left.len() / 2).max(1);
    let mut tries = 0;
    loop {
        let mut changed = false;
        let mut i = 0;
        while i < left.len() {
            if t0.elapsed() > limit {
                return (gone, tries);
            }
            let cut: Vec<u32> = left[i..(i + size).min(left.len())].to_vec();
            let mut m = gone.clone();
            m.extend(cut.iter());
            tries += 1;
            let same = match execute(c, &m, false) {
                Ok(d) => d.verdict.first(prop).map(|v| class(&v.msg) == cls).unwrap_or(false),
                Err(_) => false,
            };
            if same {
                gone = m;
                left.drain(i..(i + cut.len()));
                changed = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !changed {
            return (gone, tries);
        }
        if size > 1 {
            size = (size / 2).max(1);
        } else if !changed {
            return (gone, tries);
        }
    }
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_map<'a>(m: impl Iterator<Item = (&'a str, u64)>) -> String {
    let v: Vec<String> = m.map(|(k, n)| format!("{}:{}", json_str(k), n)).collect();
    format!("{{{}}}", v.join(","))
}
fn write_replay(path: &str, c: &Case, prop: &str, mask: &BTreeSet<u32>) -> Option<String> {
    let d = execute(c, mask, true).ok()?;
    let v = d.verdict.first(prop)?;
    let mut o = String::new();
    let m: Vec<String> = mask.iter().map(|x| x.to_string()).collect();
    let _ = writeln!(o, "property: {}\nvariant: {}\nprofile: {}\nmeta: {}\nseed: {}\nremoved: {}", prop, crate::flow::VARIANT, plan::profile_name(c.profile), c.meta as u8, c.seed, m.join(","));
    let _ = writeln!(o, "hash: {:016x}\nsteps: {}\nat: {}\nviolation: {}", d.run.hash, d.run.steps, v.at, v.msg.replace('\n', " "));
    let _ = writeln!(o, "\nminimised: {} of {} items of the scenario are left; faults injected: {:?}", d.items as usize - mask.len(), d.items, d.run.faults);
    let _ = writeln!(o, "\nschedule and fault trace (event number, simulated seconds, event):");
    for (i, l) in d.run.rendered.iter().enumerate() {
        let _ = writeln!(o, "{}{:6} {}", if i == v.at { ">>>" } else { "   " }, i, l);
    }
    std::fs::write(path, o).ok()?;
    Some(v.msg.clone())
}
fn work(a: &[String]) -> i32 {
    // PROP BASE WORKER WORKERS SECONDS OUT REPLAY
    let prop = a[0].as_str();
    let base: u64 = a[1].parse().expect("seed");
    let (me, all): (u64, u64) = (a[2].parse().expect("worker"), a[3].parse().expect("workers"));
    let secs: f64 = a[4].parse().expect("seconds");
    let (out, replay) = (a[5].as_str(), a[6].as_str());
    let diet = diet(prop);
    let t0 = Instant::now();
    let mut n = me;
    let (mut runs, mut steps, mut time, mut events, mut evals, mut hard, mut known_empty, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut profs: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut inter: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<String> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut violation = None;
    let mut progress = std::fs::File::create(format!("{}.progress", out)).expect("progress");
    while t0.elapsed().as_secs_f64() < secs {
        let name = diet[(n % diet.len() as u64) as usize];
        let p = profile(name).expect("profile");
        let c = Case { profile: p, seed: seed_of(base, n), meta: prop == "R07" && name == "frag" };
        n += all;
        let _ = progress.write_all(format!("{} {}\n", name, c.seed).as_bytes());
        let d = match execute(&c, &BTreeSet::new(), false) {
            Ok(d) => d,
            Err(e) => {
                errors.push(e);
                if errors.len() > 20 {
                    break;
                }
                continue;
            }
        };
        runs += 1;
        steps += d.run.steps;
        time += d.run.time;
        events += d.run.hist.len() as u64;
        let e = d.verdict.evals.get(prop).copied().unwrap_or(0);
        let h = d.verdict.hard.get(prop).copied().unwrap_or(0);
        evals += e;
        hard += h;
        known_empty += d.run.known_empty;
        if inter.insert(d.run.inter) && e > 0 {
            nontrivial += 1;
        }
        for (k, v) in &d.run.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        *profs.entry(name).or_insert(0) += 1;
        if samples.len() < 2 && e > 0 && me < 2 {
            samples.push(format!(
                "definitions {} profile {} seed {}: {} events, {} scheduling steps, {:.3} simulated s, {} evaluations, trace hash {:016x}, faults {:?}",
                if crate::flow::VARIANT == 0 { "base" } else { "variant" }, c.name(), c.seed, d.run.hist.len(), d.run.steps, d.run.time as f64 / 1e9, e, d.run.hash, d.run.faults
            ));
        }
        if let Some(v) = d.verdict.viols.iter().find(|v| v.props.contains(&"HARNESS")) {
            errors.push(format!("{} {}: {}", c.name(), c.seed, v.msg));
            if errors.len() > 20 {
                break;
            }
        }
        if let Some(v) = d.verdict.first(prop) {
            let cls = class(&v.msg);
            let (mask, tries) = minimise(&c, prop, &cls, d.items, Duration::from_secs(20));
            let msg = write_replay(replay, &c, prop, &mask).or_else(|| write_replay(replay, &c, prop, &BTreeSet::new())).unwrap_or_else(|| v.msg.clone());
            violation = Some((c.name(), c.seed, msg, d.items, d.items as usize - mask.len(), tries));
            break;
        }
    }
    let mut o = String::from("{");
    let _ = write!(
        o, "\"runs\":{},\"steps\":{},\"time\":{},\"events\":{},\"evals\":{},\"hard\":{},\"known_empty\":{},\"distinct\":{},\"nontrivial\":{},\"wall\":{:.3},",
        runs, steps, time, events, evals, hard, known_empty, inter.len(), nontrivial, t0.elapsed().as_secs_f64()
    );
    let _ = write!(o, "\"faults\":{},\"profiles\":{},", json_map(faults.iter().map(|(k, v)| (k.as_str(), *v))), json_map(profs.iter().map(|(k, v)| (*k, *v))));
    let _ = write!(o, "\"samples\":[{}],", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"errors\":[{}],", errors.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    match &violation {
        Some((p, s, m, i, l, t)) => {
            let _ = write!(o, "\"violation\":{{\"profile\":{},\"seed\":{},\"message\":{},\"items\":{},\"left\":{},\"tries\":{}}}", json_str(p), s, json_str(m), i, l, t);
        }
        None => o.push_str("\"violation\":null"),
    }
    o.push('}');
    std::fs::write(out, o).expect("out");
    0
}
fn replay(path: &str, quiet: bool) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|x| x.to_string())).or_else(|| text.lines().find(|l| *l == format!("{}:", k)).map(|_| String::new()));
    let prop = get("property").expect("property");
    let variant = get("variant").map(|v| v.trim().parse::<u64>().expect("number")).unwrap_or(0);
    if variant != crate::flow::VARIANT {
        println!("recorded with variant {} of the definitions, this harness is of variant {}", variant, crate::flow::VARIANT);
        return 2;
    }
    let c = Case {
        profile: profile(&get("profile").expect("profile")).expect("known profile"),
        seed: get("seed").expect("seed").trim().parse().expect("number"),
        meta: get("meta").as_deref() == Some("1"),
    };
    let mask: BTreeSet<u32> = get("removed").unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let d = match execute(&c, &mask, true) {
        Ok(d) => d,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    if !quiet {
        for (i, l) in d.run.rendered.iter().enumerate() {
            println!("{:6} {}", i, l);
        }
    }
    let same = get("hash").map(|h| h.trim() == format!("{:016x}", d.run.hash)).unwrap_or(false);
    println!("trace hash {:016x}: {}", d.run.hash, if same { "the recorded execution" } else { "another execution than the recorded one (the code or the harness has changed)" });
    match d.verdict.first(&prop) {
        Some(v) => {
            println!("reproduced: {} at event {}: {}", prop, v.at, v.msg);
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        None => {
            println!("{} holds in this execution", prop);
            0
        }
    }
}
/// Runs scenarios one after another and prints what they did: for development and the proof of determinism.
fn look(a: &[String]) -> i32 {
    let p = profile(&a[0]).expect("profile");
    let s: u64 = a[1].parse().expect("seed");
    let n: u64 = a[2].parse().expect("count");
    let hashes = a.get(3).map(|x| x == "hashes").unwrap_or(false);
    let meta = a.get(3).map(|x| x == "meta").unwrap_or(false);
    let t0 = Instant::now();
    let mut bad = 0;
    for i in s..s + n {
        let c = Case { profile: p, seed: i, meta };
        let d = match execute(&c, &BTreeSet::new(), n == 1 && !hashes) {
            Ok(d) => d,
            Err(e) => {
                println!("{}", e);
                bad += 1;
                continue;
            }
        };
        let (r, v) = (&d.run, &d.verdict);
        if hashes {
            println!("{} {} {:016x} {:016x} {} {}", a[0], i, r.hash, r.inter, r.steps, v.viols.len());
            continue;
        }
        if n == 1 {
            for (k, l) in r.rendered.iter().enumerate() {
                println!("{:5} {}", k, l);
            }
            println!("{:?}", plan::make(i, p, &BTreeSet::new(), false));
            println!("{} {:?} steps {} time {:.3} hist {} hash {:x} inter {:x} panics {:?} faults {:?}", i, r.stop, r.steps, r.time as f64 / 1e9, r.hist.len(), r.hash, r.inter, r.panics, r.faults);
            println!("evals {:?} hard {:?}", v.evals, v.hard);
        }
        if !v.viols.is_empty() {
            bad += 1;
            if bad <= 12 {
                println!("seed {}: {} violations", i, v.viols.len());
                for x in v.viols.iter().take(if n == 1 { 50 } else { 2 }) {
                    println!("   {:?} at {}: {}", x.props, x.at, x.msg);
                }
            }
        }
    }
    eprintln!("{}: {} bad of {} in {:?}", a[0], bad, n, t0.elapsed());
    0
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    simrt::install_panic_hook();
    if !os::probe() {
        eprintln!("the clocks and the randomness are not under control");
        std::process::exit(2);
    }
    let r = match a.first().map(|x| x.as_str()) {
        Some("work") if a.len() == 8 => work(&a[1..]),
        Some("replay") if a.len() >= 2 => replay(&a[1], a.get(2).map(|x| x == "-q").unwrap_or(false)),
        Some(_) if a.len() >= 3 => look(&a),
        _ => {
            eprintln!("harness work PROP SEED WORKER WORKERS SECONDS OUT REPLAY | replay FILE [-q] | PROFILE SEED COUNT [hashes|meta]");
            2
        }
    };
    std::process::exit(r);
}
