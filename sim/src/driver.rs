//! Batches of seeds in worker processes, minimisation, replay files, evidence.

use crate::core;
use crate::heap;
use crate::plan::*;
use crate::props;
use crate::rng::mix;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("child") => child(&a[2..]),
        Some("runplan") => runplan(&a[2], a.iter().any(|x| x == "-v")),
        Some("gen") => {
            let seed = a[3].parse().unwrap();
            let p = props::gen(&a[2], seed, a.iter().any(|x| x == "deep"));
            print!("{}", text(&p));
            0
        }
        Some("check") => check(&a[2..]),
        Some("replay") => replay(&a[2..]),
        Some("traces") => traces(&a[2..]),
        _ => {
            eprintln!("usage: advsim check|replay|runplan|gen|traces|child ...");
            2
        }
    }
}
pub fn text(p: &Plan) -> String {
    let pr = p.prop.clone();
    p.to_text(&|c| props::op_name(&pr, p, c))
}

fn setup() {
    unsafe {
        setrlimit(9, &[6 << 30, 6 << 30]); // address space
        setrlimit(4, &[0, 0]); // core files
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("ADVSIM_DEBUG").is_some() {
            let _h = heap::harness();
            eprintln!("[panic] {}", i);
        }
    }));
    std::alloc::set_alloc_error_hook(|_| core::alloc_refused());
}

pub fn seed_of(base: u64, i: u64) -> u64 {
    mix(mix(base) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

struct Res {
    trace: u64,
    ileave: u64,
    fired: u64,
    switched: bool,
}
fn one(p: &Plan) -> Res {
    let s0 = core::stats().switches + core::stats().preempts + core::stats().forced;
    props::execute(p);
    let r = core::run();
    let st = core::stats();
    st.runs += 1;
    if r.abort {
        st.aborted += 1;
    }
    Res { trace: r.trace, ileave: r.ileave, fired: r.fired, switched: st.switches + st.preempts + st.forced > s0 }
}

/// child prop base index0 stride count deadline_ms status hashes deep
fn child(a: &[String]) -> i32 {
    setup();
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, i0, stride, count, dl) = (n(1), n(2), n(3), n(4), n(5));
    let status = fs::File::create(&a[6]).unwrap();
    let deep = a[8] == "1";
    let t0 = Instant::now();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut ileaves: HashSet<u64> = HashSet::new();
    let (mut rechecked, mut mismatched, mut trivial) = (0u64, 0u64, 0u64);
    let mut k = 0;
    while k < count && (k == 0 || (t0.elapsed().as_millis() as u64) < dl) {
        let i = i0 + k * stride;
        let _ = status.write_all_at(&i.to_le_bytes(), 0);
        let p = props::gen(prop, seed_of(base, i), deep);
        let r = one(&p);
        if r.fired > 0 || r.switched {
            if hashes.len() < 2_000_000 {
                hashes.insert(r.trace);
            }
        } else {
            trivial += 1;
        }
        if ileaves.len() < 2_000_000 {
            ileaves.insert(r.ileave);
        }
        if k % 97 == 13 {
            rechecked += 1;
            if one(&p).trace != r.trace {
                mismatched += 1;
                core::say(&format!("N {}", i));
            }
        }
        k += 1;
    }
    let mut b = Vec::with_capacity((hashes.len() + ileaves.len()) * 8 + 8);
    b.extend((hashes.len() as u64).to_le_bytes());
    for h in hashes.iter().chain(ileaves.iter()) {
        b.extend(h.to_le_bytes());
    }
    let _ = fs::write(&a[7], b);
    let s = core::stats();
    for (k, v) in [
        ("runs", s.runs), ("ops", s.ops), ("seams", s.seams), ("switches", s.switches), ("preempts", s.preempts),
        ("forced", s.forced), ("aborted", s.aborted), ("rechecked", rechecked), ("mismatched", mismatched), ("trivial", trivial), ("stack", s.stack), ("space", s.space), ("vclock", s.vclock),
    ] {
        core::say(&format!("S {} {}", k, v));
    }
    for i in 0..12 {
        core::say(&format!("F {} {} {}", FK_NAMES[i], s.armed[i], s.fired[i]));
    }
    for (i, v) in s.probes.iter().enumerate() {
        core::say(&format!("P {} {}", v, core::PROBES[i]));
    }
    0
}

fn runplan(f: &str, verbose: bool) -> i32 {
    setup();
    core::run().verbose = verbose;
    let t = match fs::read_to_string(f) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let p = match Plan::from_text(&t) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let r = one(&p);
    core::say(&format!("OK trace {:016x}", r.trace));
    0
}

/// traces prop base n: prints the trace hash of n seeds (determinism self-test)
fn traces(a: &[String]) -> i32 {
    setup();
    let base: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    for i in 0..n {
        let r = one(&props::gen(&a[0], seed_of(base, i), false));
        core::say(&format!("{} {:016x} {:016x}", i, r.trace, r.ileave));
    }
    0
}

#[derive(Clone, PartialEq, Debug)]
struct Fail {
    class: String,
    msg: String,
}

fn exec_plan(bin: &str, file: &str, p: &Plan, timeout: Duration) -> Result<String, Fail> {
    fs::write(file, text(p)).unwrap();
    let c = Command::new(bin).args(["runplan", file]).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn().unwrap();
    finish(c, timeout)
}
fn finish(mut c: Child, timeout: Duration) -> Result<String, Fail> {
    let t0 = Instant::now();
    let st = loop {
        match c.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if t0.elapsed() > timeout => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 30 { 1 } else { 5 })),
        }
    };
    let mut out = String::new();
    use std::io::Read;
    let _ = c.stdout.take().unwrap().read_to_string(&mut out);
    verdict(st, &out)
}
fn verdict(st: Option<std::process::ExitStatus>, out: &str) -> Result<String, Fail> {
    let Some(st) = st else { return Err(Fail { class: "hang".into(), msg: "the run did not finish".into() }) };
    if let Some(l) = out.lines().find(|l| l.starts_with("V ")) {
        let mut w = l[2..].splitn(2, " | ");
        return Err(Fail { class: w.next().unwrap().to_string(), msg: w.next().unwrap_or("").to_string() });
    }
    if let Some(sig) = st.signal() {
        return Err(Fail { class: "crash".into(), msg: format!("the process was killed by signal {}", sig) });
    }
    if st.code() == Some(0) {
        return Ok(out.to_string());
    }
    Err(Fail { class: "harness".into(), msg: format!("exit {:?}: {}", st.code(), out.lines().next().unwrap_or("")) })
}

fn minimise(bin: &str, file: &str, p0: &Plan, class: &str) -> (Plan, u32) {
    let t0 = Instant::now();
    let hang = class == "hang";
    let budget = Duration::from_secs(if hang { 60 } else { 40 });
    let to = Duration::from_secs(if hang { 6 } else { 20 });
    let mut best = p0.clone();
    let mut tries = 0u32;
    let mut ok = |q: &Plan, best: &mut Plan| -> bool {
        if t0.elapsed() > budget || tries > 1500 || q == best {
            return false;
        }
        tries += 1;
        match exec_plan(bin, file, q, to) {
            Err(f) if f.class == class => {
                *best = q.clone();
                true
            }
            _ => false,
        }
    };
    for round in 0..4 {
        let start = best.clone();
        // one client, no schedule
        let mut q = best.clone();
        q.opsw.clear();
        q.pre.clear();
        q.pick.clear();
        ok(&q, &mut best);
        let mut q = best.clone();
        for o in q.ops.iter_mut() {
            o.client = 0;
        }
        q.set("clients", 1);
        ok(&q, &mut best);
        for f in [|q: &mut Plan| q.opsw.clear(), |q: &mut Plan| q.pre.clear(), |q: &mut Plan| q.pick.clear()] {
            let mut q = best.clone();
            f(&mut q);
            ok(&q, &mut best);
        }
        // operations
        let mut chunk = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                let mut q = best.clone();
                let e = (i + chunk).min(q.ops.len());
                q.ops.drain(i..e);
                if !ok(&q, &mut best) {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // faults
        for i in 0..best.ops.len() {
            if best.ops[i].fk != Fk::None {
                let mut q = best.clone();
                q.ops[i].fk = Fk::None;
                q.ops[i].fnth = 0;
                if !ok(&q, &mut best) && best.ops[i].fnth > 0 {
                    let mut q = best.clone();
                    q.ops[i].fnth = 0;
                    if !ok(&q, &mut best) {
                        let mut q = best.clone();
                        q.ops[i].fnth -= 1;
                        ok(&q, &mut best);
                    }
                }
            }
        }
        // schedule entries
        for i in 0..best.opsw.len() {
            if best.opsw[i] != 0 {
                let mut q = best.clone();
                q.opsw[i] = 0;
                ok(&q, &mut best);
            }
        }
        let mut i = 0;
        while i < best.pre.len() {
            let mut q = best.clone();
            q.pre.truncate(i);
            if ok(&q, &mut best) {
                break;
            }
            let mut q = best.clone();
            q.pre.remove(i);
            if !ok(&q, &mut best) {
                i += 1;
            }
        }
        for i in 0..best.pick.len() {
            if best.pick[i] != 0 {
                let mut q = best.clone();
                q.pick[i] = 0;
                ok(&q, &mut best);
            }
        }
        // arguments
        for i in 0..best.ops.len() {
            for field in 0..4 {
                for step in 0..5 {
                    let mut q = best.clone();
                    let o = &mut q.ops[i];
                    let shrink = |v: u32| match step {
                        0 => 0,
                        1 => 1.min(v),
                        2 => 2.min(v),
                        3 => v / 2,
                        _ => v.saturating_sub(1),
                    };
                    match field {
                        0 => o.a = shrink(o.a),
                        1 => o.b = shrink(o.b),
                        2 => o.o = shrink(o.o as u32) as u8,
                        _ => o.o2 = shrink(o.o2 as u32) as u8,
                    }
                    if ok(&q, &mut best) && step < 3 {
                        break;
                    }
                }
            }
        }
        // configuration
        for k in best.cfg.keys().cloned().collect::<Vec<_>>() {
            for v in [0, 1, 2] {
                if best.get(&k) > v {
                    let mut q = best.clone();
                    q.set(&k, v);
                    if ok(&q, &mut best) {
                        break;
                    }
                }
            }
            while best.get(&k) > 3 {
                let mut q = best.clone();
                q.set(&k, best.get(&k) / 2);
                if !ok(&q, &mut best) {
                    break;
                }
            }
        }
        while best.opsw.last() == Some(&0) {
            best.opsw.pop();
        }
        while best.pick.last() == Some(&0) {
            best.pick.pop();
        }
        if best == start || round == 3 {
            break;
        }
    }
    (best, tries)
}

struct Worker {
    child: Child,
    dev: bool,
    status: String,
    hashes: String,
    last: u64,
    since: Instant,
    index0: u64,
    done: bool,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// check PROP TIER dev-binary release-binary verif-dir
fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let (id, tier, dev, rel, root) = (a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone(), a[4].clone());
    let Some(pr) = props::find(&id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let secs: u64 = std::env::var("ADVSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(match (thorough, id.as_str()) {
        (true, _) => 600,
        (_, "C13" | "C24") => 75,
        _ => 40,
    });
    let count: u64 = if thorough { 1 << 40 } else { 600_000 };
    println!("advsim: property {} tier {} VERIF_SEED {}", id, tier, base);
    let scratch = format!("{}/target/run-{}-{}", root, id, std::process::id());
    fs::create_dir_all(&scratch).unwrap();
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8) as u64;
    let mut ws: Vec<Worker> = Vec::new();
    for w in 0..nw {
        let status = format!("{}/s{}", scratch, w);
        let hashes = format!("{}/h{}", scratch, w);
        let d = w % 2 == 0;
        let c = Command::new(if d { &dev } else { &rel })
            .args(["child", &id, &base.to_string(), &w.to_string(), &nw.to_string(), &count.to_string(), &(secs * 1000).to_string(), &status, &hashes, if thorough { "1" } else { "0" }])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .stdin(Stdio::null())
            .spawn()
            .unwrap();
        ws.push(Worker { child: c, dev: d, status, hashes, last: u64::MAX, since: Instant::now(), index0: w, done: false });
    }
    let mut fail: Option<(Fail, u64, bool, u64)> = None; // failure, index, dev, index0
    let mut outs = Vec::new();
    let read_status = |f: &str| fs::read(f).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
    while ws.iter().any(|w| !w.done) && fail.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            if let Some(st) = w.child.try_wait().unwrap() {
                w.done = true;
                let mut out = String::new();
                use std::io::Read;
                let _ = w.child.stdout.take().unwrap().read_to_string(&mut out);
                match verdict(Some(st), &out) {
                    Ok(_) => outs.push(out),
                    Err(f) => {
                        fail = Some((f, read_status(&w.status).unwrap_or(w.index0), w.dev, w.index0));
                        break;
                    }
                }
            } else {
                let i = read_status(&w.status).unwrap_or(u64::MAX);
                if i != w.last {
                    w.last = i;
                    w.since = Instant::now();
                } else if w.since.elapsed() > Duration::from_secs(60) {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    w.done = true;
                    fail = Some((Fail { class: "hang".into(), msg: "the run did not finish within 60 s".into() }, i, w.dev, w.index0));
                    break;
                }
            }
        }
    }
    for w in ws.iter_mut().filter(|w| !w.done) {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();
    // totals
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    for o in &outs {
        for l in o.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "S" if w[1] == "stack" || w[1] == "space" => {
                    let e = tot.entry(w[1].into()).or_default();
                    *e = (*e).max(w[2].parse::<u64>().unwrap())
                }
                "S" => *tot.entry(w[1].into()).or_default() += w[2].parse::<u64>().unwrap(),
                "F" => {
                    let e = faults.entry(w[1].into()).or_default();
                    e.0 += w[2].parse::<u64>().unwrap();
                    e.1 += w[3].parse::<u64>().unwrap();
                }
                "P" => *probes.entry(w[2..].join(" ")).or_default() += w[1].parse::<u64>().unwrap(),
                _ => {}
            }
        }
    }
    let (mut hs, mut il) = (HashSet::new(), HashSet::new());
    for w in &ws {
        if let Ok(b) = fs::read(&w.hashes) {
            let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            if !v.is_empty() {
                let n = v[0] as usize;
                hs.extend(v[1..1 + n].iter().copied());
                il.extend(v[1 + n..].iter().copied());
            }
        }
    }
    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let sample = props::gen(&id, seed_of(base, 7), thorough);
    let mut viol = 0;
    let mut code = 0;
    let mut extra = String::new();
    if let Some((f, idx, isdev, i0)) = fail {
        let bin = if isdev { &dev } else { &rel };
        let prof = if isdev { "dev" } else { "release" };
        if f.class == "harness" {
            println!("harness error at index {} ({}): {}", idx, prof, f.msg);
            let _ = fs::remove_dir_all(&scratch);
            return 2;
        }
        let seed = seed_of(base, idx);
        println!("failure: {}: {} (seed {}, index {}, {} build)", f.class, f.msg, seed, idx, prof);
        let p = props::gen(&id, seed, thorough);
        let pf = format!("{}/plan", scratch);
        fs::create_dir_all(format!("{}/replays", root)).unwrap();
        let out = format!("{}/replays/{}-{}.plan", root, id, seed);
        let mut first = exec_plan(bin, &pf, &p, Duration::from_secs(90));
        if first.is_ok() {
            first = exec_plan(bin, &pf, &p, Duration::from_secs(90));
        }
        match first {
            Err(f1) if f1.class != "harness" => {
                let (q, tries) = minimise(bin, &pf, &p, &f1.class);
                let last = exec_plan(bin, &pf, &q, Duration::from_secs(90));
                let (q, l) = match last {
                    Err(l) if l.class == f1.class => (q, l),
                    _ => (p.clone(), f1),
                };
                let ev = Command::new(bin).args(["runplan", &pf, "-v"]).stderr(Stdio::null()).output();
                let mut t = format!("# property {}: {}: {}\nprofile {}\nexpect {}\n{}end\n", id, l.class, l.msg, prof, l.class, text(&q));
                let _ = writeln!(t, "# event log of this plan:");
                if let Ok(e) = ev {
                    for line in String::from_utf8_lossy(&e.stdout).lines().take(400) {
                        let _ = writeln!(t, "# {}", line);
                    }
                }
                fs::write(&out, t).unwrap();
                println!("minimised with {} executions: {} -> {} operations; {}: {}", tries, p.ops.len(), q.ops.len(), l.class, l.msg);
            }
            _ => {
                // only reproducible with the history of the worker process
                fs::write(
                    &out,
                    format!("# property {}: {}: {}\nprofile {}\nbatch {} {} {} {} {} {}\nend\n", id, f.class, f.msg, prof, id, base, i0, nw, (idx - i0) / nw + 1, thorough as u32),
                )
                .unwrap();
                println!("reproducible only with its worker's earlier runs; replay re-runs them");
            }
        }
        println!("VIOLATION property={} replay={}", id, out);
        viol = 1;
        code = 1;
        let _ = write!(extra, ", \"replay\": {}", jstr(&out));
    }
    // evidence
    if g("stack") > 0 {
        let _ = write!(extra, ", \"deepest_stack_bytes\": {}", g("stack"));
    }
    if g("space") > 0 {
        let _ = write!(extra, ", \"most_bytes_held\": {}", g("space"));
    }
    if g("vclock") > 0 {
        let _ = write!(extra, ", \"virtual_time_steps\": {}", g("vclock"));
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let fj: Vec<String> = faults.iter().filter(|(k, _)| *k != "none").map(|(k, v)| format!("{}: {{\"armed\": {}, \"fired\": {}}}", jstr(k), v.0, v.1)).collect();
    let pj: Vec<String> = probes.iter().filter(|(_, v)| **v > 0).map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_time_logical_steps\": {},\n  \"library_callbacks_intercepted\": {},\n  \"client_switches_at_operations\": {},\n  \"client_switches_inside_library_calls\": {},\n  \"client_switches_at_locks\": {},\n  \"distinct_interleavings\": {},\n  \"trivial_runs\": {},\n  \"runs_cut_short_by_out_of_scope_deviation\": {},\n  \"faults\": {{{}}},\n  \"rare_conditions_hit\": {{{}}},\n  \"determinism_reruns\": {},\n  \"determinism_mismatches\": {},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"builds\": {}{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        jstr(&id), jstr(&tier), base, g("runs"), hs.len(), jstr(pr.rule), jstr(&text(&sample)), g("runs"), per_h(g("runs")),
        per_h(g("runs") - g("rechecked").min(g("runs"))), g("ops"), g("seams"), g("switches"), g("preempts"), g("forced"), il.len(), g("trivial"), g("aborted"),
        fj.join(", "), pj.join(", "), g("rechecked"), g("mismatched"), jstr(pr.real), jstr(pr.stub), jstr(if id == "C24" { "instrumented with the virtual clock, debug assertions off" } else { "debug assertions and overflow checks on / off, half of the workers each" }), extra,
        jstr("runs are sampled, not exhaustive; clients interleave at operation boundaries, lock requests and library callbacks (the crate has no other scheduling points)"),
        wall, viol
    );
    let _ = fs::create_dir_all(format!("{}/evidence", root));
    fs::write(format!("{}/evidence/{}.json", root, id), j).unwrap();
    let _ = fs::remove_dir_all(&scratch);
    println!(
        "runs {} ({} distinct non-trivial, {} interleavings), {} operations, {} faults fired, {:.1} s",
        g("runs"), hs.len(), il.len(), g("ops"), faults.values().map(|v| v.1).sum::<u64>(), wall
    );
    code
}

/// replay FILE dev release
fn replay(a: &[String]) -> i32 {
    let t = fs::read_to_string(&a[0]).expect("replay file");
    let line = |k: &str| t.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string());
    let bin = if line("profile ").as_deref() == Some("release") { &a[2] } else { &a[1] };
    let r = if let Some(b) = line("batch ") {
        let w: Vec<&str> = b.split(' ').collect();
        let c = Command::new(bin)
            .args(["child", w[0], w[1], w[2], w[3], w[4], "86400000", "/dev/null", "/dev/null", w[5]])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        finish(c, Duration::from_secs(600))
    } else {
        let c = Command::new(bin).args(["runplan", &a[0], "-v"]).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().unwrap();
        finish(c, Duration::from_secs(90))
    };
    match r {
        Ok(o) => {
            print!("{}", o);
            println!("no violation");
            0
        }
        Err(f) => {
            println!("reproduced: {}: {}", f.class, f.msg);
            1
        }
    }
}
