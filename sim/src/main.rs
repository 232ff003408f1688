//! Deterministic simulation of iri-string's environment. See /verif/DESIGN.md.
#![allow(dead_code)]

mod ctx;
mod env;
mod gen;
mod gen_template;
#[cfg(feature = "full")]
mod kinds;
mod minimise;
mod model;
mod props;
#[cfg(feature = "full")]
mod render;
mod rng;
#[cfg(feature = "full")]
mod typed;

use ctx::{Ctx, HarnessBug, Stats, Violation};
use rng::{hash_str, mix, Source};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: env::alloc::SimAlloc = env::alloc::SimAlloc;

pub const BUILD: &str = if cfg!(feature = "plain") { "plain" } else if cfg!(debug_assertions) { "checked" } else { "shipped" };

/// Runs started by this process, for the watchdog.
static STARTED: AtomicU64 = AtomicU64::new(0);
/// Exit code of a process whose run made no end.
const STUCK: i32 = 70;

/// Ends the process when a single run takes longer than `--stall-ms`. A run takes well under
/// a millisecond, so what is met here is an endless loop or a deadlock of the tasks.
fn watchdog() {
    let limit = arg("--stall-ms").and_then(|s| s.parse().ok()).unwrap_or(10_000u64);
    std::thread::spawn(move || {
        let (mut seen, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(limit.min(2000) / 20));
            let now = STARTED.load(Ordering::Relaxed);
            if now != seen || now == 0 {
                (seen, since) = (now, Instant::now());
            } else if since.elapsed() > Duration::from_millis(limit) {
                std::process::exit(STUCK);
            }
        }
    });
}

fn execute(prop: &str, src: Source, verbose: bool) -> (Ctx, Option<Violation>) {
    STARTED.fetch_add(1, Ordering::Relaxed);
    let mut c = Ctx::new(src, verbose);
    let r = catch_unwind(AssertUnwindSafe(|| props::run(prop, &mut c)));
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(e) => {
            if e.is::<env::InjectedPanic>() {
                harness_bug("injected panic escaped");
            }
            match catch_unwind(AssertUnwindSafe(|| ctx::panic_violation(prop, e))) {
                Ok(v) => Some(v),
                Err(h) => {
                    let m = h.downcast_ref::<HarnessBug>().map_or("?".into(), |h| h.0.clone());
                    eprintln!("choices: {:?}", c.src.recorded());
                    harness_bug(&m)
                }
            }
        }
    };
    (c, v)
}

fn harness_bug(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {m}");
    std::process::exit(3);
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn js_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}
fn js_nums(v: &[u32]) -> String {
    format!("[{}]", v.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(","))
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn req(name: &str) -> String {
    arg(name).unwrap_or_else(|| harness_bug(&format!("missing {name}")))
}
fn num(name: &str) -> u64 {
    req(name).parse().unwrap_or_else(|_| harness_bug(&format!("bad {name}")))
}
fn choices() -> Vec<u32> {
    std::fs::read_to_string(req("--choices"))
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|x| x.parse().ok())
        .collect()
}

/// One step of a replay: the choices of a run, or a range of seeded runs.
enum Block {
    Choices(Vec<u32>),
    Runs(u64, u64, u64),
}

/// Blocks start with a line "=" (choices follow, one a line) or "@ from to stride".
fn blocks() -> Vec<Block> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(req("--choices")).unwrap_or_default().lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix('@') {
            let n: Vec<u64> = r.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if n.len() == 3 && n[2] > 0 {
                v.push(Block::Runs(n[0], n[1], n[2]));
            }
        } else if l == "=" {
            v.push(Block::Choices(vec![]));
        } else if let Ok(n) = l.parse() {
            match v.last_mut() {
                Some(Block::Choices(c)) => c.push(n),
                _ => v.push(Block::Choices(vec![n])),
            }
        }
    }
    v
}

fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)) ^ mix(run.wrapping_mul(0x2545_F491_4F6C_DD1D)))
}

fn work() {
    let prop = req("--prop");
    let (seed, start, stride, count) = (num("--seed"), num("--start"), num("--stride"), num("--count"));
    let secs = num("--secs");
    let t0 = Instant::now();
    let mut progress = std::fs::File::create(req("--progress")).expect("progress");
    let mut st = Stats::default();
    let mut samples: Vec<String> = Vec::new();
    let mut found = String::from("null");
    let mut i = 0;
    let mut digest = 0u64;
    let mut slowest = (0, 0);
    // What each run observed, for comparing builds.
    let mut seen = arg("--seen").map(|f| std::io::BufWriter::new(std::fs::File::create(f).expect("seen")));
    while i < count && t0.elapsed() < Duration::from_secs(secs) {
        let run = start + i * stride;
        {
            use std::os::unix::fs::FileExt;
            let _ = progress.write_all_at(format!("{run:020}").as_bytes(), 0);
        }
        let t1 = Instant::now();
        let (c, v) = execute(&prop, Source::random(run_seed(seed, &prop, run)), false);
        slowest = slowest.max((t1.elapsed().as_millis(), run));
        st.add(&c);
        if let Some(f) = &mut seen {
            let _ = f.write_all(&c.seen[0].to_le_bytes());
            let _ = f.write_all(&c.seen[1].to_le_bytes());
        }
        digest = mix(digest ^ c.shape ^ hash_str(&format!("{:?}", c.src.recorded().len())));
        if i == 1 || i == count / 2 {
            // Written out by replaying, so that logging never influences a run.
            let (c2, _) = execute(&prop, Source::replay(c.src.recorded().to_vec()), true);
            samples.push(format!("{{\"run\":{run},\"trace\":{}}}", js_list(&c2.log)));
        }
        if let Some(v) = v {
            found = format!(
                "{{\"run\":{run},\"class\":{},\"msg\":{},\"choices\":{}}}",
                js(&v.class),
                js(&v.msg),
                js_nums(c.src.recorded())
            );
            break;
        }
        i += 1;
    }
    let _ = progress.flush();
    if let Some(mut f) = seen {
        let _ = f.flush();
    }
    let maps = |m: &std::collections::BTreeMap<&'static str, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","))
    };
    let mut f = std::io::BufWriter::new(std::fs::File::create(req("--shapes")).expect("shapes"));
    for s in &st.shapes {
        let _ = f.write_all(&s.to_le_bytes());
    }
    let _ = f.flush();
    let out = format!(
        "{{\"build\":{},\"runs\":{},\"nontrivial\":{},\"steps\":{},\"ops\":{},\"faulted\":{},\"faults\":{},\"probes\":{},\"secs\":{:.3},\"samples\":[{}],\"slowest_ms\":{},\"slowest_run\":{},\"digest\":\"{:016x}\",\"violation\":{}}}",
        js(BUILD), st.runs, st.nontrivial, st.steps, st.ops, st.faulted_runs, maps(&st.faults), maps(&st.probes),
        t0.elapsed().as_secs_f64(), samples.join(","), slowest.0, slowest.1, digest, found
    );
    std::fs::write(req("--out"), out).expect("out");
}

/// Executes the blocks in one process, in order, up to the first violation.
fn try_all() {
    let prop = req("--prop");
    let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(0u64);
    let mut recorded: Vec<String> = Vec::new();
    let mut done = 0u64;
    let mut last = None;
    'all: for b in blocks() {
        match b {
            Block::Choices(ch) => {
                let (c, v) = execute(&prop, Source::replay(ch), true);
                done += 1;
                recorded.push(js_nums(c.src.recorded()));
                let stop = v.is_some();
                last = Some((c, v));
                if stop {
                    break;
                }
            }
            Block::Runs(mut r, to, stride) => {
                while r < to {
                    let (c, v) = execute(&prop, Source::random(run_seed(seed, &prop, r)), false);
                    done += 1;
                    if recorded.len() < 300 {
                        recorded.push(js_nums(c.src.recorded()));
                    }
                    let stop = v.is_some();
                    last = Some((c, v));
                    if stop {
                        break 'all;
                    }
                    r += stride;
                }
            }
        }
    }
    let Some((c, v)) = last else { harness_bug("nothing to execute") };
    let v = match &v {
        Some(v) => format!("{{\"class\":{},\"msg\":{}}}", js(&v.class), js(&v.msg)),
        None => "null".into(),
    };
    println!(
        "{{\"violation\":{v},\"build\":{},\"trace\":{},\"executed\":{done},\"blocks\":[{}],\"choices\":{},\"shape\":\"{:016x}\",\"seen\":[\"{:016x}\",\"{:016x}\"]}}",
        js(BUILD),
        js_list(&c.log),
        recorded.join(","),
        js_nums(c.src.recorded()),
        c.shape,
        c.seen[0],
        c.seen[1]
    );
}

/// Re-executes a run that killed its process, writing its choices as they are drawn.
fn record() {
    let prop = req("--prop");
    let mut src = Source::random(run_seed(num("--seed"), &prop, num("--run")));
    src.stream_to(std::fs::File::create(req("--stream")).expect("stream"));
    let (_c, v) = execute(&prop, src, false);
    println!("{}", if v.is_some() { "violation" } else { "ok" });
}

/// Whether a fresh process fails in the same way when executing this file.
fn child_fails(prop: &str, class: &str, text: &str, tmp: &str) -> bool {
    std::fs::write(tmp, text).expect("tmp");
    let out = format!("{tmp}.stdout");
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["try", "--prop", prop, "--choices", tmp, "--seed", &arg("--seed").unwrap_or("0".into())])
        .args(["--stall-ms", if class == "hang" { "1000" } else { "5000" }])
        .stdout(std::fs::File::create(&out).expect("out"))
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    let ended = ch.wait().expect("wait");
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    match ended.code() {
        Some(STUCK) => class == "hang",
        None => class == "crash",
        Some(_) => text.starts_with(&format!("{{\"violation\":{{\"class\":{},", js(class))),
    }
}

fn min() {
    let prop = req("--prop");
    let class = req("--class");
    let start = choices();
    let deadline = Instant::now() + Duration::from_secs(num("--secs"));
    let best = if req("--mode") == "child" {
        let tmp = format!("{}.cand", req("--out"));
        // The blocks around the one that is minimised.
        let file = |n: &str| arg(n).and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
        let (before, after) = (file("--before"), file("--after"));
        let b = minimise::minimise(start, deadline, |c| {
            let mut text = format!("{before}=\n");
            c.iter().for_each(|v| text.push_str(&format!("{v}\n")));
            text.push_str(&after);
            if child_fails(&prop, &class, &text, &tmp) {
                Some(c.to_vec())
            } else {
                None
            }
        });
        let _ = std::fs::remove_file(&tmp);
        b
    } else {
        minimise::minimise(start, deadline, |c| {
            let (c2, v) = execute(&prop, Source::replay(c.to_vec()), false);
            match v {
                Some(v) if v.class == class => Some(c2.src.into_recorded()),
                _ => None,
            }
        })
    };
    let text: String = best.iter().map(|v| format!("{v}\n")).collect();
    std::fs::write(req("--out"), text).expect("out");
}

/// Counts the different shapes in the files the workers left.
fn distinct() {
    let mut v: Vec<u64> = Vec::new();
    for f in std::env::args().skip(2) {
        let b = std::fs::read(f).unwrap_or_default();
        v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    v.sort_unstable();
    v.dedup();
    println!("{}", v.len());
}

fn main() {
    ctx::install_hook();
    match std::env::args().nth(1).as_deref() {
        Some("work") => {
            watchdog();
            work()
        }
        Some("try") => {
            watchdog();
            try_all()
        }
        Some("record") => {
            watchdog();
            record()
        }
        Some("min") => min(),
        Some("distinct") => distinct(),
        _ => harness_bug("usage: sim work|try|record|min ..."),
    }
}
