//! Runs scenarios against the library's modem and rig interfaces. Each batch of cases runs in a
//! process of its own, so that anything the code under test does to its process is an observation.

#[path = "../../common/common.rs"]
mod common;
mod builder;
mod config;
mod conn;
mod ctl;
mod e2e;
mod logdiff;
mod rigs;
mod world;

use common::{Ctx, Rng};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use world::{End, W, R};

/// Log output that is not valid UTF-8.
pub static INVALID_LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static LOGGED: AtomicU64 = AtomicU64::new(0);

#[derive(Clone)]
pub struct Sink;
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        LOGGED.fetch_add(b.len() as u64, Ordering::Relaxed);
        if std::str::from_utf8(b).is_err() {
            INVALID_LOG.lock().unwrap().push(common::short_hex(b));
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn log_everything() {
    let sub = tracing_subscriber::fmt()
        .with_max_level(tracing_subscriber::filter::LevelFilter::TRACE)
        .with_writer(|| Sink)
        .finish();
    let _ = tracing::subscriber::set_global_default(sub);
}

struct Plan {
    stream: &'static str,
    quick: u64,
    thorough: u64,
    batch: u64,
    parallel: usize,
    rule: &'static str,
    floors: &'static [(&'static str, u64)],
}

fn plan(p: &str) -> Option<Plan> {
    Some(match p {
        "C17" => ctl::PLAN17,
        "C18" => ctl::PLAN18,
        "C19" => ctl::PLAN19,
        "C20" => conn::PLAN20,
        "C21" => conn::PLAN21,
        "C22" => conn::PLAN22,
        "C23" => conn::PLAN23,
        "C24" => conn::PLAN24,
        "C25" => builder::PLAN25,
        "C26" => rigs::PLAN26,
        "C27" => rigs::PLAN27,
        "C28" => e2e::PLAN28,
        "C29" => e2e::PLAN29,
        "C30" => logdiff::PLAN30,
        "C31" => ctl::PLAN31,
        "C32" => config::PLAN32,
        _ => return None,
    })
}

fn scenario(p: &str, rng: Rng, case: u64) -> R {
    match p {
        "C17" => ctl::c17(&mut W::new(rng, case)),
        "C18" => ctl::c18(&mut W::new(rng, case)),
        "C19" => ctl::c19(&mut W::new(rng, case)),
        "C20" => conn::c20(&mut W::new(rng, case)),
        "C21" => conn::c21(&mut W::new(rng, case)),
        "C22" => conn::c22(&mut W::new(rng, case)),
        "C23" => conn::c23(&mut W::new(rng, case)),
        "C24" => conn::c24(&mut W::new(rng, case)),
        "C25" => builder::c25(&mut W::new(rng, case)),
        "C26" => rigs::c26(rng),
        "C27" => rigs::c27(rng),
        "C28" => e2e::c28(rng),
        "C32" => config::c32(rng),
        "C29" => e2e::c29(rng),
        "C30" => logdiff::c30(rng),
        "C31" => ctl::c31(&mut W::new(rng, case)),
        _ => unreachable!(),
    }
}

fn child(p: &str, seed: u64, from: u64, to: u64) -> ! {
    let pl = plan(p).unwrap();
    let own_log = p == "C30";
    if !own_log && ((from / pl.batch) % 2 == 1 || p == "C31") {
        log_everything();
    }
    // What never comes back to the scenario, which runs on this thread, is noticed by its processor time.
    let current = Arc::new(AtomicU64::new(u64::MAX));
    let at_start = Arc::new(AtomicU64::new(0));
    {
        let (current, at_start, me) = (current.clone(), at_start.clone(), common::gettid());
        let slow: u64 = std::env::var("VERIF_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let limit = slow * if p == "C26" || p == "C27" { 20 } else { 240 };
        let started = Arc::new(std::sync::Barrier::new(2));
        let here = started.clone();
        std::thread::spawn(move || {
            // Its own waking up is no sign of life of the code under test.
            world::WATCHER.store(common::gettid(), Ordering::SeqCst);
            here.wait();
            loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let case = current.load(Ordering::SeqCst);
            let used = common::thread_cpu_ticks(me).saturating_sub(at_start.load(Ordering::SeqCst));
            if case != u64::MAX && used > limit * 100 && current.load(Ordering::SeqCst) == case {
                println!("BAD {case} spinning\tstill running after {limit} s of processor time");
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(0) }
            }
            }
        });
        started.wait();
    }
    for case in from..to {
        println!("BEGIN {case}");
        let _ = std::io::stdout().flush();
        current.store(u64::MAX, Ordering::SeqCst);
        at_start.store(common::thread_cpu_ticks(common::gettid()), Ordering::SeqCst);
        current.store(case, Ordering::SeqCst);
        let rng = Rng::of(seed, pl.stream, case);
        let r = common::sut(|| scenario(p, rng, case));
        let r = match r {
            Ok(Ok(())) => world::panics(),
            Ok(r) => r,
            Err(e) => world::inc(format!("harness: {e}")),
        };
        match r {
            Ok(()) => println!("OK {case}"),
            Err(End::Bad(b)) => {
                println!("BAD {case} {}\t{}", esc(&b.what), esc(&b.detail));
                let _ = std::io::stdout().flush();
                // The process may be wedged; what follows starts afresh.
                unsafe { libc::_exit(0) }
            }
            Err(End::Inc(s)) => {
                println!("INC {case} {}", esc(&s));
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(0) }
            }
        }
        if world::WEDGED.load(Ordering::SeqCst) {
            println!("BAD {case} never at rest\tthe runtime does not shut down");
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(0) }
        }
    }
    world::count("bytes logged", LOGGED.load(Ordering::Relaxed));
    let rep = world::take_rep();
    for (k, v) in rep.counters {
        println!("COUNT {v} {k}");
    }
    for (k, v) in rep.maxima {
        println!("MAX {v} {k}");
    }
    for h in rep.distinct {
        println!("DIST {h}");
    }
    for (k, s) in rep.sets {
        for h in s {
            println!("SET {h} {k}");
        }
    }
    for s in rep.samples {
        println!("SAMPLE {}", esc(&s));
    }
    println!("END");
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ").replace('\r', "\\r")
}

/// Cases that decided nothing, three times over. A few in a run of many leave the rest decided.
const UNDECIDED: &str = "cases undecided";

fn run_batch(ctx: &Ctx, p: &str, from: u64, to: u64) {
    let exe = std::env::current_exe().unwrap();
    let mut at = from;
    let mut tries = 0;
    while at < to {
        let mut c = match std::process::Command::new(&exe)
            .args([p, "--child", &at.to_string(), &to.to_string()])
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => return ctx.inconclusive(format!("cannot start a child: {e}")),
        };
        let err = c.stderr.take().unwrap();
        let tail = std::thread::spawn(move || {
            let mut tail = std::collections::VecDeque::new();
            for l in std::io::BufReader::new(err).split(b'\n').map_while(Result::ok) {
                tail.push_back(String::from_utf8_lossy(&l).into_owned());
                if tail.len() > 60 {
                    tail.pop_front();
                }
            }
            tail.into_iter().collect::<Vec<_>>().join("\n")
        });
        let mut running = None;
        let mut ended = false;
        for l in std::io::BufReader::new(c.stdout.take().unwrap()).lines().map_while(Result::ok) {
            let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
            let (num, text) = rest.split_once(' ').unwrap_or((rest, ""));
            let n: u64 = num.parse().unwrap_or(0);
            match tag {
                "BEGIN" => running = Some(n),
                "OK" => {
                    running = None;
                    tries = 0;
                    ctx.eval(1);
                    at = n + 1;
                }
                "BAD" => {
                    let (what, detail) = text.split_once('\t').unwrap_or((text, ""));
                    ctx.violation(n, common::Bad { what: what.into(), detail: detail.into() });
                    running = None;
                    ctx.eval(1);
                    at = n + 1;
                }
                "INC" => {
                    running = None;
                    tries += 1;
                    if tries > 2 {
                        eprintln!("undecided: case {n}: {text}");
                        ctx.count(UNDECIDED, 1);
                        tries = 0;
                        at = n + 1;
                    } else {
                        eprintln!("case {n} decided nothing, once more: {text}");
                        ctx.count("cases run again", 1);
                        at = n;
                    }
                }
                "COUNT" => ctx.count(text, n),
                "MAX" => ctx.maximum(text, n),
                "DIST" => ctx.distinct(n),
                "SET" => ctx.distinct_in(text, n),
                "SAMPLE" => ctx.sample(|| rest.to_string()),
                "END" => ended = true,
                _ => {}
            }
        }
        let status = c.wait();
        let tail = tail.join().unwrap_or_default();
        if let Some(n) = running {
            use std::os::unix::process::ExitStatusExt;
            at = n + 1;
            match status {
                Ok(s) if s.signal() == Some(libc::SIGKILL) => {
                    eprintln!("undecided: case {n}: the child was killed");
                    ctx.count(UNDECIDED, 1);
                }
                Ok(s) => ctx.violation(
                    n,
                    common::Bad { what: "the process died".into(), detail: format!("{s}: {}", tail.chars().take(3000).collect::<String>()) },
                ),
                Err(e) => ctx.inconclusive(format!("case {n}: {e}")),
            }
        } else if !ended && at >= to {
            break;
        }
        if ctx.has_violation() {
            return;
        }
        if ended {
            break;
        }
    }
}

fn main() {
    common::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 5 && args[2] == "--child" {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        child(&args[1], seed, args[3].parse().unwrap(), args[4].parse().unwrap());
    }
    let ctx = Arc::new(Ctx::from_args());
    let Some(pl) = plan(&ctx.property) else {
        eprintln!("unknown property {}", ctx.property);
        std::process::exit(3);
    };
    let p = ctx.property.clone();
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(ctx.n(pl.quick, pl.thorough));
    if let Some(n) = ctx.only_case {
        run_batch(&ctx, &p, n, n + 1);
    } else {
        let next = Arc::new(AtomicU64::new(0));
        let threads: Vec<_> = (0..pl.parallel)
            .map(|_| {
                let (ctx, next, p) = (ctx.clone(), next.clone(), p.clone());
                std::thread::spawn(move || loop {
                    let from = next.fetch_add(pl.batch, Ordering::SeqCst);
                    if from >= total || ctx.has_violation() {
                        break;
                    }
                    run_batch(&ctx, &p, from, (from + pl.batch).min(total));
                })
            })
            .collect();
        for t in threads {
            let _ = t.join();
        }
        for (k, min) in pl.floors {
            ctx.require(k, *min);
        }
    }
    let undecided = ctx.counter(UNDECIDED);
    if undecided > if ctx.only_case.is_some() { 0 } else { (total / 200).max(1) } {
        ctx.inconclusive(format!("{undecided} cases decided nothing"));
    }
    ctx.finish(
        "exploration",
        pl.rule,
        &[
            "the simulated modem or rig in /verif/harness/io behaves like one: CR-ended lines, replies in command order",
            "a process all of whose threads sleep for three seconds with unchanged counters will not proceed",
        ],
    );
}
