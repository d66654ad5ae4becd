//! Runs the stages of a check: every item of every stage exactly once, on all cores, in a child process, so that a crash or hang of
//! the code under test is itself an observation. Writes the evidence and the replay file.

use std::cell::RefCell;
use std::collections::HashSet;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct Tally {
    /// Inputs (texts) handed to the implementation.
    pub texts: u64,
    /// Distinct model states visited; meaning depends on the check and is stated in its evidence.
    pub states: u64,
    pub transitions: u64,
    /// Runs of the reference model whose outcome was compared with the implementation's.
    pub traces: u64,
    /// Texts the implementation accepted / rejected.
    pub accepted: u64,
    pub rejected: u64,
    pub skipped: u64,
}

impl Tally {
    fn add(&mut self, o: &Tally) {
        self.texts += o.texts;
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.accepted += o.accepted;
        self.rejected += o.rejected;
        self.skipped += o.skipped;
    }
}

pub struct Ctx<'a> {
    pub tally: Tally,
    /// Hashes of observed outcomes, to show the exploration is not vacuous.
    pub outcomes: HashSet<u64>,
    pub violations: Vec<(String, String)>,
    pub known: Vec<String>,
    pub last: String,
    file: Option<&'a fs::File>,
    beat: &'a AtomicU64,
    begun: Instant,
    tag: (usize, u64),
    pub samples: Vec<String>,
    /// Set when another worker has made further exploration of this stage pointless.
    pub stop: &'a AtomicBool,
}

impl<'a> Ctx<'a> {
    /// To be called before each use of the code under test.
    pub fn note(&mut self, text: &str) {
        self.last.clear();
        self.last.push_str(text);
        self.tally.texts += 1;
        self.beat.store(self.begun.elapsed().as_millis() as u64, SeqCst);
        if let Some(f) = self.file {
            let mut b = Vec::with_capacity(text.len() + 40);
            let _ = write!(b, "{} {} {}\n", self.tag.0, self.tag.1, text.len().min(4000));
            b.extend_from_slice(&text.as_bytes()[..text.len().min(4000)]);
            b.push(b'\n');
            let _ = f.write_all_at(&b, 0);
        }
    }

    pub fn violation(&mut self, msg: impl Into<String>) {
        self.violations.push((msg.into(), self.last.clone()));
    }

    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(h);
        }
    }
}

pub struct Stage {
    pub name: String,
    /// What is enumerated, within what bound.
    pub about: String,
    pub total: u64,
    pub f: Box<dyn Fn(u64, &mut Ctx) + Sync + Send>,
}

pub fn stage(name: &str, about: &str, total: u64, f: impl Fn(u64, &mut Ctx) + Sync + Send + 'static) -> Stage {
    Stage { name: name.into(), about: about.into(), total, f: Box::new(f) }
}

pub fn hash(x: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in x.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Check {
    pub property: String,
    pub states: &'static str,
    pub transitions: &'static str,
    pub assumptions: Vec<&'static str>,
    pub stages: Vec<Stage>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn work_dir(property: &str) -> String {
    format!("/verif/evidence/.work-{property}")
}

/// `args`: <property> <tier> [--child | --one STAGE INDEX]. `make` builds the check for a tier.
pub fn main(make: fn(&str, bool) -> Option<Check>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("--replay") {
        replay(make, &args[1]);
    }
    let property = args[0].clone();
    let thorough = args.get(1).map_or(false, |t| t == "thorough");
    let check = match make(&property, thorough) {
        Some(c) => c,
        None => {
            eprintln!("no such check: {property}");
            std::process::exit(2)
        }
    };
    match args.get(2).map(String::as_str) {
        Some("--child") => child(check, thorough),
        Some("--one") => {
            let s = args[3].parse().unwrap();
            let i = args[4].parse().unwrap();
            std::process::exit(one(&check, s, i))
        }
        _ => parent(check, thorough),
    }
}

fn replay(make: fn(&str, bool) -> Option<Check>, path: &str) -> ! {
    let text = fs::read_to_string(path).expect("replay file");
    let mut it = text.lines();
    let head: Vec<&str> = it.next().unwrap().split(' ').collect();
    let check = make(head[0], head[1] == "thorough").expect("check");
    std::process::exit(one(&check, head[2].parse().unwrap(), head[3].parse().unwrap()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn run_item(st: &Stage, i: u64, ctx: &mut Ctx) {
    let r = catch_unwind(AssertUnwindSafe(|| (st.f)(i, ctx)));
    if r.is_err() {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        if loc.starts_with("src/") {
            eprintln!("harness error at {loc}: {msg}\nstage {} item {i}, text {:?}", st.name, ctx.last);
            std::process::exit(2);
        }
        ctx.violation(format!("panic at {loc}: {msg}"));
    }
}

fn one(check: &Check, s: usize, i: u64) -> i32 {
    install_hook();
    let st = &check.stages[s];
    let beat = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let mut violations = vec![];
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, || {
                let mut ctx = new_ctx(None, &beat, &stop);
                run_item(st, i, &mut ctx);
                violations = ctx.violations;
            })
            .unwrap();
    });
    for (m, t) in &violations {
        println!("stage {}, item {i}\n{m}\n--- text\n{t}\n---", st.name);
    }
    !violations.is_empty() as i32
}

fn new_ctx<'a>(file: Option<&'a fs::File>, beat: &'a AtomicU64, stop: &'a AtomicBool) -> Ctx<'a> {
    Ctx {
        tally: Tally::default(),
        outcomes: HashSet::new(),
        violations: vec![],
        known: vec![],
        last: String::new(),
        file,
        beat,
        begun: Instant::now(),
        tag: (0, 0),
        samples: vec![],
        stop,
    }
}

struct StageResult {
    tally: Tally,
    outcomes: HashSet<u64>,
    done: u64,
    wall: f64,
}

fn child(check: Check, thorough: bool) -> ! {
    install_hook();
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get());
    let dir = work_dir(&check.property);
    let begun = Instant::now();
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let mut results: Vec<StageResult> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut found: Vec<(usize, u64, String, String)> = vec![];
    let mut known: Vec<String> = vec![];
    // The watchdog: an item that makes no progress ends the child, and the parent looks into it.
    let finished = AtomicBool::new(false);
    let hang_ms = std::env::var("MC_HANG_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(20_000);
    std::thread::scope(|outer| {
        outer.spawn(|| {
            while !finished.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let now = begun.elapsed().as_millis() as u64;
                for b in &beats {
                    let t = b.load(SeqCst);
                    if t != u64::MAX && now > t && now - t > hang_ms {
                        eprintln!("watchdog: no progress for {} ms", now - t);
                        std::process::exit(3);
                    }
                }
            }
        });
        for (sn, st) in check.stages.iter().enumerate() {
            let t0 = Instant::now();
            let next = AtomicU64::new(0);
            let limit = AtomicU64::new(st.total);
            let stop = AtomicBool::new(false);
            let agg = Mutex::new((Tally::default(), HashSet::new(), 0u64));
            let viol: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
            let smp: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
            let kn: Mutex<Vec<String>> = Mutex::new(vec![]);
            let chunk = (st.total / (threads as u64 * 64)).clamp(1, 256);
            std::thread::scope(|sc| {
                for t in 0..threads {
                    let (next, limit, agg, viol, smp, kn, beat, dir, stop) =
                        (&next, &limit, &agg, &viol, &smp, &kn, &beats[t], &dir, &stop);
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || {
                            let file = fs::OpenOptions::new().create(true).write(true).open(format!("{dir}/inflight.{t}")).ok();
                            let mut ctx = new_ctx(file.as_ref(), beat, stop);
                            ctx.begun = begun;
                            let mut done = 0;
                            loop {
                                let from = next.fetch_add(chunk, SeqCst);
                                if from >= limit.load(SeqCst) {
                                    break;
                                }
                                for i in from..(from + chunk).min(st.total) {
                                    ctx.tag = (sn, i);
                                    beat.store(begun.elapsed().as_millis() as u64, SeqCst);
                                    run_item(st, i, &mut ctx);
                                    done += 1;
                                    if i % (st.total / 3).max(1) == st.total / 7 && ctx.samples.len() < 4 {
                                        let s = ctx.last.clone();
                                        smp.lock().unwrap().push((i, s));
                                    }
                                    if !ctx.violations.is_empty() {
                                        for (m, t) in ctx.violations.drain(..) {
                                            viol.lock().unwrap().push((i, m, t));
                                        }
                                        limit.fetch_min(i, SeqCst);
                                        stop.store(true, SeqCst);
                                        break;
                                    }
                                }
                            }
                            beat.store(u64::MAX, SeqCst);
                            if let Some(f) = &file {
                                let _ = f.set_len(0);
                            }
                            let mut a = agg.lock().unwrap();
                            a.0.add(&ctx.tally);
                            a.1.extend(ctx.outcomes);
                            a.2 += done;
                            kn.lock().unwrap().extend(ctx.known);
                        })
                        .unwrap();
                }
            });
            let (tally, outcomes, done) = agg.into_inner().unwrap();
            results.push(StageResult { tally, outcomes, done, wall: t0.elapsed().as_secs_f64() });
            let mut s = smp.into_inner().unwrap();
            s.sort();
            samples.extend(s.into_iter().take(2).map(|(i, t)| format!("{} #{i}: {}", st.name, t.chars().take(300).collect::<String>())));
            known.extend(kn.into_inner().unwrap());
            let mut v = viol.into_inner().unwrap();
            v.sort_by_key(|(i, _, t)| (*i, t.len()));
            if let Some((i, m, t)) = v.into_iter().next() {
                found.push((sn, i, m, t));
                break;
            }
        }
        finished.store(true, SeqCst);
    });
    known.sort();
    known.dedup();
    for k in &known {
        println!("KNOWN-FINDING: property={} {k}", check.property);
    }
    write_evidence(&check, thorough, &results, &samples, found.len(), begun.elapsed().as_secs_f64(), &known);
    for (st, r) in check.stages.iter().zip(&results) {
        println!(
            "stage {:<28} {:>9}/{:<9} items {:>10} texts {:>10} states {:>11} transitions {:>9} traces {:>7} outcomes {:>6.1}s",
            st.name, r.done, st.total, r.tally.texts, r.tally.states, r.tally.transitions, r.tally.traces, r.outcomes.len(), r.wall
        );
    }
    if let Some((s, i, m, t)) = found.first() {
        report(&check, thorough, *s, *i, m, t);
        std::process::exit(1);
    }
    println!("{}: held on everything explored", check.property);
    std::process::exit(0)
}

fn report(check: &Check, thorough: bool, s: usize, i: u64, m: &str, t: &str) {
    let path = format!("/verif/evidence/{}.replay", check.property);
    let tier = if thorough { "thorough" } else { "quick" };
    let body = format!("{} {tier} {s} {i}\nstage: {}\n{m}\n--- text\n{t}\n---\n", check.property, check.stages[s].name);
    let _ = fs::write(&path, &body);
    println!("{body}");
    println!("VIOLATION property={} replay={path}", check.property);
}

fn write_evidence(check: &Check, thorough: bool, rs: &[StageResult], samples: &[String], violations: usize, wall: f64, known: &[String]) {
    let mut sum = Tally::default();
    for r in rs {
        sum.add(&r.tally);
    }
    let complete = rs.len() == check.stages.len() && rs.iter().zip(&check.stages).all(|(r, s)| r.done == s.total);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let stages: Vec<String> = rs
        .iter()
        .zip(&check.stages)
        .map(|(r, s)| {
            format!(
                "{{\"stage\":{},\"enumerates\":{},\"items_total\":{},\"items_done\":{},\"texts\":{},\"accepted\":{},\"rejected\":{},\"outside_scope\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"wall_s\":{:.2}}}",
                esc(&s.name),
                esc(&s.about),
                s.total,
                r.done,
                r.tally.texts,
                r.tally.accepted,
                r.tally.rejected,
                r.tally.skipped,
                r.tally.states,
                r.tally.transitions,
                r.tally.traces,
                r.outcomes.len(),
                r.wall
            )
        })
        .collect();
    let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    let assumptions: Vec<String> = check.assumptions.iter().map(|s| s.to_string()).collect();
    let json = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"states_are\":{},\"transitions\":{},\"transitions_are\":{},\"traces_validated_against_impl\":{},\"texts_given_to_implementation\":{},\"exhaustive\":{},\"stages\":[{}],\"known_findings_seen\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(&check.property),
        if thorough { "thorough" } else { "quick" },
        sum.states,
        esc(check.states),
        sum.transitions,
        esc(check.transitions),
        sum.traces,
        sum.texts,
        complete,
        stages.join(","),
        list(known),
        list(samples),
        list(&assumptions),
        wall,
        violations
    );
    let _ = fs::write(format!("/verif/evidence/{}.json", check.property), json);
}

fn parent(check: Check, thorough: bool) -> ! {
    let dir = work_dir(&check.property);
    let _ = fs::create_dir_all(&dir);
    for e in fs::read_dir(&dir).into_iter().flatten().flatten() {
        let _ = fs::remove_file(e.path());
    }
    let _ = fs::remove_file(format!("/verif/evidence/{}.replay", check.property));
    let exe = std::env::current_exe().unwrap();
    let tier = if thorough { "thorough" } else { "quick" };
    let begun = Instant::now();
    let st = std::process::Command::new(&exe).args([&check.property, tier, "--child"]).status().expect("child");
    let code = st.code();
    let mut suspects: Vec<(usize, u64, String)> = vec![];
    for e in fs::read_dir(&dir).into_iter().flatten().flatten() {
        let b = fs::read(e.path()).unwrap_or_default();
        if let Some(p) = b.iter().position(|c| *c == b'\n') {
            let h = String::from_utf8_lossy(&b[..p]).to_string();
            let v: Vec<u64> = h.split(' ').filter_map(|x| x.parse().ok()).collect();
            if v.len() == 3 {
                let end = (p + 1 + v[2] as usize).min(b.len());
                suspects.push((v[0] as usize, v[1], String::from_utf8_lossy(&b[p + 1..end]).to_string()));
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    match code {
        Some(c @ (0 | 1 | 2)) => std::process::exit(c),
        _ => {}
    }
    println!("the child ended abnormally ({st}); looking into the {} texts it was working on", suspects.len());
    suspects.sort();
    for (s, i, text) in suspects {
        let mut c = std::process::Command::new(&exe)
            .args([&check.property, tier, "--one", &s.to_string(), &i.to_string()])
            .spawn()
            .expect("child");
        let t0 = Instant::now();
        let how = loop {
            match c.try_wait().unwrap() {
                Some(st) if st.code() == Some(0) => break None,
                Some(st) if st.code() == Some(1) => break Some("a violation".to_string()),
                Some(st) if st.code() == Some(2) => std::process::exit(2),
                Some(st) => break Some(format!("the process ended with {st}")),
                None if t0.elapsed() > Duration::from_secs(100) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break Some("no result within 100 s".to_string());
                }
                None => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        if let Some(how) = how {
            write_evidence(&check, thorough, &[], &[text.clone()], 1, begun.elapsed().as_secs_f64(), &[]);
            report(&check, thorough, s, i, &format!("crash or hang: {how}"), &text);
            std::process::exit(1);
        }
    }
    // The machine may have been too busy for the watchdog: explore everything again, with more patience.
    if std::env::var("MC_HANG_MS").is_err() {
        println!("the abnormal end did not happen again; starting over");
        let st = std::process::Command::new(&exe).args([&check.property, tier]).env("MC_HANG_MS", "100000").status().expect("parent");
        std::process::exit(st.code().unwrap_or(2));
    }
    eprintln!("the abnormal end did not happen again");
    std::process::exit(2)
}
