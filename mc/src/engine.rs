//! Exhaustive explorer: every case of a finite, deterministically ordered case
//! space is executed on the real code, in forked worker processes which share a
//! work counter. No sampling: a run either visits every case or reports an error.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub type Case = Vec<i64>;
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(key: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { key: key.to_string(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => {
        if !($c) { return $crate::engine::fail($key, format!($($a)*)); }
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub maxima: BTreeMap<String, u64>,
    /// what the current case did so far, for hang and crash reports
    pub replay: bool,
}
impl Ctx {
    pub fn new(tier: Tier) -> Self {
        Ctx {
            tier,
            states: HashSet::new(),
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            maxima: BTreeMap::new(),
            replay: false,
        }
    }
    pub fn state<T: Hash>(&mut self, t: &T) -> bool {
        self.states.insert(hash(t))
    }
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// one execution of the implementation compared with the reference model
    pub fn validated(&mut self) {
        self.traces += 1;
    }
    pub fn outcome(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn count(&mut self, s: &str, n: u64) {
        *self.counters.entry(s.to_string()).or_insert(0) += n;
    }
    pub fn maximum(&mut self, s: &str, n: u64) {
        let e = self.maxima.entry(s.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
}

/// FNV-1a with a 64-bit finalizer: deterministic, independent of process
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}
/// Runs real code; Err(message) if it panicked
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Check {
    pub id: &'static str,
    /// what is enumerated, in one or two sentences
    pub rule: &'static str,
    pub cases: fn(Tier) -> Vec<Case>,
    pub run: fn(&Case, &mut Ctx) -> R,
    pub describe: fn(&Case) -> String,
    pub bounds: fn(Tier) -> Value,
    pub assumptions: &'static [&'static str],
    /// seconds after which one case counts as a hang
    pub timeout: u64,
    /// longest alphabet of outcomes expected; a run with fewer distinct outcomes is vacuous
    pub min_outcomes: usize,
}

struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    slots: [[AtomicU64; 3]; 64],
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}
fn now_ms() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1000000
    }
}

fn run_one(c: &Check, case: &Case, ctx: &mut Ctx) -> R {
    match catch_unwind(AssertUnwindSafe(|| (c.run)(case, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic", format!("unexpected panic: {}", m))
        }
    }
}

pub fn silence_stdout() {
    unsafe {
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::close(n);
    }
}

struct Worker {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    slot: usize,
}

#[derive(Clone, Debug)]
pub enum End {
    Clean,
    Signal(i32),
    Hang,
    Exit(i32),
}

fn spawn(slot: usize, body: impl FnOnce(&mut dyn FnMut(&str))) -> Worker {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            silence_stdout();
            let fd = fds[1];
            let mut send = |s: &str| {
                let mut b = s.as_bytes().to_vec();
                b.push(b'\n');
                let mut o = 0;
                while o < b.len() {
                    let n = libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o);
                    if n <= 0 {
                        libc::_exit(3);
                    }
                    o += n as usize;
                }
            };
            body(&mut send);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        Worker { pid, fd: fds[0], buf: vec![], slot }
    }
}

/// waits for workers, returns (lines, end) for each; kills those whose current case exceeds the timeout
fn collect(ws: Vec<Worker>, sh: &Shared, timeout_ms: u64) -> Vec<(Vec<u8>, End)> {
    let mut out: Vec<(Vec<u8>, End)> = vec![];
    let mut live: Vec<(usize, Worker, bool)> = vec![];
    for (i, w) in ws.into_iter().enumerate() {
        out.push((vec![], End::Clean));
        live.push((i, w, false));
    }
    while !live.is_empty() {
        let mut pf: Vec<libc::pollfd> =
            live.iter().map(|(_, w, _)| libc::pollfd { fd: w.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 500) };
        let mut done = vec![];
        for (k, p) in pf.iter().enumerate() {
            let (i, w, hung) = &mut live[k];
            if p.revents != 0 {
                let mut b = vec![0u8; 1 << 16];
                let n = unsafe { libc::read(w.fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n > 0 {
                    w.buf.extend_from_slice(&b[..n as usize]);
                } else {
                    let mut st = 0;
                    unsafe {
                        libc::waitpid(w.pid, &mut st, 0);
                        libc::close(w.fd);
                    }
                    let end = if *hung {
                        End::Hang
                    } else if libc::WIFSIGNALED(st) {
                        End::Signal(libc::WTERMSIG(st))
                    } else if libc::WEXITSTATUS(st) != 0 {
                        End::Exit(libc::WEXITSTATUS(st))
                    } else {
                        End::Clean
                    };
                    out[*i] = (std::mem::take(&mut w.buf), end);
                    done.push(k);
                }
            } else {
                let started = sh.slots[w.slot][1].load(Ordering::SeqCst);
                if started != 0 && now_ms().saturating_sub(started) > timeout_ms && !*hung {
                    *hung = true;
                    unsafe { libc::kill(w.pid, libc::SIGKILL) };
                }
            }
        }
        for k in done.into_iter().rev() {
            live.remove(k);
        }
    }
    out
}

#[derive(Clone, Debug)]
struct Viol {
    idx: u64,
    key: String,
    msg: String,
    history: Vec<u64>,
}

fn run_cases(c: &Check, cases: &[Case], order: &[u64], tier: Tier) -> (Option<Viol>, End) {
    run_cases_within(c, cases, order, tier, c.timeout)
}

fn run_cases_within(c: &Check, cases: &[Case], order: &[u64], tier: Tier, seconds: u64) -> (Option<Viol>, End) {
    // runs the given cases in one fresh process and reports the first failure
    let sh = shared();
    let w = spawn(0, |send| {
        let mut ctx = Ctx::new(tier);
        for i in order {
            sh.slots[0][0].store(*i, Ordering::SeqCst);
            sh.slots[0][1].store(now_ms(), Ordering::SeqCst);
            if let Err(f) = run_one(c, &cases[*i as usize], &mut ctx) {
                send(&json!({"i": i, "key": f.key, "msg": f.msg}).to_string());
                if *i == order[order.len() - 1] {
                    break;
                }
            }
        }
    });
    let r = collect(vec![w], sh, seconds * 1000);
    let (b, e) = r.into_iter().next().unwrap();
    let mut v = None;
    for l in b.split(|x| *x == b'\n').filter(|l| !l.is_empty()) {
        let j: Value = serde_json::from_slice(l).unwrap();
        v = Some(Viol {
            idx: j["i"].as_u64().unwrap(),
            key: j["key"].as_str().unwrap().into(),
            msg: j["msg"].as_str().unwrap().into(),
            history: vec![],
        });
    }
    (v, e)
}

fn known_findings(root: &str, id: &str) -> Vec<(String, String)> {
    // lines "finding: property=<id> key=<key> <what fails>"; everything else is commentary
    let mut r = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix(&format!("finding: property={} key=", id)) {
                let mut p = x.splitn(2, ' ');
                r.push((p.next().unwrap().to_string(), p.next().unwrap_or("").to_string()));
            }
        }
    }
    r
}

pub fn execute(c: &Check, tier: Tier, seed: u64, root: &str) -> i32 {
    let t0 = Instant::now();
    let cases = (c.cases)(tier);
    let total = cases.len() as u64;
    if total == 0 {
        eprintln!("no cases");
        return 2;
    }
    let sh = shared();
    let nw = std::env::var("SIAMC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).min(64);
    sh.stop.store(u64::MAX, Ordering::SeqCst);
    let known = known_findings(root, c.id);
    let workers: Vec<Worker> = (0..nw)
        .map(|slot| {
            spawn(slot, |send| {
                let mut ctx = Ctx::new(tier);
                let mut mine: Vec<u64> = vec![];
                loop {
                    let i = sh.next.fetch_add(1, Ordering::SeqCst);
                    if i >= total || i > sh.stop.load(Ordering::SeqCst) {
                        break;
                    }
                    mine.push(i);
                    sh.slots[slot][0].store(i, Ordering::SeqCst);
                    sh.slots[slot][1].store(now_ms(), Ordering::SeqCst);
                    if let Err(f) = run_one(c, &cases[i as usize], &mut ctx) {
                        if !known.iter().any(|k| k.0 == f.key) {
                            sh.stop.fetch_min(i, Ordering::SeqCst);
                        }
                        send(&json!({"t":"viol","i": i, "key": f.key, "msg": f.msg, "hist": mine}).to_string());
                        if !known.iter().any(|k| k.0 == f.key) {
                            break;
                        }
                    }
                    sh.slots[slot][2].fetch_add(1, Ordering::SeqCst);
                }
                sh.slots[slot][1].store(0, Ordering::SeqCst);
                let st: Vec<String> = ctx.states.iter().map(|x| format!("{:x}", x)).collect();
                send(&json!({"t":"done","n": mine.len(), "transitions": ctx.transitions, "traces": ctx.traces,
                    "outcomes": ctx.outcomes, "counters": ctx.counters, "maxima": ctx.maxima,
                    "samples": ctx.samples, "states": st.join(",")}).to_string());
            })
        })
        .collect();
    let res = collect(workers, sh, c.timeout * 1000);

    let mut states: HashSet<u64> = HashSet::new();
    let (mut transitions, mut traces, mut executed) = (0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<Viol> = vec![];
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    for (slot, (buf, end)) in res.into_iter().enumerate() {
        for l in buf.split(|x| *x == b'\n').filter(|l| !l.is_empty()) {
            let j: Value = match serde_json::from_slice(l) {
                Ok(j) => j,
                Err(_) => continue,
            };
            if j["t"] == "viol" {
                let key = j["key"].as_str().unwrap().to_string();
                if known.iter().any(|k| k.0 == key) {
                    *known_hit.entry(key).or_insert(0) += 1;
                    continue;
                }
                viols.push(Viol {
                    idx: j["i"].as_u64().unwrap(),
                    key,
                    msg: j["msg"].as_str().unwrap().into(),
                    history: j["hist"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                });
            } else {
                executed += j["n"].as_u64().unwrap();
                transitions += j["transitions"].as_u64().unwrap();
                traces += j["traces"].as_u64().unwrap();
                for (m, k) in [(&mut outcomes, "outcomes"), (&mut counters, "counters")] {
                    for (a, b) in j[k].as_object().unwrap() {
                        *m.entry(a.clone()).or_insert(0) += b.as_u64().unwrap();
                    }
                }
                for (a, b) in j["maxima"].as_object().unwrap() {
                    let e = maxima.entry(a.clone()).or_insert(0);
                    *e = (*e).max(b.as_u64().unwrap());
                }
                for s in j["samples"].as_array().unwrap() {
                    samples.push(s.as_str().unwrap().into());
                }
                for s in j["states"].as_str().unwrap().split(',').filter(|s| !s.is_empty()) {
                    states.insert(u64::from_str_radix(s, 16).unwrap());
                }
            }
        }
        let idx = sh.slots[slot][0].load(Ordering::SeqCst);
        if !matches!(end, End::Clean) {
            executed += sh.slots[slot][2].load(Ordering::SeqCst);
        }
        match end {
            End::Clean => {}
            End::Hang | End::Signal(_) => {
                if let End::Signal(libc::SIGKILL) = end {
                    errors.push(format!("worker {} was killed (memory?) in case {}", slot, idx));
                } else {
                    let what = if let End::Hang = end { "does not end" } else { "crashes the process" };
                    viols.push(Viol {
                        idx,
                        key: if let End::Hang = end { "hang".into() } else { "crash".into() },
                        msg: format!("the call {} ({:?})", what, end),
                        history: vec![idx],
                    });
                }
            }
            End::Exit(s) => errors.push(format!("worker {} ended with status {} in case {}", slot, s, idx)),
        }
    }
    viols.sort_by_key(|v| v.idx);
    // a call which did not end in time is tried again alone with three times the time: a loaded machine is no hang
    let (mut slow, mut hangs) = (0u64, None);
    viols.retain(|v| {
        if v.key != "hang" || hangs.is_some() || slow == 3 {
            return true;
        }
        let ended = matches!(run_cases_within(c, &cases, &[v.idx], tier, (c.timeout * 3).min(450)), (None, End::Clean));
        if ended {
            slow += 1;
        } else {
            hangs = Some(v.idx);
        }
        !ended
    });
    if let Some(i) = hangs {
        viols.retain(|v| v.idx == i || v.key != "hang");
        viols.sort_by_key(|v| (v.key != "hang", v.idx));
    }
    executed += slow;
    if slow > 0 {
        counters.insert("cases which ended only when run again alone (machine loaded)".into(), slow);
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some(v) = viols.first() {
        // confirm: alone in a fresh process, else after the worker's own history
        let (again, end) = if hangs == Some(v.idx) { (None, End::Hang) } else { run_cases(c, &cases, &[v.idx], tier) };
        let mut hist = vec![];
        let mut note = String::new();
        let confirmed = match (&again, &end) {
            (Some(_), _) => true,
            (None, End::Hang) | (None, End::Signal(_)) if v.key == "hang" || v.key == "crash" => true,
            _ => {
                hist = v.history.clone();
                let (h, e2) = run_cases(c, &cases, &hist, tier);
                note = " (only after earlier calls in the same process: the result depends on history)".into();
                h.map(|x| x.idx == v.idx).unwrap_or(false) || matches!(e2, End::Hang | End::Signal(_))
            }
        };
        if !confirmed && (v.key == "hang" || v.key == "crash") {
            errors.push(format!("case {} {} once but not again", v.idx, v.key));
        } else {
            if !confirmed {
                note = " (seen once, not again when repeated: the result is not a function of the arguments)".into();
            }
            let v = again.as_ref().map(|a| Viol { history: vec![], ..a.clone() }).unwrap_or(v.clone());
            nviol = viols.len();
            let dir = format!("{}/replays", root);
            std::fs::create_dir_all(&dir).ok();
            let path = format!("{}/{}.json", dir, c.id);
            let hist_cases: Vec<&Case> = hist.iter().map(|i| &cases[*i as usize]).collect();
            let doc = json!({"property": c.id, "tier": format!("{:?}", tier).to_lowercase(), "case": cases[v.idx as usize],
                "case_index": v.idx, "described": (c.describe)(&cases[v.idx as usize]), "key": v.key, "failure": format!("{}{}", v.msg, note),
                "history": hist_cases, "replay": format!("./run.sh replay {}", path)});
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").ok();
            println!("{}: case {} {}", c.id, v.idx, (c.describe)(&cases[v.idx as usize]));
            println!("{}: {}: {}{}", c.id, v.key, v.msg, note);
            println!("VIOLATION property={} replay={}", c.id, path);
            code = 1;
        }
    }
    for (k, n) in &known_hit {
        let what = &known.iter().find(|x| x.0 == *k).unwrap().1;
        println!("KNOWN-FINDING: property={} {} ({} cases)", c.id, what, n);
    }
    if code == 0 {
        if !errors.is_empty() {
            code = 2;
        } else if executed != total {
            errors.push(format!("{} of {} cases executed", executed, total));
            code = 2;
        } else if outcomes.len() < c.min_outcomes {
            errors.push(format!("vacuous: only {} distinct outcomes {:?}", outcomes.len(), outcomes));
            code = 2;
        }
    }
    for e in &errors {
        println!("{}: ERROR {}", c.id, e);
    }
    samples.truncate(6);
    let cov = json!({
        "states": states.len(), "transitions": transitions, "traces_validated_against_impl": traces,
        "samples": if samples.is_empty() { vec![(c.describe)(&cases[0])] } else { samples },
        "cases_enumerated": total, "cases_executed": executed,
        "exhaustive": code == 0, "rule": c.rule, "bounds": (c.bounds)(tier),
        "distinct_outcomes": outcomes.len(), "outcomes": outcomes.iter().take(60).collect::<BTreeMap<_, _>>(),
        "counters": counters, "maxima": maxima, "known_findings_hit": known_hit, "workers": nw,
        "first_case": (c.describe)(&cases[0]), "last_case": (c.describe)(&cases[cases.len() - 1]),
    });
    let ev = json!({"property": c.id, "tier": format!("{:?}", tier).to_lowercase(), "seed": seed, "level": "model_checking",
        "coverage": cov, "assumptions": c.assumptions, "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0, "violations": nviol});
    std::fs::create_dir_all(format!("{}/evidence", root)).ok();
    std::fs::write(format!("{}/evidence/{}.json", root, c.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{} {:?}: cases={} states={} transitions={} traces={} outcomes={} wall={:.1}s exit={}",
        c.id, tier, executed, states.len(), transitions, traces, outcomes.len(), t0.elapsed().as_secs_f64(), code
    );
    code
}

pub fn replay(checks: &[Check], path: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let c = checks.iter().find(|c| c.id == j["property"].as_str().unwrap()).expect("check");
    let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let to_case = |v: &Value| -> Case { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
    let mut cases: Vec<Case> = j["history"].as_array().unwrap().iter().map(to_case).collect();
    if cases.is_empty() {
        cases.push(to_case(&j["case"]));
    }
    let order: Vec<u64> = (0..cases.len() as u64).collect();
    let (v, e) = run_cases(c, &cases, &order, tier);
    let last = cases.len() - 1;
    println!("{}", (c.describe)(&cases[last]));
    match (v, e) {
        (Some(v), _) if v.idx as usize == last => {
            println!("{}: {}", v.key, v.msg);
            println!("VIOLATION property={} replay={}", c.id, path);
            1
        }
        (_, End::Clean) => {
            println!("the property holds on this case");
            0
        }
        (_, e) => {
            println!("the case ended with {:?}", e);
            println!("VIOLATION property={} replay={}", c.id, path);
            1
        }
    }
}

/// Runs f in a forked child and returns the bytes it hands back; None if it died.
pub fn in_fresh_process(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let b = f();
            let mut o = 0;
            while o < b.len() {
                let n = libc::write(fds[1], b[o..].as_ptr() as *const _, b.len() - o);
                if n <= 0 {
                    libc::_exit(3);
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut file = <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(fds[0]);
        let mut b = vec![];
        file.read_to_end(&mut b).ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { Some(b) } else { None }
    }
}

#[allow(dead_code)]
pub fn flush() {
    std::io::stdout().flush().ok();
}
