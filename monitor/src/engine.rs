//! Running monitored executions: work distribution, panic and CPU-time watch, evidence, replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Property tags: bit n stands for property C<n>.
pub type Tags = u64;
pub const fn c(n: u32) -> Tags {
    1 << n
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The input of the execution being judged, kept so that a violation can be replayed.
#[derive(Clone, Debug, Default)]
pub struct Case {
    pub kind: &'static str,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub note: String,
}

pub struct Violation {
    pub case: Case,
    pub what: String,
}

thread_local! {
    static PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
    static GUARDED: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !GUARDED.with(|g| *g.borrow()) {
            return default(info);
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = info.location().map(|l| (l.file(), l.line())).unwrap_or(("?", 0));
        // the monitor's own sources are compiled with relative paths
        let own = (file.starts_with("src/") || file.contains("monitor/src")) && !msg.starts_with("LIB:");
        PANIC.with(|p| *p.borrow_mut() = Some((format!("panic at {file}:{line}: {msg}"), own)));
    }));
}

/// Run `f`; `Err` carries the message of a panic raised inside the code under test.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| *g.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() = false);
    r.map_err(|_| {
        let (msg, own) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panic".into(), false));
        if own {
            eprintln!("monitor error: {msg}");
            std::process::exit(3);
        }
        msg
    })
}

struct Slot {
    tid: AtomicU64,
    evals: AtomicU64,
    case: Mutex<Case>,
}

/// What one worker observed.
pub struct Out {
    pub mask: Tags,
    pub evals: u64,
    pub events: u64,
    pub formatted: u64,
    /// format the values of every n-th execution
    pub fmt_every: u64,
    pub seen: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub quick_counts: Vec<[u64; 2]>,
    bits: BTreeMap<u32, (Vec<u8>, Vec<u8>)>,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    slot: Arc<Slot>,
    stop: Arc<AtomicBool>,
}

const SEEN_CAP: usize = 400_000;

impl Out {
    fn new(mask: Tags, slot: Arc<Slot>, stop: Arc<AtomicBool>) -> Self {
        Out {
            mask,
            evals: 0,
            events: 0,
            formatted: 0,
            fmt_every: 1,
            seen: HashSet::new(),
            counts: BTreeMap::new(),
            quick_counts: vec![[0; 2]; 0x300],
            bits: BTreeMap::new(),
            samples: vec![],
            violation: None,
            slot,
            stop,
        }
    }
    pub fn detached(mask: Tags) -> Self {
        Out::new(
            mask,
            Arc::new(Slot {
                tid: AtomicU64::new(0),
                evals: AtomicU64::new(0),
                case: Mutex::new(Case::default()),
            }),
            Arc::new(AtomicBool::new(false)),
        )
    }
    pub fn stopped(&self) -> bool {
        self.violation.is_some() || self.stop.load(Relaxed)
    }
    /// Judge one execution. `a`/`b`/`note` identify the input for replay.
    pub fn case(
        &mut self,
        kind: &'static str,
        a: &[u8],
        b: &[u8],
        note: impl FnOnce() -> String,
        f: impl FnOnce(&mut Out),
    ) {
        if self.stopped() {
            return;
        }
        {
            let mut s = self.slot.case.lock().unwrap();
            s.kind = kind;
            s.a.clear();
            s.a.extend_from_slice(a);
            s.b.clear();
            s.b.extend_from_slice(b);
            s.note = note();
        }
        self.evals += 1;
        self.slot.evals.store(self.evals, Relaxed);
        let r = guarded(|| f(self));
        if let Err(msg) = r {
            self.miss(self.mask | c(1), || format!("code under test did not return: {msg}"));
        }
    }
    /// The execution broke the properties in `tags`.
    pub fn miss(&mut self, tags: Tags, what: impl FnOnce() -> String) {
        if tags & self.mask != 0 && self.violation.is_none() {
            let case = self.slot.case.lock().unwrap().clone();
            self.violation = Some(Violation { case, what: what() });
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, tags: Tags, what: &str, got: &T, exp: &T) {
        self.events += 1;
        if got != exp {
            self.miss(tags, || format!("{what}: observed {got:?}, reference says {exp:?}"));
        }
    }
    pub fn check(&mut self, tags: Tags, ok: bool, what: impl FnOnce() -> String) {
        self.events += 1;
        if !ok {
            self.miss(tags, what);
        }
    }
    pub fn add_fmt(&mut self, n: u64) {
        self.formatted += n;
    }
    pub fn note_distinct(&mut self, h: u64) {
        if self.seen.len() < SEEN_CAP {
            self.seen.insert(h);
        }
    }
    pub fn count(&mut self, key: &str) {
        if let Some(v) = self.counts.get_mut(key) {
            *v += 1;
        } else {
            self.counts.insert(key.to_string(), 1);
        }
    }
    pub fn add(&mut self, key: &str, n: u64) {
        *self.counts.entry(key.to_string()).or_insert(0) += n;
    }
    /// Structure `id` (conventional: id, extended: 0x100+id) was decoded from `d`.
    pub fn structure(&mut self, id: u32, d: &[u8], ok: bool) {
        if id >= 0x204 {
            return;
        }
        self.quick_counts[id as usize][ok as usize] += 1;
        let w = d.len().min(96);
        let e = self.bits.entry(id).or_insert_with(|| (vec![0; 96], vec![0; 96]));
        for i in 0..w {
            e.0[i] |= d[i];
            e.1[i] |= !d[i];
        }
        if d.iter().any(|&b| b != 0) {
            let mut h = 0xcbf29ce484222325u64 ^ id as u64;
            for &b in &d[..w] {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            self.note_distinct(h ^ (d.len().min(96) as u64) << 56);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = s();
            if !self.samples.contains(&s) {
                self.samples.push(s);
            }
        }
    }
}

pub struct Run {
    pub fmt_every: u64,
    pub prop: u32,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub start: Instant,
    pub total: Totals,
    pub violation: Option<Violation>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: Vec<(String, String)>,
    pub deadline: Duration,
    pub truncated: bool,
}

#[derive(Default)]
pub struct Totals {
    pub evals: u64,
    pub events: u64,
    pub seen: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub structs: BTreeMap<u32, [u64; 2]>,
    pub bits: BTreeMap<u32, (Vec<u8>, Vec<u8>)>,
    pub samples: Vec<String>,
}

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

/// A single execution that burns this much CPU time of its own thread does not terminate in any
/// useful sense: ordinary ones take microseconds.
const STUCK_TICKS: u64 = 4000; // 40 s at 100 Hz

impl Run {
    pub fn mask(&self) -> Tags {
        c(self.prop)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// Run tasks 0..n on all cores. Task content depends only on its index and the seed.
    pub fn tasks(&mut self, n: usize, f: impl Fn(usize, &mut Out) + Sync) {
        if self.violation.is_some() {
            return;
        }
        let next = AtomicUsize::new(0);
        let stop = Arc::new(AtomicBool::new(false));
        let done = AtomicBool::new(false);
        let late = AtomicBool::new(false);
        let mask = self.mask();
        let slots: Vec<Arc<Slot>> = (0..self.threads)
            .map(|_| {
                Arc::new(Slot {
                    tid: AtomicU64::new(0),
                    evals: AtomicU64::new(0),
                    case: Mutex::new(Case::default()),
                })
            })
            .collect();
        let (start, deadline) = (self.start, self.deadline);
        let fmt_every = self.fmt_every;
        let outs: Vec<Out> = std::thread::scope(|s| {
            let hs: Vec<_> = slots
                .iter()
                .map(|slot| {
                    let (slot, stop) = (slot.clone(), stop.clone());
                    let (next, f, late) = (&next, &f, &late);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            slot.tid.store(own_tid(), Relaxed);
                            let mut out = Out::new(mask, slot, stop.clone());
                            out.fmt_every = fmt_every;
                            loop {
                                let i = next.fetch_add(1, SeqCst);
                                if i >= n || out.stopped() {
                                    break;
                                }
                                if start.elapsed() > deadline {
                                    late.store(true, SeqCst);
                                    break;
                                }
                                f(i, &mut out);
                                if out.violation.is_some() {
                                    stop.store(true, SeqCst);
                                }
                            }
                            out
                        })
                        .unwrap()
                })
                .collect();
            // CPU-time watch
            let prop = self.prop;
            let (slots, done_r) = (&slots, &done);
            let w = s.spawn(move || {
                let mut last: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
                while !done_r.load(SeqCst) {
                    std::thread::park_timeout(Duration::from_millis(500));
                    for (i, sl) in slots.iter().enumerate() {
                        let (tid, ev) = (sl.tid.load(Relaxed), sl.evals.load(Relaxed));
                        if tid == 0 || ev == 0 {
                            continue;
                        }
                        let Some(t) = thread_cpu_ticks(tid) else { continue };
                        if last[i].0 != ev {
                            last[i] = (ev, t);
                        } else if t.saturating_sub(last[i].1) > STUCK_TICKS {
                            let case = sl.case.lock().unwrap().clone();
                            let v = Violation {
                                case,
                                what: "one execution used more than 40 s of CPU time".into(),
                            };
                            report(prop, &v);
                            std::process::exit(1);
                        }
                    }
                }
            });
            let outs = hs.into_iter().map(|h| h.join().expect("worker")).collect();
            done.store(true, SeqCst);
            w.thread().unpark();
            outs
        });
        self.truncated |= late.load(SeqCst);
        for o in outs {
            self.absorb(o);
        }
    }
    pub fn absorb(&mut self, o: Out) {
        let t = &mut self.total;
        t.evals += o.evals;
        t.events += o.events;
        if o.formatted > 0 {
            *t.counts.entry("formatted_bytes".into()).or_insert(0) += o.formatted;
        }
        t.seen.extend(o.seen);
        for (k, v) in o.counts {
            *t.counts.entry(k).or_insert(0) += v;
        }
        for (id, q) in o.quick_counts.iter().enumerate() {
            if q[0] + q[1] > 0 {
                let e = t.structs.entry(id as u32).or_default();
                e[0] += q[0];
                e[1] += q[1];
            }
        }
        for (id, (a, b)) in o.bits {
            let e = t.bits.entry(id).or_insert_with(|| (vec![0; 96], vec![0; 96]));
            for i in 0..96 {
                e.0[i] |= a[i];
                e.1[i] |= b[i];
            }
        }
        for s in o.samples {
            if t.samples.len() < 6 && !t.samples.contains(&s) {
                t.samples.push(s);
            }
        }
        if self.violation.is_none() {
            self.violation = o.violation;
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Write the replay file and print the VIOLATION line.
pub fn report(prop: u32, v: &Violation) {
    let dir = format!("{}/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/C{prop:02}.txt");
    let text = format!(
        "property=C{prop:02}\nkind={}\na={}\nb={}\nnote={}\nwhat={}\n",
        v.case.kind,
        hex(&v.case.a),
        hex(&v.case.b),
        v.case.note.replace('\n', " "),
        v.what.replace('\n', " ")
    );
    let _ = std::fs::write(&path, text);
    let mut w = v.what.clone();
    if w.len() > 1500 {
        let mut n = 1500;
        while !w.is_char_boundary(n) {
            n -= 1;
        }
        w.truncate(n);
    }
    println!("  input kind={} a={} b={} {}", v.case.kind, short(&v.case.a), short(&v.case.b), v.case.note);
    println!("  {w}");
    println!("VIOLATION property=C{prop:02} replay={path}");
}
fn short(b: &[u8]) -> String {
    if b.len() > 96 {
        format!("{}..({} bytes)", hex(&b[..96]), b.len())
    } else {
        hex(b)
    }
}
