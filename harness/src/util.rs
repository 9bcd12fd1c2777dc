use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Lines written by TLC's CSVWrite: a quoted string holding a JSON text.
pub fn read_cases(path: &str) -> Cases {
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("case file"));
    let mut seen = std::collections::HashSet::new();
    let mut out = Vec::new();
    for l in f.lines() {
        let l = l.expect("utf8 line");
        if l.trim().is_empty() || !seen.insert(hash_of(&l)) {
            continue;
        }
        out.push(if l.starts_with('"') { serde_json::from_str::<String>(&l).expect("quoted line").into_boxed_str() } else { l.into_boxed_str() })
    }
    Cases(Arc::new(out))
}
fn hash_of(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// Cases as text (as values they would take many times the memory).
#[derive(Clone)]
pub struct Cases(Arc<Vec<Box<str>>>);
impl Cases {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn get(&self, i: usize) -> Value {
        self.0.get(i).map_or(Value::Null, |t| serde_json::from_str(t).expect("case json"))
    }
    pub fn iter(&self) -> impl Iterator<Item = Value> + '_ {
        (0..self.len()).map(|i| self.get(i))
    }
}
impl From<Vec<Value>> for Cases {
    fn from(v: Vec<Value>) -> Cases {
        Cases(Arc::new(v.iter().map(|x| x.to_string().into_boxed_str()).collect()))
    }
}

/// The specification treats characters alike; where it writes one of the first
/// private-use characters, the case stands for the one with these texts instead:
/// U+E000 every character XML can hold in the basic plane, U+E001 many of the
/// other planes, U+E002 a long text, U+E003 as U+E000 without blanks and brackets.
fn block(c: char) -> Option<&'static str> {
    static B: std::sync::OnceLock<[String; 4]> = std::sync::OnceLock::new();
    let b = B.get_or_init(|| {
        let basic = || (0x21..=0xd7ff).chain(0xe004..=0xfffd).chain([0x20, 0x21]).filter_map(char::from_u32);
        [
            basic().collect(),
            (0x10000..=0x10fffd).step_by(97).filter_map(char::from_u32).collect(),
            "長い文。".repeat(7500),
            basic().filter(|c| !c.is_whitespace() && !"（）".contains(*c)).collect(),
        ]
    });
    ('\u{e000}'..='\u{e003}').contains(&c).then(|| b[(c as u32 - 0xe000) as usize].as_str())
}
fn has_block(v: &Value) -> bool {
    match v {
        Value::String(s) => s.chars().any(|c| ('\u{e000}'..='\u{e003}').contains(&c)),
        Value::Array(a) => a.iter().any(has_block),
        Value::Object(m) => m.values().any(has_block),
        _ => false,
    }
}
fn expand(v: &Value) -> Value {
    match v {
        Value::String(s) => {
            let mut o = String::new();
            for c in s.chars() {
                match block(c) {
                    Some(b) => o.push_str(b),
                    None => o.push(c),
                }
            }
            Value::String(o)
        }
        Value::Array(a) => Value::Array(a.iter().map(expand).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), expand(v))).collect()),
        x => x.clone(),
    }
}

/// Run f, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        format!("panic: {m}")
    })
}

pub struct Report {
    pub fails: Vec<Value>,
    pub evaluations: usize,
    pub skipped: usize,
}

/// Run every case on worker threads; a case that does not finish within the
/// limit is reported as a hang (its thread is abandoned).
pub fn run_cases(
    cases: Cases,
    limit: Duration,
    f: impl Fn(&Value) -> Vec<(String, String)> + Send + Sync + 'static,
) -> Report {
    let n = cases.len();
    let f = Arc::new(f);
    let next = Arc::new(AtomicUsize::new(0));
    let fails: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(Vec::new()));
    let done = Arc::new(AtomicUsize::new(0));
    let nw = 8;
    type Slot = Arc<Mutex<Option<(usize, Instant)>>>;
    let spawn = {
        let (cases, f, next, fails, done) = (cases.clone(), f.clone(), next.clone(), fails.clone(), done.clone());
        move |slot: Slot| {
            let (cases, f, next, fails, done) = (cases.clone(), f.clone(), next.clone(), fails.clone(), done.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        break;
                    }
                    *slot.lock().unwrap() = Some((i, Instant::now()));
                    let case = cases.get(i);
                    let r = if has_block(&case) { f(&expand(&case)) } else { f(&case) };
                    // abandoned meanwhile?
                    let mut s = slot.lock().unwrap();
                    if s.map(|x| x.0) != Some(i) {
                        break;
                    }
                    *s = None;
                    if !r.is_empty() {
                        let mut fl = fails.lock().unwrap();
                        for (what, detail) in r {
                            fl.push(json!({"i": i, "id": case["id"], "what": what, "detail": detail}));
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    };
    let mut slots: Vec<Slot> = Vec::new();
    for _ in 0..nw {
        let s: Slot = Arc::new(Mutex::new(None));
        spawn(s.clone());
        slots.push(s);
    }
    let mut hung = 0;
    while done.load(Ordering::SeqCst) < n {
        std::thread::sleep(Duration::from_millis(5));
        for k in 0..slots.len() {
            let late = {
                let mut s = slots[k].lock().unwrap();
                match *s {
                    Some((i, t)) if t.elapsed() > limit => {
                        *s = Some((usize::MAX, Instant::now()));
                        Some(i)
                    }
                    _ => None,
                }
            };
            if let Some(i) = late {
                hung += 1;
                fails.lock().unwrap().push(
                    json!({"i": i, "id": cases.get(i)["id"], "what": "hang", "detail": format!("no answer within {:?}", limit)}),
                );
                done.fetch_add(1, Ordering::SeqCst);
                let s: Slot = Arc::new(Mutex::new(None));
                slots[k] = s.clone();
                if hung < 6 {
                    spawn(s);
                } else {
                    // too many runaway threads: stop here
                    let mut fails = std::mem::take(&mut *fails.lock().unwrap());
                    fails.sort_by_key(|v| v["i"].as_u64());
                    let d = done.load(Ordering::SeqCst);
                    return Report { fails, evaluations: d, skipped: n - d.min(n) };
                }
            }
        }
    }
    let mut fails = std::mem::take(&mut *fails.lock().unwrap());
    fails.sort_by_key(|v| v["i"].as_u64());
    Report { fails, evaluations: n, skipped: 0 }
}

pub fn write_report(path: &str, r: &Report, cases: &Cases, extra: Value) -> i32 {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("report"));
    let mut fails = Vec::new();
    for v in r.fails.iter() {
        let mut v = v.clone();
        if fails.len() < 2000 {
            v["case"] = cases.get(v["i"].as_u64().unwrap() as usize);
        }
        fails.push(v);
    }
    let o = json!({"evaluations": r.evaluations, "skipped": r.skipped, "fails": fails, "extra": extra});
    serde_json::to_writer(&mut f, &o).unwrap();
    f.flush().unwrap();
    0
}
