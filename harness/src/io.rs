//! Replays Sink.tla (writing into a scripted writer) and Files.tla (reading from paths).
use crate::docs::{read_law, write_law};
use crate::util::*;
use japanese_law_xml_schema as lib;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Write};
use std::path::{Path, PathBuf};
use std::time::Duration;

fn laws() -> Vec<lib::law::Law> {
    let long: String = (1..40).map(|i| format!("第{}条　これは{}番目の条文である。<&>\"'\n２　項である。\n一　号である。\n", "一".repeat(1), i)).collect();
    ["第一条　条文", "（見出し）\n第一条　条文\n２　第二項\n一　号\n附則\nこの法律は、施行する。", long.as_str()]
        .iter()
        .map(|t| {
            lib::parse_text(t, 1999, Some(8), Some(13), lib::law::LawType::Act, lib::law::Lang::Ja, None, "平成十一年法律第百二十七号".into(), "題名 <&>").unwrap()
        })
        .collect()
}

struct Script {
    got: Vec<u8>,
    chunk: usize,
    intr: usize,
    fault: String,
    at: usize,
    calls: usize,
    hard: bool,
    flushed: bool,
}
impl Write for Script {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.intr != 0 && self.calls % self.intr == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = if self.chunk == 0 { b.len() } else { b.len().min(self.chunk) };
        let faulty = !matches!(self.fault.as_str(), "none" | "flush");
        if faulty {
            if self.got.len() >= self.at && !(self.hard && self.fault.ends_with("once")) {
                self.hard = true;
                return match self.fault.as_str() {
                    "zero" | "zero-once" => Ok(0),
                    "block" | "block-once" => Err(Error::from(ErrorKind::WouldBlock)),
                    "pipe" => Err(Error::from(ErrorKind::BrokenPipe)),
                    "timedout" | "timedout-once" => Err(Error::from(ErrorKind::TimedOut)),
                    "nospace" => Err(Error::from(ErrorKind::StorageFull)),
                    "reset" => Err(Error::from(ErrorKind::ConnectionReset)),
                    "eof" => Err(Error::from(ErrorKind::UnexpectedEof)),
                    "invalid-once" => Err(Error::from(ErrorKind::InvalidInput)),
                    _ => Err(Error::new(ErrorKind::Other, "full")),
                };
            }
            if self.got.len() < self.at {
                n = n.min(self.at - self.got.len())
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushed = true;
        if self.fault == "flush" {
            self.hard = true;
            return Err(Error::new(ErrorKind::Other, "flush"));
        }
        Ok(())
    }
}

/// markup in order; attributes of a tag as a set (they come in no fixed order)
fn tokens(b: &str) -> Vec<(String, Vec<String>, bool)> {
    let mut out = vec![];
    let mut rest = b;
    while !rest.is_empty() {
        if rest.starts_with('<') {
            let (tag, whole) = match rest.find('>') {
                Some(i) => (&rest[..=i], true),
                None => (rest, false),
            };
            rest = &rest[tag.len()..];
            // name, then attributes (their values hold no quote: those are escaped)
            let mut parts = vec![String::new()];
            let mut quoted = false;
            for c in tag.chars() {
                match c {
                    '"' => {
                        quoted = !quoted;
                        parts.last_mut().unwrap().push(c)
                    }
                    ' ' if !quoted => parts.push(String::new()),
                    c => parts.last_mut().unwrap().push(c),
                }
            }
            let name = parts.remove(0);
            let (name, end) = match name.strip_suffix('>') {
                Some(n) => (n.to_string(), true),
                None => (name, false),
            };
            let mut attrs: Vec<String> = vec![];
            for p in parts {
                let p = p.trim_end_matches('>');
                attrs.push(p.to_string());
            }
            let _ = end;
            if whole {
                attrs.sort();
            }
            out.push((name, attrs, whole));
        } else {
            let i = rest.find('<').unwrap_or(rest.len());
            out.push((rest[..i].to_string(), vec![], i < rest.len()));
            rest = &rest[i..];
        }
    }
    out
}

/// whether what arrived is a beginning of a rendering of the document
fn beginning(got: &[u8], whole: &str) -> Result<(), String> {
    // (a failure may fall inside a character)
    let s = match std::str::from_utf8(got) {
        Ok(s) => s,
        Err(e) if e.error_len().is_none() => std::str::from_utf8(&got[..e.valid_up_to()]).unwrap(),
        Err(_) => return Err("what arrived is not text".into()),
    };
    let (a, b) = (tokens(s), tokens(whole));
    for (i, x) in a.iter().enumerate() {
        let Some(y) = b.get(i) else { return Err(format!("{x:?} arrived after the end")) };
        if x.2 {
            if x != y {
                return Err(format!("{x:?} arrived instead of {y:?}"));
            }
            continue;
        }
        if i + 1 != a.len() {
            return Err(format!("{x:?} is cut off in the middle"));
        }
        if x.1.is_empty() {
            if !y.0.starts_with(&x.0) {
                return Err(format!("{x:?} is no beginning of {y:?}"));
            }
        } else {
            let mut left = y.1.clone();
            for (k, p) in x.1.iter().enumerate() {
                let last = k + 1 == x.1.len();
                match left.iter().position(|q| if last { q.starts_with(p.as_str()) } else { q == p }) {
                    Some(j) => drop(left.remove(j)),
                    None => return Err(format!("{x:?} is no beginning of {y:?}")),
                }
            }
        }
    }
    Ok(())
}

pub fn sink(cases: &str, report: &str) -> i32 {
    let cases = read_cases(cases);
    let docs: Vec<(lib::law::Law, String)> = laws().into_iter().map(|l| (l.clone(), write_law(&l).unwrap())).collect();
    let lens: Vec<usize> = docs.iter().map(|d| d.1.len()).collect();
    let r = run_cases(cases.clone(), Duration::from_secs(20), move |c| {
        let mut out = vec![];
        let at = c["at"].as_u64().unwrap() as usize;
        for (k, (law, whole)) in docs.iter().enumerate() {
            // on the long document faults fall further apart, so as to reach its end
            let at = if k == 2 { at * 37 } else { at };
            let mut w = Script {
                got: vec![],
                chunk: c["chunk"].as_u64().unwrap() as usize,
                intr: c["intr"].as_u64().unwrap() as usize,
                fault: c["fault"].as_str().unwrap().into(),
                at,
                calls: 0,
                hard: false,
                flushed: false,
            };
            let res = guarded(|| lib::write_file(law, &mut w));
            let mut fail = |d: String| out.push(("sink".to_string(), format!("document {k}: {d}")));
            match res {
                Err(p) => fail(p),
                Ok(Ok(())) if w.hard => fail(format!("the writer failed after {} bytes, but success was reported", w.got.len())),
                Ok(Err(_)) if !w.hard => fail("an error was reported, but the writer never failed".into()),
                Ok(Ok(())) => match std::str::from_utf8(&w.got).map_err(|e| e.to_string()).and_then(|s| beginning(s.as_bytes(), whole)) {
                    Err(e) => fail(e),
                    Ok(()) if w.got.len() != whole.len() => fail(format!("{} of {} bytes arrived", w.got.len(), whole.len())),
                    Ok(()) => match read_law(&w.got) {
                        Ok(l) if l == *law => {}
                        _ => fail("what arrived does not read back".into()),
                    },
                },
                Ok(Err(_)) => {
                    if let Err(e) = beginning(&w.got, whole) {
                        fail(e)
                    }
                }
            }
        }
        out
    });
    write_report(report, &r, &cases, json!({"document sizes": format!("{lens:?}")}))
}

// ------------------------------------------------------------------- reading
fn content(kind: &str, docs: &[String]) -> Vec<u8> {
    let d = |i: usize| docs[i].clone().into_bytes();
    let pad = |n: usize| {
        // a valid document of exactly n bytes
        let mut b = d(0);
        let extra = n.saturating_sub(b.len());
        b.extend(std::iter::repeat(b'\n').take(extra));
        b
    };
    match kind {
        "law" => d(0),
        "other" => d(1),
        "long" => d(2),
        "page" => pad(8192),
        "page1" => pad(8193),
        "huge" => pad(3 << 20),
        "bom" => [b"\xef\xbb\xbf".to_vec(), d(0)].concat(),
        "utf16" => docs[0].replace("UTF-8", "UTF-16").encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
        "sjis" => b"<?xml version=\"1.0\" encoding=\"Shift_JIS\"?>\n<Law>\x96\xf0</Law>".to_vec(),
        "broken" => d(1)[..d(1).len() / 2].to_vec(),
        "badutf8" => {
            let mut b = d(0);
            let n = b.len();
            b[n - 30] = 0xff;
            b
        }
        "tail" => [d(0), b"<x/>".to_vec()].concat(),
        "nolaw" => b"<?xml version=\"1.0\"?><Foo/>".to_vec(),
        "blank" => b" \n".to_vec(),
        _ => vec![],
    }
}

fn path_of(dir: &Path, name: &str) -> PathBuf {
    match name {
        "japanese" => dir.join("法令 第一号.xml"),
        "deep" => dir.join("a/b/../b").join("law.xml"),
        "bare" => dir.join("-"),
        "odd" => dir.join(" a%20b'\"\n*?#~$HOME.xml "),
        "upper" => dir.join("LAW.XML"),
        "hidden" => dir.join(".xml"),
        "noext" => dir.join("law"),
        "longest" => dir.join("法".repeat(85)),
        // names no file bears
        "nul" => dir.join("law\0.xml"),
        "toolong" => dir.join("a".repeat(300)),
        "none" => PathBuf::new(),
        "under" => dir.join("decoy.xml").join("law.xml"),
        "loop" => dir.join("loop"),
        _ => dir.join("law.xml"),
    }
}

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}

/// a writer at the other end of a pipe: whoever opens it gets the bytes, piece by piece
fn serve(path: PathBuf, bytes: Vec<u8>, stop: std::sync::Arc<std::sync::atomic::AtomicBool>) {
    use std::os::unix::fs::OpenOptionsExt;
    const NONBLOCK: i32 = 0o4000;
    let t = std::time::Instant::now();
    while !stop.load(std::sync::atomic::Ordering::SeqCst) && t.elapsed() < Duration::from_secs(15) {
        let nap = || std::thread::sleep(Duration::from_micros(300));
        // nobody has opened it yet
        let Ok(mut w) = std::fs::OpenOptions::new().write(true).custom_flags(NONBLOCK).open(&path) else {
            nap();
            continue;
        };
        let mut at = 0;
        let mut sizes = [1usize, 6, 100, 13, 4096].into_iter();
        let mut size = sizes.next().unwrap();
        while at < bytes.len() && t.elapsed() < Duration::from_secs(15) {
            match w.write(&bytes[at..bytes.len().min(at + size)]) {
                Ok(n) => {
                    at += n;
                    if let Some(s) = sizes.next() {
                        size = s;
                        nap()
                    } else {
                        size = 10_000
                    }
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => nap(),
                Err(_) => break, // the reader went away
            }
        }
        if at == bytes.len() {
            return;
        }
    }
}

pub fn files(cases: &str, scratch: &str, report: &str) -> i32 {
    let cases = read_cases(cases);
    let docs: Vec<String> = laws().iter().map(|l| write_law(l).unwrap()).collect();
    let base = PathBuf::from(scratch);
    std::fs::create_dir_all(&base).unwrap();
    let kinds: std::collections::BTreeSet<String> = cases
        .iter()
        .flat_map(|c| c["ops"].as_array().unwrap().iter().map(|o| o[1].as_str().unwrap().to_string()).collect::<Vec<_>>())
        .collect();
    // what reading the bytes from memory gives
    let mem: BTreeMap<String, (Vec<u8>, Result<lib::law::Law, String>)> = kinds
        .into_iter()
        .map(|k| {
            let b = content(&k, &docs);
            let r = read_law(&b);
            (k, (b, r))
        })
        .collect();
    let good = mem.values().filter(|m| m.1.is_ok()).count();
    let b2 = base.clone();
    let decoy = {
        let t = "第一条　おとり";
        let l = lib::parse_text(t, 1980, None, None, lib::law::LawType::Act, lib::law::Lang::Ja, None, "昭和五十五年法律第一号".into(), "おとり").unwrap();
        write_law(&l).unwrap()
    };
    let next = std::sync::atomic::AtomicUsize::new(0);
    let r = run_cases(cases.clone(), Duration::from_secs(20), move |c| {
        let n = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let dir = b2.join(format!("c{n}"));
        std::fs::create_dir_all(dir.join("a/b")).unwrap();
        // other files lie beside it; none of them is ever what is read
        for d in ["decoy.xml", "law.xml~", "law.xml.bak", "Law.xml", "law.XML", "xml"] {
            std::fs::write(dir.join(d), decoy.as_bytes()).unwrap();
        }
        std::os::unix::fs::symlink("loop", dir.join("loop")).unwrap();
        let p = path_of(&dir, c["name"].as_str().unwrap());
        let mut out = vec![];
        let mut reads = 0;
        let mut pipe = String::new();
        for o in c["ops"].as_array().unwrap() {
            let arg = o[1].as_str().unwrap();
            match o[0].as_str().unwrap() {
                "write" => std::fs::write(&p, &mem[arg].0).unwrap(),
                "link" => {
                    let target = dir.join("target");
                    if !arg.is_empty() {
                        std::fs::write(&target, &mem[arg].0).unwrap()
                    }
                    std::os::unix::fs::symlink(&target, &p).unwrap()
                }
                "pipe" => {
                    use std::os::unix::ffi::OsStrExt;
                    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                    assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0);
                    pipe = arg.to_string();
                }
                "dir" => std::fs::create_dir(&p).unwrap(),
                "remove" => {
                    let m = std::fs::symlink_metadata(&p).unwrap();
                    if m.is_dir() {
                        std::fs::remove_dir(&p).unwrap()
                    } else {
                        std::fs::remove_file(&p).unwrap()
                    }
                    let _ = std::fs::remove_file(dir.join("target"));
                    pipe.clear();
                }
                _ => {
                    let want = c["seen"][reads].as_str().unwrap();
                    reads += 1;
                    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let end = (!pipe.is_empty()).then(|| {
                        let (p, b, s) = (p.clone(), mem[&pipe].0.clone(), stop.clone());
                        std::thread::spawn(move || serve(p, b, s))
                    });
                    let got = guarded(|| lib::parse_xml_file(p.to_str().unwrap()));
                    stop.store(true, std::sync::atomic::Ordering::SeqCst);
                    end.map(|e| e.join());
                    let mut fail = |d: String| out.push(("file".to_string(), d));
                    match (got, mem.get(want)) {
                        (Err(p), _) => fail(p),
                        (Ok(Ok(_)), None) => fail("there is no file, but a law was read".into()),
                        (Ok(Err(lib::result::Error::Io)), None) => {}
                        (Ok(Err(e)), None) => fail(format!("there is no file, but the error is {e:?}")),
                        (Ok(Ok(l)), Some((_, Ok(m)))) if l == *m => {}
                        (Ok(Err(e)), Some((_, Err(m)))) if format!("error: {e}") == *m => {}
                        (Ok(g), Some((_, m))) => fail(format!(
                            "reading the {want} file: {}, its bytes: {}",
                            g.map(|_| "a law".to_string()).unwrap_or_else(|e| e.to_string()),
                            m.as_ref().map(|_| "a law".to_string()).unwrap_or_else(|e| e.clone())
                        )),
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        out
    });
    let _ = std::fs::remove_dir_all(&base);
    write_report(report, &r, &cases, json!({"kinds of content that are laws": good}))
}
