//! Replays documents of LawDocs.tla / LawWalk.tla.
use crate::tree::*;
use crate::util::*;
use japanese_law_xml_schema as lib;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::time::Duration;

fn hash(l: &lib::law::Law) -> u64 {
    let mut h = DefaultHasher::new();
    l.hash(&mut h);
    h.finish()
}

pub fn read_law(xml: &[u8]) -> Result<lib::law::Law, String> {
    match guarded(|| lib::parse_xml(xml)) {
        Err(p) => Err(p),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Ok(Ok(l)) => Ok(l),
    }
}

pub fn write_law(l: &lib::law::Law) -> Result<String, String> {
    match guarded(|| lib::to_xml(l)) {
        Err(p) => Err(p),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Ok(Ok(s)) => Ok(s),
    }
}

/// law value of the specification -> library value (absent fields stay absent)
pub fn law_of(v: &Value) -> Result<lib::law::Law, String> {
    match guarded(|| serde_json::from_value::<lib::law::Law>(v.clone())) {
        Err(p) => Err(p),
        Ok(Err(e)) => Err(format!("the value cannot be deserialised: {e}")),
        Ok(Ok(l)) => Ok(l),
    }
}

/// the names of choices that hold nothing else
const CHOICES: &[&[&str]] = &[
    &["Left", "Center", "Right", "Justify"],
    &["Meiji", "Taisho", "Showa", "Heisei", "Reiwa"],
    &["Constitution", "Act", "CabinetOrder", "ImperialOrder", "MinisterialOrdinance", "Rule", "Misc"],
    &["Ja", "En"],
    &["Dotted", "Double", "Solid", "None"],
    &["Main", "Proviso"],
    &["Paragraph", "Item"],
    &["New", "Amend"],
    &["Top", "Middle", "Bottom"],
    &["Vertical", "Horizontal"],
];

fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
    let p = |at: &[String]| at.iter().map(|x| format!("/{x}")).collect::<String>();
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                places(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            if !a.is_empty() {
                out.push(p(at));
            }
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                places(x, at, out);
                at.pop();
            }
        }
        _ => out.push(p(at)),
    }
}

/// another value, that differs in one place
fn altered(v: &Value, r: &mut crate::rng::Rng) -> Option<(String, Value)> {
    let mut ps = vec![];
    places(v, &mut vec![], &mut ps);
    let p = r.pick(&ps).clone();
    let mut w = v.clone();
    let x = w.pointer_mut(&p)?;
    *x = match &*x {
        Value::String(s) => {
            let others: Vec<&str> = CHOICES.iter().filter(|c| c.contains(&s.as_str())).flat_map(|c| c.iter().copied()).filter(|o| o != s).collect();
            if others.is_empty() { json!(format!("{s}＋")) } else { json!(r.pick(&others)) }
        }
        Value::Number(n) => json!(n.as_u64()? + 1),
        Value::Bool(b) => json!(!b),
        Value::Array(a) => {
            let mut a = a.clone();
            match r.below(3) {
                0 => drop(a.pop()),
                1 => a.push(a.last()?.clone()),
                _ => a.reverse(),
            }
            Value::Array(a)
        }
        Value::Null => r.pick(&[json!("文字"), json!(3), json!("Center"), json!("Middle"), json!("Main"), json!("Item"), json!("Amend")]).clone(),
        _ => return None,
    };
    (w != *v).then_some((p, w))
}

pub fn check_case(c: &Value, checks: &[&str]) -> Vec<(String, String)> {
    let mut out = Vec::new();
    let mut fail = |w: &str, d: String| out.push((w.to_string(), d));
    let node = from_json(&c["tree"]);
    let style = c["style"].as_str().unwrap_or("");
    let xml = serialize(&node, style);
    let ok = c["kind"] == "ok";
    for ck in checks {
        match *ck {
            // P01 P06 P07: reading gives the specified value
            "read" if ok => match read_law(&xml) {
                Err(e) => fail("read", e),
                Ok(l) => {
                    let got = norm(&serde_json::to_value(&l).unwrap());
                    if let Some(d) = vdiff(&got, &norm(&c["v"]), "law") {
                        fail("read", d)
                    }
                }
            },
            // (if it is accepted, this is what it says)
            "read" if c["kind"] == "either" => {
                if let Ok(l) = read_law(&xml) {
                    if let Some(d) = vdiff(&norm(&serde_json::to_value(&l).unwrap()), &norm(&c["v"]), "law") {
                        fail("read", d)
                    }
                }
            }
            // P19: a document of the schema
            "standard" if !ok => fail("standard", format!("written, but no document of the schema: {}", c["why"].as_str().unwrap_or(""))),
            // P04: refused
            "reject" if c["kind"] == "err" => match read_law(&xml) {
                Ok(_) => fail("reject", "the document was accepted".into()),
                Err(e) if e.starts_with("panic") => fail("reject", e),
                Err(_) => {}
            },
            // P05: no panic (hangs are caught outside)
            "total" => {
                if let Err(e) = read_law(&xml) {
                    if e.starts_with("panic") {
                        fail("total", e)
                    }
                }
            }
            // P02: writing the specified value gives the specified document
            "write" if ok => match law_of(&c["v"]) {
                Err(e) => fail("write", e),
                Ok(l) => {
                    // as a string, and into a writer
                    let file = guarded(|| {
                        let mut v = Vec::new();
                        lib::write_file(&l, &mut v).map(|()| v)
                    });
                    let file = file.and_then(|r| r.map_err(|e| format!("error: {e}"))).and_then(|v| String::from_utf8(v).map_err(|e| e.to_string()));
                    for (how, written) in [("", write_law(&l)), ("write_file: ", file)] {
                        match written.and_then(|s| read(s.as_bytes())) {
                            Err(e) => fail("write", format!("{how}{e}")),
                            Ok(n) => {
                                if let Some(d) = diff(&canon(&n), &canon(&from_json(&c["out"])), "") {
                                    fail("write", format!("{how}{d}"))
                                }
                            }
                        }
                    }
                }
            },
            // P03: read, write, read, write
            "roundtrip" if ok => match read_law(&xml) {
                Err(e) => fail("roundtrip", format!("first read: {e}")),
                Ok(l) => {
                    let mut cur = l.clone();
                    let mut prev: Option<Node> = None;
                    for cycle in 1..=3 {
                        let s = match write_law(&cur) {
                            Err(e) => {
                                fail("roundtrip", format!("write {cycle}: {e}"));
                                break;
                            }
                            Ok(s) => s,
                        };
                        let n = match read(s.as_bytes()) {
                            Err(e) => {
                                fail("roundtrip", format!("write {cycle}: {e}"));
                                break;
                            }
                            Ok(n) => canon(&n),
                        };
                        if let Some(p) = &prev {
                            if let Some(d) = diff(&n, p, "") {
                                fail("roundtrip", format!("document of cycle {cycle} differs: {d}"));
                                break;
                            }
                        }
                        prev = Some(n);
                        match read_law(s.as_bytes()) {
                            Err(e) => {
                                fail("roundtrip", format!("re-read {cycle}: {e}"));
                                break;
                            }
                            Ok(l2) => {
                                if l2 != l {
                                    let d = vdiff(
                                        &norm(&serde_json::to_value(&l2).unwrap()),
                                        &norm(&serde_json::to_value(&l).unwrap()),
                                        "law",
                                    );
                                    fail("roundtrip", format!("cycle {cycle}: {}", d.unwrap_or("unequal".into())));
                                    break;
                                }
                                cur = l2;
                            }
                        }
                    }
                }
            },
            // P10: JSON
            "json" if ok => match law_of(&c["v"]) {
                Err(e) => fail("json", e),
                Ok(l) => {
                    let j = match guarded(|| serde_json::to_string(&l)) {
                        Ok(Ok(j)) => j,
                        Ok(Err(e)) => {
                            fail("json", format!("serialise: {e}"));
                            continue;
                        }
                        Err(e) => {
                            fail("json", e);
                            continue;
                        }
                    };
                    let jv: Value = serde_json::from_str(&j).unwrap();
                    if let Some(d) = vdiff(&norm(&jv), &norm(&c["v"]), "law") {
                        fail("json", format!("layout: {d}"));
                    }
                    match serde_json::from_str::<lib::law::Law>(&j) {
                        Err(e) => fail("json", format!("deserialise: {e}")),
                        Ok(l2) => {
                            if l2 != l {
                                fail("json", "deserialised law differs".into())
                            } else if hash(&l2) != hash(&l) {
                                fail("json", "equal laws hash differently".into())
                            }
                            if serde_json::to_string(&l2).unwrap() != j {
                                fail("json", "equal laws serialise differently".into())
                            }
                        }
                    }
                    // other values: kept apart, and kept
                    let mut seed = DefaultHasher::new();
                    j.hash(&mut seed);
                    let mut r = crate::rng::Rng(seed.finish());
                    for _ in 0..8 {
                        let Some((place, other)) = altered(&jv, &mut r) else { continue };
                        match guarded(|| serde_json::from_value::<lib::law::Law>(other.clone())) {
                            Err(e) => fail("json", format!("{place}: {e}")),
                            Ok(Err(_)) => {}
                            Ok(Ok(o)) => {
                                let back = serde_json::to_value(&o).unwrap();
                                if back != other {
                                    fail("json", format!("altered at {place}, it serialises to something else"))
                                } else if o == l {
                                    fail("json", format!("altered at {place}, it is still equal"))
                                }
                                match serde_json::from_value::<lib::law::Law>(back) {
                                    Ok(o2) if o2 == o && hash(&o2) == hash(&o) => {}
                                    _ => fail("json", format!("altered at {place}, it does not come back equal")),
                                }
                            }
                        }
                    }
                    // the value read from the document must be equal and hash equally
                    if let Ok(l3) = read_law(&xml) {
                        let same_json = norm(&serde_json::to_value(&l3).unwrap()) == norm(&jv);
                        if same_json != (l3 == l) {
                            fail("json", "equality disagrees with the serialisation".into())
                        } else if l3 == l && hash(&l3) != hash(&l) {
                            fail("json", "equal laws hash differently".into())
                        }
                    }
                }
            },
            _ => {}
        }
    }
    out
}

pub fn replay(cases: &str, checks: &str, report: &str) -> i32 {
    let cases = read_cases(cases);
    let n_ok = cases.iter().filter(|c| c["kind"] == "ok").count();
    let mut foci = std::collections::BTreeMap::<String, usize>::new();
    for c in cases.iter() {
        *foci.entry(c["focus"].as_str().unwrap_or("").to_string()).or_default() += 1;
    }
    let ck: Vec<String> = checks.split(',').map(|s| s.to_string()).collect();
    let cs = cases.clone();
    let r = run_cases(cases, Duration::from_secs(20), move |c| {
        let ck: Vec<&str> = ck.iter().map(|s| s.as_str()).collect();
        check_case(c, &ck)
    });
    write_report(report, &r, &cs, json!({"ok_cases": n_ok, "err_cases": cs.iter().filter(|c| c["kind"] == "err").count(), "elements": foci.len()}))
}
