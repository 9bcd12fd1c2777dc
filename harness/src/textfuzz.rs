//! Random law texts, grown from the lines of specified ones: run into the
//! library; panics, hangs and XML losses are reported, and what the library
//! made of each text is recorded for TextTrace.tla to judge.
use crate::rng::Rng;
use crate::text::{flatten, xml_loss};
use crate::util::*;
use japanese_law_xml_schema as lib;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// characters that matter to a line's kind
const SHARP: &str = "第一二三十百千〇編章節款目条のノ及び（）()　 から、：・１２９０12①ⅠⅡｉｖＩＶａｂＡＢイロハいろは附則抄削除";
const WILD: &[&str] = &["\u{0}", "\u{a0}", "\u{2003}", "\u{feff}", "\u{85}", "\u{b}", "\r", "𠮷", "🏛", "\u{3099}", "&", "<", "]]>", "\u{fffd}", "\\", "\t", "\n"];
/// item numbers that go one level down each, and such as are not quite numbers
const DOWN: &[&str] = &["一", "イ", "（一）", "（イ）", "（１）", "（ｉ）", "Ｉ", "（い）", "Ａ", "（ａ）", "１", "い", "ａ", "（Ａ）", "ｉ", "（Ｉ）"];
const ODD: &[&str] = &["（０）", "０", "ⅰ", "イロ", "一一", "九千九百九十九", "ＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺ", "（０）の０", "一から０まで", "ｘｘｘｘ", "（９９９９９９９９９９９９９９９９９９９９９）", "ん", "（ー）"];
const HEADS: &[&str] = &["第一編　編題", "第一章　章題", "第一節　節題", "第一款　款題", "第一目　目題"];
const SEPS: &[&str] = &["　", " ", "　　", "\t", " 　"];

fn mutate(l: &str, r: &mut Rng, wild: bool) -> String {
    let mut q: Vec<char> = l.chars().collect();
    let sharp: Vec<char> = SHARP.chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(q.len() + 1);
        // mostly near the start of the line, where its kind is decided
        let i = if r.below(3) > 0 { i.min(r.below(6)) } else { i };
        match r.below(6) {
            0 if i < q.len() => {
                q.remove(i);
            }
            1 if i < q.len() => {
                let c = q[i];
                q.insert(i, c)
            }
            2 if i < q.len() => q[i] = *r.pick(&sharp),
            3 if i + 1 < q.len() => q.swap(i, i + 1),
            4 if wild => q.splice(i..i, r.pick(WILD).chars()).for_each(drop),
            _ => q.insert(i, *r.pick(&sharp)),
        }
    }
    q.into_iter().collect()
}

fn num(n: &lib::article_number::ArticleNumber) -> Value {
    let s = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    json!({"base": n.base_number.to_string(), "edas": s(&n.eda_numbers), "range": s(&n.range_end_numbers)})
}

pub fn run(cases: &str, n: usize, seed: u64, wild: bool, keep: usize, traces: &str, report: &str) -> i32 {
    let texts: Vec<Vec<String>> = read_cases(cases)
        .iter()
        .map(|c| c["text"].as_str().unwrap().lines().map(|l| l.trim().to_string()).collect::<Vec<_>>())
        .collect();
    let texts = Arc::new(texts);
    let jobs: Cases = (0..n).map(|i| json!({"id": format!("text-{seed}-{i}"), "k": i})).collect::<Vec<_>>().into();
    let js = jobs.clone();
    let make = move |k: usize| -> (Vec<String>, Rng) {
        let mut r = Rng(seed.wrapping_mul(0x1000003).wrapping_add(k as u64));
        let mut lines: Vec<String> = Vec::new();
        // (calm texts mostly find their place)
        let calm = !wild && r.below(2) == 0;
        for _ in 0..1 + r.below(if calm { 2 } else { 8 }) {
            let t = r.pick(&texts);
            if t.is_empty() {
                continue;
            }
            let a = r.below(t.len());
            let b = a + r.below(t.len() - a + 1);
            lines.extend_from_slice(&t[a..b]);
        }
        // texts that start with an article or a heading have somewhere to go
        if r.below(2) == 0 {
            lines.insert(0, r.pick(&["第一条　始め", "第一章　始め", "第一編　始め", "附則", "１　始め"]).to_string())
        }
        // down some headings, and what may follow them
        if r.below(3) == 0 {
            let from = r.below(HEADS.len());
            let at = r.below(lines.len() + 1);
            let mut q: Vec<String> = HEADS[from..].iter().filter(|_| r.below(4) > 0).map(|h| h.to_string()).collect();
            for k in 0..r.below(6) {
                q.push(match r.below(4) {
                    0 => "（見出し）".to_string(),
                    1 => format!("第{}条　文", ["一", "二", "三", "四", "五", "六"][k]),
                    2 => r.pick(HEADS).replace('一', ["一", "二", "三", "四", "五", "六"][k]),
                    _ => r.pick(&["２　項", "一　号", "本文。", "附則", "第三条　削除"]).to_string(),
                })
            }
            lines.splice(at..at, q);
        }
        // down some levels of items, in any order of their notations
        if r.below(3) == 0 {
            let mut down: Vec<&str> = DOWN.to_vec();
            let at = r.below(lines.len() + 1);
            let most = if r.below(3) == 0 { 14 } else { 5 };
            for k in 0..r.below(most) {
                let i = r.below(down.len());
                let n = if wild && r.below(6) == 0 { *r.pick(ODD) } else { down.remove(i) };
                lines.insert((at + k).min(lines.len()), format!("{n}　{}", r.pick(&["文", "削除", "（削除）", "一　二"])))
            }
        }
        // the same line again
        if r.below(4) == 0 && !lines.is_empty() {
            let (i, j) = (r.below(lines.len()), r.below(3));
            let l = if r.below(2) == 0 { "同文。".to_string() } else { lines[i].clone() };
            for _ in 0..=j {
                lines.insert(i + 1, l.clone())
            }
        }
        for _ in 0..r.below(if calm { 2 } else { 4 }) {
            if !lines.is_empty() {
                let i = r.below(lines.len());
                match r.below(5) {
                    0 => {
                        lines.remove(i);
                    }
                    1 => {
                        let j = r.below(lines.len());
                        lines.swap(i, j)
                    }
                    2 => {
                        let l = lines[i].replace('　', r.pick::<&str>(SEPS));
                        lines[i] = l
                    }
                    _ => lines[i] = mutate(&lines[i], &mut r, wild),
                }
            }
        }
        (lines, r)
    };
    let mk = make.clone();
    let out: Arc<Mutex<std::io::BufWriter<std::fs::File>>> = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(traces).expect("traces"))));
    let o2 = out.clone();
    let count = Arc::new([0; 3].map(std::sync::atomic::AtomicUsize::new));
    let cn = count.clone();
    let mut rep = run_cases(jobs, Duration::from_secs(20), move |c| {
        let k = c["k"].as_u64().unwrap() as usize;
        let (lines, mut r) = make(k);
        let text = lines.iter().map(|l| l.as_str()).collect::<Vec<_>>().join(r.pick(&["\n", "\r\n", "\n\n", "\n　"]));
        let (year, month, day) = if wild && r.below(2) == 0 {
            let big = [0, 1, 2, 12, 13, 28, 29, 30, 31, 32, 60, u32::MAX as usize, usize::MAX];
            let year = *r.pick(&[0, 1, 1600, 1867, 1868, 1873, 1912, 1926, 1989, 2000, 2019, 2100, 9999, 65535, i32::MAX as usize, u32::MAX as usize, usize::MAX]);
            let o = |r: &mut Rng| if r.below(4) == 0 { None } else { Some(*r.pick(&big)) };
            (year, o(&mut r), o(&mut r))
        } else {
            (1999, Some(8), Some(13))
        };
        let got = guarded(|| lib::parse_text(&text, year, month, day, lib::law::LawType::Act, lib::law::Lang::Ja, None, "平成十一年法律第百二十七号".into(), "題名"));
        use std::sync::atomic::Ordering::Relaxed;
        match got {
            Err(p) => return vec![("total".into(), p)],
            Ok(ref g) => {
                cn[g.is_ok() as usize].fetch_add(1, Relaxed);
                if k < keep && !wild {
                    let lines: Vec<&str> = text.lines().collect();
                    let v = match g {
                        Err(_) => json!({"id": c["id"], "lines": lines, "refused": true, "nodes": []}),
                        Ok(l) => {
                            let (nodes, odd) = flatten(&l.law_body);
                            if let Some(o) = odd.first() {
                                return vec![("structure".into(), format!("unspecified content: {o}"))];
                            }
                            let nodes: Vec<Value> = nodes
                                .iter()
                                .map(|x| {
                                    let nn = lib::article_number::ArticleNumber::from_num_str(&x.n).map(|n| num(&n));
                                    let nn = nn.unwrap_or(json!({"base": "", "edas": [], "range": []}));
                                    json!({"k": x.k, "d": x.d, "n": nn, "t": x.t, "cap": x.cap, "ts": x.ts, "del": x.del, "x": x.x})
                                })
                                .collect();
                            json!({"id": c["id"], "lines": lines, "refused": false, "nodes": nodes})
                        }
                    };
                    writeln!(o2.lock().unwrap(), "{v}").unwrap();
                }
            }
        }
        if let (Ok(Ok(l)), false) = (got, wild) {
            cn[2].fetch_add(1, Relaxed);
            if let Some(d) = xml_loss(&l) {
                return vec![("xml".into(), d)];
            }
        }
        vec![]
    });
    out.lock().unwrap().flush().unwrap();
    for f in rep.fails.iter_mut() {
        f["text"] = json!(mk(f["i"].as_u64().unwrap() as usize).0)
    }
    let g = |i: usize| count[i].load(std::sync::atomic::Ordering::Relaxed);
    write_report(report, &rep, &js, json!({"refused": g(0), "parsed": g(1), "round_trips": g(2), "sample": mk(0).0.join("\\n")}))
}
