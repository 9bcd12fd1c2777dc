//! P05: documents of the specification, corrupted at random at the level of
//! bytes, tags, attributes and structure.  The oracle is totality: an answer,
//! law or error, without panic and in time.
use crate::docs::{read_law, write_law};
use crate::rng::Rng;
use crate::tree::*;
use crate::util::*;
use serde_json::{json, Value};
use std::time::Duration;

const SNIPPETS: &[&str] = &[
    "<!-- c -->", "<?pi x?>", "<![CDATA[x]]>", "&#0;", "&#x1F600;", "&#xD;", "&undefined;", "<", ">", "&", "\"", "'",
    "<Article Num=\"1\">", "</Article>", "<Paragraph Num=\"1\"/>", "<Item/>", "<Ruby>", "</Ruby>", "\u{0}", "\u{feff}",
    "<Table/>", "<Sentence/>", "<LawNum/>", "<TOC/>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", " Num=\"\"", " Num=\"9999999999999999999999\"",
    "xmlns=\"urn:x\"", "x:y", "\r\n", "\t", "日本", "<Line Style=\"zz\"/>", "<Rt>", "]]>", "<Remarks/>", "<QuoteStruct/>",
];
const VALUES: &[&str] = &[
    "", " ", "0", "-1", "1", "_", "1_", "_1", "1:", ":", ":1", "1:2:3", "1__2", "18446744073709551616", "1e3", "true", "TRUE",
    "一", "１", "\u{1F600}", "x", "vertical", "solid", "1 ", "+1", "１_２",
];

fn nodes_mut<'a>(n: &'a mut Node, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(path.clone());
    if let Node::El { c, .. } = n {
        for (i, k) in c.iter_mut().enumerate() {
            path.push(i);
            nodes_mut(k, path, out);
            path.pop();
        }
    }
}
fn at<'a>(n: &'a mut Node, p: &[usize]) -> &'a mut Node {
    if p.is_empty() {
        return n;
    }
    match n {
        Node::El { c, .. } => at(&mut c[p[0]], &p[1..]),
        _ => unreachable!(),
    }
}

fn restructure(n: &mut Node, other: &Node, r: &mut Rng) {
    let mut ps = Vec::new();
    nodes_mut(n, &mut Vec::new(), &mut ps);
    let p = r.pick(&ps).clone();
    let mut op = Vec::new();
    let mut o = other.clone();
    nodes_mut(&mut o, &mut Vec::new(), &mut op);
    let donor = at(&mut o, r.pick(&op)).clone();
    match at(n, &p) {
        Node::El { t, a, c } => match r.below(10) {
            9 => {
                // a name with a character less, more or other
                let mut q: Vec<char> = t.chars().collect();
                for _ in 0..1 + r.below(2) {
                    let i = r.below(q.len());
                    match r.below(4) {
                        0 if q.len() > 1 => drop(q.remove(i)),
                        1 => q.insert(i, *r.pick(&['日', '1', 's', 'é', '0'])),
                        2 if i > 0 => q[i] = *r.pick(&['日', '1', '9', 'X', '-', '.']),
                        _ => q.truncate(1.max(i)),
                    }
                }
                *t = q.into_iter().collect();
                if t.starts_with(|c: char| c.is_ascii_digit() || "-.".contains(c)) || t.is_empty() {
                    *t = format!("X{t}")
                }
            }
            0 => c.clear(),
            1 if !c.is_empty() => {
                let i = r.below(c.len());
                c.remove(i);
            }
            2 if !c.is_empty() => {
                let k = r.pick(c).clone();
                let i = r.below(c.len() + 1);
                c.insert(i, k);
            }
            3 => {
                let i = r.below(c.len() + 1);
                c.insert(i, donor);
            }
            4 => a.clear(),
            5 if !a.is_empty() => {
                let i = r.below(a.len());
                a[i].1 = r.pick(VALUES).to_string();
            }
            6 => a.retain(|_| r.below(2) == 0),
            7 => {
                if let Node::El { t: t2, .. } = &donor {
                    *t = t2.clone()
                }
            }
            _ => {
                if c.len() > 1 {
                    let (i, j) = (r.below(c.len()), r.below(c.len()));
                    c.swap(i, j)
                } else {
                    let i = r.below(c.len() + 1);
                    c.insert(i, Node::Tx { s: r.pick(VALUES).to_string(), cdata: false })
                }
            }
        },
        x => *x = donor,
    }
}

fn scramble(b: &mut Vec<u8>, r: &mut Rng) {
    if b.is_empty() {
        return;
    }
    let i = r.below(b.len());
    let j = (i + 1 + r.below(40)).min(b.len());
    match r.below(7) {
        0 => b[i] = (r.next() & 255) as u8,
        1 => {
            b.drain(i..j);
        }
        2 => {
            let s: Vec<u8> = b[i..j].to_vec();
            let k = r.below(b.len());
            b.splice(k..k, s);
        }
        3 => b.truncate(i),
        4 => {
            b.drain(..i);
        }
        _ => {
            let s = r.pick(SNIPPETS).as_bytes().to_vec();
            b.splice(i..i, s);
        }
    }
}

pub fn run(cases: &str, n: usize, seed: u64, rt: bool, report: &str) -> i32 {
    let docs: Vec<Node> = read_cases(cases).iter().map(|c| from_json(&c["tree"])).collect();
    let docs = std::sync::Arc::new(docs);
    let d2 = docs.clone();
    let jobs: Cases = (0..n).map(|i| json!({"id": format!("corrupt-{seed}-{i}"), "k": i})).collect::<Vec<_>>().into();
    let js = jobs.clone();
    let make = move |k: usize| -> Vec<u8> {
        let mut r = Rng(seed.wrapping_mul(0x1000003).wrapping_add(k as u64));
        let mut doc = d2[r.below(d2.len())].clone();
        for _ in 0..r.below(4) {
            let o = r.below(d2.len());
            restructure(&mut doc, &d2[o], &mut r)
        }
        let style = *r.pick(&["", "nodecl", "expand", "charref"]);
        let mut b = serialize(&doc, style);
        for _ in 0..r.below(4) {
            scramble(&mut b, &mut r)
        }
        b
    };
    let mk = make.clone();
    let accepted = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let acc = accepted.clone();
    let mut r = run_cases(jobs, Duration::from_secs(20), move |c| {
        let b = make(c["k"].as_u64().unwrap() as usize);
        match read_law(&b) {
            Err(e) if e.starts_with("panic") => vec![("total".into(), e)],
            Err(_) => vec![],
            Ok(l) => {
                acc.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if !rt {
                    return vec![];
                }
                // P03 on whatever was accepted: written, it reads back
                match write_law(&l) {
                    Err(e) => vec![("roundtrip".into(), e)],
                    Ok(s) => match read_law(s.as_bytes()) {
                        Err(e) => vec![("roundtrip".into(), format!("re-read: {e}"))],
                        Ok(l2) if l2 != l => {
                            let d = vdiff(&norm(&serde_json::to_value(&l2).unwrap()), &norm(&serde_json::to_value(&l).unwrap()), "law");
                            vec![("roundtrip".into(), d.unwrap_or("unequal".into()))]
                        }
                        Ok(_) => vec![],
                    },
                }
            }
        }
    });
    for f in r.fails.iter_mut() {
        f["xml"] = json!(String::from_utf8_lossy(&mk(f["i"].as_u64().unwrap() as usize)))
    }
    let a = accepted.load(std::sync::atomic::Ordering::Relaxed);
    write_report(report, &r, &js, json!({"accepted": a, "base_documents": docs.len(), "sample": String::from_utf8_lossy(&mk(0))}))
}

/// Documents to be judged by LawJudge.tla: OUT.0 .. OUT.7, one per line.
pub struct Judged(Vec<std::io::BufWriter<std::fs::File>>, usize);
impl Judged {
    pub fn to(out: &str) -> Judged {
        Judged((0..8).map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{out}.{i}")).expect("documents"))).collect(), 0)
    }
    pub fn put(&mut self, id: &str, n: &Node) {
        use std::io::Write;
        let k = self.1 % self.0.len();
        self.1 += 1;
        writeln!(self.0[k], "{}", json!({"id": id, "tree": to_json(n)})).unwrap()
    }
}

const PLAIN_VALUES: &[&str] = &["", "0", "1", "-1", "_", "1_", "_1", "1:", ":", ":1", "1:2:3", "1__2", "1_2:3_4", "07", "1e3", "true", "false", "TRUE", "一", "１", "x", "12", "main", "Item", "New", "ja", "Act", "１_２"];

/// what stands where in legal documents: children by their parent's tag, attributes by tag
#[derive(Default)]
struct Stock {
    kids: std::collections::BTreeMap<String, Vec<Node>>,
    attrs: std::collections::BTreeMap<String, Vec<Vec<(String, String)>>>,
}
impl Stock {
    fn take(&mut self, n: &Node) {
        if let Node::El { t, a, c } = n {
            let v = self.attrs.entry(t.clone()).or_default();
            if v.len() < 200 {
                v.push(a.clone())
            }
            for k in c {
                let v = self.kids.entry(t.clone()).or_default();
                if v.len() < 400 && to_json(k).to_string().len() < 3000 {
                    v.push(k.clone())
                }
                self.take(k)
            }
        }
    }
}

fn edit(n: &mut Node, st: &Stock, r: &mut Rng) {
    let mut ps = Vec::new();
    nodes_mut(n, &mut Vec::new(), &mut ps);
    let p = r.pick(&ps).clone();
    let tags: Vec<&String> = st.attrs.keys().collect();
    match at(n, &p) {
        Node::El { t, a, c } => {
            let i = r.below(c.len() + 1);
            match r.below(20) {
                0..=6 if st.kids.contains_key(t.as_str()) => c.insert(i, r.pick(&st.kids[t.as_str()]).clone()),
                7 | 8 if i < c.len() => drop(c.remove(i)),
                9 | 10 if i < c.len() => {
                    let k = c[i].clone();
                    c.insert(i, k)
                }
                11 | 12 if i < c.len() => {
                    let j = r.below(c.len());
                    c.swap(i, j)
                }
                13 if i < c.len() && st.kids.contains_key(t.as_str()) => c[i] = r.pick(&st.kids[t.as_str()]).clone(),
                14 if st.attrs.contains_key(t.as_str()) => *a = r.pick(&st.attrs[t.as_str()]).clone(),
                15 if !a.is_empty() => {
                    let k = r.below(a.len());
                    a[k].1 = r.pick(PLAIN_VALUES).to_string()
                }
                16 if !a.is_empty() => {
                    let k = r.below(a.len());
                    a.remove(k);
                }
                17 => {
                    // another element in its place, with that one's attributes
                    let t2 = (*r.pick(&tags)).clone();
                    *a = r.pick(&st.attrs[&t2]).clone();
                    *t = t2
                }
                18 => {
                    // a child of some other element
                    let all: Vec<&Vec<Node>> = st.kids.values().collect();
                    let v = r.pick(&all);
                    c.insert(i, r.pick(v).clone())
                }
                19 if r.below(3) == 0 => c.clear(),
                _ => c.insert(i, Node::Tx { s: r.pick(&["文", " 文 ", "文<&>\"'", "　", "一\n二"]).to_string(), cdata: false }),
            }
        }
        x => *x = Node::Tx { s: r.pick(&["字", "字 字", "\t字", "　字　"]).to_string(), cdata: false },
    }
}

/// mutants CASES N SEED OUT: documents of the specification, edited at random, most of them into other legal ones
pub fn mutants(cases: &str, n: usize, seed: u64, out: &str) -> i32 {
    let docs: Vec<Node> = read_cases(cases).iter().filter(|c| c["kind"] == "ok").map(|c| from_json(&c["tree"])).collect();
    let mut st = Stock::default();
    docs.iter().for_each(|d| st.take(d));
    let mut j = Judged::to(out);
    for k in 0..n {
        let mut r = Rng(seed.wrapping_mul(0x2000003).wrapping_add(k as u64));
        let mut d = r.pick(&docs).clone();
        for _ in 0..1 + r.below(4) {
            edit(&mut d, &st, &mut r)
        }
        j.put(&format!("edited/{seed}/{k}"), &d)
    }
    0
}

/// pieces FILE OUT: a real law, cut into laws of one article (or so) each
pub fn pieces(file: &str, out: &str, whole: bool) -> i32 {
    let Ok(b) = std::fs::read(file) else { return 2 };
    let Ok(n) = read(&b) else { return 2 };
    let n = canon(&n);
    let mut j = Judged::to(out);
    if whole {
        j.put("real/whole", &n);
        return 0;
    }
    let mut spots = vec![];
    leaves(&n, &mut vec![], &mut spots);
    for p in spots {
        let id = p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/");
        j.put(&format!("real/{id}"), &cut(&n, &p))
    }
    0
}
fn tag(n: &Node) -> &str {
    if let Node::El { t, .. } = n { t } else { "" }
}
/// the places of articles, and of whatever else stands beside them
fn leaves(n: &Node, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if let Node::El { t, c, .. } = n {
        if ["Law", "LawBody", "MainProvision", "Part", "Chapter", "Section", "Subsection", "Division", "SupplProvision"].contains(&t.as_str()) {
            for (i, k) in c.iter().enumerate() {
                p.push(i);
                leaves(k, p, out);
                p.pop();
            }
        } else {
            out.push(p.clone())
        }
    }
}
/// the document with nothing but one place, and what must stand there
fn cut(n: &Node, p: &[usize]) -> Node {
    match n {
        Node::El { t, a, c } if !p.is_empty() => {
            let need = |k: &Node| ["LawNum", "LawBody", "LawTitle", "SupplProvisionLabel"].contains(&tag(k)) || tag(k) == format!("{t}Title");
            let c2 = c
                .iter()
                .enumerate()
                .filter_map(|(i, k)| {
                    if i == p[0] {
                        Some(cut(k, &p[1..]))
                    } else if tag(k) == "MainProvision" {
                        Some(Node::El { t: "MainProvision".into(), a: vec![], c: vec![] })
                    } else if need(k) {
                        Some(k.clone())
                    } else {
                        None
                    }
                })
                .collect();
            Node::El { t: t.clone(), a: a.clone(), c: c2 }
        }
        x => x.clone(),
    }
}

/// written TEXTS OUT: laws of texts, as the library writes them
pub fn written(cases: &str, out: &str) -> i32 {
    let mut j = Judged::to(out);
    for c in read_cases(cases).iter() {
        if let Ok(l) = crate::text::parse(c["text"].as_str().unwrap()) {
            if let Some(n) = write_law(&l).ok().and_then(|s| read(s.as_bytes()).ok()) {
                j.put(&format!("written/{}", c["id"].as_str().unwrap_or("")), &canon(&n))
            }
        }
    }
    0
}
