//! Replays plain texts of laws (TextLaw.tla).
use crate::docs::{read_law, write_law};
use crate::util::*;
use japanese_law_xml_schema as lib;
use lib::article::*;
use lib::article_number::ArticleNumber;
use lib::class::SentenceOrColumnOrTable;
use lib::law::*;
use lib::paragraph::*;
use lib::sentence::{Sentence, SentenceElement};
use lib::suppl_provision::*;
use lib::text::{Text, TextElement};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::time::Duration;

/// One node of a law, as the specification lists them.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Node {
    pub k: String,
    pub d: usize,
    pub n: String,
    pub t: String,
    pub cap: Vec<String>,
    pub ts: Vec<String>,
    pub del: bool,
    pub x: bool,
}

impl Node {
    pub fn show(&self) -> String {
        format!(
            "{}{} {} {:?} cap{:?} {:?}{}{}",
            "-".repeat(self.d),
            self.k,
            self.n,
            self.t,
            self.cap,
            self.ts,
            if self.del { " deleted" } else { "" },
            if self.x { " extract" } else { "" }
        )
    }
    fn words(&self) -> Vec<String> {
        let mut w = self.cap.clone();
        w.push(self.t.clone());
        w.extend(self.ts.clone());
        w.retain(|s| !s.is_empty());
        w
    }
}

fn plain(t: &Text) -> String {
    t.contents
        .iter()
        .map(|e| match e {
            TextElement::Text(s) => s.clone(),
            e => format!("<{e:?}>"),
        })
        .collect()
}

/// flattens a law into nodes; whatever the text parser cannot have put there is reported as odd
struct Flat {
    nodes: Vec<Node>,
    odd: Vec<String>,
}

impl Flat {
    fn sentences(&mut self, v: &[Sentence]) -> Vec<String> {
        let mut out = Vec::new();
        for (i, s) in v.iter().enumerate() {
            if s.num != Some(i + 1) {
                self.odd.push(format!("sentence {} has number {:?}", i + 1, s.num));
            }
            if s.function.is_some() || s.indent.is_some() || s.writing_mode != lib::text::WritingMode::Vertical {
                self.odd.push("sentence attributes".into());
            }
            out.push(
                s.contents
                    .iter()
                    .map(|e| match e {
                        SentenceElement::String(s) => s.clone(),
                        e => format!("<{e:?}>"),
                    })
                    .collect(),
            );
        }
        out
    }
    fn caption(&mut self, c: &Option<lib::class::Caption>) -> Vec<String> {
        match c {
            None => vec![],
            Some(c) => {
                if c.common_caption.is_some() {
                    self.odd.push("common caption".into());
                }
                vec![plain(&c.text)]
            }
        }
    }
    fn push(&mut self, k: &str, d: usize, n: String, t: String) -> usize {
        self.nodes.push(Node { k: k.into(), d, n, t, ..Node::default() });
        self.nodes.len() - 1
    }
    fn title(&mut self, t: &Option<Text>) {
        if t.is_some() {
            self.odd.push(format!("item title {t:?}"));
        }
    }
    fn article(&mut self, a: &Article, d: usize) {
        let i = self.push("Article", d, a.num.num_str(), plain(&a.title));
        self.nodes[i].cap = self.caption(&a.caption);
        self.nodes[i].del = a.delete;
        if a.hide || a.suppl_note.is_some() {
            self.odd.push("article hide/note".into());
        }
        for p in &a.paragraph {
            self.paragraph(p, d + 1, "Paragraph");
        }
    }
    fn paragraph(&mut self, p: &Paragraph, d: usize, k: &str) {
        let i = self.push(k, d, p.num.num_str(), String::new());
        self.nodes[i].cap = self.caption(&p.caption);
        self.nodes[i].ts = self.sentences(&p.sentence);
        if !p.amend_provision.is_empty() || !p.class.is_empty() || !p.struct_list.is_empty() || p.old_style || p.old_num || p.hide {
            self.odd.push("paragraph extras".into());
        }
        for i in &p.children {
            self.item(i, d + 1);
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn entry(&mut self, d: usize, title: &Option<Text>, s: &SentenceOrColumnOrTable, st: usize, num: &Option<ArticleNumber>, delete: bool, hide: bool) {
        self.title(title);
        let i = self.push("Item", d, num.as_ref().map(|n| n.num_str()).unwrap_or_default(), String::new());
        match s {
            SentenceOrColumnOrTable::Sentence(v) => self.nodes[i].ts = self.sentences(v),
            _ => self.odd.push("item without sentence".into()),
        }
        self.nodes[i].del = delete;
        if hide || st > 0 {
            self.odd.push("item hide/struct".into());
        }
    }
    fn item(&mut self, i: &Item, d: usize) {
        self.entry(d, &i.title, &i.sentence, i.struct_list.len(), &i.num, i.delete, i.hide);
        for s in &i.children {
            self.sub1(s, d + 1)
        }
    }
    fn sub10(&mut self, i: &Subitem10, d: usize) {
        self.entry(d, &i.title, &i.sentence, i.struct_list.len(), &i.num, i.delete, i.hide);
    }
}
macro_rules! sub {
    ($f:ident, $t:ident, $next:ident) => {
        impl Flat {
            fn $f(&mut self, i: &$t, d: usize) {
                self.entry(d, &i.title, &i.sentence, i.struct_list.len(), &i.num, i.delete, i.hide);
                for s in &i.children {
                    self.$next(s, d + 1)
                }
            }
        }
    };
}
sub!(sub1, Subitem1, sub2);
sub!(sub2, Subitem2, sub3);
sub!(sub3, Subitem3, sub4);
sub!(sub4, Subitem4, sub5);
sub!(sub5, Subitem5, sub6);
sub!(sub6, Subitem6, sub7);
sub!(sub7, Subitem7, sub8);
sub!(sub8, Subitem8, sub9);
sub!(sub9, Subitem9, sub10);

macro_rules! heading {
    ($f:ident, $t:ident, $k:literal, $title:ident, $c:ident => $($v:pat => $e:expr),*) => {
        impl Flat {
            fn $f(&mut self, h: &$t, d: usize) {
                let i = self.push($k, d, h.num.num_str(), plain(&h.$title));
                self.nodes[i].del = h.delete;
                if h.hide {
                    self.odd.push("heading hide".into());
                }
                for x in &h.children {
                    let $c = &mut *self;
                    heading!(@one x, $c, d + 1, $($v => $e),*);
                }
            }
        }
    };
    (@one $x:ident, $c:ident, $d:expr, $($v:pat => $e:expr),*) => {
        #[allow(clippy::redundant_closure_call)]
        match $x { $($v => ($e)($c, $d)),* }
    };
}
heading!(part, Part, "Part", part_title, f =>
    PartContents::Article(a) => |f: &mut Flat, d| f.article(a, d),
    PartContents::Chapter(a) => |f: &mut Flat, d| f.chapter(a, d));
heading!(chapter, Chapter, "Chapter", chapter_title, f =>
    ChapterContents::Article(a) => |f: &mut Flat, d| f.article(a, d),
    ChapterContents::Section(a) => |f: &mut Flat, d| f.section(a, d));
heading!(section, Section, "Section", section_title, f =>
    SectionContents::Article(a) => |f: &mut Flat, d| f.article(a, d),
    SectionContents::Subsection(a) => |f: &mut Flat, d| f.subsection(a, d),
    SectionContents::Division(a) => |f: &mut Flat, d| f.division(a, d));
heading!(subsection, Subsection, "Subsection", subsection_title, f =>
    SubsectionContents::Article(a) => |f: &mut Flat, d| f.article(a, d),
    SubsectionContents::Division(a) => |f: &mut Flat, d| f.division(a, d));
impl Flat {
    fn division(&mut self, h: &Division, d: usize) {
        let i = self.push("Division", d, h.num.num_str(), plain(&h.division_title));
        self.nodes[i].del = h.delete;
        if h.hide {
            self.odd.push("heading hide".into());
        }
        for a in &h.children {
            self.article(a, d + 1)
        }
    }
    fn body(&mut self, b: &LawBody) {
        if !b.enact_statement.is_empty()
            || b.subject.is_some()
            || b.toc.is_some()
            || !b.appdx_table.is_empty()
            || !b.appdx_note.is_empty()
            || !b.appdx_style.is_empty()
            || !b.appdx.is_empty()
            || !b.appdx_fig.is_empty()
            || !b.appdx_format.is_empty()
            || b.main_provision.extract.is_some()
        {
            self.odd.push("body extras".into());
        }
        if let Some(p) = &b.preamble {
            for p in &p.children {
                self.paragraph(p, 0, "Preamble")
            }
        }
        for c in &b.main_provision.children {
            match c {
                MainProvisionContents::Part(x) => self.part(x, 1),
                MainProvisionContents::Chapter(x) => self.chapter(x, 1),
                MainProvisionContents::Section(x) => self.section(x, 1),
                MainProvisionContents::Article(x) => self.article(x, 1),
                MainProvisionContents::Paragraph(x) => self.paragraph(x, 1, "Paragraph"),
            }
        }
        for s in &b.suppl_provision {
            let i = self.push("Suppl", 0, String::new(), s.amend_law_num.clone().unwrap_or_default());
            self.nodes[i].x = s.extract == Some(true);
            let l: String = plain(&s.label).chars().filter(|c| !c.is_whitespace()).collect();
            if l != "附則" {
                self.odd.push(format!("label {l}"));
            }
            for c in &s.children {
                match c {
                    SupplProvisionChildrenElement::Chapter(x) => self.chapter(x, 1),
                    SupplProvisionChildrenElement::Article(x) => self.article(x, 1),
                    SupplProvisionChildrenElement::Paragraph(x) => self.paragraph(x, 1, "Paragraph"),
                    _ => self.odd.push("appendix in a supplementary provision".into()),
                }
            }
        }
    }
}

pub fn flatten(b: &LawBody) -> (Vec<Node>, Vec<String>) {
    let mut f = Flat { nodes: vec![], odd: vec![] };
    f.body(b);
    (f.nodes, f.odd)
}

fn num_str(v: &Value) -> String {
    let l = |v: &Value| -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
    let base = v["base"].as_str().unwrap_or("");
    let mut s = vec![base.to_string()];
    s.extend(l(&v["edas"]));
    let mut s = s.join("_");
    let r = l(&v["range"]);
    if !r.is_empty() {
        s += ":";
        s += &r.join("_");
    }
    s
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}
fn nodes_of(v: &Value) -> Vec<Node> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|n| Node {
                    k: n["k"].as_str().unwrap().into(),
                    d: n["d"].as_u64().unwrap() as usize,
                    n: num_str(&n["n"]),
                    t: n["t"].as_str().unwrap().into(),
                    cap: strs(&n["cap"]),
                    ts: strs(&n["ts"]),
                    del: n["del"] == true,
                    x: n["x"] == true,
                })
                .collect()
        })
        .unwrap_or_default()
}

pub fn parse(text: &str) -> Result<Law, String> {
    match guarded(|| lib::parse_text(text, 1999, Some(8), Some(13), LawType::Act, Lang::Ja, None, "平成十一年法律第百二十七号".into(), "題名")) {
        Err(p) => Err(p),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Ok(Ok(l)) => Ok(l),
    }
}

/// P19: what writing a law as XML and reading it back loses
pub fn xml_loss(l: &Law) -> Option<String> {
    let s = match write_law(l) {
        Err(e) => return Some(format!("not written: {e}")),
        Ok(s) => s,
    };
    let r = match read_law(s.as_bytes()) {
        Err(e) => return Some(format!("written, but not read: {e}")),
        Ok(r) if r != *l => return Some("reading the written law gives another law".into()),
        Ok(r) => r,
    };
    // (attributes come in no fixed order: compared as trees)
    let tree = |x: &str| crate::tree::read(x.as_bytes()).map(|n| crate::tree::canon(&n));
    match write_law(&r).and_then(|again| Ok((tree(&again)?, tree(&s)?))) {
        Err(e) => Some(e),
        Ok((a, b)) => crate::tree::diff(&a, &b, "").map(|d| format!("writing again gives another document: {d}")),
    }
}

pub fn check(c: &Value, checks: &[&str]) -> Vec<(String, String)> {
    let mut out = Vec::new();
    let text = c["text"].as_str().unwrap();
    let refused = c["refused"] == true;
    let loose = c["loose"] == true;
    let got = parse(text);
    for ck in checks {
        let mut fail = |d: String| out.push((ck.to_string(), d));
        match *ck {
            // P14, P17: exactly the specified law
            "structure" if !loose => match &got {
                Err(e) if !refused => fail(format!("not parsed: {e}")),
                Err(_) => {}
                Ok(_) if refused => fail("a line has no place, but the text was accepted".into()),
                Ok(l) => {
                    let (nodes, odd) = flatten(&l.law_body);
                    let want = nodes_of(&c["nodes"]);
                    if let Some(o) = odd.first() {
                        fail(format!("unspecified content: {o}"))
                    }
                    for i in 0..nodes.len().max(want.len()) {
                        if nodes.get(i) != want.get(i) {
                            fail(format!(
                                "node {i} is {}, specified {}",
                                nodes.get(i).map(|n| n.show()).unwrap_or("absent".into()),
                                want.get(i).map(|n| n.show()).unwrap_or("none".into())
                            ));
                            break;
                        }
                    }
                }
            },
            // P15: the words of every line once, in order -- or an error
            "words" => {
                if let Ok(l) = &got {
                    let (nodes, _) = flatten(&l.law_body);
                    let w: Vec<String> = nodes.iter().flat_map(|n| n.words()).collect();
                    let want = strs(&c["words"]);
                    if !loose && w != want {
                        let i = (0..).find(|i| w.get(*i) != want.get(*i)).unwrap();
                        fail(format!("word {i} is {:?}, the text has {:?}", w.get(i), want.get(i)))
                    }
                    if loose {
                        // every line's own characters must still be there
                        let all = w.concat();
                        for l in text.lines() {
                            let l: String = l.trim().into();
                            let tail: String = l.chars().rev().take(2).collect::<Vec<_>>().into_iter().rev().filter(|c| !c.is_whitespace() && !"（）則附抄".contains(*c)).collect();
                            if !all.contains(&tail) {
                                fail(format!("the end of line {l:?} is lost"))
                            }
                        }
                    }
                    // numbers: one per numbered node, none invented
                } else if let Err(e) = &got {
                    if e.starts_with("panic") {
                        fail(e.clone())
                    }
                }
            }
            // P16
            "total" => {
                if let Err(e) = &got {
                    if e.starts_with("panic") {
                        fail(e.clone())
                    }
                }
            }
            // P19
            "xml" => {
                if let Ok(l) = &got {
                    if let Some(d) = xml_loss(l) {
                        fail(d)
                    }
                }
            }
            _ => {}
        }
    }
    out
}

pub fn replay(cases: &str, checks: &str, report: &str) -> i32 {
    let cases = read_cases(cases);
    let mut kinds: HashMap<&str, usize> = HashMap::new();
    for c in cases.iter() {
        let k = if c["loose"] == true { "kind of a line left open" } else if c["refused"] == true { "refused" } else { "parsed" };
        *kinds.entry(k).or_default() += 1;
    }
    let kinds = json!(kinds);
    let ck: Vec<String> = checks.split(',').map(|s| s.to_string()).collect();
    let r = run_cases(cases.clone(), Duration::from_secs(20), move |c| {
        let ck: Vec<&str> = ck.iter().map(|s| s.as_str()).collect();
        check(c, &ck)
    });
    write_report(report, &r, &cases, json!({"kinds": kinds}))
}
