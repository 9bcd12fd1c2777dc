//! Builds the provisions of WalkLaw.tla / WalkText.tla and lists them with the library.
use crate::util::*;
use japanese_law_xml_schema as lib;
use lib::article::*;
use lib::article_number::ArticleNumber;
use lib::class::{Column, SentenceOrColumnOrTable};
use lib::contents::{ArithFormula, Contents, ContentsElement};
use lib::law::{MainProvision, MainProvisionContents};
use lib::line::{Line, LineContents, LineStyle};
use lib::paragraph::*;
use lib::sentence::{Sentence, SentenceElement};
use lib::structs::QuoteStruct;
use lib::suppl_provision::{SupplProvision, SupplProvisionChildrenElement};
use lib::table::*;
use lib::text::{Ruby, Sub, Sup, Text, TextElement, WritingMode};
use lib::utils::*;
use serde_json::{json, Value};
use std::time::Duration;

pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
pub fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
/// "3", "3_2", "3:4" -- built without the library
fn number(t: &str) -> Option<ArticleNumber> {
    if t.is_empty() {
        return None;
    }
    let (a, b) = t.split_once(':').unwrap_or((t, ""));
    let l = |x: &str| -> Vec<usize> { x.split('_').filter(|p| !p.is_empty()).map(|p| p.parse().unwrap()).collect() };
    let a = l(a);
    Some(ArticleNumber { base_number: a[0], eda_numbers: a[1..].to_vec(), range_end_numbers: l(b) })
}
fn plain(x: &str) -> Text {
    Text { contents: vec![TextElement::Text(x.to_string())] }
}
fn ruby(x: &str) -> Ruby {
    Ruby { text: plain(x), ruby: "よみ".into() }
}
fn text(v: &Value) -> Text {
    Text {
        contents: list(v)
            .iter()
            .map(|x| match x["e"].as_str().unwrap() {
                "ruby" => TextElement::Ruby(ruby(&s(&x["s"]))),
                "sup" => TextElement::Sup(Sup { text: s(&x["s"]) }),
                "sub" => TextElement::Sub(Sub { text: s(&x["s"]) }),
                "line" => TextElement::Line(line(&s(&x["s"]))),
                _ => TextElement::Text(s(&x["s"])),
            })
            .collect(),
    }
}
fn line(x: &str) -> Line {
    Line { contents: vec![LineContents::String(x.into())], style: LineStyle::Solid }
}
fn contents(v: &Value) -> Contents {
    Contents {
        contents: list(v)
            .iter()
            .map(|x| match x["e"].as_str().unwrap() {
                "ruby" => ContentsElement::Ruby(ruby(&s(&x["s"]))),
                "sup" => ContentsElement::Sup(Sup { text: s(&x["s"]) }),
                "sub" => ContentsElement::Sub(Sub { text: s(&x["s"]) }),
                "line" => ContentsElement::Line(line(&s(&x["s"]))),
                "sentence" => ContentsElement::Sentence(sentence(&x["in"])),
                "arith" => ContentsElement::ArithFormula(ArithFormula { num: None, contentes: contents(&x["in"]) }),
                "quote" => ContentsElement::QuoteStruct(QuoteStruct { contentes: contents(&x["in"]) }),
                _ => ContentsElement::String(s(&x["s"])),
            })
            .collect(),
    }
}
fn sentence(v: &Value) -> Sentence {
    Sentence {
        contents: list(v)
            .iter()
            .map(|x| match x["e"].as_str().unwrap() {
                "ruby" => SentenceElement::Ruby(ruby(&s(&x["s"]))),
                "sup" => SentenceElement::Sup(Sup { text: s(&x["s"]) }),
                "sub" => SentenceElement::Sub(Sub { text: s(&x["s"]) }),
                "line" => SentenceElement::Line(line(&s(&x["s"]))),
                "arith" => SentenceElement::ArithFormula(ArithFormula { num: None, contentes: contents(&x["in"]) }),
                "quote" => SentenceElement::QuoteStruct(QuoteStruct { contentes: contents(&x["in"]) }),
                _ => SentenceElement::String(s(&x["s"])),
            })
            .collect(),
        num: None,
        function: None,
        indent: None,
        writing_mode: WritingMode::Vertical,
    }
}
fn column(sentences: Vec<Sentence>) -> Column {
    Column { sentence: sentences, num: None, line_break: false, align: None }
}
fn body(b: &Value) -> SentenceOrColumnOrTable {
    match &b["k"].as_str().unwrap()[..1] {
        "c" => SentenceOrColumnOrTable::Column(list(&b["c"]).iter().map(|c| column(list(c).iter().map(sentence).collect())).collect()),
        "t" => SentenceOrColumnOrTable::Table(Table {
            table_header_row: list(&b["h"]).iter().map(|r| TableHeaderRow { columns: list(r).iter().map(text).collect() }).collect(),
            table_row: list(&b["r"])
                .iter()
                .map(|r| TableRow {
                    columns: list(r)
                        .iter()
                        .map(|c| TableColumn {
                            contents: list(c)
                                .iter()
                                .map(|x| match x["e"].as_str().unwrap() {
                                    "sentence" => TableColumnContents::Sentence(sentence(&x["in"])),
                                    "column" => TableColumnContents::Column(column(vec![sentence(&x["in"])])),
                                    _ => TableColumnContents::String(s(&x["in"][0]["s"])),
                                })
                                .collect(),
                            border_top: LineStyle::Solid,
                            border_bottom: LineStyle::Solid,
                            border_left: LineStyle::Solid,
                            border_right: LineStyle::Solid,
                            rowspan: None,
                            colspan: None,
                            align: None,
                            valign: None,
                        })
                        .collect(),
                })
                .collect(),
            writing_mode: WritingMode::Vertical,
        }),
        _ => SentenceOrColumnOrTable::Sentence(sentences(b)),
    }
}
fn sentences(b: &Value) -> Vec<Sentence> {
    list(&b["s"]).iter().map(sentence).collect()
}

/// nodes in document order with depths -> trees
struct Tree<'a> {
    v: &'a Value,
    kids: Vec<Tree<'a>>,
}
fn grow<'a>(nodes: &'a [Value], i: &mut usize, d: u64) -> Vec<Tree<'a>> {
    let mut out = vec![];
    while *i < nodes.len() && nodes[*i]["d"].as_u64().unwrap() >= d {
        let v = &nodes[*i];
        *i += 1;
        let kids = grow(nodes, i, d + 1);
        out.push(Tree { v, kids });
    }
    out
}

fn paragraph(num: &str, sentence: Vec<Sentence>, children: Vec<Item>) -> Paragraph {
    Paragraph {
        caption: None,
        paragraph_num: plain(num),
        amend_provision: vec![],
        class: vec![],
        sentence,
        struct_list: vec![],
        children,
        num: number(num).unwrap(),
        old_style: false,
        old_num: false,
        hide: false,
    }
}
macro_rules! item {
    ($f:ident, $t:ident $(, $kid:ident)?) => {
        fn $f(t: &Tree) -> $t {
            $t {
                title: Some(plain("号名")),
                sentence: body(&t.v["body"]),
                $(children: t.kids.iter().map($kid).collect(),)?
                struct_list: vec![],
                num: number(&s(&t.v["n"])),
                delete: false,
                hide: false,
            }
        }
    };
}
item!(item, Item, sub1);
item!(sub1, Subitem1, sub2);
item!(sub2, Subitem2, sub3);
item!(sub3, Subitem3, sub4);
item!(sub4, Subitem4, sub5);
item!(sub5, Subitem5, sub6);
item!(sub6, Subitem6, sub7);
item!(sub7, Subitem7, sub8);
item!(sub8, Subitem8, sub9);
item!(sub9, Subitem9, sub10);
item!(sub10, Subitem10);

fn n(t: &Tree) -> ArticleNumber {
    number(&s(&t.v["n"])).unwrap()
}
fn article(t: &Tree) -> Article {
    Article {
        caption: None,
        title: text(&t.v["title"]),
        paragraph: vec![paragraph(&t.v["id"].to_string(), vec![], vec![])],
        suppl_note: None,
        num: n(t),
        delete: false,
        hide: false,
    }
}
fn bare(t: &Tree) -> Paragraph {
    paragraph(&s(&t.v["n"]), vec![], vec![])
}
fn division(t: &Tree) -> Division {
    Division { division_title: text(&t.v["title"]), children: t.kids.iter().map(article).collect(), num: n(t), delete: false, hide: false }
}
macro_rules! heading {
    ($f:ident, $t:ident, $title:ident, $c:ident, $($k:ident $g:ident),*) => {
        fn $f(t: &Tree) -> $t {
            $t {
                $title: text(&t.v["title"]),
                children: t.kids.iter().map(|x| match x.v["k"].as_str().unwrap() {
                    $(stringify!($k) => $c::$k($g(x)),)*
                    k => unreachable!("{k}"),
                }).collect(),
                num: n(t),
                delete: false,
                hide: false,
            }
        }
    };
}
heading!(subsection, Subsection, subsection_title, SubsectionContents, Division division, Article article);
heading!(section, Section, section_title, SectionContents, Subsection subsection, Division division, Article article);
heading!(chapter, Chapter, chapter_title, ChapterContents, Section section, Article article);
heading!(part, Part, part_title, PartContents, Chapter chapter, Article article);

type Lists = (Vec<WithNumberArticle>, Vec<Vec<Paragraph>>, Vec<Article>, Vec<Vec<Paragraph>>, Vec<Toc>);

fn lists(root: &str, trees: &[Tree]) -> Lists {
    if root == "Main" {
        let m = MainProvision {
            children: trees
                .iter()
                .map(|t| match t.v["k"].as_str().unwrap() {
                    "Part" => MainProvisionContents::Part(part(t)),
                    "Chapter" => MainProvisionContents::Chapter(chapter(t)),
                    "Section" => MainProvisionContents::Section(section(t)),
                    "Article" => MainProvisionContents::Article(article(t)),
                    _ => MainProvisionContents::Paragraph(bare(t)),
                })
                .collect(),
            extract: None,
        };
        let (a, g) = with_number_article_list_from_main_provision(&m);
        let (a2, g2) = article_list_from_main_provision(&m);
        (a, g, a2, g2, toc_list_from_main_provision(&m))
    } else {
        let m = SupplProvision {
            label: plain("附則"),
            children: trees
                .iter()
                .map(|t| match t.v["k"].as_str().unwrap() {
                    "Chapter" => SupplProvisionChildrenElement::Chapter(chapter(t)),
                    "Article" => SupplProvisionChildrenElement::Article(article(t)),
                    _ => SupplProvisionChildrenElement::Paragraph(bare(t)),
                })
                .collect(),
            suppl_provision_type: None,
            amend_law_num: None,
            extract: None,
        };
        let (a, g) = with_number_article_list_from_suppl_provision(&m);
        let (a2, g2) = article_list_from_suppl_provision(&m);
        (a, g, a2, g2, toc_list_from_suppl_provision(&m))
    }
}

pub fn show(x: &Option<ArticleNumber>) -> String {
    // (not through the library's own formatting)
    match x {
        None => String::new(),
        Some(a) => {
            let j = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_");
            let mut h = vec![a.base_number];
            h.extend(&a.eda_numbers);
            let r = j(&a.range_end_numbers);
            if r.is_empty() { j(&h) } else { format!("{}:{r}", j(&h)) }
        }
    }
}

pub fn place(p: [Option<ArticleNumber>; 5]) -> Value {
    let p: Vec<String> = p.iter().map(show).collect();
    json!({"Part": p[0], "Chapter": p[1], "Section": p[2], "Subsection": p[3], "Division": p[4]})
}

fn check_law(c: &Value, checks: &[String]) -> Vec<(String, String)> {
    let nodes = list(&c["nodes"]);
    let trees = grow(&nodes, &mut 0, 1);
    let mut out = vec![];
    let (a, g, a2, g2, toc) = match guarded(|| lists(c["root"].as_str().unwrap(), &trees)) {
        Err(p) => return vec![("list".into(), p)],
        Ok(x) => x,
    };
    if checks.iter().any(|x| x == "articles") {
        // the article itself is known by its paragraph's number
        let id = |a: &Article| a.paragraph.first().map(|p| p.num.base_number).unwrap_or(0);
        let got: Vec<Value> = a
            .iter()
            .map(|w| json!({"i": id(&w.get_article()), "at": place([w.get_part(), w.get_chapter(), w.get_section(), w.get_subsection(), w.get_division()])}))
            .collect();
        let mut fail = |d: String| out.push(("articles".to_string(), d));
        if got != list(&c["arts"]) {
            fail(format!("articles listed as {got:?}, specified {}", c["arts"]))
        }
        fn all<'a>(t: &'a [Tree<'a>], o: &mut Vec<Article>) {
            for x in t {
                if x.v["k"] == "Article" {
                    o.push(article(x))
                }
                all(&x.kids, o)
            }
        }
        let mut whole = vec![];
        all(&trees, &mut whole);
        if a.iter().map(|w| w.get_article()).collect::<Vec<_>>() != whole || a2 != whole {
            fail("the listed articles are not those of the provision".into())
        }
        let want: Vec<Vec<String>> = list(&c["groups"]).iter().map(|g| list(g).iter().map(|i| s(&nodes[i.as_u64().unwrap() as usize - 1]["n"])).collect()).collect();
        let names = |g: &[Vec<Paragraph>]| -> Vec<Vec<String>> { g.iter().map(|v| v.iter().map(|p| show(&Some(p.num.clone()))).collect()).collect() };
        if names(&g) != want || names(&g2) != want {
            fail(format!("paragraphs are grouped {:?} and {:?}, specified {want:?}", names(&g), names(&g2)))
        }
    }
    if checks.iter().any(|x| x == "toc") {
        let got: Vec<Value> = toc
            .iter()
            .map(|t| {
                json!({"at": place([t.get_part(), t.get_chapter(), t.get_section(), t.get_subsection(), t.get_division()]),
                       "article": show(&t.get_article()), "title": t.get_title().unwrap_or("(none)".into())})
            })
            .collect();
        let want = list(&c["toc"]);
        for i in 0..got.len().max(want.len()) {
            if got.get(i) != want.get(i) {
                out.push(("toc".into(), format!("entry {i} is {:?}, specified {:?}", got.get(i), want.get(i))));
                break;
            }
        }
    }
    out
}

fn check_text(c: &Value) -> Vec<(String, String)> {
    let nodes = list(&c["nodes"]);
    let trees = grow(&nodes, &mut 0, 0);
    let paras: Vec<Paragraph> = trees
        .iter()
        .map(|t| paragraph(&s(&t.v["n"]), sentences(&t.v["body"]), t.kids.iter().map(item).collect()))
        .collect();
    let mut out = vec![];
    let mut fail = |d: String| out.push(("text".to_string(), d));
    match guarded(|| text_info_list_from_paragraph(&paras)) {
        Err(p) => fail(p),
        Ok(l) => {
            let got: Vec<Value> = l
                .iter()
                .map(|(i, t)| json!({"p": show(&Some(i.paragraph.clone())), "items": i.items.iter().map(show).collect::<Vec<_>>(), "text": t}))
                .collect();
            let want = list(&c["out"]);
            for i in 0..got.len().max(want.len()) {
                if got.get(i) != want.get(i) {
                    fail(format!("entry {i} is {:?}, specified {:?}", got.get(i), want.get(i)));
                    break;
                }
            }
        }
    }
    // what one place holds, given by itself
    for (i, node) in nodes.iter().enumerate() {
        let alone = guarded(|| match body(&node["body"]) {
            SentenceOrColumnOrTable::Table(t) => table_to_str(&t),
            SentenceOrColumnOrTable::Sentence(v) => v.iter().map(|s| sentence_element_to_str(&s.contents)).collect(),
            SentenceOrColumnOrTable::Column(v) => {
                v.iter().flat_map(|c| &c.sentence).map(|s| sentence_element_to_str(&s.contents)).collect::<Vec<_>>().join(" ")
            }
        });
        match alone {
            Err(p) => fail(p),
            Ok(t) if c["out"][i]["text"] != t.as_str() => fail(format!("by itself, {i} is {t:?}, specified {}", c["out"][i]["text"])),
            Ok(_) => {}
        }
    }
    let art = Article { caption: None, title: plain("第一条"), paragraph: paras.clone(), suppl_note: None, num: number("1").unwrap(), delete: false, hide: false };
    for (what, got) in [("paragraphs", guarded(|| text_from_paragraph_list(&paras))), ("article", guarded(|| text_from_article(&art)))] {
        match got {
            Err(p) => fail(p),
            Ok(t) if c["text"] != t.as_str() => fail(format!("the text of the {what} is {t:?}, specified {}", c["text"])),
            Ok(_) => {}
        }
    }
    out
}

pub fn replay(what: &str, cases: &str, report: &str) -> i32 {
    let cases = read_cases(cases);
    let what: Vec<String> = what.split(',').map(|s| s.to_string()).collect();
    let deepest = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let deep = deepest.clone();
    let r = run_cases(cases.clone(), Duration::from_secs(20), move |c| {
        deep.fetch_max(list(&c["nodes"]).iter().filter_map(|n| n["d"].as_u64()).max().unwrap_or(0), std::sync::atomic::Ordering::Relaxed);
        if what[0] == "text" { check_text(c) } else { check_law(c, &what) }
    });
    write_report(report, &r, &cases, json!({"deepest": deepest.load(std::sync::atomic::Ordering::Relaxed)}))
}
