//! Replays numbers and their notations (LawNum.tla).
use crate::util::*;
use japanese_law_xml_schema::article_number::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::time::Duration;

fn n(v: &Value) -> usize {
    v.as_str().unwrap().parse().unwrap()
}
fn ns(v: &Value) -> Vec<usize> {
    v.as_array().map(|a| a.iter().map(n).collect()).unwrap_or_default()
}
fn number(v: &Value) -> ArticleNumber {
    ArticleNumber { base_number: n(&v["base"]), eda_numbers: ns(&v["edas"]), range_end_numbers: ns(&v["range"]) }
}
fn show(a: &ArticleNumber) -> String {
    format!("{}/{:?}/{:?}", a.base_number, a.eda_numbers, a.range_end_numbers)
}
fn readings(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

fn pattern(s: &str) -> ItemPattern {
    serde_json::from_value(json!(s)).expect("pattern")
}

fn render(a: &ArticleNumber, form: &str) -> String {
    match form {
        "attr" => a.num_str(),
        "part" => a.part_text(),
        "chapter" => a.chapter_text(),
        "section" => a.section_text(),
        "subsection" => a.subsection_text(),
        "division" => a.division_text(),
        "article" => a.article_text(),
        "paragraph" => a.paragraph_text(),
        p => a.item_text(pattern(p)),
    }
}

/// the number as a heading of that kind gives it
fn of_heading(a: &ArticleNumber, form: &str) -> Option<String> {
    use japanese_law_xml_schema::article::*;
    let (num, t) = (a.clone(), japanese_law_xml_schema::text::Text { contents: vec![] });
    let (delete, hide) = (false, false);
    Some(match form {
        "part" => Part { part_title: t, children: vec![], num, delete, hide }.number_text(),
        "chapter" => Chapter { chapter_title: t, children: vec![], num, delete, hide }.number_text(),
        "section" => Section { section_title: t, children: vec![], num, delete, hide }.number_text(),
        "subsection" => Subsection { subsection_title: t, children: vec![], num, delete, hide }.number_text(),
        "division" => Division { division_title: t, children: vec![], num, delete, hide }.number_text(),
        "article" => Article { caption: None, title: t, paragraph: vec![], suppl_note: None, num, delete, hide }.number_text(),
        _ => return None,
    })
}

/// what the library reads: (pattern, number)
fn read(text: &str, form: &str) -> Result<Option<(String, ArticleNumber)>, String> {
    guarded(|| match form {
        "attr" => {
            let a = ArticleNumber::from_num_str(text).ok();
            let b: Option<ArticleNumber> = text.parse().ok();
            if a != b {
                return Err("from_num_str and from_str disagree".to_string());
            }
            Ok(a.map(|a| (String::new(), a)))
        }
        p if p.starts_with("Paren") || p.starts_with("NoParen") => Ok(match parse_item_number(text) {
            None => None,
            Some(i) => {
                if i.str != text {
                    return Err(format!("the number's text {text} is kept as {}", i.str));
                }
                Some((serde_json::to_value(i.pattern).unwrap().as_str().unwrap().to_string(), ArticleNumber::from_item_number(&i)))
            }
        }),
        _ => Ok(parse_article_number(text).map(|a| (String::new(), a))),
    })?
}

pub fn check(c: &Value) -> Vec<(String, String)> {
    let mut out = Vec::new();
    let form = c["form"].as_str().unwrap();
    let text = c["text"].as_str().unwrap();
    if c["calm"] == true {
        let num = number(&c["num"]);
        match guarded(|| render(&num, form)) {
            Err(e) => out.push(("write".to_string(), e)),
            Ok(t) if t != text => out.push(("write".to_string(), format!("{} is written {t}, not {text}", show(&num)))),
            _ => {}
        }
        match guarded(|| of_heading(&num, form)) {
            Err(e) => out.push(("write".to_string(), e)),
            Ok(Some(t)) if t != text => out.push(("write".to_string(), format!("a heading numbered {} gives {t}, not {text}", show(&num)))),
            _ => {}
        }
        if form == "attr" && num.is_zero() != (num.base_number == 0) {
            out.push(("write".into(), "is_zero".into()));
        }
    }
    match read(text, form) {
        Err(e) => out.push(("read".into(), e)),
        Ok(got) => {
            let must = readings(&c["must"]);
            let may = readings(&c["may"]);
            let any = |r: &Value| r.to_string().contains("\"?\"");
            let ok = match &got {
                None => must.is_empty(),
                Some((p, a)) => must.iter().chain(may.iter()).any(|r| (any(r) || number(r) == *a) && r.get("p").map(|x| x == p.as_str()).unwrap_or(true)),
            };
            if !ok {
                let g = got.map(|(p, a)| format!("{p} {}", show(&a))).unwrap_or("no number".into());
                let w: Vec<String> = must.iter().map(|r| r.to_string()).collect();
                out.push(("read".into(), format!("{text} is read as {g}, specified {w:?}")));
            }
        }
    }
    out
}

pub fn replay(cases: &str, report: &str) -> i32 {
    let cases = read_cases(cases);
    let mut kinds: HashMap<String, usize> = HashMap::new();
    for c in cases.iter() {
        *kinds.entry(format!("{}{}", c["form"].as_str().unwrap(), if c["calm"] == true { "" } else { " edited" })).or_default() += 1;
    }
    let r = run_cases(cases.clone(), Duration::from_secs(20), check);
    write_report(report, &r, &cases, json!({"kinds": kinds}))
}
