//! Replays laws given with their metadata (LawMeta.tla).
use crate::text::xml_loss;
use crate::util::*;
use japanese_law_xml_schema as lib;
use lib::law::*;
use serde_json::{json, Value};
use std::time::Duration;

const TEXT: &str = "第一条　条文";

fn plain(t: &lib::text::Text) -> String {
    t.contents
        .iter()
        .map(|e| if let lib::text::TextElement::Text(s) = e { s.clone() } else { format!("{e:?}") })
        .collect()
}

fn check(c: &Value, checks: &[String]) -> Vec<(String, String)> {
    let o = |v: &Value| v.as_u64().map(|x| x as usize);
    let (year, month, day) = (o(&c["year"]).unwrap(), o(&c["month"]), o(&c["day"]));
    let w = &c["with"];
    let s = |k: &str| w[k].as_str().unwrap().to_string();
    let kind: LawType = serde_json::from_value(w["kind"].clone()).unwrap();
    let lang: Lang = serde_json::from_value(w["lang"].clone()).unwrap();
    let num = lib::article_number::ArticleNumber::from_num_str(&s("num")).ok();
    let got = guarded(|| lib::parse_text(TEXT, year, month, day, kind.clone(), lang.clone(), num.clone(), s("lawnum"), &s("title")));
    let mut out = vec![];
    for ck in checks {
        let mut fail = |d: String| out.push((ck.clone(), d));
        if ck == "meta" {
            match &got {
                Err(p) => fail(p.clone()),
                Ok(Err(_)) if c["refuse"] == true || c["open"] == true || c["may"].as_array().is_none_or(|a| a.is_empty()) => {}
                Ok(Err(e)) => fail(format!("refused: {e}")),
                Ok(Ok(_)) if c["refuse"] == true => fail("this date does not exist or is in no era, but it was accepted".into()),
                Ok(Ok(l)) => {
                    let era = json!({"era": l.era, "year": l.year});
                    if !c["may"].as_array().is_some_and(|a| a.contains(&era)) {
                        fail(format!("dated {era}, specified {}", c["may"]))
                    }
                    if (l.promulgate_month, l.promulgate_day) != (month, day) {
                        fail(format!("month and day are {:?} {:?}", l.promulgate_month, l.promulgate_day))
                    }
                    if l.law_type != kind || l.lang != lang {
                        fail(format!("kind and language are {:?} {:?}", l.law_type, l.lang))
                    }
                    if l.num != num {
                        fail(format!("number is {:?}", l.num))
                    }
                    if l.law_num != s("lawnum") {
                        fail(format!("law number is {:?}", l.law_num))
                    }
                    let t = l.law_body.law_title.as_ref().map(|t| plain(&t.text)).unwrap_or_default();
                    if t != s("title") {
                        fail(format!("title is {t:?}"))
                    }
                }
            }
        }
        if ck == "xml" && c["blank"] != true {
            if let Ok(Ok(l)) = &got {
                if let Some(d) = xml_loss(l) {
                    fail(d)
                }
            }
        }
    }
    out
}

pub fn replay(cases: &str, checks: &str, report: &str) -> i32 {
    let cases = read_cases(cases);
    let refused = cases.iter().filter(|c| c["refuse"] == true).count();
    let ck: Vec<String> = checks.split(',').map(|s| s.to_string()).collect();
    let r = run_cases(cases.clone(), Duration::from_secs(20), move |c| check(c, &ck));
    write_report(report, &r, &cases, json!({"to be refused": refused}))
}
