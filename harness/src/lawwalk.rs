//! Lists of whole laws (LawWalk.tla), made by the library.
use crate::docs::{law_of, read_law};
use crate::tree::*;
use crate::util::*;
use crate::walk::{list, place, s, show};
use japanese_law_xml_schema as lib;
use lib::article::Article;
use lib::paragraph::Paragraph;
use lib::utils::*;
use serde_json::{json, Value};
use std::time::Duration;

/// The law the case is about; None when neither JSON nor XML brings it in unharmed (which other checks report).
fn law(c: &Value) -> Option<lib::law::Law> {
    let want = norm(&c["v"]);
    let same = |l: &lib::law::Law| serde_json::to_value(l).ok().is_some_and(|j| vdiff(&norm(&j), &want, "law").is_none());
    law_of(&c["v"]).ok().filter(same).or_else(|| read_law(&serialize(&from_json(&c["tree"]), "")).ok().filter(same))
}

fn texts(l: &[Paragraph], want: &Value, what: &str, joined: Result<String, String>) -> Option<String> {
    let got = match guarded(|| text_info_list_from_paragraph(l)) {
        Err(e) => return Some(format!("{what}: {e}")),
        Ok(x) => x,
    };
    let want = list(want);
    let mut all = vec![];
    for i in 0..got.len().max(want.len()) {
        let (g, w) = match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) => (g, w),
            (g, w) => return Some(format!("{what}: entry {i} is {g:?}, specified {w:?}")),
        };
        let items: Vec<String> = g.0.items.iter().map(show).collect();
        if show(&Some(g.0.paragraph.clone())) != s(&w["p"]) || json!(items) != json!(list(&w["items"])) {
            return Some(format!("{what}: entry {i} is at {:?} {items:?}, specified {w}", show(&Some(g.0.paragraph.clone()))));
        }
        // (where the specification leaves the text open, only the place counts)
        if w["text"]["ok"] == true && w["text"]["s"] != g.1.as_str() {
            return Some(format!("{what}: entry {i} is {:?}, specified {}", g.1, w["text"]["s"]));
        }
        all.push(g.1.clone());
    }
    match joined {
        Err(e) => Some(format!("{what}: {e}")),
        Ok(t) if t != all.join("\n") => Some(format!("{what}: the text as a whole is {t:?}, its entries are {all:?}")),
        Ok(_) => None,
    }
}

/// the part of the value a path of positions and names leads to
fn at<'a>(v: &'a Value, path: &Value) -> Option<&'a Value> {
    let mut v = v;
    for p in path.as_array()? {
        v = v["children"].get(p[0].as_str()?.parse::<usize>().ok()?)?;
        if p[1] != "" {
            v = &v[p[1].as_str()?]
        }
    }
    Some(v)
}

fn check(c: &Value, what: &str) -> Vec<(String, String)> {
    let Some(law) = law(c) else { return vec![("skip".into(), String::new())] };
    let mut out = vec![];
    let b = &law.law_body;
    for (i, p) in list(&c["provs"]).iter().enumerate() {
        let name = if i == 0 { "main provision".to_string() } else { format!("supplementary provision {i}") };
        let r = guarded(|| {
            if i == 0 {
                let m = &b.main_provision;
                (with_number_article_list_from_main_provision(m), article_list_from_main_provision(m), toc_list_from_main_provision(m))
            } else {
                let m = &b.suppl_provision[i - 1];
                (with_number_article_list_from_suppl_provision(m), article_list_from_suppl_provision(m), toc_list_from_suppl_provision(m))
            }
        });
        let ((a, g), (a2, g2), toc) = match r {
            Err(e) => {
                out.push((what.to_string(), e));
                continue;
            }
            Ok(x) => x,
        };
        let want = list(&p["arts"]);
        let groups = list(&p["groups"]);
        let value = if i == 0 { &c["v"]["law_body"]["main_provision"] } else { &c["v"]["law_body"]["suppl_provision"][i - 1] };
        let is = |x: &Article, w: &Value| at(value, &w["path"]).is_some_and(|w| vdiff(&norm(&serde_json::to_value(x).unwrap()), &norm(w), "").is_none());
        let mut fail = |d: String| out.push((what.to_string(), format!("{name}: {d}")));
        match what {
            "articles" => {
                if a.len() != want.len() || a2.len() != want.len() {
                    fail(format!("{} and {} articles are listed, specified {}", a.len(), a2.len(), want.len()));
                    continue;
                }
                for (k, w) in want.iter().enumerate() {
                    let x = &a[k];
                    let got = place([x.get_part(), x.get_chapter(), x.get_section(), x.get_subsection(), x.get_division()]);
                    if got != w["at"] {
                        fail(format!("article {k} is listed in {got}, specified {}", w["at"]))
                    }
                    if !is(&x.get_article(), w) || !is(&a2[k], w) {
                        fail(format!("article {k} is not the one at {}", w["path"]))
                    }
                }
                let want: Vec<Value> = groups.iter().map(|g| json!(list(&g["nums"]))).collect();
                for g in [&g, &g2] {
                    let got: Vec<Value> = g.iter().map(|v| json!(v.iter().map(|p| show(&Some(p.num.clone()))).collect::<Vec<_>>())).collect();
                    if got != want {
                        fail(format!("paragraphs are grouped {got:?}, specified {want:?}"))
                    }
                }
                // the paragraphs themselves
                let ps: Vec<Value> = g.iter().flatten().map(|p| norm(&serde_json::to_value(p).unwrap())).collect();
                let bare: Vec<Value> = list(&value["children"]).iter().filter(|x| x.get("Paragraph").is_some()).map(|x| norm(&x["Paragraph"])).collect();
                if ps.len() != bare.len() || ps.iter().zip(&bare).any(|(p, b)| vdiff(p, b, "").is_some()) || g != g2 {
                    fail("the grouped paragraphs are not those of the provision".into())
                }
            }
            "toc" => {
                let got: Vec<Value> = toc
                    .iter()
                    .map(|t| {
                        json!({"at": place([t.get_part(), t.get_chapter(), t.get_section(), t.get_subsection(), t.get_division()]),
                               "article": show(&t.get_article()), "title": t.get_title().unwrap_or("(none)".into())})
                    })
                    .collect();
                let want = list(&p["toc"]);
                for i in 0..got.len().max(want.len()) {
                    if got.get(i) != want.get(i) {
                        fail(format!("entry {i} is {:?}, specified {:?}", got.get(i), want.get(i)));
                        break;
                    }
                }
            }
            _ => {
                // on the value's own articles, whether listed or not
                for w in &want {
                    let Some(Ok(x)) = at(value, &w["path"]).map(|v| serde_json::from_value::<Article>(v.clone())) else { continue };
                    if let Some(d) = texts(&x.paragraph, &w["text"], &format!("article at {}", w["path"]), guarded(|| text_from_article(&x))) {
                        fail(d)
                    }
                }
                let bare: Vec<Paragraph> =
                    list(&value["children"]).iter().filter_map(|x| x.get("Paragraph")).filter_map(|x| serde_json::from_value(x.clone()).ok()).collect();
                let mut rest = &bare[..];
                for (k, w) in groups.iter().enumerate() {
                    let n = list(&w["nums"]).len().min(rest.len());
                    let (here, r) = rest.split_at(n);
                    rest = r;
                    if let Some(d) = texts(here, &w["text"], &format!("group {k} of paragraphs"), guarded(|| text_from_paragraph_list(here))) {
                        fail(d)
                    }
                }
            }
        }
    }
    out
}

pub fn replay(what: &str, cases: &str, report: &str) -> i32 {
    let cases = read_cases(cases);
    let what = what.to_string();
    let n = |k: &str| -> usize { cases.iter().map(|c| list(&c["provs"]).iter().map(|p| list(&p[k]).len()).sum::<usize>()).sum() };
    let (arts, toc) = (n("arts"), n("toc"));
    let mut r = run_cases(cases.clone(), Duration::from_secs(20), move |c| check(c, &what));
    let skipped = r.fails.iter().filter(|f| f["what"] == "skip").count();
    r.fails.retain(|f| f["what"] != "skip");
    write_report(report, &r, &cases, json!({"articles": arts, "entries": toc, "laws not brought in": skipped}))
}
