//! XML trees as the specification writes them, and their surface syntax.
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El { t: String, a: Vec<(String, String)>, c: Vec<Node> },
    Tx { s: String, cdata: bool },
    Misc(String),
}

pub fn from_json(v: &Value) -> Node {
    if let Some(t) = v.get("t") {
        let a = v["a"]
            .as_array()
            .map(|x| {
                x.iter()
                    .map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string()))
                    .collect()
            })
            .unwrap_or_default();
        let c = v["c"].as_array().map(|x| x.iter().map(from_json).collect()).unwrap_or_default();
        Node::El { t: t.as_str().unwrap().to_string(), a, c }
    } else if let Some(x) = v.get("x") {
        Node::Tx { s: x.as_str().unwrap().to_string(), cdata: v.get("cd").is_some() }
    } else {
        Node::Misc(v["m"].as_str().unwrap().to_string())
    }
}

pub fn to_json(n: &Node) -> Value {
    match n {
        Node::El { t, a, c } => {
            let a: Vec<Value> = a.iter().map(|(k, v)| json!([k, v])).collect();
            let c: Vec<Value> = c.iter().map(to_json).collect();
            json!({"t": t, "a": a, "c": c})
        }
        Node::Tx { s, .. } => json!({ "x": s }),
        Node::Misc(m) => json!({ "m": m }),
    }
}

fn esc(s: &str, attr: bool, style: &str) -> String {
    // blank text with a line break of its own: as it stands
    if !attr && s.contains('\r') && s.chars().all(|c| " \t\r\n".contains(c)) {
        return s.to_string();
    }
    let blanks = s.contains([' ', '\t', '\n', '\r']);
    let mut o = String::new();
    for (i, ch) in s.chars().enumerate() {
        let blank = ch == ' ' || ch == '\n' || ch == '\t';
        match ch {
            '\t' | '\n' | '\r' if attr => o.push_str(&format!("&#{};", ch as u32)),
            '\r' => o.push_str("&#13;"),
            c if style == "charref" && !blank && !"&<>".contains(c) => o.push_str(&format!("&#x{:X};", c as u32)),
            c if style == "deccharref" && !blank => o.push_str(&format!("&#{:07};", c as u32)),
            c if style == "mixed" && !blank && i % 3 == 0 => o.push_str(&format!("&#x{:x};", c as u32)),
            // (the end of such a section cannot stand in one; blanks beside one: see the edge cases)
            c if style == "mixed" && !attr && !blanks && i % 3 == 1 && c != ']' && c != '>' => o.push_str(&format!("<![CDATA[{c}]]>")),
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' if attr => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}

/// Surface styles: "" plain; the declaration: nodecl, declvar, crlf (followed by CRLF), doctype, bom;
/// around the root: headcomment, tailcomment; characters: charref, deccharref, mixed;
/// tags: expand (no self-closing), single (single quotes), tagspace.
pub fn serialize(n: &Node, style: &str) -> Vec<u8> {
    let mut o = String::new();
    if style == "bom" {
        o.push('\u{feff}');
    }
    match style {
        "nodecl" => {}
        "declvar" => o.push_str("<?xml  version = '1.0'\n encoding='utf-8' standalone=\"yes\" ?>\n"),
        _ => o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"),
    }
    match style {
        "crlf" => o.push_str("\r\n"),
        "headcomment" => o.push_str("\n<!-- head -->\n<?head <Law> ?>\n\n"),
        "doctype" => o.push_str("\n<!DOCTYPE Law>\n"),
        _ => {}
    }
    ser(n, style, &mut o);
    if style == "tailcomment" {
        o.push_str("\n<!-- end --><?end x?>\n");
    }
    o.into_bytes()
}

fn ser(n: &Node, style: &str, o: &mut String) {
    let space = if style == "tagspace" { "\n " } else { "" };
    match n {
        Node::El { t, a, c } => {
            o.push('<');
            o.push_str(t);
            for (k, v) in a {
                if style == "single" {
                    o.push_str(&format!("\n {}  =  '{}'", k, esc(v, true, "").replace('\'', "&apos;")));
                } else {
                    o.push_str(&format!("{space} {}=\"{}\"", k, esc(v, true, style)));
                }
            }
            o.push_str(space);
            if c.is_empty() && style != "expand" {
                o.push_str("/>");
            } else {
                o.push('>');
                for k in c {
                    ser(k, style, o)
                }
                o.push_str("</");
                o.push_str(t);
                o.push_str(space);
                o.push('>');
            }
        }
        Node::Tx { s, cdata } => {
            if *cdata {
                o.push_str("<![CDATA[");
                o.push_str(&s.replace("]]>", "]]]]><![CDATA[>"));
                o.push_str("]]>");
            } else {
                o.push_str(&esc(s, false, style))
            }
        }
        Node::Misc(m) if m == "pi" => o.push_str("<?note a b?>"),
        Node::Misc(_) => o.push_str("<!-- 注 <x> & -->"),
    }
}

pub fn from_xmltree(e: &xmltree::Element) -> Node {
    let a = e.attributes.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let c = e
        .children
        .iter()
        .map(|n| match n {
            xmltree::XMLNode::Element(e) => from_xmltree(e),
            xmltree::XMLNode::Text(s) => Node::Tx { s: s.clone(), cdata: false },
            xmltree::XMLNode::CData(s) => Node::Tx { s: s.clone(), cdata: true },
            xmltree::XMLNode::Comment(_) => Node::Misc("comment".into()),
            xmltree::XMLNode::ProcessingInstruction(..) => Node::Misc("pi".into()),
        })
        .collect();
    let t = match &e.prefix {
        Some(p) => format!("{}:{}", p, e.name),
        None => e.name.clone(),
    };
    Node::El { t, a, c }
}

pub fn read(xml: &[u8]) -> Result<Node, String> {
    let e = xmltree::Element::parse(xml).map_err(|e| format!("written document is not well-formed: {e}"))?;
    Ok(from_xmltree(&e))
}

/// Information content: attributes sorted, text merged, blanks and comments gone.
pub fn canon(n: &Node) -> Node {
    match n {
        Node::El { t, a, c } => {
            let mut a = a.clone();
            a.sort();
            let mut out: Vec<Node> = Vec::new();
            for k in c {
                match k {
                    Node::Misc(_) => {}
                    Node::Tx { s, .. } => {
                        if let Some(Node::Tx { s: p, .. }) = out.last_mut() {
                            p.push_str(s);
                        } else {
                            out.push(Node::Tx { s: s.clone(), cdata: false })
                        }
                    }
                    e => out.push(canon(e)),
                }
            }
            out.retain(|n| match n {
                Node::Tx { s, .. } => !s.chars().all(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r'),
                _ => true,
            });
            Node::El { t: t.clone(), a, c: out }
        }
        x => x.clone(),
    }
}

/// First difference between two canonical trees.
pub fn diff(a: &Node, b: &Node, path: &str) -> Option<String> {
    match (a, b) {
        (Node::El { t, a: aa, c }, Node::El { t: t2, a: aa2, c: c2 }) => {
            if t != t2 {
                return Some(format!("{path}: element {t2} expected, {t} found"));
            }
            let path = format!("{path}/{t}");
            if aa != aa2 {
                return Some(format!("{path}: attributes {aa2:?} expected, {aa:?} found"));
            }
            for (x, y) in c.iter().zip(c2) {
                if let Some(d) = diff(x, y, &path) {
                    return Some(d);
                }
            }
            if c.len() != c2.len() {
                let extra = if c.len() > c2.len() { &c[c2.len()] } else { &c2[c.len()] };
                return Some(format!(
                    "{path}: {} children expected, {} found; first unmatched: {}",
                    c2.len(),
                    c.len(),
                    short(&to_json(extra).to_string())
                ));
            }
            None
        }
        (Node::Tx { s, .. }, Node::Tx { s: s2, .. }) if s == s2 => None,
        _ => Some(format!("{path}: {} expected, {} found", short(&to_json(b).to_string()), short(&to_json(a).to_string()))),
    }
}

pub fn short(s: &str) -> String {
    let t: String = s.chars().take(240).collect();
    t
}

/// JSON values modulo absent = null and {} = [].
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let m2: serde_json::Map<String, Value> =
                m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), norm(v))).collect();
            if m2.is_empty() {
                Value::Array(vec![])
            } else {
                Value::Object(m2)
            }
        }
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        x => x.clone(),
    }
}

pub fn vdiff(found: &Value, want: &Value, path: &str) -> Option<String> {
    match (found, want) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in b {
                match a.get(k) {
                    None => return Some(format!("{path}.{k}: {} expected, absent", short(&v.to_string()))),
                    Some(x) => {
                        if let Some(d) = vdiff(x, v, &format!("{path}.{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, v) in a {
                if !b.contains_key(k) {
                    return Some(format!("{path}.{k}: absent expected, {} found", short(&v.to_string())));
                }
            }
            None
        }
        (Value::Array(a), Value::Array(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = vdiff(x, y, &format!("{path}[{i}]")) {
                    return Some(d);
                }
            }
            if a.len() != b.len() {
                return Some(format!("{path}: {} entries expected, {} found", b.len(), a.len()));
            }
            None
        }
        (a, b) if a == b => None,
        (a, b) => Some(format!("{path}: {} expected, {} found", short(&b.to_string()), short(&a.to_string()))),
    }
}
