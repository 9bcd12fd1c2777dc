#!/usr/bin/env python3
"""Plants one bug: seed.add(id, property, file, [(old, new)], demo, needs, breaks).
Confirms in a scratch copy that it compiles, passes the tests and that the demonstration tells it apart."""
import json, os, re, subprocess, sys, tempfile, shutil
SEEDED = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# builds demo.rs against the library in the current directory; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
work="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'find "$work" -delete' EXIT
mkdir "$work/src" "$work/scratch"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
japanese_law_xml_schema = { path = "$repo" }
serde_json = "*"
[workspace]
T
cd "$work/scratch" && CARGO_TARGET_DIR="$work/target" cargo run --offline -q --manifest-path "$work/Cargo.toml"
'''
PRE = '''use japanese_law_xml_schema::{self as lib, *};
#[allow(dead_code)]
fn text(t: &str) -> Result<law::Law, result::Error> {
    parse_text(t, 1999, Some(8), Some(13), law::LawType::Act, law::Lang::Ja, None, "平成十一年法律第百二十七号".into(), "題名")
}
#[allow(dead_code)]
fn law_xml(body: &str) -> String {
    format!("<Law Era=\\"Heisei\\" Year=\\"11\\" Num=\\"1\\" LawType=\\"Act\\" Lang=\\"ja\\"><LawNum>n</LawNum><LawBody><LawTitle>t</LawTitle>{body}</LawBody></Law>")
}
#[allow(dead_code)]
fn main_p(p: &str) -> String { law_xml(&format!("<MainProvision>{p}</MainProvision>")) }
#[allow(dead_code)]
fn article(p: &str) -> String { main_p(&format!("<Article Num=\\"1\\"><ArticleTitle>第一条</ArticleTitle>{p}</Article>")) }
#[allow(dead_code)]
fn para(p: &str) -> String { article(&format!("<Paragraph Num=\\"1\\"><ParagraphNum/>{p}</Paragraph>")) }
#[allow(dead_code)]
fn read(x: &str) -> Result<law::Law, result::Error> { parse_xml(x.as_bytes()) }
#[allow(dead_code)]
fn cycle(x: &str) {
    let l = read(x).expect("reads");
    let y = to_xml(&l).expect("writes");
    let m = read(&y).expect("reads again");
    assert_eq!(l, m, "{y}");
}
'''
def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr
def add(id, prop, file, edits, demo, needs, breaks, tests=True):
    d = os.path.join(SEEDED, id); os.makedirs(d, exist_ok=True)
    files = file if isinstance(file, list) else [file] * len(edits)
    work = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    copy = os.path.join(work, "repo")
    sh(f"cp -a /repo {copy} && git -C {copy} checkout -q -- . && git -C {copy} clean -qfd")
    for f, (old, new) in zip(files, edits):
        p = os.path.join(copy, f); s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT", f, "matches", s.count(old), repr(old[:60])); shutil.rmtree(work); return False
        open(p, "w").write(s.replace(old, new))
    _, diff = sh("git diff", copy)
    # removed lines must be lines of the original repository
    for f in set(files):
        _, bl = sh(f"git blame -s HEAD -- {f}", copy)
        orig = [("484ed67" in l.split()[0]) for l in bl.splitlines()]
        _, df = sh(f"git diff -U0 -- {f}", copy)
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", df, re.M):
            a = int(m[1]); n = int(m[2] or 1)
            bad = [i for i in range(a, a + n) if not orig[i - 1]]
            if bad: print(id, "WARNING not original lines:", f, bad)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(PRE + demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), ensure_ascii=False, indent=1)
    ok = True
    rc, o = sh(f"CARGO_TARGET_DIR={work}/t cargo test --offline -q 2>&1", copy)
    if rc != 0: print(id, "TESTS fail or does not compile\n", o[-1500:]); ok = False
    if ok:
        rc, o = sh(f"bash {d}/demo.sh", copy)
        if rc == 0: print(id, "DEMO passes on the changed tree"); ok = False
        last = [l for l in o.splitlines() if l.strip()][-3:]
        sh("git checkout -q -- .", copy)
        rc, o = sh(f"bash {d}/demo.sh", copy)
        if rc != 0: print(id, "DEMO fails on the unchanged tree\n", o[-1500:]); ok = False
    shutil.rmtree(work)
    if ok: print(id, "ok;", " | ".join(last)[:200])
    return ok
