//! Conformance harness: replays behaviours of the TLA+ specifications into the
//! library, and records what the library does for the specifications to judge.
mod corrupt;
mod docs;
mod io;
mod meta;
mod lawwalk;
mod nums;
mod rng;
mod text;
mod textfuzz;
mod tree;
mod util;
mod walk;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    // deep documents recurse in the XML library: give everything a large stack
    let args = a.clone();
    let code = match cmd {
        "docs" => run(move || docs::replay(&args[2], &args[3], &args[4])),
        "nums" => run(move || nums::replay(&args[2], &args[3])),
        "meta" => run(move || meta::replay(&args[2], &args[3], &args[4])),
        "walk" => run(move || walk::replay(&args[2], &args[3], &args[4])),
        "lawwalk" => run(move || lawwalk::replay(&args[2], &args[3], &args[4])),
        "sink" => run(move || io::sink(&args[2], &args[3])),
        "files" => run(move || io::files(&args[2], &args[3], &args[4])),
        "text" => run(move || text::replay(&args[2], &args[3], &args[4])),
        // textfuzz CASES N SEED wild|sharp KEEP TRACES REPORT
        "textfuzz" => run(move || {
            textfuzz::run(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5] == "wild", args[6].parse().unwrap(), &args[7], &args[8])
        }),
        "one" => run(move || {
            let b = std::fs::read(&args[2]).unwrap();
            match docs::read_law(&b) {
                Err(e) => println!("{e}"),
                Ok(l) => {
                    println!("{}", serde_json::to_string_pretty(&l).unwrap());
                    let w = docs::write_law(&l);
                    println!("{w:?}");
                    println!("re-read equal: {}", w.ok().and_then(|w| docs::read_law(w.as_bytes()).ok()) == Some(l));
                }
            }
            0
        }),
        "onetext" => run(move || {
            let t = std::fs::read_to_string(&args[2]).unwrap();
            let r = util::guarded(|| {
                japanese_law_xml_schema::parse_text(
                    &t, 1999, Some(8), Some(13), japanese_law_xml_schema::law::LawType::Act, japanese_law_xml_schema::law::Lang::Ja, None,
                    "平成十一年法律第百二十七号".into(), "題名",
                )
            });
            match r {
                Err(p) => println!("{p}"),
                Ok(Err(e)) => println!("error: {e}"),
                Ok(Ok(l)) => {
                    println!("{}", serde_json::to_string_pretty(&l.law_body).unwrap());
                    println!("lost in XML: {:?}", text::xml_loss(&l));
                }
            }
            0
        }),
        "corrupt" => run(move || corrupt::run(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5] == "roundtrip", &args[6])),
        "mutants" => run(move || corrupt::mutants(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5])),
        "pieces" => run(move || corrupt::pieces(&args[2], &args[3], args[4] == "whole")),
        "written" => run(move || corrupt::written(&args[2], &args[3])),
        _ => {
            eprintln!("usage: jlaw_harness docs CASES CHECKS REPORT");
            2
        }
    };
    std::process::exit(code);
}

fn run<F: FnOnce() -> i32 + Send + 'static>(f: F) -> i32 {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or(3)
}
