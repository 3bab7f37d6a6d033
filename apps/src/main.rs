//! apps <cases> <cli binary> <scratch dir> <replay>: the command line tool and the JavaScript
//! functions against what the library itself gives (computed by `vh cases P17`).
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};

const MAX: usize = 10 * 1024 * 1024;
fn cli(bin: &str, dir: &str, c: &Value, n: usize, decode: bool, pretty: bool, delim: &str) -> Result<String, String> {
    let input = c["input"].as_str().unwrap();
    let mut cmd = Command::new(bin);
    if decode {
        cmd.arg(if n % 2 == 0 { "-d" } else { "--decode" });
    }
    match delim {
        "," if n % 3 == 0 => {}
        "," => {
            cmd.args(["--delimiter", "comma"]);
        }
        "\t" => {
            cmd.args(["--delimiter", "tab"]);
        }
        _ => {
            cmd.args(["--delimiter=pipe"]);
        }
    }
    if n % 5 == 0 {
        cmd.arg("--strict");
    }
    if pretty {
        cmd.arg("--pretty");
    }
    // from a file, or on standard input
    let out = if n % 2 == 0 {
        let f = format!("{dir}/in");
        std::fs::write(&f, input).unwrap();
        cmd.arg(&f).stdin(Stdio::null()).output().unwrap()
    } else {
        let mut p = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
        let _ = p.stdin.take().unwrap().write_all(input.as_bytes());
        p.wait_with_output().unwrap()
    };
    let text = String::from_utf8(out.stdout).map_err(|_| "output is no UTF-8".to_string())?;
    match out.status.code() {
        Some(0) => Ok(text),
        Some(1) if text.is_empty() => Err("rejected".into()),
        x => Err(format!("exit {x:?} with output {text:?}")),
    }
}
fn check(c: &Value, bin: &str, dir: &str, n: usize) -> Option<String> {
    let input = c["input"].as_str().unwrap();
    let delim = c["delim"].as_str().unwrap();
    let dec = c["op"] == "decode";
    let want = |strict: bool, pretty: bool| -> Result<String, String> {
        let w = &c[if strict { "strict" } else { "lenient" }];
        if w.is_null() { Err("rejected".into()) } else { Ok(w[if pretty && dec { 1 } else { 0 }].as_str().unwrap().to_string()) }
    };
    // the tool: strict, ends its output with one newline
    let pretty = n % 4 < 2;
    let got = cli(bin, dir, c, n, dec, pretty, delim);
    let w = want(true, pretty).map(|s| s + "\n");
    if got != w {
        return Some(format!("toon-cli gives {got:?}, the library {w:?}"));
    }
    // the functions for JavaScript
    for strict in [false, true] {
        if dec {
            for pretty in [false, true] {
                let got = toon_wasm::toon_to_json(input, strict, pretty).map_err(|_| "rejected".to_string());
                if got != want(strict, pretty) {
                    return Some(format!("toon_to_json(strict {strict}, pretty {pretty}) gives {got:?}, the library {:?}", want(strict, pretty)));
                }
            }
        } else if delim != "\t" {
            let got = toon_wasm::json_to_toon(input, delim == "|", strict).map_err(|_| "rejected".to_string());
            if got != want(strict, false) {
                return Some(format!("json_to_toon(pipe {}, strict {strict}) gives {got:?}, the library {:?}", delim == "|", want(strict, false)));
            }
        }
    }
    None
}
/// The size limit, exactly: inputs at the limit pass, one byte more is refused before any parsing.
fn limit() -> Option<String> {
    for over in [0usize, 1, 2, 1000] {
        let body = "x".repeat(MAX + over - 2);
        let json = format!("\"{body}\"");
        let toon = format!("{body}yy");
        for (what, got) in [("json_to_toon", toon_wasm::json_to_toon(&json, false, true)), ("toon_to_json", toon_wasm::toon_to_json(&toon, true, false))] {
            match (over, got) {
                (0, Ok(_)) => {}
                (1.., Err(e)) if e.contains("maximum size") => {}
                (_, g) => return Some(format!("{what} on {} bytes ({over} over the limit): {}", MAX + over, g.map(|_| "accepted".to_string()).unwrap_or_else(|e| e))),
            }
        }
        // too long in bytes, though not in characters
        let wide = "é".repeat((MAX + over) / 2) + &"x".repeat((MAX + over) % 2);
        if toon_wasm::toon_to_json(&wide, true, false).is_ok() != (over == 0) {
            return Some(format!("toon_to_json on {} bytes of two-byte characters", wide.len()));
        }
        // too long, and otherwise invalid
        if over > 0 {
            let junk = "{".repeat(MAX + over);
            match toon_wasm::json_to_toon(&junk, true, false) {
                Err(e) if e.contains("maximum size") => {}
                x => return Some(format!("json_to_toon on {} bytes of junk: {x:?}", MAX + over)),
            }
        }
    }
    None
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let secs: f64 = a[5].parse().unwrap();
    let t0 = std::time::Instant::now();
    let mut n = 0;
    let mut nontrivial = 0;
    let mut bad = limit().map(|w| (json!({"limit": MAX}), w));
    if bad.is_none() {
        for l in f.lines() {
            if t0.elapsed().as_secs_f64() > secs {
                break;
            }
            let c: Value = serde_json::from_str(&l.unwrap()).unwrap();
            if let Some(w) = check(&c, &a[2], &a[3], n) {
                bad = Some((c, w));
                break;
            }
            n += 1;
            if !c["strict"].is_null() && c["input"].as_str().unwrap().len() > 2 {
                nontrivial += 1;
            }
        }
    }
    let mut out = json!({"evaluations": n, "distinct_nontrivial": nontrivial, "rule": "random JSON and TOON texts through the command line tool (file and standard input, every option) and the JavaScript functions, against the library; plus inputs at and just over the size limit; non-trivial: accepted input of more than 2 bytes", "samples": []});
    if let Some((c, w)) = bad {
        std::fs::write(&a[4], serde_json::to_string_pretty(&json!({"property": "P17", "case": c, "what": w})).unwrap()).unwrap();
        out["violation"] = json!(w);
        println!("{out}");
        std::process::exit(1);
    }
    println!("{out}");
}
