//! variant <cases> <results>: runs each case (one JSON per line) on this build of the crate and
//! writes one line of result per case.
#[allow(dead_code)]
#[path = "../refenc.rs"]
mod refenc;
#[allow(dead_code)]
#[path = "../typed.rs"]
mod typed;
#[allow(dead_code)]
#[path = "../util.rs"]
mod util;
use serde_json::Value;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use toon_rs::{Options, decode_from_str, encode_to_string, ser};
use util::*;

fn ok<T: std::fmt::Debug, E>(r: Result<T, E>) -> String {
    match r {
        Ok(x) => format!("{x:?}"),
        Err(_) => "rejected".into(),
    }
}
fn enc<T: serde::Serialize>(v: &T, o: &Options) -> String {
    format!("{} | {}", ok(encode_to_string(v, o)), ok(ser::to_string_streaming(v, o)))
}
fn run(c: &Value) -> String {
    let o = opts_of(c);
    if let Some(t) = c["text"].as_str() {
        let mut s = ok(decode_from_str::<Tree>(t, &o));
        s += &format!(" | {}", ok(decode_from_str::<Value>(t, &o)));
        if c["ty"] == true {
            macro_rules! ty { ($($t:ty),*) => { $( s += &format!(" | {}", ok(decode_from_str::<$t>(t, &o))); )* } }
            ty!(typed::Rec, Vec<typed::Rec>, typed::Shape, typed::Tree2, typed::Mixed, typed::Loose, std::collections::BTreeMap<String, typed::Loose>, (u8, String), Vec<f64>, Option<String>);
        }
        s
    } else if let Some(seed) = c["seed"].as_u64() {
        let mut r = R::new(seed);
        let d = 1 + r.b(3);
        enc(&typed::node(&mut r, d), &o)
    } else {
        enc(&c["v"], &o)
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let f = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
            let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
            for l in f.lines() {
                let c: Value = serde_json::from_str(&l.unwrap()).unwrap();
                let s = catch_unwind(AssertUnwindSafe(|| run(&c))).unwrap_or("panic".into());
                writeln!(out, "{}", s.replace('\n', "\\n")).unwrap();
            }
            out.flush().unwrap();
        })
        .unwrap();
    h.join().unwrap();
}
