//! One executable statement per property: `gen` makes a case, `check` decides it against the real crate.
use crate::refenc::{Fault, Kind, W, columns};
use crate::typed;
use crate::util::*;
use serde_json::{Map, Value, json};
use std::collections::HashSet;
use std::result::Result;
use toon_rs::*;

pub struct Prop {
    pub id: &'static str,
    pub make: fn(&mut R, u64) -> Value,
    pub check: fn(&Value) -> Out,
    pub rule: &'static str,
}
pub const PROPS: &[Prop] = &[
    Prop { id: "P01", make: g01, check: c01, rule: "random JSON values to depth 4 over hostile atoms (delimiters, quotes, controls, Unicode spaces, number look-alikes) x delimiter x unit {1,2,3,4,8} x strict, encode then decode; non-trivial: the value is a non-empty container" },
    Prop { id: "P02", make: g02, check: c02, rule: "every string of up to 2 characters over ASCII + hostile atoms, then random strings, put in 10 positions (root, field, key, nested key, inline item, list item, cell, column, item key, nested array item); and random escape sequences in literals against an independent JSON-escape oracle; non-trivial: string of at least one character / literal with a backslash" },
    Prop { id: "P03", make: g03, check: c03, rule: "every token of up to 4 characters over 0 1 5 - + . e E x, edge integers, then random tokens, in 5 unquoted positions against an independent classifier; and random strings whose bare spelling the encoder chose; non-trivial: token contains a digit" },
    Prop { id: "P04", make: g04, check: c04, rule: "integers, f64 bit patterns, decimal scalings and f32, non-finite too, at 12 positions and 4 entry points; non-trivial: not a small integer" },
    Prop { id: "P05", make: g05, check: c05, rule: "all short line sequences over a structural vocabulary, mutated encoder output and structural-atom soup, decoded under every option combination as value, as typed data and through the low-level entry points; non-trivial: text of at least 2 lines" },
    Prop { id: "P06", make: g06, check: c06, rule: "well-formed documents by an independent writer, with one array's declared length or one table row's cell count made wrong; non-trivial: the fault is in a nested array or in a row" },
    Prop { id: "P07", make: g07, check: c07, rule: "mutated documents and structural soup, strict against lenient, plus deletion of each line of accepted documents and a blank line put between two rows or items; non-trivial: strict accepts a text of at least 2 lines" },
    Prop { id: "P08", make: g08, check: c08, rule: "well-formed documents with extra leading spaces or tabs put on some lines, against the rule; non-trivial: some line was re-indented" },
    Prop { id: "P09", make: g09, check: c09, rule: "arrays that are tables or nearly, at root, field, item-first-field and later-field positions, through every encoder; non-trivial: at least 2 elements, first an object" },
    Prop { id: "P10", make: g10, check: c10, rule: "random values x delimiter x unit x folding, through every encoder; non-trivial: output of at least 2 lines" },
    Prop { id: "P11", make: g11, check: c11, rule: "random values rich in single-key chains, without literal dotted identifier keys, x flatten depth; non-trivial: some key was folded" },
    Prop { id: "P12", make: g12, check: c12, rule: "random documents of dotted, quoted and plain keys with repeats against an independent merge; non-trivial: some key expands" },
    Prop { id: "P13", make: g13, check: c13, rule: "random serde data-model trees (structs, tuples, variants, maps, options, bytes, chars, floats) through every encoding entry point; non-trivial: a container" },
    Prop { id: "P14", make: g14, check: c14, rule: "encoder output and mutated texts decoded through every decoding entry point and as typed data; non-trivial: decodes to a container" },
    Prop { id: "P16", make: g16, check: c16, rule: "random values of 14 derived Rust types encoded and decoded under random options; non-trivial: all" },
    Prop { id: "P18", make: g18, check: c18, rule: "random documents and values: encode, decode, encode again; non-trivial: output of at least 2 lines" },
    Prop { id: "P19", make: g19, check: c19, rule: "random values in random equivalent spellings (quoted or bare, table or list, inline or list, own delimiter per array, padding, any escape form) by an independent writer; non-trivial: at least 2 lines" },
];

fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
macro_rules! bad { ($($a:tt)*) => { return Out::Bad(format!($($a)*)) } }
fn nontriv(v: &Value) -> Out {
    match v {
        Value::Array(a) if !a.is_empty() => Out::Good,
        Value::Object(a) if !a.is_empty() => Out::Good,
        _ => Out::Trivial,
    }
}

// ---------------------------------------------------------------- P01
fn g01(r: &mut R, _: u64) -> Value {
    let d = 1 + r.b(4);
    let v = if r.p(1, 4) { simple_val(r, d) } else { val(r, d) };
    json!({"v": v, "o": opts_case(r)})
}
fn c01(c: &Value) -> Out {
    let (v, o) = (&c["v"], opts_of(c));
    let t = match encode_to_string(v, &o) {
        Ok(t) => t,
        Err(e) => bad!("encoding fails: {e}"),
    };
    let b: Value = match decode_from_str(&t, &o) {
        Ok(b) => b,
        Err(e) => bad!("its own output is rejected: {e}; text {t:?}"),
    };
    if !jeq(v, &b) {
        bad!("decodes to {b}; text {t:?}")
    }
    // the delimiter is declared in the text: decoding does not depend on the option
    let mut o2 = o.clone();
    o2.delimiter = [Delimiter::Comma, Delimiter::Tab, Delimiter::Pipe][t.len() % 3];
    match decode_from_str::<Value>(&t, &o2) {
        Ok(b) if jeq(v, &b) => {}
        x => bad!("under decoding delimiter {:?}: {x:?}; text {t:?}", o2.delimiter),
    }
    nontriv(v)
}

// ---------------------------------------------------------------- P02
fn place(s: &str, pos: u64) -> Value {
    match pos {
        0 => json!(s),
        1 => json!({"k": s}),
        2 => { let mut m = Map::new(); m.insert(s.into(), json!(1)); Value::Object(m) }
        3 => { let mut m = Map::new(); m.insert(s.into(), json!({"q": s})); json!({"o": m}) }
        4 => json!([s, "x", s]),
        5 => json!({"l": [s, [], {"a": {}}]}),
        6 => json!([{"a": s, "b": 1}, {"a": "y", "b": s}]),
        7 => { let mut m = Map::new(); m.insert(s.into(), json!(1)); m.insert(format!("{s}z"), json!(s)); json!({"t": [m]}) }
        8 => { let mut m = Map::new(); m.insert(s.into(), json!(s)); m.insert(format!("{s}z"), json!([s])); m.insert(format!("{s}y"), json!({})); json!([[1], m]) }
        9 => json!([[s], [1, s]]),
        10 => { let mut m = Map::new(); m.insert(s.into(), json!([{"a": s}])); m.insert(format!("{s}z"), json!({"n": s})); json!([m]) }
        _ => { let mut m = Map::new(); m.insert(s.into(), json!([[s], {"a": [s]}])); json!([m, s]) }
    }
}
fn small_string(i: u64) -> Option<String> {
    let n = (96 + AT.len()) as u64;
    let ch = |k: u64| -> String {
        if k < 96 { char::from(32 + k as u8).to_string() } else { AT[(k - 96) as usize].to_string() }
    };
    if i < n {
        Some(ch(i))
    } else if i < n + n * n {
        let j = i - n;
        Some(ch(j / n) + &ch(j % n))
    } else {
        None
    }
}
fn g02(r: &mut R, i: u64) -> Value {
    if i % 3 == 2 {
        let n = r.b(6);
        let mut s = String::new();
        for _ in 0..n {
            match r.b(6) {
                0 => s.push_str(*r.pick(&["\\\"", "\\\\", "\\n", "\\r", "\\t", "\\b", "\\f", "\\/"])),
                1 => s.push_str(&format!("\\u{:04x}", any_char(r) as u32 & 0xffff)),
                2 => s.push_str(&format!("\\u{:04X}", r.b(0x10000))),
                3 => s.push_str(*r.pick(&["\\x", "\\", "\\u", "\\u12", "\\u12g4", "\\U0041", "\\'", "\\0", "\\a", "\\v", "\\u+041", "\\N", "\\é", "\\u00e", "\\ "])),
                _ => s.push_str(*r.pick(AT)),
            }
        }
        let s: String = s.chars().filter(|c| *c != '\n').collect();
        return json!({"s": s, "k": "lit", "pos": r.b(7), "o": opts_case(r)});
    }
    let j = i / 3 * 2 + i % 3;
    let s = small_string(j / 2).unwrap_or_else(|| string(r));
    json!({"s": s, "k": "str", "pos": if j % 2 == 0 {r.b(12)} else {[0, 1, 2, 4, 6][r.b(5)]}, "o": opts_case(r)})
}
/// JSON string escapes, independently.
fn unescape(s: &str) -> Result<String, ()> {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '\\' {
            o.push(c[i]);
            i += 1;
            continue;
        }
        let e = *c.get(i + 1).ok_or(())?;
        i += 2;
        o.push(match e {
            '"' | '\\' | '/' => e,
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'u' => {
                if i + 4 > c.len() || !c[i..i + 4].iter().all(|x| x.is_ascii_hexdigit()) {
                    return Err(());
                }
                let h: String = c[i..i + 4].iter().collect();
                i += 4;
                char::from_u32(u32::from_str_radix(&h, 16).unwrap()).ok_or(())?
            }
            _ => return Err(()),
        });
    }
    Ok(o)
}
/// Is the text between two quotes one literal's body: no bare quote, and the last quote not escaped?
fn one_literal(s: &str) -> bool {
    let mut esc = false;
    for c in s.chars() {
        if esc {
            esc = false
        } else if c == '\\' {
            esc = true
        } else if c == '"' {
            return false;
        }
    }
    !esc
}
fn c02(c: &Value) -> Out {
    let s = c["s"].as_str().unwrap();
    let pos = c["pos"].as_u64().unwrap();
    let o = opts_of(c);
    if c["k"] == "str" {
        let v = place(s, pos);
        let t = match encode_to_string(&v, &o) {
            Ok(t) => t,
            Err(e) => bad!("encoding {v} fails: {e}"),
        };
        match decode_from_str::<Value>(&t, &o) {
            Ok(b) if jeq(&v, &b) => {}
            Ok(b) => bad!("{v} is written {t:?}, which reads as {b}"),
            Err(e) => bad!("{v} is written {t:?}, which is rejected: {e}"),
        }
        return if s.is_empty() { Out::Trivial } else { Out::Good };
    }
    // literals: closed and unterminated
    let closed = one_literal(s);
    let lit = if closed { format!("\"{s}\"") } else { return Out::Trivial };
    let (text, expect): (String, fn(String) -> Value) = match pos {
        0 => (lit, |x| json!(x)),
        1 => (format!("x: {lit}"), |x| json!({"x": x})),
        2 => (format!("{lit}: 1"), |x| { let mut m = Map::new(); m.insert(x, json!(1)); Value::Object(m) }),
        3 => (format!("[2]: {lit},1"), |x| json!([x, 1])),
        4 => (format!("[1]:\n{}- {lit}", " ".repeat(o.indent)), |x| json!([x])),
        5 => (format!("[1]{{a,b}}:\n{}{lit},2", " ".repeat(o.indent)), |x| json!([{"a": x, "b": 2}])),
        _ => (format!("[1]{{{lit}}}:\n{}2", " ".repeat(o.indent)), |x| { let mut m = Map::new(); m.insert(x, json!(2)); json!([m]) }),
    };
    let got = decode_from_str::<Value>(&text, &o);
    match (unescape(s), got) {
        (Ok(x), Ok(b)) => {
            if b != expect(x.clone()) {
                bad!("{text:?} reads as {b}, expected {}", expect(x))
            }
        }
        (Ok(_), Err(e)) => bad!("valid literal rejected: {text:?}: {e}"),
        (Err(_), Ok(b)) => bad!("bad escape accepted: {text:?} reads as {b}"),
        (Err(_), Err(_)) => {}
    }
    // the same literal without its closing quote
    if !s.contains(':') && !s.contains('[') {
        let open = match pos {
            0 => format!("\"{s}"),
            1 => format!("x: \"{s}"),
            3 => format!("[1]: \"{s}"),
            4 => format!("[1]:\n{}- \"{s}", " ".repeat(o.indent)),
            _ => return if s.contains('\\') { Out::Good } else { Out::Trivial },
        };
        if let Ok(b) = decode_from_str::<Value>(&open, &o) {
            bad!("unterminated literal accepted: {open:?} reads as {b}")
        }
    }
    if s.contains('\\') { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P03
const TA: &[char] = &['0', '1', '5', '-', '+', '.', 'e', 'E', 'x'];
fn g03(r: &mut R, i: u64) -> Value {
    let k = i / 2;
    let s = if i % 2 == 0 {
        let mut j = k;
        let mut len = 1;
        let mut cap = TA.len() as u64;
        while len <= 4 && j >= cap {
            j -= cap;
            cap *= TA.len() as u64;
            len += 1;
        }
        if len <= 4 {
            let mut s = String::new();
            for _ in 0..len {
                s.push(TA[(j % TA.len() as u64) as usize]);
                j /= TA.len() as u64;
            }
            s
        } else if r.p(1, 2) {
            number_like(r)
        } else {
            // neighbours of the integer limits, long digit strings
            match r.b(5) {
                0 => (i64::MAX as i128 + r.b(5) as i128 - 2).to_string(),
                1 => (i64::MIN as i128 + r.b(5) as i128 - 2).to_string(),
                2 => (u64::MAX as i128 + r.b(5) as i128 - 2).to_string(),
                3 => (0..1 + r.b(40)).map(|_| *r.pick(&['1', '0', '9', '5'])).collect(),
                _ => num(r).to_string(),
            }
        }
    } else {
        match r.b(4) {
            0 => number_like(r),
            1 => r.pick(&["true", "false", "null", "True", "NULL", "nil", "~", "yes", "t", "truee", "nul", "none", "TRUE", "Null", "undefined", "NaN", "Infinity", "-Infinity", "inf"]).to_string(),
            _ => string(r),
        }
    };
    json!({"s": s, "pos": r.b(5), "o": opts_case(r)})
}
/// What an unquoted token means.
pub fn classify(t: &str) -> Value {
    match t {
        "true" => return json!(true),
        "false" => return json!(false),
        "null" => return Value::Null,
        _ => {}
    }
    let b = t.as_bytes();
    let mut i = 0;
    let neg = b.first() == Some(&b'-');
    if neg || b.first() == Some(&b'+') {
        i = 1;
    }
    let start = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let ints = i - start;
    let mut frac = 0;
    let mut float = false;
    if b.get(i) == Some(&b'.') {
        float = true;
        i += 1;
        let f = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        frac = i - f;
    }
    if ints + frac == 0 {
        return json!(t);
    }
    if matches!(b.get(i), Some(b'e') | Some(b'E')) {
        float = true;
        i += 1;
        if matches!(b.get(i), Some(b'+') | Some(b'-')) {
            i += 1;
        }
        let f = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == f {
            return json!(t);
        }
    }
    if i != b.len() || (ints > 1 && b[start] == b'0') {
        return json!(t);
    }
    if !float {
        if neg {
            if let Ok(v) = t.parse::<i64>() {
                return json!(v);
            }
        } else if let Ok(v) = t.trim_start_matches('+').parse::<u64>() {
            return json!(v);
        }
    }
    let f: f64 = t.parse().unwrap();
    // JSON values hold no infinity: the overflowing ones are compared as null
    serde_json::Number::from_f64(f).map(Value::Number).unwrap_or(Value::Null)
}
fn bare_ok(t: &str, o: &Options) -> bool {
    let d = dch(o);
    !t.is_empty()
        && t.trim_matches([' ', '\t']) == t
        && t != "-"
        && !t.starts_with("- ")
        && !t.starts_with('@')
        && !t.chars().any(|c| matches!(c, '"' | ':' | '[' | ']' | '{' | '}' | '\n') || c == d)
}
fn c03(c: &Value) -> Out {
    let t = c["s"].as_str().unwrap();
    let o = opts_of(c);
    let pos = c["pos"].as_u64().unwrap();
    let ind = " ".repeat(o.indent);
    let d = dch(&o);
    let ds = if d == ',' { String::new() } else { d.to_string() };
    if bare_ok(t, &o) && !t.contains([',', '\t', '|']) {
        let e = classify(t);
        let (text, want) = match pos {
            0 => (t.to_string(), e),
            1 => (format!("k: {t}"), json!({"k": e})),
            2 => (format!("k[2{ds}]: {t}{d}x"), json!({"k": [e, "x"]})),
            3 => (format!("[1{ds}]:\n{ind}- {t}"), json!([e])),
            _ => (format!("[1{ds}]{{a{d}b}}:\n{ind}{t}{d}{t}"), json!([{"a": e, "b": e}])),
        };
        match decode_from_str::<Value>(&text, &o) {
            Ok(b) if jeq(&want, &b) => {}
            Ok(b) => bad!("{text:?} reads as {b}, expected {want}"),
            Err(err) => bad!("{text:?} is rejected ({err}), expected {want}"),
        }
        // the same token as typed floating-point number
        if pos == 1 && want["k"].is_number() {
            #[derive(serde::Deserialize)]
            struct K { k: f64 }
            match decode_from_str::<K>(&text, &o) {
                Ok(k) if k.k == t.parse::<f64>().unwrap() => {}
                Ok(k) => bad!("{text:?} reads as the f64 {:?}", k.k),
                Err(err) => bad!("{text:?} as f64: {err}"),
            }
        }
    }
    // a string written bare must read back as itself by the same rule
    let v = match pos {
        0 => json!(t),
        1 => json!({"k": t}),
        2 => json!([t]),
        3 => json!([[], t]),
        _ => json!([{"a": t}]),
    };
    let out = match encode_to_string(&v, &o) {
        Ok(x) => x,
        Err(e) => bad!("encoding {v} fails: {e}"),
    };
    let tok = match pos {
        0 => out.clone(),
        1 => out.strip_prefix("k: ").unwrap_or("?").to_string(),
        2 => out.split_once(": ").map(|x| x.1).unwrap_or("?").to_string(),
        3 => out.lines().last().unwrap_or("?").trim_start().strip_prefix("- ").unwrap_or("?").to_string(),
        _ => out.split_once('\n').map(|x| x.1.trim_start_matches(' ')).unwrap_or("?").to_string(),
    };
    if !tok.starts_with('"') {
        if tok != t {
            bad!("string {t:?} is written {out:?}")
        }
        if classify(&tok) != json!(t) {
            bad!("string {t:?} is written bare, which spells {}", classify(&tok))
        }
        if !bare_ok(&tok, &o) && !(tok.starts_with('@') && pos != 0) {
            bad!("string {t:?} is written bare in {out:?}")
        }
    }
    if t.bytes().any(|b| b.is_ascii_digit()) { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P04
fn g04(r: &mut R, _: u64) -> Value {
    match r.b(8) {
        0 => json!({"i": num(r), "pos": r.b(14), "o": opts_case(r)}),
        1 => json!({"f32": f32::from_bits(r.n() as u32).to_bits(), "pos": r.b(14), "o": opts_case(r)}),
        2 => json!({"f": ([f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0][r.b(4)]).to_bits(), "pos": r.b(14), "o": opts_case(r)}),
        _ => json!({"f": float(r).to_bits(), "pos": r.b(14), "o": opts_case(r)}),
    }
}
fn canonical(s: &str) -> bool {
    let b = s.strip_prefix('-').unwrap_or(s);
    let (i, f) = match b.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (b, None),
    };
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    digits(i) && (i == "0" || !i.starts_with('0')) && f.is_none_or(|f| digits(f) && !f.ends_with('0')) && s != "-0"
}
fn c04(c: &Value) -> Out {
    let o = opts_of(c);
    let pos = c["pos"].as_u64().unwrap();
    let n = if c["i"].is_number() {
        let x = c["i"].as_number().unwrap();
        if let Some(i) = x.as_i64() { typed::Node::I(i) } else if let Some(u) = x.as_u64() { typed::Node::U(u) } else { typed::Node::F(x.as_f64().unwrap()) }
    } else if let Some(b) = c["f32"].as_u64() {
        typed::Node::F32(f32::from_bits(b as u32))
    } else {
        typed::Node::F(f64::from_bits(c["f"].as_u64().unwrap()))
    };
    let f = match &n {
        typed::Node::I(i) => *i as f64,
        typed::Node::U(u) => *u as f64,
        typed::Node::F(f) => *f,
        typed::Node::F32(f) => *f as f64,
        _ => 0.0,
    };
    let exact = match &n {
        typed::Node::I(i) => Some(i.to_string()),
        typed::Node::U(u) => Some(u.to_string()),
        _ => None,
    };
    use typed::Node::*;
    let node = match pos {
        0 => n,
        1 => Struct(vec![("k", n)]),
        2 => Map(vec![("k".into(), n)]),
        3 => Seq(vec![n]),
        4 => Tuple(vec![n]),
        5 => Seq(vec![Struct(vec![("k", n)])]),
        6 => Seq(vec![Seq(vec![]), n]),
        7 => Struct(vec![("k", Struct(vec![("k", n)]))]),
        8 => Seq(vec![Seq(vec![]), Struct(vec![("k", n), ("z", Seq(vec![]))])]),
        9 => Seq(vec![Seq(vec![n])]),
        10 => NewtypeVariant("k", Box::new(n)),
        11 => Some_(Box::new(n)),
        12 => Newtype(Box::new(n)),
        _ => Seq(vec![Struct(vec![("z", Seq(vec![Struct(vec![("k", n)])])), ("q", Unit)])]),
    };
    let jv = serde_json::to_value(&node).unwrap();
    let outs = [
        ("to_string", ser::to_string(&node, &o).map_err(es)),
        ("streaming", ser::to_string_streaming(&node, &o).map_err(es)),
        ("encode_to_string", encode_to_string(&node, &o).map_err(es)),
        ("value", encode_to_string(&jv, &o).map_err(es)),
    ];
    for (name, out) in &outs {
        let out = match out {
            Ok(x) => x,
            Err(e) => bad!("{name}: fails: {e}"),
        };
        // the number is the last token, except where another field follows
        let tok = match pos {
            8 => out.lines().nth(2).unwrap_or("?").rsplit([' ', ':']).next().unwrap(),
            13 => out.lines().nth(2).unwrap_or("?").trim_start(),
            _ => out.rsplit([' ', '\n', ':']).next().unwrap(),
        };
        if !f.is_finite() {
            if tok != "null" {
                bad!("{name}: non-finite {f} written {out:?}")
            }
            continue;
        }
        if !canonical(tok) {
            bad!("{name}: {f:?} written {tok:?} in {out:?}")
        }
        match &exact {
            Some(e) => if e != tok { bad!("{name}: integer {e} written {tok:?}") },
            None => if tok.parse::<f64>().ok() != Some(f) { bad!("{name}: {f:?} written {tok:?}, another number") },
        }
        match decode_from_str::<Value>(out, &o) {
            Ok(b) if jeq(&jv, &b) => {}
            x => bad!("{name}: {f:?} written {out:?} reads as {x:?}"),
        }
        if pos == 1 {
            #[derive(serde::Deserialize)]
            struct K { k: f64 }
            match decode_from_str::<K>(out, &o) {
                Ok(k) if k.k == f => {}
                Ok(k) => bad!("{f:?} written {out:?} reads as the f64 {:?}", k.k),
                Err(e) => bad!("{f:?} written {out:?} as f64: {e}"),
            }
        }
    }
    if f.abs() < 10.0 && f % 1.0 == 0.0 { Out::Trivial } else { Out::Good }
}

// ---------------------------------------------------------------- texts
const LV: &[&str] = &[
    "", " ", "a: 1", "a:", "- 1", "-", "- a: 1", "- a:", "x", "[1]: 1", "[0]:", "a[1]: 1", "a[2]:", "- [1]: 1", "- [1]:", "a[1]{b}:", "- a[1]{b}:",
    "[1]{b}:", "1", "\"q\"", "\"q\": 1", "@, a,b", "@", "- 1,2", "{0}:", "a[1] 1", "1,2", "a.b: 1", "a.b:", "a[1|]{b|c}:", "1|2", "- - 1", "- @, a", "[1]", "\"a.b\": 2", "- [1]{b}:", "a: x[1]: 1", "[2]{a,b}: 1", "@é a", "a[1]{\"b}\"}:", "\t", "- \"", "[]:", "[:", "]:", "a[1: 2", "[1]]: 1", "a[1]{b: 1", "a[18446744073709551615]:",
    "a[18446744073709551615]{b}:", "- [18446744073709551615]{b}:", "[9223372036854775807]{a,b}:", "- a[4611686018427387904]{b}:", "[18446744073709551615]: 1", "[9223372036854775807]:",
];
const SOUP: &[&str] = &[
    "a", "b", ":", ": ", "-", "- ", "[", "]", "{", "}", "[1]", "[2]", "[0]", "[1|]", "[2\t]", "{a}", "{a,b}", ",", "|", "\t", " ", "  ", "\n", "\n  ", "\n    ", "\n- ", "\n  - ", "\"", "\\", "\"x\"", "@", "@,", "1", "0", "-1", "1e999", "é", "\u{200b}", ".", "a.b", "true", "null", "\r", "\u{1f600}", "\u{0}", "[3]: 1,2,3", "\n\n", "[18446744073709551615]", "[9223372036854775807]",
];
pub fn soup(r: &mut R) -> String {
    let n = r.b(14);
    (0..n).map(|_| *r.pick(SOUP)).collect()
}
pub fn line_soup(r: &mut R) -> String {
    let n = 1 + r.b(6);
    let unit = 1 + r.b(3);
    let mut s = String::new();
    let mut depth = 0usize;
    for i in 0..n {
        if i > 0 {
            s.push('\n');
        }
        s.push_str(&" ".repeat(depth * unit));
        if r.p(1, 12) {
            s.push(' ');
        }
        s.push_str(*r.pick(LV));
        depth = match r.b(5) {
            0 | 1 => depth + 1,
            2 => depth.saturating_sub(1),
            3 => r.b(4),
            _ => depth,
        };
    }
    s
}
pub fn doc_text(r: &mut R, unit: usize) -> String {
    let d = 1 + r.b(4);
    let v = if r.p(2, 3) { simple_val(r, d) } else { val(r, d) };
    if r.p(1, 2) {
        let o = Options { indent: unit, delimiter: [Delimiter::Comma, Delimiter::Tab, Delimiter::Pipe][r.b(3)], ..Default::default() };
        encode_to_string(&v, &o).unwrap_or_default()
    } else {
        let d = *r.pick(&[',', '\t', '|']);
        let mut w = W::new(r, unit, d);
        w.doc(&v);
        w.text()
    }
}
pub fn mutate(r: &mut R, t: &str) -> String {
    let mut ls: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
    for _ in 0..1 + r.b(2) {
        let i = r.b(ls.len());
        match r.b(10) {
            0 => {
                ls.remove(i);
            }
            1 => {
                let l = ls[i].clone();
                ls.insert(i, l);
            }
            2 => ls.insert(i, String::new()),
            3 => {
                let j = r.b(ls.len());
                ls.swap(i, j);
            }
            4 => ls[i] = format!("{}{}", " ".repeat(1 + r.b(3)), ls[i]),
            5 => ls[i] = ls[i].strip_prefix("  ").or(ls[i].strip_prefix(' ')).unwrap_or(&ls[i]).to_string(),
            6 => {
                let at = r.b(LV.len());
                let ind = ls[i].len() - ls[i].trim_start_matches(' ').len();
                ls.insert(i, " ".repeat(ind) + LV[at]);
            }
            _ => {
                let c: Vec<char> = ls[i].chars().collect();
                let p = r.b(c.len() + 1);
                let mut s: String = c[..p].iter().collect();
                let mut rest = &c[p..];
                if r.p(1, 2) && !rest.is_empty() {
                    rest = &rest[1..];
                }
                if r.p(2, 3) {
                    s.push_str(SOUP[r.b(SOUP.len())]);
                }
                s.extend(rest.iter());
                ls[i] = s;
            }
        }
        if ls.is_empty() {
            return String::new();
        }
    }
    ls.join("\n")
}
pub fn any_text(r: &mut R, unit: usize) -> String {
    match r.b(6) {
        0 => soup(r),
        1 | 2 => line_soup(r),
        3 => doc_text(r, unit),
        _ => {
            let t = doc_text(r, unit);
            mutate(r, &t)
        }
    }
}
fn topts(r: &mut R) -> Value {
    let mut o = opts_case(r);
    o["e"] = json!(r.p(1, 3));
    if r.p(1, 20) {
        o["i"] = json!([0, 5, 16, 1000][r.b(4)]);
    }
    o
}

// ---------------------------------------------------------------- P05
fn g05(r: &mut R, i: u64) -> Value {
    let m = LV.len() as u64;
    // all pairs of vocabulary lines, second one flush or indented
    let text = if i < m * m * 2 {
        let (a, b) = (LV[(i % m) as usize], LV[(i / m % m) as usize]);
        format!("{a}\n{}{b}", if i / m / m == 0 { "" } else { "  " })
    } else {
        let o = [2, 1, 3, 4][r.b(4)];
        let t = any_text(r, o);
        if r.p(1, 400) {
            // size and depth
            match r.b(4) {
                0 => (0..200).map(|k| " ".repeat(k) + *r.pick(&["a:", "- a:", "-"]) + "\n").collect(),
                1 => "[1]".repeat(300) + ": 1",
                2 => format!("{}: 1", "a.".repeat(200) + "a"),
                _ => t.repeat(30),
            }
        } else {
            t
        }
    };
    json!({"text": text, "o": topts(r)})
}
fn c05(c: &Value) -> Out {
    let t = c["text"].as_str().unwrap();
    let o = opts_of(c);
    let _ = decode_from_str::<Value>(t, &o);
    let _ = decode_from_str::<Tree>(t, &o);
    for s in [false, true] {
        for e in [ExpandPaths::Off, ExpandPaths::Safe] {
            let o2 = Options { strict: s, expand_paths: e, ..o.clone() };
            let _ = decode_from_str::<Value>(t, &o2);
        }
    }
    let _ = decode_from_str::<typed::Rec>(t, &o);
    let _ = decode_from_str::<Vec<typed::Rec>>(t, &o);
    let _ = decode_from_str::<typed::Shape>(t, &o);
    let _ = decode::parser::parse_to_value(t);
    let _ = decode::parser::parse_to_value_with_strict(t, true);
    let _ = decode::scanner::scan(t);
    if t.contains('\n') { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P06
fn g06(r: &mut R, _: u64) -> Value {
    // regenerated deterministically from the seed in the case
    json!({"seed": r.n() >> 1, "o": opts_case(r), "v": arrayish(r), "fault": [r.b(6), r.b(9), r.b(4), r.b(8)]})
}
fn arrayish(r: &mut R) -> Value {
    loop {
        let d = 1 + r.b(3);
        let v = simple_val(r, d);
        if has_array(&v) {
            return v;
        }
    }
}
fn has_array(v: &Value) -> bool {
    match v {
        Value::Array(_) => true,
        Value::Object(m) => m.values().any(has_array),
        _ => false,
    }
}
fn c06(c: &Value) -> Out {
    let o = opts_of(c);
    let v = &c["v"];
    let seed = c["seed"].as_u64().unwrap();
    let f: Vec<usize> = c["fault"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let write = |fault: Option<Fault>| {
        let mut r = R::new(seed);
        let d = dch(&o);
        let mut w = W::new(&mut r, o.indent, d);
        w.fault = fault;
        w.doc(v);
        (w.text(), w.arrs.clone())
    };
    let (good, arrs) = write(None);
    if arrs.is_empty() {
        return Out::Trivial;
    }
    for strict in [true, false] {
        let o2 = Options { strict, ..o.clone() };
        match decode_from_str::<Value>(&good, &o2) {
            Ok(b) if jeq(v, &b) => {}
            Ok(b) => bad!("well-formed {good:?} (strict={strict}) reads as {b}, expected {v}"),
            Err(e) => bad!("well-formed {good:?} (strict={strict}) is rejected: {e}"),
        }
    }
    let ai = f[0] % arrs.len();
    let a = &arrs[ai];
    let deltas = [1i64, -1, 2, -2, 10, 1000000000, 3, -3, 100];
    let mut fault = Fault { arr: ai, ..Default::default() };
    let by_cells = a.kind == Kind::Table && f[3] < 4;
    if by_cells {
        fault.row = f[2] % a.rows.len();
        fault.cells = [1, -1, 2, -2][f[3]];
        if a.cols as i64 + fault.cells < 1 {
            fault.cells = 1;
        }
    } else {
        fault.declared = deltas[f[1]];
        if a.n as i64 + fault.declared < 0 || (a.n == 0 && fault.declared < 0) {
            fault.declared = 1;
        }
    }
    let (text, _) = write(Some(fault.clone()));
    if text == good {
        return Out::Trivial;
    }
    // an empty cell or element more, at the end of a row or inline array
    let line = match a.kind { Kind::Table => Some(a.rows[f[2] % a.rows.len()]), Kind::Inline if a.n > 0 => Some(a.header), _ => None };
    let mut ls: Vec<String> = good.split('\n').map(|s| s.to_string()).collect();
    let h = ls.get(a.header).cloned().unwrap_or_default();
    if let (Some(l), true, false) = (line, h.matches(']').count() == 1, h.contains("\t]")) {
        if l < ls.len() {
            ls[l].push(if h.contains("|]") { '|' } else { ',' });
            let t = ls.join("\n");
            for strict in [true, false] {
                let o2 = Options { strict, ..o.clone() };
                if let Ok(b) = decode_from_str::<Value>(&t, &o2) {
                    bad!("line {} has an empty cell more at its end, yet (strict={strict}) {t:?} reads as {b}", l + 1)
                }
            }
        }
    }
    for strict in [true, false] {
        let o2 = Options { strict, ..o.clone() };
        if let Ok(b) = decode_from_str::<Value>(&text, &o2) {
            if by_cells {
                bad!("row {} of a table with {} columns has {} cells, yet (strict={strict}) {text:?} reads as {b}", fault.row, a.cols, a.cols as i64 + fault.cells)
            }
            bad!("an array of {} declares {}, yet (strict={strict}) {text:?} reads as {b}", a.n, a.n as i64 + fault.declared)
        }
        if decode_from_str::<Tree>(&text, &o2).is_ok() {
            bad!("wrong count accepted by typed decoding: {text:?}")
        }
    }
    if by_cells || ai > 0 { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P07
fn g07(r: &mut R, i: u64) -> Value {
    if i % 4 == 3 {
        let mut c = g06(r, i);
        c["k"] = json!("blank");
        return c;
    }
    let o = topts(r);
    let t = any_text(r, o["i"].as_u64().unwrap().clamp(1, 8) as usize);
    json!({"text": t, "o": o})
}
fn c07(c: &Value) -> Out {
    let o = opts_of(c);
    if c["k"] == "blank" {
        let v = &c["v"];
        let mut r = R::new(c["seed"].as_u64().unwrap());
        let d = dch(&o);
        let mut w = W::new(&mut r, o.indent, d);
        w.doc(v);
        let f0 = c["fault"][0].as_u64().unwrap() as usize;
        let f1 = c["fault"][1].as_u64().unwrap() as usize;
        let cand: Vec<usize> = w.arrs.iter().flat_map(|a| a.rows.iter().skip(1).copied()).collect();
        if cand.is_empty() {
            return Out::Trivial;
        }
        let at = cand[(f0 * 9 + f1) % cand.len()];
        let mut ls: Vec<String> = w.text().split('\n').map(|s| s.to_string()).collect();
        for _ in 0..1 + f0 % 3 {
            ls.insert(at, " ".repeat(if f1 % 2 == 0 { 0 } else { o.indent }));
        }
        let t = ls.join("\n");
        let os = Options { strict: true, ..o.clone() };
        if let Ok(b) = decode_from_str::<Value>(&t, &os) {
            bad!("blank line inside an array accepted in strict mode: {t:?} reads as {b}")
        }
        let ol = Options { strict: false, ..o };
        match decode_from_str::<Value>(&t, &ol) {
            Ok(b) if jeq(v, &b) => {}
            x => bad!("blank line between rows or items changes the lenient reading of {t:?}: {x:?}"),
        }
        return Out::Good;
    }
    let t = c["text"].as_str().unwrap();
    let os = Options { strict: true, ..o.clone() };
    let ol = Options { strict: false, ..o.clone() };
    let Ok(s) = decode_from_str::<Tree>(t, &os) else { return Out::Trivial };
    match decode_from_str::<Tree>(t, &ol) {
        Ok(l) if l == s => {}
        Ok(l) => bad!("{t:?} reads as {s:?} in strict mode but {l:?} otherwise"),
        Err(e) => bad!("{t:?} is accepted in strict mode but rejected otherwise: {e}"),
    }
    // no line is ignored
    if !t.contains("{0}") {
        let ls: Vec<&str> = t.split('\n').collect();
        for i in 0..ls.len() {
            if ls[i].trim_matches(' ').is_empty() {
                continue;
            }
            // a list may go without its header where that has a line of its own
            if ls[i].trim_start_matches(' ').starts_with('[') {
                continue;
            }
            let mut m = ls.clone();
            m.remove(i);
            if let Ok(x) = decode_from_str::<Tree>(&m.join("\n"), &os) {
                if x == s && o.expand_paths == ExpandPaths::Off {
                    bad!("line {} of {t:?} is ignored in strict mode: without it the reading is the same, {s:?}", i + 1)
                }
            }
        }
    }
    if t.contains('\n') { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P08
fn g08(r: &mut R, _: u64) -> Value {
    let o = opts_case(r);
    let unit = o["i"].as_u64().unwrap() as usize;
    let mut t = doc_text(r, unit);
    let mut ls: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
    let k = r.b(3);
    for _ in 0..k {
        let i = r.b(ls.len());
        match r.b(6) {
            0 => ls[i] = format!("{}{}", " ".repeat(1 + r.b(unit + 1)), ls[i]),
            1 => ls[i] = format!("\t{}", ls[i]),
            2 => {
                let n = ls[i].len() - ls[i].trim_start_matches(' ').len();
                let p = r.b(n + 1);
                ls[i].insert(p, '\t');
            }
            3 => ls[i] = ls[i].strip_prefix(' ').unwrap_or(&ls[i]).to_string(),
            4 => ls.insert(i, " ".repeat(r.b(6))),
            _ => ls.insert(i, " ".repeat(r.b(3)) + "\t"),
        }
    }
    t = ls.join("\n");
    if r.p(1, 3) {
        t = line_soup(r);
    }
    let mut o = o;
    if r.p(1, 15) {
        o["i"] = json!(0);
    }
    json!({"text": t, "o": o, "k": k})
}
fn c08(c: &Value) -> Out {
    let o = Options { strict: true, ..opts_of(c) };
    let t = c["text"].as_str().unwrap();
    let unit = if o.indent == 0 { 2 } else { o.indent };
    let mut broken = None;
    for (i, l) in t.split('\n').enumerate() {
        let sp = l.len() - l.trim_start_matches(' ').len();
        let rest = &l[sp..];
        if rest.is_empty() {
            continue;
        }
        let lead = l.len() - l.trim_start_matches([' ', '\t']).len();
        if l[..lead].contains('\t') {
            broken = Some((i + 1, "a tab in the indentation"));
        } else if sp % unit != 0 {
            broken = Some((i + 1, "an indentation that is no multiple of the unit"));
        }
        if broken.is_some() {
            break;
        }
    }
    let got = decode_from_str::<Value>(t, &o);
    match (broken, got) {
        (Some((l, w)), Ok(b)) => bad!("line {l} has {w} (unit {unit}), yet strict decoding of {t:?} gives {b}"),
        (None, Err(Error::Syntax { message, .. })) if message.contains("indentation") => {
            bad!("indentation is in order (unit {unit}), yet strict decoding of {t:?} fails with {message:?}")
        }
        (Some((l, w)), Err(Error::Syntax { line, .. })) => {
            if line != l {
                bad!("line {l} has {w}, but the error for {t:?} names line {line}")
            }
        }
        (Some(_), Err(_)) => {}
        (None, _) => {}
    }
    if c["k"].as_u64().unwrap_or(0) > 0 { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P09
fn g09(r: &mut R, _: u64) -> Value {
    let mut o = opts_case(r);
    o["f"] = json!(r.p(1, 4));
    let v = if r.p(1, 5) { let d = 1 + r.b(2); json!([val(r, d), val(r, 1)]) } else { table(r) };
    json!({"v": v, "pos": r.b(6), "o": o})
}
/// Splits at delimiters outside quotes.
fn split_cells(s: &str, d: char) -> Vec<String> {
    let mut out = vec![String::new()];
    let (mut q, mut esc) = (false, false);
    for c in s.chars() {
        if q {
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { q = false }
        } else if c == '"' {
            q = true
        } else if c == d {
            out.push(String::new());
            continue;
        }
        out.last_mut().unwrap().push(c);
    }
    out
}
fn token(t: &str) -> Option<Value> {
    if let Some(x) = t.strip_prefix('"') {
        return Some(json!(unescape(x.strip_suffix('"')?).ok()?));
    }
    Some(classify(t))
}
fn c09(c: &Value) -> Out {
    let o = opts_of(c);
    let a = match c["v"].as_array() {
        Some(a) => a,
        None => return Out::Trivial,
    };
    let pos = c["pos"].as_u64().unwrap();
    let arr = Value::Array(a.clone());
    let (v, hl, prefix, rowind) = match pos {
        0 => (arr, 0, String::new(), 1),
        1 => (json!({"k": arr, "z": 1}), 0, "k".to_string(), 1),
        2 => (json!({"y": 0, "k": arr}), 1, "k".to_string(), 1),
        3 => (json!({"w": {"k": arr, "q": 1}}), 1, format!("{}k", " ".repeat(o.indent)), 2),
        4 => (json!([[], {"k": arr, "q": 1}]), 2, format!("{}- k", " ".repeat(o.indent)), 3),
        _ => (json!([[], {"q": 1, "k": arr}]), 3, format!("{}k", " ".repeat(2 * o.indent)), 3),
    };
    let want = columns(a);
    if encode::encoders::is_tabular_array(a) != want {
        bad!("table detection of {} gives {:?}, expected {want:?}", c["v"], encode::encoders::is_tabular_array(a))
    }
    let outs = [ser::to_string(&v, &o), ser::to_string_streaming(&v, &o), encode_to_string(&v, &o)];
    for out in outs {
        let out = match out {
            Ok(x) => x,
            Err(e) => bad!("encoding {v} fails: {e}"),
        };
        let ls: Vec<&str> = out.split('\n').collect();
        let d = dch(&o);
        let ds = if d == ',' { String::new() } else { d.to_string() };
        let head = format!("{prefix}[{}{ds}]", a.len());
        let Some(rest) = ls.get(hl).and_then(|l| l.strip_prefix(head.as_str())) else {
            // folding moves headers
            if o.key_folding == KeyFolding::Safe { continue }
            bad!("no header {head:?} on line {} of {out:?}", hl + 1)
        };
        let tabular = rest.starts_with('{');
        match (&want, tabular) {
            (None, true) => bad!("array that is no table is written as one: {out:?}"),
            (Some(_), false) => bad!("array that is a table is not written as one: {out:?}"),
            (None, false) => continue,
            (Some(ks), true) => {
                let inner = match rest.strip_prefix('{').and_then(|x| x.strip_suffix("}:")) {
                    Some(x) => x,
                    None => bad!("malformed table header in {out:?}"),
                };
                let cols: Vec<Option<String>> = split_cells(inner, d).iter().map(|x| if x.starts_with('"') { token(x).and_then(|v| v.as_str().map(|s| s.to_string())) } else { Some(x.clone()) }).collect();
                if cols != ks.iter().map(|k| Some(k.clone())).collect::<Vec<_>>() {
                    bad!("table columns {inner:?} are not the first row's keys {ks:?} in order: {out:?}")
                }
                for (i, row) in a.iter().enumerate() {
                    let Some(line) = ls.get(hl + 1 + i) else { bad!("row {i} is missing in {out:?}") };
                    let sp = line.len() - line.trim_start_matches(' ').len();
                    if sp != rowind * o.indent {
                        bad!("row {i} stands at indentation {sp}, expected {}: {out:?}", rowind * o.indent)
                    }
                    let cells = split_cells(&line[sp..], d);
                    if cells.len() != ks.len() {
                        bad!("row {i} has {} cells for {} columns: {out:?}", cells.len(), ks.len())
                    }
                    for (k, cell) in ks.iter().zip(&cells) {
                        match token(cell) {
                            Some(x) if jeq(&row[k], &x) => {}
                            x => bad!("cell {k:?} of row {i} is {cell:?} = {x:?}, expected {}: {out:?}", row[k]),
                        }
                    }
                }
            }
        }
    }
    if a.len() >= 2 && a[0].is_object() { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P10
fn g10(r: &mut R, _: u64) -> Value {
    let mut o = opts_case(r);
    o["f"] = json!(r.p(1, 3));
    let d = 1 + r.b(4);
    let v = if r.p(1, 3) { chains(r, d) } else { val(r, d) };
    json!({"v": v, "o": o})
}
fn c10(c: &Value) -> Out {
    let (v, o) = (&c["v"], opts_of(c));
    let mut many = false;
    for (name, out) in [("to_string", ser::to_string(v, &o)), ("streaming", ser::to_string_streaming(v, &o)), ("encode_to_string", encode_to_string(v, &o))] {
        let out = match out {
            Ok(x) => x,
            Err(e) => bad!("{name}: encoding fails: {e}"),
        };
        if out.is_empty() {
            if v.as_object().is_none_or(|m| !m.is_empty()) {
                bad!("{name}: nothing is written for {v}")
            }
            continue;
        }
        let d = dch(&o);
        if let Some(ch) = out.chars().find(|&ch| ((ch as u32) < 0x20 && ch != '\n' && !(ch == '\t' && d == '\t')) || ch == '\u{7f}') {
            bad!("{name}: raw control character {ch:?} in {out:?}")
        }
        let mut prev = 0usize;
        for (i, l) in out.split('\n').enumerate() {
            let sp = l.len() - l.trim_start_matches(' ').len();
            if l.len() == sp {
                bad!("{name}: blank line {} in {out:?}", i + 1)
            }
            if l.ends_with(' ') || l[sp..].starts_with('\t') {
                bad!("{name}: stray white space on line {} of {out:?}", i + 1)
            }
            if sp % o.indent != 0 {
                bad!("{name}: line {} is indented by {sp}, not a multiple of {}: {out:?}", i + 1, o.indent)
            }
            if (i == 0 && sp != 0) || sp / o.indent > prev + 2 {
                bad!("{name}: line {} is indented by {sp}, too deep: {out:?}", i + 1)
            }
            prev = sp / o.indent;
            many |= i > 0;
        }
    }
    if many { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P11
fn chains(r: &mut R, d: usize) -> Value {
    if d == 0 || r.b(6) == 0 {
        return if r.p(1, 5) { table(r) } else { val(r, 1) };
    }
    let n = if r.p(2, 3) { 1 } else { r.b(4) };
    let mut m = Map::new();
    for _ in 0..n {
        let k = match r.b(6) {
            0 => ["full-name", "1a", "", "a b", "-", "é"][r.b(6)].to_string(),
            _ => ident(r),
        };
        let v = if r.p(1, 6) { Value::Array((0..r.b(3)).map(|_| chains(r, d - 1)).collect()) } else { chains(r, d - 1) };
        m.insert(k, v);
    }
    Value::Object(m)
}
fn seg_ok(s: &str) -> bool {
    s.chars().next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}
fn dotted_ident(k: &str) -> bool {
    k.contains('.') && k.split('.').all(seg_ok)
}
fn any_key(v: &Value, f: &dyn Fn(&str) -> bool) -> bool {
    match v {
        Value::Array(a) => a.iter().any(|x| any_key(x, f)),
        Value::Object(m) => m.iter().any(|(k, x)| f(k) || any_key(x, f)),
        _ => false,
    }
}
fn g11(r: &mut R, _: u64) -> Value {
    let d = 1 + r.b(5);
    let v = chains(r, d);
    let mut o = opts_case(r);
    o["f"] = json!(true);
    o["e"] = json!(true);
    if r.p(1, 2) {
        o["fd"] = json!(r.b(5));
    }
    json!({"v": v, "o": o})
}
fn c11(c: &Value) -> Out {
    let (v, o) = (&c["v"], opts_of(c));
    if any_key(v, &dotted_ident) {
        return Out::Trivial;
    }
    let mut folded = false;
    for (name, out) in [("to_string", ser::to_string(v, &o)), ("streaming", ser::to_string_streaming(v, &o))] {
        let out = match out {
            Ok(x) => x,
            Err(e) => bad!("{name}: encoding fails: {e}"),
        };
        match decode_from_str::<Value>(&out, &o) {
            Ok(b) if jeq(v, &b) => {}
            Ok(b) => bad!("{name}: written {out:?}, which expands to {b}"),
            Err(e) => bad!("{name}: written {out:?}, which is rejected: {e}"),
        }
        // without expansion, the folded keys stand as written: joined from at most the allowed number of keys
        let off = Options { expand_paths: ExpandPaths::Off, ..o.clone() };
        let plain = match decode_from_str::<Value>(&out, &off) {
            Ok(b) => b,
            Err(e) => bad!("{name}: written {out:?}, which is rejected without expansion: {e}"),
        };
        if let Some(max) = o.flatten_depth {
            if any_key(&plain, &|k| dotted_ident(k) && k.split('.').count() > max) {
                bad!("{name}: a key of more than {max} segments in {out:?}")
            }
        }
        folded |= any_key(&plain, &dotted_ident);
        // the top-level chain is folded as far as allowed
        if let Some(m) = v.as_object() {
            for (k, x) in m {
                let max = o.flatten_depth.unwrap_or(usize::MAX);
                let mut path = vec![k.clone()];
                let mut cur = x;
                if seg_ok(k) {
                    while path.len() < max {
                        let Some(mm) = cur.as_object().filter(|mm| mm.len() == 1) else { break };
                        let (k2, x2) = mm.iter().next().unwrap();
                        if !seg_ok(k2) {
                            break;
                        }
                        path.push(k2.clone());
                        cur = x2;
                    }
                }
                if path.len() >= 2 && !plain.as_object().is_some_and(|p| p.contains_key(&path.join("."))) {
                    bad!("{name}: chain {} is not folded in {out:?}", path.join("."))
                }
            }
        }
        let nofold = Options { key_folding: KeyFolding::Off, ..off };
        match ser::to_string(v, &nofold).ok().and_then(|t| decode_from_str::<Value>(&t, &o).ok()) {
            Some(b) if jeq(v, &b) => {}
            x => bad!("unfolded text expands to {x:?}"),
        }
    }
    if folded { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P12
fn g12(r: &mut R, _: u64) -> Value {
    fn node(r: &mut R, d: usize) -> Value {
        // document model: {"m":[[key, quoted, node]...]} | {"p": prim} | {"l":[node...]}
        if d == 0 || r.p(1, 3) {
            let p = [json!(1), json!("x"), json!(null), json!(true), json!(2)][r.b(5)].clone();
            return json!({"p": p});
        }
        if r.p(1, 8) {
            let n = r.b(3);
            return json!({"l": (0..n).map(|_| node(r, d - 1)).collect::<Vec<_>>()});
        }
        let n = r.b(4);
        let m: Vec<Value> = (0..n)
            .map(|_| {
                let k = ["a", "b", "a.b", "a.b.c", "a.c", "b.a", "b.a.c", "a-b.c", "a.1", "a..b", ".a", "a.", "c", "c.a", "_x.y", "x1.y2", "1.a", "\u{200b}a", "\u{200b}a.b", "é.a"][r.b(20)];
                let q = r.p(1, 4);
                json!([k, q, node(r, d - 1)])
            })
            .collect();
        json!({"m": m})
    }
    let n = 1 + r.b(5);
    let d = 1 + r.b(2);
    let mut root = node(r, d + 1);
    if root.get("m").is_none() {
        let m: Vec<Value> = (0..n).map(|_| json!([(["a", "a.b", "a.b.c", "b.a", "b"][r.b(5)]), r.p(1, 5), node(r, d)])).collect();
        root = json!({"m": m});
    }
    let mut o = opts_case(r);
    o["e"] = json!(true);
    json!({"w": root, "o": o})
}
fn ktext(k: &str, q: bool) -> String {
    if q || !k.chars().all(|c| c.is_ascii_alphanumeric() || "_.-é\u{200b}".contains(c)) { format!("\"{k}\"") } else { k.to_string() }
}
fn wr(n: &Value, ind: usize, unit: usize, first: &str, out: &mut Vec<String>) {
    // writes the members of a map at `ind`
    let mut pre = first.to_string();
    for e in n["m"].as_array().unwrap() {
        let k = ktext(e[0].as_str().unwrap(), e[1].as_bool().unwrap());
        let at = if pre.is_empty() { " ".repeat(ind) } else { std::mem::take(&mut pre) };
        let x = &e[2];
        let deeper = if at.ends_with("- ") { ind + unit } else { ind + unit };
        if x.get("m").is_some() {
            out.push(format!("{at}{k}:"));
            wr(x, deeper, unit, "", out);
        } else if let Some(l) = x.get("l").and_then(|l| l.as_array()) {
            out.push(format!("{at}{k}[{}]:", l.len()));
            for y in l {
                wl(y, deeper, unit, out);
            }
        } else {
            out.push(format!("{at}{k}: {}", x["p"]));
        }
    }
}
fn wl(y: &Value, ind: usize, unit: usize, out: &mut Vec<String>) {
    let sp = " ".repeat(ind);
    if let Some(m) = y.get("m").and_then(|m| m.as_array()) {
        if m.is_empty() {
            out.push(format!("{sp}-"));
        } else {
            wr(y, ind + unit, unit, &format!("{sp}- "), out);
        }
    } else if let Some(l) = y.get("l").and_then(|l| l.as_array()) {
        out.push(format!("{sp}- [{}]:", l.len()));
        for z in l {
            wl(z, ind + unit, unit, out);
        }
    } else {
        out.push(format!("{sp}- {}", y["p"]));
    }
}
fn put(o: &mut Map<String, Value>, k: &str, v: Value, strict: bool) -> Result<(), ()> {
    match o.get_mut(k) {
        None => {
            o.insert(k.into(), v);
        }
        Some(old) => {
            if let (Value::Object(a), Value::Object(b)) = (&mut *old, &v) {
                for (k2, v2) in b {
                    put(a, k2, v2.clone(), strict)?;
                }
            } else if strict {
                return Err(());
            } else {
                *old = v;
            }
        }
    }
    Ok(())
}
fn expected(n: &Value, strict: bool) -> Result<Value, ()> {
    if let Some(m) = n.get("m").and_then(|m| m.as_array()) {
        let mut o = Map::new();
        for e in m {
            let k = e[0].as_str().unwrap();
            let v = expected(&e[2], strict)?;
            let quoted = ktext(k, e[1].as_bool().unwrap()).starts_with('"');
            if !quoted && dotted_ident(k) {
                let segs: Vec<&str> = k.split('.').collect();
                let mut v = v;
                for s in segs[1..].iter().rev() {
                    let mut mm = Map::new();
                    mm.insert(s.to_string(), v);
                    v = Value::Object(mm);
                }
                put(&mut o, segs[0], v, strict)?;
            } else {
                put(&mut o, k, v, strict)?;
            }
        }
        return Ok(Value::Object(o));
    }
    if let Some(l) = n.get("l").and_then(|m| m.as_array()) {
        return Ok(Value::Array(l.iter().map(|x| expected(x, strict)).collect::<Result<_, _>>()?));
    }
    Ok(n["p"].clone())
}
fn c12(c: &Value) -> Out {
    let o = opts_of(c);
    let n = &c["w"];
    if !model_ok(n) {
        return Out::Trivial;
    }
    let mut ls = vec![];
    wr(n, 0, o.indent, "", &mut ls);
    let text = ls.join("\n");
    let got = decode_from_str::<Value>(&text, &o);
    match (expected(n, o.strict), got) {
        (Ok(e), Ok(b)) => if !jeq(&e, &b) { bad!("{text:?} expands to {b}, expected {e}") },
        (Ok(e), Err(err)) => bad!("{text:?} is rejected ({err}), expected {e}"),
        (Err(_), Ok(b)) => bad!("conflicting paths accepted in strict mode: {text:?} reads as {b}"),
        (Err(_), Err(_)) => {}
    }
    // expansion off: every key stays as written
    let off = Options { expand_paths: ExpandPaths::Off, ..o.clone() };
    match decode_from_str::<Tree>(&text, &off) {
        Ok(t) if same_model(&t, n) => {}
        x => bad!("{text:?} without expansion reads as {x:?}"),
    }
    if n.to_string().contains("a.b") { Out::Good } else { Out::Trivial }
}
fn model_ok(n: &Value) -> bool {
    if let Some(m) = n.get("m") {
        return m.as_array().is_some_and(|m| m.iter().all(|e| e.as_array().is_some_and(|e| e.len() == 3 && e[0].is_string() && e[1].is_boolean() && e[0] != "" && model_ok(&e[2]))));
    }
    if let Some(l) = n.get("l") {
        return l.as_array().is_some_and(|l| l.iter().all(model_ok));
    }
    n.get("p").is_some_and(|p| !p.is_object() && !p.is_array() && p.as_str().is_none_or(|s| s == "x"))
}
fn same_model(t: &Tree, n: &Value) -> bool {
    match t {
        Tree::O(o) => n.get("m").and_then(|m| m.as_array()).is_some_and(|m| m.len() == o.len() && m.iter().zip(o).all(|(e, (k, x))| e[0] == **k && same_model(x, &e[2]))),
        Tree::A(a) => n.get("l").and_then(|m| m.as_array()).is_some_and(|m| m.len() == a.len() && m.iter().zip(a).all(|(e, x)| same_model(x, e))),
        p => n.get("p").is_some_and(|q| jeq(&p.to_json(), q)),
    }
}

// ---------------------------------------------------------------- P13
fn g13(r: &mut R, _: u64) -> Value {
    let mut o = opts_case(r);
    o["f"] = json!(r.p(1, 3));
    if r.p(1, 4) {
        o["fd"] = json!(r.b(4));
    }
    json!({"seed": r.n() >> 1, "size": r.b(5), "o": o})
}
fn c13(c: &Value) -> Out {
    let o = opts_of(c);
    let mut r = R::new(c["seed"].as_u64().unwrap());
    let node = typed::node(&mut r, c["size"].as_u64().unwrap() as usize);
    // what JSON itself cannot hold (such keys) is compared among the entry points only
    let jv = serde_json::to_value(&node).ok().filter(|_| !typed::float_keys(&node));
    let mut outs: Vec<(&str, Result<String, ()>)> = vec![];
    let es = |_: toon_rs::Error| ();
    macro_rules! w { ($f:expr, $n:expr) => {{ let mut b: Vec<u8> = vec![]; let x = $f(&mut b, $n, &o).map_err(es); x.map(|_| String::from_utf8(b).unwrap()) }} }
    if let Some(jv) = &jv {
        outs.push(("value to_string", ser::to_string(jv, &o).map_err(es)));
        outs.push(("value streaming", ser::to_string_streaming(jv, &o).map_err(es)));
        outs.push(("value encode_to_string", encode_to_string(jv, &o).map_err(es)));
        outs.push(("encode_value_to_string", encode::encode_value_to_string(jv, &o).map_err(es)));
    }
    outs.push(("typed to_string", ser::to_string(&node, &o).map_err(es)));
    outs.push(("typed streaming", ser::to_string_streaming(&node, &o).map_err(es)));
    outs.push(("typed encode_to_string", encode_to_string(&node, &o).map_err(es)));
    outs.push(("typed encode_to_writer", w!(encode_to_writer, &node)));
    outs.push(("typed to_writer", w!(ser::to_writer, &node)));
    outs.push(("typed to_writer_streaming", w!(ser::to_writer_streaming, &node)));
    for (n, x) in &outs[1..] {
        if x != &outs[0].1 {
            bad!("{node:?}: {} gives {:?}, {n} gives {x:?}", outs[0].0, outs[0].1)
        }
    }
    match &jv {
        Some(jv) => nontriv(jv),
        None => Out::Good,
    }
}

// ---------------------------------------------------------------- P14
fn g14(r: &mut R, _: u64) -> Value {
    let o = topts(r);
    let u = o["i"].as_u64().unwrap().clamp(1, 8) as usize;
    let t = match r.b(4) {
        0 => any_text(r, u),
        1 => doc_text(r, u),
        _ => {
            let t = typed::sample_text(r, u);
            if r.p(1, 3) { mutate(r, &t) } else { t }
        }
    };
    json!({"text": t, "o": o})
}
fn c14(c: &Value) -> Out {
    let o = opts_of(c);
    let t = c["text"].as_str().unwrap();
    let tree = decode_from_str::<Tree>(t, &o).map_err(es);
    let v = decode_from_str::<Value>(t, &o).map_err(es);
    match (&tree, &v) {
        (Ok(a), Ok(b)) => if !jeq(&a.to_json(), b) { bad!("{t:?} reads as {b} and as {a:?}") },
        (Err(a), Err(b)) if a == b => {}
        _ => bad!("{t:?} reads as {v:?} and as {tree:?}"),
    }
    let v2 = de::from_str::<Value>(t, &o).map_err(es);
    let v3 = decode_from_reader::<_, Value>(t.as_bytes(), &o).map_err(es);
    let v4 = decode_from_reader::<_, Value>(Chunks(t.as_bytes()), &o).map_err(es);
    if v != v2 || v != v3 || v != v4 {
        bad!("{t:?}: entry points differ: {v:?} {v2:?} {v3:?} {v4:?}")
    }
    let Ok(v) = v else { return Out::Trivial };
    if let Some(e) = typed::compare(t, &v, &o) {
        bad!("{t:?}: {e}")
    }
    nontriv(&v)
}
struct Chunks<'a>(&'a [u8]);
impl<'a> std::io::Read for Chunks<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(3);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

// ---------------------------------------------------------------- P15: cases for builds with other features
pub fn g15(r: &mut R) -> Value {
    match r.b(5) {
        0 => {
            let d = 1 + r.b(4);
            json!({"v": val(r, d), "o": opts_case(r)})
        }
        1 => json!({"seed": r.n() >> 1, "o": opts_case(r)}),
        2 => {
            let o = topts(r);
            let u = o["i"].as_u64().unwrap().clamp(1, 8) as usize;
            let t = typed::sample_text(r, u);
            json!({"text": if r.p(1, 3) { mutate(r, &t) } else { t }, "o": o, "ty": true})
        }
        3 => {
            let t = number_like(r);
            let c = *r.pick(&["k: ", "[2]: x,", "[1]:\n  - ", "", "[1]{a}:\n  "]);
            json!({"text": format!("{c}{t}"), "o": topts(r), "ty": true})
        }
        _ => {
            let o = topts(r);
            let t = any_text(r, o["i"].as_u64().unwrap().clamp(1, 8) as usize);
            json!({"text": t, "o": o})
        }
    }
}

// ---------------------------------------------------------------- P16
fn g16(r: &mut R, _: u64) -> Value {
    let mut o = opts_case(r);
    if r.p(1, 4) {
        o["f"] = json!(true);
        o["e"] = json!(true);
    }
    json!({"seed": r.n() >> 1, "ty": r.b(typed::TYPES), "o": o})
}
fn c16(c: &Value) -> Out {
    let o = opts_of(c);
    let mut r = R::new(c["seed"].as_u64().unwrap());
    match typed::roundtrip(c["ty"].as_u64().unwrap() as usize, &mut r, &o) {
        None => Out::Good,
        Some(e) => Out::Bad(e),
    }
}

// ---------------------------------------------------------------- P17: cases for the command line tool and the wasm functions
pub fn g17(r: &mut R, i: u64) -> Value {
    let d = [",", "\t", "|"][r.b(3)];
    let k = i % 2;
    let input = if k == 0 {
        let v = val(r, 3);
        let t = if r.p(1, 2) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
        if r.p(1, 10) { mutate(r, &t) } else { t }
    } else {
        any_text(r, 2)
    };
    // what the library itself gives
    let del = match d { "," => Delimiter::Comma, "\t" => Delimiter::Tab, _ => Delimiter::Pipe };
    let one = |strict: bool, delimiter: Delimiter| -> Value {
        let o = Options { delimiter, strict, ..Options::default() };
        if k == 0 {
            match serde_json::from_str::<Value>(&input).ok().map(|v| ser::to_string(&v, &o)) {
                Some(Ok(t)) => json!([t]),
                _ => Value::Null,
            }
        } else {
            match decode_from_str::<Value>(&input, &o) {
                Ok(v) => json!([v.to_string(), serde_json::to_string_pretty(&v).unwrap()]),
                Err(_) => Value::Null,
            }
        }
    };
    json!({"op": if k == 0 { "encode" } else { "decode" }, "input": input, "delim": d,
        "lenient": one(false, del), "strict": one(true, del)})
}

// ---------------------------------------------------------------- P18
fn g18(r: &mut R, _: u64) -> Value {
    let mut o = opts_case(r);
    if r.p(1, 3) {
        o["f"] = json!(true);
        o["e"] = json!(true);
    }
    if r.p(1, 2) {
        let u = o["i"].as_u64().unwrap() as usize;
        json!({"text": any_text(r, u), "o": o})
    } else {
        let d = 1 + r.b(4);
        json!({"v": val(r, d), "o": o})
    }
}
fn c18(c: &Value) -> Out {
    let o = opts_of(c);
    let v: Value = if let Some(t) = c["text"].as_str() {
        match decode_from_str(t, &o) {
            Ok(v) => v,
            Err(_) => return Out::Trivial,
        }
    } else {
        c["v"].clone()
    };
    if o.key_folding == KeyFolding::Safe && any_key(&v, &dotted_ident) {
        return Out::Trivial;
    }
    let t1 = match encode_to_string(&v, &o) {
        Ok(t) => t,
        Err(e) => bad!("encoding {v} fails: {e}"),
    };
    if encode_to_string(&v, &o).ok().as_ref() != Some(&t1) {
        bad!("encoding {v} twice gives two texts")
    }
    let v2: Value = match decode_from_str(&t1, &o) {
        Ok(t) => t,
        Err(e) => bad!("{t1:?} is rejected: {e}"),
    };
    let t2 = match encode_to_string(&v2, &o) {
        Ok(t) => t,
        Err(e) => bad!("encoding {v2} fails: {e}"),
    };
    if t1 != t2 {
        bad!("written {t1:?}, read and written again {t2:?}")
    }
    if t1.contains('\n') { Out::Good } else { Out::Trivial }
}

// ---------------------------------------------------------------- P19
fn g19(r: &mut R, _: u64) -> Value {
    let d = 1 + r.b(4);
    let v = if r.p(1, 2) { simple_val(r, d) } else { val(r, d) };
    json!({"seed": r.n() >> 1, "v": v, "o": opts_case(r)})
}
fn c19(c: &Value) -> Out {
    let (v, o) = (&c["v"], opts_of(c));
    let mut r = R::new(c["seed"].as_u64().unwrap());
    let mut seen = HashSet::new();
    let mut many = false;
    for _ in 0..3 {
        let d = dch(&o);
        let mut w = W::new(&mut r, o.indent, d);
        w.doc(v);
        let t = w.text();
        many |= t.contains('\n');
        if !seen.insert(t.clone()) {
            continue;
        }
        match decode_from_str::<Value>(&t, &o) {
            Ok(b) if jeq(v, &b) => {}
            Ok(b) => bad!("{t:?} reads as {b}, expected {v}"),
            Err(e) => bad!("{t:?} is rejected ({e}), expected {v}"),
        }
    }
    if many { Out::Good } else { Out::Trivial }
}
