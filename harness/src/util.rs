//! Shared pieces: random source, value generators, number-aware equality, shrinking, options.
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde_json::{Map, Number, Value, json};
use toon_rs::{Delimiter, ExpandPaths, KeyFolding, Options};

pub struct R(pub u64);
impl R {
    pub fn new(seed: u64) -> R {
        let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 {
            r.0 = 1
        }
        for _ in 0..8 {
            r.n();
        }
        r
    }
    pub fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn b(&mut self, n: usize) -> usize {
        ((self.n() >> 33) as usize) % n
    }
    pub fn p(&mut self, num: usize, den: usize) -> bool {
        self.b(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.b(v.len());
        &v[i]
    }
}

pub enum Out {
    Trivial,
    Good,
    Bad(String),
}

pub const AT: &[&str] = &[
    "a", "b", "_", "0", "1", "-", "+", ".", "e", "E", ":", " ", "\t", "|", ",", "\"", "\\", "\n",
    "\r", "[", "]", "{", "}", "@", "#", "é", "\u{200b}", "true", "null", "nan", "inf", "[1]", "x1",
    "\u{7f}", "\u{1}", "\u{85}", "\u{a0}", "/", "u0041", "007", "- ", "\u{1f600}", "\u{b}", "\u{c}",
    "\u{8}", "\u{2028}", "\u{feff}", "(", "'", "false", "z z", "\u{0}", "\u{1b}", "\u{3000}", "Z", "9", "~", "*", "&", "<", ";",
];

pub fn atom_string(r: &mut R) -> String {
    let n = match r.b(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => 3,
        _ => 1 + r.b(8),
    };
    (0..n).map(|_| *r.pick(AT)).collect()
}
pub fn any_char(r: &mut R) -> char {
    loop {
        let c = match r.b(4) {
            0 => r.b(0x80) as u32,
            1 => r.b(0x800) as u32,
            2 => r.b(0x10000) as u32,
            _ => r.b(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}
pub fn string(r: &mut R) -> String {
    match r.b(10) {
        0 => (0..r.b(6)).map(|_| any_char(r)).collect(),
        1 => ["hello", "hello world", "x", "Ada Lovelace", "a.b", "foo-bar"][r.b(6)].into(),
        2 => number_like(r),
        // long strings: past any fixed-size buffer or fast path
        3 if r.p(1, 4) => {
            let k = 1 + r.b(80);
            (0..k).map(|_| *r.pick(AT)).collect()
        }
        _ => atom_string(r),
    }
}
/// Spellings at the edge of what reads as a number.
pub fn number_like(r: &mut R) -> String {
    let mut s = String::new();
    s.push_str(*r.pick(&["", "", "", "-", "+", "--", "-+"]));
    for _ in 0..r.b(4) {
        s.push_str(*r.pick(&["0", "1", "5", "00", "12", "9223372036854775808", "18446744073709551616", "9007199254740993"]));
    }
    if r.p(1, 2) {
        s.push('.');
        for _ in 0..r.b(3) {
            s.push_str(*r.pick(&["0", "1", "5", "50"]));
        }
    }
    if r.p(1, 3) {
        s.push_str(*r.pick(&["e", "E"]));
        s.push_str(*r.pick(&["", "-", "+"]));
        for _ in 0..r.b(3) {
            s.push_str(*r.pick(&["0", "1", "5", "2"]));
        }
    }
    if r.p(1, 12) {
        s.push_str(*r.pick(&[" ", "x", "\t", "_", "f", "%"]));
    }
    if r.p(1, 20) {
        s = r.pick(&["inf", "-inf", "nan", "NaN", "infinity", "-Infinity", "+inf", "1_000", "0x10", "0b1", "١٢", "½"]).to_string();
    }
    s
}
pub fn ident(r: &mut R) -> String {
    ["a", "b", "c", "x_1", "_", "ab", "Z9", "name", "id"][r.b(9)].into()
}
pub fn key(r: &mut R) -> String {
    match r.b(5) {
        0 | 1 => string(r),
        2 => ["a.b", "a.b.c", "user-name", "order:id", "0", "1a", "", "true", "null", "-", "a b", "-x", "[1]", "a[2]", "a.", ".a", "a..b"][r.b(17)].into(),
        _ => ident(r),
    }
}
pub fn float(r: &mut R) -> f64 {
    loop {
        let f = match r.b(9) {
            0 | 1 => f64::from_bits(r.n()),
            2 => (r.b(2000) as f64 - 1000.0) / 8.0,
            3 => (r.b(2000) as f64 - 1000.0) / 10.0,
            4 => {
                let e = r.b(640) as i32 - 330;
                let m = (1 + r.b(99999)) as f64;
                format!("{m}e{e}").parse().unwrap()
            }
            5 => (r.b(100000) as f64) * 10f64.powi(r.b(25) as i32),
            6 => [0.0, -0.0, 1e300, -1e300, 1e-7, 1e-5, 1.5e20, 1e19, -1e19, 1e16, 1e17, 1e15, 123456789012345680.0, 5e-324, f64::MAX, f64::MIN_POSITIVE, 0.1, 0.3, 1e21, 1e22, 18446744073709551616.0, 9223372036854775808.0, -9223372036854775808.0, 9007199254740993.0][r.b(24)],
            7 => (r.n() as i64) as f64,
            _ => 1.0 / (1 + r.b(1000)) as f64,
        };
        if f.is_finite() {
            return f;
        }
    }
}
pub fn num(r: &mut R) -> Value {
    match r.b(7) {
        0 => Value::from(r.n() as i64),
        1 => Value::from(r.n()),
        2 => Value::from(r.b(20) as i64 - 10),
        3 => Value::from([i64::MIN, i64::MAX, -1, 0][r.b(4)]),
        4 => Value::from([u64::MAX, i64::MAX as u64 + 1, 9007199254740993][r.b(3)]),
        _ => Number::from_f64(float(r)).map(Value::Number).unwrap(),
    }
}
pub fn prim(r: &mut R) -> Value {
    match r.b(6) {
        0 => Value::Null,
        1 => Value::Bool(r.b(2) == 0),
        2 => num(r),
        _ => Value::String(string(r)),
    }
}
pub fn val(r: &mut R, d: usize) -> Value {
    if d == 0 || r.b(5) == 0 {
        return prim(r);
    }
    match r.b(5) {
        0 => {
            let n = r.b(4);
            Value::Array((0..n).map(|_| val(r, d - 1)).collect())
        }
        1 => table(r),
        2 => {
            let n = r.b(5);
            Value::Array((0..n).map(|_| prim(r)).collect())
        }
        _ => {
            let n = r.b(5);
            let mut m = Map::new();
            for _ in 0..n {
                let k = key(r);
                let v = val(r, d - 1);
                m.insert(k, v);
            }
            Value::Object(m)
        }
    }
}
/// Arrays of objects that are tables, or nearly.
pub fn table(r: &mut R) -> Value {
    let n = 1 + r.b(4);
    let k = r.b(4);
    let ks: Vec<_> = (0..k).map(|_| key(r)).collect();
    let shuffle = r.p(1, 3);
    let mut rows: Vec<Value> = (0..n)
        .map(|_| {
            let mut order: Vec<&String> = ks.iter().collect();
            if shuffle {
                for i in (1..order.len()).rev() {
                    order.swap(i, r.b(i + 1));
                }
            }
            let mut m = Map::new();
            for q in order {
                m.insert(q.clone(), prim(r));
            }
            Value::Object(m)
        })
        .collect();
    if r.p(1, 4) {
        // break the uniformity somewhere
        let i = r.b(rows.len());
        match r.b(6) {
            0 => rows[i] = prim(r),
            4 | 5 => {
                // the same characters in other keys: two neighbouring keys joined by a separator, in
                // the order they are written or sorted
                let m = rows[i].as_object_mut().unwrap();
                let mut ks: Vec<String> = m.keys().cloned().collect();
                if r.p(1, 2) {
                    ks.sort();
                }
                if ks.len() >= 2 {
                    let j = r.b(ks.len() - 1);
                    let sep = *r.pick(&[",", ",", "|", "\t", "", " ", ".", "\n", "\u{0}"]);
                    let joined = format!("{}{sep}{}", ks[j], ks[j + 1]);
                    m.shift_remove(&ks[j]);
                    m.shift_remove(&ks[j + 1]);
                    let v = prim(r);
                    m.insert(joined, v);
                }
            }
            1 => {
                let k = key(r);
                let v = prim(r);
                rows[i].as_object_mut().unwrap().insert(k, v);
            }
            2 => {
                let m = rows[i].as_object_mut().unwrap();
                if let Some(k) = m.keys().next().cloned() {
                    m.shift_remove(&k);
                }
            }
            _ => {
                let m = rows[i].as_object_mut().unwrap();
                if let Some(k) = m.keys().last().cloned() {
                    m.insert(k, [json!([]), json!({}), json!([1]), json!({"a":1})][r.b(4)].clone());
                }
            }
        }
    }
    Value::Array(rows)
}
/// Plain values: no odd strings, for structural cases.
pub fn simple_val(r: &mut R, d: usize) -> Value {
    let mut v = val(r, d);
    simplify(&mut v, r);
    v
}
pub fn simplify(v: &mut Value, r: &mut R) {
    match v {
        Value::String(s) => *s = ["x", "yy", "z z"][r.b(3)].into(),
        Value::Number(_) => *v = Value::from(r.b(9)),
        Value::Array(a) => {
            for x in a {
                simplify(x, r)
            }
        }
        Value::Object(m) => {
            let old = std::mem::take(m);
            for (i, (_, mut x)) in old.into_iter().enumerate() {
                simplify(&mut x, r);
                m.insert(["a", "b", "c", "d", "e"][i % 5].into(), x);
            }
        }
        _ => {}
    }
}

pub fn opts_case(r: &mut R) -> Value {
    json!({"d": r.b(3), "s": r.b(2)==0, "i": ([2,2,2,1,3,4,8][r.b(7)])})
}
pub fn opts_of(c: &Value) -> Options {
    let o = &c["o"];
    Options {
        delimiter: [Delimiter::Comma, Delimiter::Tab, Delimiter::Pipe][o["d"].as_u64().unwrap_or(0) as usize % 3],
        strict: o["s"].as_bool().unwrap_or(true),
        indent: o["i"].as_u64().unwrap_or(2) as usize,
        key_folding: if o["f"].as_bool().unwrap_or(false) { KeyFolding::Safe } else { KeyFolding::Off },
        flatten_depth: o["fd"].as_u64().map(|x| x as usize),
        expand_paths: if o["e"].as_bool().unwrap_or(false) { ExpandPaths::Safe } else { ExpandPaths::Off },
    }
}
pub fn dch(o: &Options) -> char {
    match o.delimiter {
        Delimiter::Comma => ',',
        Delimiter::Tab => '\t',
        Delimiter::Pipe => '|',
    }
}

/// The number read back is the number written: an integer exactly, a float as the same double
/// (a float of integer value may read back as the integer its digits spell).
pub fn neq(orig: &Number, got: &Number) -> bool {
    let i = |n: &Number| n.as_i64().map(|v| v as i128).or(n.as_u64().map(|v| v as i128));
    match (i(orig), i(got)) {
        (Some(a), Some(b)) => a == b,
        (None, _) => orig.as_f64() == got.as_f64(),
        (Some(a), None) => feq(got.as_f64().unwrap(), a),
    }
}
fn feq(f: f64, i: i128) -> bool {
    f % 1.0 == 0.0 && f.abs() < 1e30 && f as i128 == i
}
/// Same value: structure, strings, key order, the same numbers. The rows of a table take the
/// column order of its first row.
pub fn jeq(orig: &Value, got: &Value) -> bool {
    match (orig, got) {
        (Value::Number(x), Value::Number(y)) => neq(x, y),
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return false;
            }
            match crate::refenc::columns(x) {
                Some(ks) => x.iter().zip(y).all(|(p, q)| {
                    let (p, Some(q)) = (p.as_object().unwrap(), q.as_object()) else { return false };
                    (q.keys().eq(ks.iter()) || q.keys().eq(p.keys())) && p.iter().all(|(k, v)| q.get(k).is_some_and(|w| jeq(v, w)))
                }),
                None => x.iter().zip(y).all(|(p, q)| jeq(p, q)),
            }
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && jeq(p, q))
        }
        _ => orig == got,
    }
}

/// A decoded document with every member kept, duplicates included, in order.
#[derive(Debug, Clone, PartialEq)]
pub enum Tree {
    Null,
    Bool(bool),
    I(i64),
    U(u64),
    F(u64),
    S(String),
    A(Vec<Tree>),
    O(Vec<(String, Tree)>),
}
impl Tree {
    pub fn to_json(&self) -> Value {
        match self {
            Tree::Null => Value::Null,
            Tree::Bool(b) => Value::Bool(*b),
            Tree::I(i) => Value::from(*i),
            Tree::U(i) => Value::from(*i),
            Tree::F(b) => Number::from_f64(f64::from_bits(*b)).map(Value::Number).unwrap_or(Value::Null),
            Tree::S(s) => Value::String(s.clone()),
            Tree::A(a) => Value::Array(a.iter().map(|x| x.to_json()).collect()),
            Tree::O(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), v.to_json())).collect()),
        }
    }
}
impl<'de> Deserialize<'de> for Tree {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tree, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Tree;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("any")
            }
            fn visit_unit<E>(self) -> Result<Tree, E> {
                Ok(Tree::Null)
            }
            fn visit_none<E>(self) -> Result<Tree, E> {
                Ok(Tree::Null)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
                Tree::deserialize(d)
            }
            fn visit_bool<E>(self, b: bool) -> Result<Tree, E> {
                Ok(Tree::Bool(b))
            }
            fn visit_i64<E>(self, b: i64) -> Result<Tree, E> {
                Ok(Tree::I(b))
            }
            fn visit_u64<E>(self, b: u64) -> Result<Tree, E> {
                Ok(Tree::U(b))
            }
            fn visit_f64<E>(self, b: f64) -> Result<Tree, E> {
                Ok(Tree::F(b.to_bits()))
            }
            fn visit_str<E>(self, s: &str) -> Result<Tree, E> {
                Ok(Tree::S(s.into()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut o = vec![];
                while let Some(x) = a.next_element()? {
                    o.push(x)
                }
                Ok(Tree::A(o))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut o = vec![];
                while let Some(x) = a.next_entry()? {
                    o.push(x)
                }
                Ok(Tree::O(o))
            }
        }
        d.deserialize_any(V)
    }
}

// ---- shrinking ----
pub fn shrink_str(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut o: Vec<String> = vec![];
    if c.len() > 8 {
        o.push(c[..c.len() / 2].iter().collect());
        o.push(c[c.len() / 2..].iter().collect());
    }
    for i in 0..c.len().min(200) {
        o.push(c.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect());
    }
    o
}
pub fn shrink_val(v: &Value) -> Vec<Value> {
    let mut o = vec![];
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                o.push(Value::Array(b));
            }
            for x in a {
                o.push(x.clone())
            }
            for i in 0..a.len() {
                for y in shrink_val(&a[i]) {
                    let mut b = a.clone();
                    b[i] = y;
                    o.push(Value::Array(b));
                }
            }
        }
        Value::Object(m) => {
            let e: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            for i in 0..e.len() {
                let mut b = e.clone();
                b.remove(i);
                o.push(Value::Object(b.into_iter().collect()));
            }
            for (_, x) in &e {
                o.push(x.clone())
            }
            for i in 0..e.len() {
                for y in shrink_val(&e[i].1) {
                    let mut b = e.clone();
                    b[i].1 = y;
                    o.push(Value::Object(b.into_iter().collect()));
                }
                for y in shrink_str(&e[i].0) {
                    if !m.contains_key(&y) {
                        let mut b = e.clone();
                        b[i].0 = y;
                        o.push(Value::Object(b.into_iter().collect()));
                    }
                }
            }
        }
        Value::String(s) => o.extend(shrink_str(s).into_iter().map(Value::String)),
        Value::Number(n) if n.as_u64() != Some(0) => o.push(json!(0)),
        _ => {}
    }
    o
}
/// Shrinks one field of a case; fields named in `whole` are left alone.
pub fn shrink_case(c: &Value) -> Vec<Value> {
    let mut out = vec![];
    if let Some(m) = c.as_object() {
        for f in ["v", "text", "s", "w", "docs"] {
            if let Some(x) = m.get(f) {
                for y in shrink_val(x) {
                    let mut m2 = m.clone();
                    if std::mem::discriminant(&y) != std::mem::discriminant(x) && f != "v" {
                        continue;
                    }
                    m2.insert(f.into(), y);
                    out.push(Value::Object(m2));
                }
            }
        }
    }
    out
}
