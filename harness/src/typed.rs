//! Rust-typed data: a generic tree over serde's data model, and a set of derived types.
use crate::util::*;
use serde::de::DeserializeOwned;
use serde::ser::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use toon_rs::{Options, decode_from_str, encode_to_string};

#[derive(Debug, Clone)]
pub enum Node {
    Unit,
    None_,
    Some_(Box<Node>),
    Bool(bool),
    I(i64),
    U(u64),
    I8(i8),
    U16(u16),
    F(f64),
    F32(f32),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    UnitStruct,
    UnitVariant(&'static str),
    Newtype(Box<Node>),
    NewtypeVariant(&'static str, Box<Node>),
    Seq(Vec<Node>),
    Tuple(Vec<Node>),
    TupleStruct(Vec<Node>),
    TupleVariant(&'static str, Vec<Node>),
    Map(Vec<(String, Node)>),
    IntMap(Vec<(i64, Node)>),
    CharMap(Vec<(char, Node)>),
    BoolMap(Vec<(bool, Node)>),
    VarMap(Vec<(&'static str, Node)>),
    /// Keys of any kind
    KeyMap(Vec<(Node, Node)>),
    Struct(Vec<(&'static str, Node)>),
    StructVariant(&'static str, Vec<(&'static str, Node)>),
}
struct VKey(&'static str);
impl Serialize for VKey {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit_variant("E", 0, self.0)
    }
}
impl Serialize for Node {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        macro_rules! map { ($m:expr, $k:expr) => {{ let mut x = s.serialize_map(Some($m.len()))?; for (k, v) in $m { x.serialize_entry(&$k(k), v)?; } x.end() }} }
        match self {
            Node::Unit => s.serialize_unit(),
            Node::None_ => s.serialize_none(),
            Node::Some_(x) => s.serialize_some(x),
            Node::Bool(b) => s.serialize_bool(*b),
            Node::I(i) => s.serialize_i64(*i),
            Node::U(i) => s.serialize_u64(*i),
            Node::I8(i) => s.serialize_i8(*i),
            Node::U16(i) => s.serialize_u16(*i),
            Node::F(f) => s.serialize_f64(*f),
            Node::F32(f) => s.serialize_f32(*f),
            Node::Char(c) => s.serialize_char(*c),
            Node::Str(x) => s.serialize_str(x),
            Node::Bytes(b) => s.serialize_bytes(b),
            Node::UnitStruct => s.serialize_unit_struct("U"),
            Node::UnitVariant(v) => s.serialize_unit_variant("E", 0, v),
            Node::Newtype(x) => s.serialize_newtype_struct("N", x),
            Node::NewtypeVariant(v, x) => s.serialize_newtype_variant("E", 1, v, x),
            Node::Seq(a) => a.serialize(s),
            Node::Tuple(a) => {
                let mut t = s.serialize_tuple(a.len())?;
                for x in a {
                    t.serialize_element(x)?;
                }
                t.end()
            }
            Node::TupleStruct(a) => {
                let mut t = s.serialize_tuple_struct("T", a.len())?;
                for x in a {
                    t.serialize_field(x)?;
                }
                t.end()
            }
            Node::TupleVariant(v, a) => {
                let mut t = s.serialize_tuple_variant("E", 2, v, a.len())?;
                for x in a {
                    t.serialize_field(x)?;
                }
                t.end()
            }
            Node::Map(m) => map!(m, |k| k),
            Node::IntMap(m) => map!(m, |k| k),
            Node::CharMap(m) => map!(m, |k| k),
            Node::BoolMap(m) => map!(m, |k| k),
            Node::VarMap(m) => map!(m, |k: &&'static str| VKey(k)),
            Node::KeyMap(m) => {
                let mut x = s.serialize_map(None)?;
                for (k, v) in m {
                    x.serialize_entry(k, v)?;
                }
                x.end()
            }
            Node::Struct(m) => {
                let mut t = s.serialize_struct("S", m.len())?;
                for (k, x) in m {
                    t.serialize_field(k, x)?;
                }
                t.end()
            }
            Node::StructVariant(v, m) => {
                let mut t = s.serialize_struct_variant("E", 3, v, m.len())?;
                for (k, x) in m {
                    t.serialize_field(k, x)?;
                }
                t.end()
            }
        }
    }
}
const NAMES: &[&str] = &["a", "b", "c", "name", "a.b", "full-name", "1", "", "x y", "k:v", "z\"q"];
fn names(r: &mut R) -> Vec<&'static str> {
    let n = r.b(4);
    let s = r.b(NAMES.len());
    (0..n).map(|i| if i < 3 && s > 4 { NAMES[i] } else { NAMES[(s + i) % NAMES.len()] }).collect()
}
fn leaf(r: &mut R) -> Node {
    match r.b(16) {
        0 => Node::Unit,
        1 => Node::None_,
        2 => Node::Bool(r.p(1, 2)),
        3 => Node::I(r.n() as i64),
        4 => Node::U(r.n()),
        5 => Node::I8(r.n() as i8),
        6 => Node::U16(r.n() as u16),
        7 => Node::F(float(r)),
        8 => Node::F32(f32::from_bits(r.n() as u32)),
        9 => Node::Char(any_char(r)),
        10 => Node::UnitStruct,
        11 => Node::UnitVariant(r.pick(NAMES)),
        12 => Node::F([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][r.b(3)]),
        _ => Node::Str(string(r)),
    }
}
fn any_key(r: &mut R) -> Node {
    match r.b(10) {
        0 | 1 => leaf(r),
        2 => Node::Some_(Box::new(any_key(r))),
        3 | 4 => Node::Newtype(Box::new(any_key(r))),
        5 => Node::Bytes(vec![1, 2]),
        6 => Node::Tuple(vec![leaf(r)]),
        7 => Node::F(float(r)),
        _ => Node::Str(key(r)),
    }
}
/// A float among the keys: written canonically, unlike in JSON
pub fn float_keys(n: &Node) -> bool {
    fn is_float(k: &Node) -> bool {
        match k {
            Node::F(_) | Node::F32(_) => true,
            Node::Some_(x) | Node::Newtype(x) => is_float(x),
            _ => false,
        }
    }
    match n {
        Node::KeyMap(m) => m.iter().any(|(k, v)| is_float(k) || float_keys(v)),
        Node::Some_(x) | Node::Newtype(x) | Node::NewtypeVariant(_, x) => float_keys(x),
        Node::Seq(a) | Node::Tuple(a) | Node::TupleStruct(a) | Node::TupleVariant(_, a) => a.iter().any(float_keys),
        Node::Map(m) => m.iter().any(|(_, v)| float_keys(v)),
        Node::IntMap(m) => m.iter().any(|(_, v)| float_keys(v)),
        Node::CharMap(m) => m.iter().any(|(_, v)| float_keys(v)),
        Node::BoolMap(m) => m.iter().any(|(_, v)| float_keys(v)),
        Node::VarMap(m) | Node::Struct(m) | Node::StructVariant(_, m) => m.iter().any(|(_, v)| float_keys(v)),
        _ => false,
    }
}
pub fn node(r: &mut R, d: usize) -> Node {
    if d == 0 {
        return leaf(r);
    }
    let n = r.b(4);
    match r.b(21) {
        19 => {
            let mut m = vec![(any_key(r), node(r, d - 1))];
            if r.p(1, 3) {
                m.push((Node::Newtype(Box::new(Node::Str("second key".into()))), node(r, d - 1)));
            }
            Node::KeyMap(m)
        }
        0 => leaf(r),
        1 => Node::Some_(Box::new(node(r, d - 1))),
        2 => Node::Newtype(Box::new(node(r, d - 1))),
        3 => Node::NewtypeVariant(r.pick(NAMES), Box::new(node(r, d - 1))),
        4 => Node::Tuple((0..n).map(|_| node(r, d - 1)).collect()),
        5 => Node::TupleStruct((0..n).map(|_| node(r, d - 1)).collect()),
        6 => Node::TupleVariant(r.pick(NAMES), (0..n).map(|_| node(r, d - 1)).collect()),
        7 => Node::IntMap((0..n).map(|i| (i as i64 * 7 - 5, node(r, d - 1))).collect()),
        8 => Node::CharMap((0..n).map(|i| (['a', ',', 'é', '1'][i], node(r, d - 1))).collect()),
        9 => Node::VarMap(names(r).into_iter().map(|k| (k, node(r, d - 1))).collect()),
        10 => Node::StructVariant(r.pick(NAMES), names(r).into_iter().map(|k| (k, node(r, d - 1))).collect()),
        11 => Node::Bytes((0..n).map(|_| r.n() as u8).collect()),
        12 => Node::BoolMap((0..n.min(2)).map(|i| (i == 0, node(r, d - 1))).collect()),
        13 | 14 => {
            // rows
            let ks = names(r);
            Node::Seq((0..n + 1).map(|_| Node::Struct(ks.iter().map(|k| (*k, leaf(r))).collect())).collect())
        }
        15 => Node::Seq((0..n).map(|_| node(r, d - 1)).collect()),
        16 => Node::Seq((0..n).map(|_| leaf(r)).collect()),
        17 => {
            let mut m: Vec<(String, Node)> = vec![];
            for _ in 0..n {
                let k = key(r);
                if !m.iter().any(|(q, _)| *q == k) {
                    m.push((k, node(r, d - 1)));
                }
            }
            Node::Map(m)
        }
        18 => Node::Struct(vec![([ "a", "b", "x_1"][r.b(3)], node(r, d - 1))]),
        _ => Node::Struct(names(r).into_iter().map(|k| (k, node(r, d - 1))).collect()),
    }
}

// ---- derived types ----
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub id: u32,
    pub name: String,
    pub tags: Vec<String>,
    pub note: Option<String>,
    #[serde(default)]
    pub score: f64,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    Dot,
    Circle(f64),
    Line(i32, i32),
    Rect { w: u8, h: i64 },
    Label(String),
    Many(Vec<Shape>),
    Deep(Box<Shape>),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Wrap(pub i64);
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Name(pub String);
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Id(pub i16);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Pair(pub String, pub Option<bool>);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Tree2 {
    pub label: String,
    pub kids: Vec<Tree2>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Mixed {
    pub c: char,
    pub pair: (i8, String),
    pub arr: [u16; 3],
    pub w: Wrap,
    pub p: Pair,
    pub shapes: Vec<Shape>,
    pub m: BTreeMap<String, Option<i64>>,
    pub nested: Vec<Vec<Option<u8>>>,
    #[serde(rename = "odd key")]
    pub odd: Option<Rec>,
    pub b: bool,
    pub f: f32,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type")]
pub enum Tagged {
    Start { at: u64 },
    Stop { why: String, code: Option<i16> },
    Idle,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Loose {
    N(i64),
    S(String),
    L(Vec<Loose>),
    M { k: String },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Flat {
    pub id: u8,
    #[serde(flatten)]
    pub rest: BTreeMap<String, String>,
}

fn rec(r: &mut R) -> Rec {
    Rec {
        id: r.n() as u32,
        name: string(r),
        tags: (0..r.b(4)).map(|_| string(r)).collect(),
        note: if r.p(1, 2) { Some(nonnull(r)) } else { None },
        score: float(r) + 0.0,
    }
}
fn nonnull(r: &mut R) -> String {
    string(r)
}
fn shape(r: &mut R, d: usize) -> Shape {
    match r.b(if d == 0 { 5 } else { 7 }) {
        0 => Shape::Dot,
        1 => Shape::Circle(float(r) + 0.0),
        2 => Shape::Line(r.n() as i32, r.b(9) as i32),
        3 => Shape::Rect { w: r.n() as u8, h: r.n() as i64 },
        4 => Shape::Label(string(r)),
        5 => Shape::Many((0..r.b(4)).map(|_| shape(r, d - 1)).collect()),
        _ => Shape::Deep(Box::new(shape(r, d - 1))),
    }
}
fn tree2(r: &mut R, d: usize) -> Tree2 {
    Tree2 { label: string(r), kids: if d == 0 { vec![] } else { (0..r.b(4)).map(|_| tree2(r, d - 1)).collect() } }
}
fn mixed(r: &mut R) -> Mixed {
    Mixed {
        c: any_char(r),
        pair: (r.n() as i8, string(r)),
        arr: [r.n() as u16, 0, 7],
        w: Wrap(r.n() as i64),
        p: Pair(string(r), [None, Some(true), Some(false)][r.b(3)]),
        shapes: (0..r.b(4)).map(|_| shape(r, 2)).collect(),
        m: (0..r.b(4)).map(|_| (key_nodot(r), if r.p(1, 3) { None } else { Some(r.n() as i64) })).collect(),
        nested: (0..r.b(3)).map(|_| (0..r.b(3)).map(|_| if r.p(1, 3) { None } else { Some(r.n() as u8) }).collect()).collect(),
        odd: if r.p(1, 2) { Some(rec(r)) } else { None },
        b: r.p(1, 2),
        f: loop {
            let f = f32::from_bits(r.n() as u32);
            if f.is_finite() {
                break f + 0.0;
            }
        },
    }
}
fn key_nodot(r: &mut R) -> String {
    // a literal dotted identifier key is not kept apart from a folded one
    key(r).replace('.', "-")
}
fn loose(r: &mut R, d: usize) -> Loose {
    match r.b(if d == 0 { 2 } else { 4 }) {
        0 => Loose::N(r.n() as i64),
        1 => Loose::S(string(r)),
        2 => Loose::L((0..r.b(4)).map(|_| loose(r, d - 1)).collect()),
        _ => Loose::M { k: string(r) },
    }
}
fn tagged(r: &mut R) -> Tagged {
    match r.b(3) {
        0 => Tagged::Start { at: r.n() },
        1 => Tagged::Stop { why: string(r), code: if r.p(1, 2) { Some(r.n() as i16) } else { None } },
        _ => Tagged::Idle,
    }
}
fn rt<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug + 'static>(x: T, o: &Options) -> Option<String> {
    let t = match encode_to_string(&x, o) {
        Ok(t) => t,
        Err(e) => return Some(format!("encoding {x:?} fails: {e}")),
    };
    match decode_from_str::<T>(&t, o) {
        Ok(y) if y == x => None,
        Ok(y) => Some(format!("{x:?} is written {t:?}, which reads as {y:?}")),
        Err(e) => Some(format!("{x:?} is written {t:?}, which is rejected: {e}")),
    }
}
pub const TYPES: usize = 19;
pub fn roundtrip(ty: usize, r: &mut R, o: &Options) -> Option<String> {
    match ty {
        0 => rt(rec(r), o),
        1 => rt((0..r.b(5)).map(|_| rec(r)).collect::<Vec<_>>(), o),
        2 => rt(shape(r, 3), o),
        3 => rt((0..r.b(5)).map(|_| shape(r, 2)).collect::<Vec<_>>(), o),
        4 => rt(tree2(r, 3), o),
        5 => rt(mixed(r), o),
        6 => rt((0..r.b(4)).map(|_| mixed(r)).collect::<Vec<_>>(), o),
        7 => rt((0..r.b(4)).map(|_| (key_nodot(r), rec(r))).collect::<BTreeMap<_, _>>(), o),
        8 => rt((0..r.b(4)).map(|_| (key_nodot(r), shape(r, 1))).collect::<HashMap<_, _>>(), o),
        9 => rt((r.n() as i64, string(r), r.p(1, 2), if r.p(1, 2) { Some(Wrap(r.n() as i64)) } else { None }, [r.n() as u8, 3]), o),
        10 => rt((0..r.b(5)).map(|_| tagged(r)).collect::<Vec<_>>(), o),
        11 => rt((0..r.b(5)).map(|_| loose(r, 2)).collect::<Vec<_>>(), o),
        12 => rt((0..r.b(4)).map(|_| (r.n() as i32, string(r))).collect::<BTreeMap<i32, String>>(), o),
        13 => rt((0..r.b(4)).map(|_| (r.n(), shape(r, 1))).collect::<BTreeMap<u64, Shape>>(), o),
        14 => rt((if r.p(1, 2) { Some(string(r)) } else { None }, any_char(r), Pair(string(r), None)), o),
        15 => rt((0..r.b(4)).map(|_| (Name(key_nodot(r)), string(r))).collect::<BTreeMap<Name, String>>(), o),
        16 => rt((0..r.b(4)).map(|_| (Id(r.n() as i16), Name(string(r)))).collect::<HashMap<Id, Name>>(), o),
        17 => rt((0..r.b(3)).map(|i| (['a', '-', '7'][i], vec![(0..r.b(3)).map(|i| (i == 1, Id(r.b(9) as i16))).collect::<BTreeMap<bool, Id>>()])).collect::<BTreeMap<char, _>>(), o),
        _ => rt(Flat { id: r.n() as u8, rest: (0..r.b(3)).map(|i| (["a", "b q", "c-d"][i].to_string(), string(r))).collect() }, o),
    }
}
pub fn sample_text(r: &mut R, unit: usize) -> String {
    let o = Options { indent: unit, ..Default::default() };
    match r.b(7) {
        0 => encode_to_string(&rec(r), &o),
        1 => encode_to_string(&(0..r.b(4)).map(|_| rec(r)).collect::<Vec<_>>(), &o),
        2 => encode_to_string(&shape(r, 2), &o),
        3 => encode_to_string(&tree2(r, 2), &o),
        4 => encode_to_string(&mixed(r), &o),
        5 => encode_to_string(&tagged(r), &o),
        _ => encode_to_string(&loose(r, 2), &o),
    }
    .unwrap_or_default()
}
/// Decoding straight into a type, against decoding to a value and converting that.
pub fn compare(t: &str, v: &Value, o: &Options) -> Option<String> {
    fn one<T: DeserializeOwned + PartialEq + std::fmt::Debug + 'static>(t: &str, v: &Value, o: &Options) -> Option<String> {
        let a = decode_from_str::<T>(t, o);
        let b = serde_json::from_value::<T>(v.clone());
        match (a, b) {
            (Ok(a), Ok(b)) if a == b => None,
            (Err(_), Err(_)) => None,
            // what the value cannot hold (infinities, repeated keys) may differ
            (Ok(_), Err(_)) | (Err(_), Ok(_)) if !faithful(t, v, o) => None,
            (a, b) => Some(format!("as {}: {a:?}, by way of the value: {b:?}", std::any::type_name::<T>())),
        }
    }
    fn faithful(t: &str, v: &Value, o: &Options) -> bool {
        fn same(t: &Tree, v: &Value) -> bool {
            match (t, v) {
                (Tree::F(b), _) => f64::from_bits(*b).is_finite(),
                (Tree::A(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
                (Tree::O(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| same(x, y))),
                _ => true,
            }
        }
        decode_from_str::<Tree>(t, o).is_ok_and(|x| same(&x, v))
    }
    one::<Rec>(t, v, o)
        .or_else(|| one::<Vec<Rec>>(t, v, o))
        .or_else(|| one::<Shape>(t, v, o))
        .or_else(|| one::<Tree2>(t, v, o))
        .or_else(|| one::<Mixed>(t, v, o))
        // a tag given by position in an array may also be given by number: formats differ there
        .or_else(|| if v.is_array() { None } else { one::<Tagged>(t, v, o) })
        .or_else(|| one::<Loose>(t, v, o))
        .or_else(|| one::<BTreeMap<String, String>>(t, v, o))
        // number keys in their usual spelling only: formats differ in which others they take
        .or_else(|| if v.as_object().is_some_and(|m| m.keys().any(|k| k.parse::<i32>().is_ok_and(|i| i.to_string() != *k))) { None } else { one::<BTreeMap<i32, Loose>>(t, v, o) })
        .or_else(|| one::<Vec<Option<i64>>>(t, v, o))
        .or_else(|| one::<String>(t, v, o))
        .or_else(|| one::<(u8, String)>(t, v, o))
        .or_else(|| one::<f64>(t, v, o))
}
