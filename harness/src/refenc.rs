//! An independent writer of well-formed documents, used to build inputs whose meaning is known:
//! it shares no code with the crate. It records where each array sits so that a fault can be put in.
use crate::util::R;
use serde_json::{Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Inline,
    Table,
    List,
}
#[derive(Clone, Debug)]
pub struct Arr {
    pub kind: Kind,
    pub n: usize,
    #[allow(dead_code)]
    pub header: usize,      // line of the header
    pub rows: Vec<usize>,   // first line of each row or item (empty for inline)
    pub last: usize,        // last line of the array
    pub cols: usize,
}
pub struct Line {
    pub ind: usize,
    pub text: String,
}
#[derive(Clone, Debug, Default)]
pub struct Fault {
    pub arr: usize,
    pub declared: i64, // added to the declared length
    pub row: usize,
    pub cells: i64, // cells added to (or removed from) that row of a table
}
pub struct Style {
    pub quote_all: bool,
    pub delim: char,
    pub own_delims: bool, // let each array choose its own delimiter
    pub pad: bool,        // spaces around delimiters
    pub lists: bool,      // choose list form now and then where a shorter one exists
}
pub struct W<'a> {
    pub lines: Vec<Line>,
    pub arrs: Vec<Arr>,
    pub unit: usize,
    pub st: Style,
    pub fault: Option<Fault>,
    pub r: &'a mut R,
}

fn plain(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic())
        && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
        && !["true", "false", "null"].contains(&s)
        && s.parse::<f64>().is_err()
}
pub fn quote(s: &str, r: &mut R) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' if r.p(1, 2) => o.push_str("\\b"),
            '\u{c}' if r.p(1, 2) => o.push_str("\\f"),
            '/' if r.p(1, 2) => o.push_str("\\/"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || ((c as u32) < 0x10000 && r.p(1, 30)) => {
                if r.p(1, 2) {
                    o.push_str(&format!("\\u{:04x}", c as u32))
                } else {
                    o.push_str(&format!("\\u{:04X}", c as u32))
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn num_text(n: &serde_json::Number) -> String {
    if let Some(i) = n.as_i64() {
        return i.to_string();
    }
    if let Some(i) = n.as_u64() {
        return i.to_string();
    }
    format!("{:?}", n.as_f64().unwrap())
}
impl<'a> W<'a> {
    pub fn new(r: &'a mut R, unit: usize, delim: char) -> W<'a> {
        let st = Style { quote_all: r.p(1, 3), delim, own_delims: r.p(1, 2), pad: r.p(1, 4), lists: r.p(1, 3) };
        W { lines: vec![], arrs: vec![], unit, st, fault: None, r }
    }
    fn s(&mut self, s: &str) -> String {
        if plain(s) && !(self.st.quote_all && self.r.p(1, 2)) { s.to_string() } else { quote(s, self.r) }
    }
    fn prim(&mut self, v: &Value) -> String {
        match v {
            Value::Null => "null".into(),
            Value::Bool(b) => b.to_string(),
            Value::Number(n) => num_text(n),
            Value::String(s) => self.s(s),
            _ => unreachable!(),
        }
    }
    fn line(&mut self, ind: usize, text: String) -> usize {
        self.lines.push(Line { ind, text });
        self.lines.len() - 1
    }
    fn join(&mut self, cells: &[String], d: char) -> String {
        let mut o = String::new();
        for (i, c) in cells.iter().enumerate() {
            if i > 0 {
                if self.st.pad && self.r.p(1, 3) {
                    o.push(' ');
                }
                o.push(d);
                if self.st.pad && self.r.p(1, 3) {
                    o.push(' ');
                }
            }
            o.push_str(c);
        }
        o
    }
    pub fn doc(&mut self, v: &Value) {
        match v {
            Value::Array(a) => self.arr("", "", 0, 0, a, true),
            Value::Object(m) => {
                for (k, v) in m {
                    self.field("", 0, 0, k, v);
                }
            }
            p => {
                let t = self.prim(p);
                self.line(0, t);
            }
        }
    }
    /// A field whose line stands at `ind` (after `pre`); its nested content belongs one unit under `base`.
    fn field(&mut self, pre: &str, ind: usize, base: usize, k: &str, v: &Value) {
        let kt = self.s(k);
        match v {
            Value::Array(a) => self.arr(pre, &kt, ind, base, a, true),
            Value::Object(m) => {
                self.line(ind, format!("{pre}{kt}:"));
                for (k2, v2) in m {
                    let c = base + self.unit;
                    self.field("", c, c, k2, v2);
                }
            }
            p => {
                let t = self.prim(p);
                self.line(ind, format!("{pre}{kt}: {t}"));
            }
        }
    }
    fn arr(&mut self, pre: &str, kt: &str, ind: usize, base: usize, a: &[Value], table_ok: bool) {
        let me = self.arrs.len();
        let f = self.fault.clone().filter(|f| f.arr == me);
        let n = (a.len() as i64 + f.as_ref().map(|f| f.declared).unwrap_or(0)).max(0);
        let d = if self.st.own_delims { *self.r.pick(&[',', '\t', '|']) } else { self.st.delim };
        let dt = if d == ',' { String::new() } else { d.to_string() };
        self.arrs.push(Arr { kind: Kind::Inline, n: a.len(), header: self.lines.len(), rows: vec![], last: 0, cols: 0 });
        let prims = a.iter().all(|x| !x.is_array() && !x.is_object());
        let listy = self.st.lists && self.r.p(1, 3);
        let cols = if table_ok { columns(a) } else { None };
        if let Some(ks) = cols.filter(|_| !listy) {
            self.arrs[me].kind = Kind::Table;
            self.arrs[me].cols = ks.len();
            let kts: Vec<String> = ks.iter().map(|k| self.s(k)).collect();
            let h = self.join(&kts, d);
            self.line(ind, format!("{pre}{kt}[{n}{dt}]{{{h}}}:"));
            for (i, row) in a.iter().enumerate() {
                let mut cells: Vec<String> = ks.iter().map(|k| self.prim(&row[k])).collect();
                if let Some(f) = f.as_ref().filter(|f| f.row == i) {
                    for _ in 0..f.cells.max(0) {
                        cells.push("1".into());
                    }
                    for _ in 0..(-f.cells).max(0) {
                        cells.pop();
                    }
                    if cells.is_empty() {
                        cells = vec!["1".into(); ks.len() + 1];
                    }
                }
                let t = self.join(&cells, d);
                let l = self.line(base + self.unit, t);
                self.arrs[me].rows.push(l);
            }
        } else if prims && !listy && !a.is_empty() {
            let cells: Vec<String> = a.iter().map(|x| self.prim(x)).collect();
            let t = self.join(&cells, d);
            self.line(ind, format!("{pre}{kt}[{n}{dt}]: {t}"));
        } else {
            self.arrs[me].kind = Kind::List;
            self.line(ind, format!("{pre}{kt}[{n}{dt}]:"));
            for x in a {
                let l = self.lines.len();
                self.arrs[me].rows.push(l);
                self.item(base + self.unit, x);
            }
        }
        self.arrs[me].last = self.lines.len() - 1;
    }
    fn item(&mut self, ind: usize, v: &Value) {
        match v {
            Value::Array(a) => self.arr("- ", "", ind, ind, a, false),
            Value::Object(m) if m.is_empty() => {
                self.line(ind, "-".into());
            }
            Value::Object(m) => {
                let c = ind + self.unit;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i == 0 { self.field("- ", ind, c, k, v) } else { self.field("", c, c, k, v) }
                }
            }
            p => {
                let t = self.prim(p);
                self.line(ind, format!("- {t}"));
            }
        }
    }
    pub fn text(&self) -> String {
        self.lines.iter().map(|l| " ".repeat(l.ind) + &l.text).collect::<Vec<_>>().join("\n")
    }
}
/// The columns of a table, if the array can be one.
pub fn columns(a: &[Value]) -> Option<Vec<String>> {
    let first: &Map<String, Value> = a.first()?.as_object()?;
    if first.is_empty() {
        return None;
    }
    for x in a {
        let o = x.as_object()?;
        if o.len() != first.len() || !o.keys().all(|k| first.contains_key(k)) {
            return None;
        }
        if o.values().any(|v| v.is_array() || v.is_object()) {
            return None;
        }
    }
    Some(first.keys().cloned().collect())
}
