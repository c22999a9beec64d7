//! What a GraphQL server reads in a request: one operation with its arguments, after variables
//! are put in their places.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub kind: String,
    pub field: String,
    pub args: Value,
    /// the members asked for, as paths
    pub members: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
enum T {
    Punct(char),
    Name(String),
    Var(String),
    Text(String),
    Number(String),
}
fn tokens(s: &str) -> Option<Vec<T>> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    let name = |i: &mut usize| {
        let a = *i;
        while *i < c.len() && (c[*i].is_ascii_alphanumeric() || c[*i] == '_') {
            *i += 1;
        }
        c[a..*i].iter().collect::<String>()
    };
    while i < c.len() {
        match c[i] {
            ' ' | '\t' | '\n' | '\r' | ',' | '\u{feff}' => i += 1,
            '#' => {
                while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                    i += 1
                }
            }
            '{' | '}' | '(' | ')' | '[' | ']' | ':' | '!' | '=' => {
                out.push(T::Punct(c[i]));
                i += 1
            }
            '$' => {
                i += 1;
                let n = name(&mut i);
                (!n.is_empty()).then_some(())?;
                out.push(T::Var(n))
            }
            '"' if c[i..].starts_with(&['"'; 3]) => {
                let mut t = String::new();
                i += 3;
                while !c.get(i..)?.starts_with(&['"'; 3]) {
                    t.push(*c.get(i)?);
                    i += 1;
                }
                i += 3;
                // the indentation is not what is explored
                out.push(T::Text(t))
            }
            '"' => {
                let mut t: Vec<u16> = vec![];
                i += 1;
                loop {
                    match *c.get(i)? {
                        '"' => break,
                        '\n' | '\r' => return None,
                        '\\' => {
                            i += 1;
                            let e = match *c.get(i)? {
                                'n' => '\n',
                                't' => '\t',
                                'r' => '\r',
                                'b' => '\u{8}',
                                'f' => '\u{c}',
                                x @ ('"' | '\\' | '/') => x,
                                'u' => {
                                    let h: String = c.get(i + 1..i + 5)?.iter().collect();
                                    t.push(u16::from_str_radix(&h, 16).ok()?);
                                    i += 5;
                                    continue;
                                }
                                _ => return None,
                            };
                            t.push(e as u16)
                        }
                        x if x < ' ' && x != '\t' => return None,
                        x => t.extend(x.encode_utf16(&mut [0; 2]).iter()),
                    }
                    i += 1
                }
                i += 1;
                out.push(T::Text(String::from_utf16(&t).ok()?))
            }
            x if x.is_ascii_alphabetic() || x == '_' => out.push(T::Name(name(&mut i))),
            x if x.is_ascii_digit() || x == '-' => {
                let a = i;
                i += 1;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || "+-.".contains(c[i])) {
                    i += 1
                }
                let n: String = c[a..i].iter().collect();
                serde_json::from_str::<Value>(&n).ok()?;
                out.push(T::Number(n))
            }
            _ => return None,
        }
    }
    Some(out)
}
struct P<'a> {
    t: &'a [T],
    i: usize,
    vars: BTreeMap<String, Option<Value>>,
    used: Vec<String>,
}
impl P<'_> {
    fn next(&mut self) -> Option<T> {
        self.i += 1;
        self.t.get(self.i - 1).cloned()
    }
    fn is(&mut self, c: char) -> bool {
        let r = self.t.get(self.i) == Some(&T::Punct(c));
        self.i += r as usize;
        r
    }
    fn expect(&mut self, c: char) -> Option<()> {
        self.is(c).then_some(())
    }
    fn name(&mut self) -> Option<String> {
        match self.next()? {
            T::Name(n) => Some(n),
            _ => None,
        }
    }
    fn ty(&mut self) -> Option<String> {
        let mut t = if self.is('[') {
            let t = self.ty()?;
            self.expect(']')?;
            format!("[{t}]")
        } else {
            self.name()?
        };
        if self.is('!') {
            t.push('!')
        }
        Some(t)
    }
    /// A value; None inside for a variable that is not given.
    fn value(&mut self) -> Option<Option<Value>> {
        Some(Some(match self.next()? {
            T::Text(t) => json!(t),
            T::Number(n) => serde_json::from_str(&n).ok()?,
            T::Name(n) => match &n[..] {
                "true" => json!(true),
                "false" => json!(false),
                "null" => json!(null),
                _ => json!({ "enum": n }),
            },
            T::Var(n) => {
                self.used.push(n.clone());
                return Some(self.vars.get(&n)?.clone());
            }
            T::Punct('[') => {
                let mut l = vec![];
                while !self.is(']') {
                    l.push(self.value()?.unwrap_or(Value::Null))
                }
                json!(l)
            }
            T::Punct('{') => {
                let mut m = Map::new();
                while !self.is('}') {
                    let k = self.name()?;
                    self.expect(':')?;
                    if m.contains_key(&k) {
                        return None;
                    }
                    if let Some(v) = self.value()? {
                        m.insert(k, v);
                    }
                }
                json!(m)
            }
            _ => return None,
        }))
    }
    fn args(&mut self) -> Option<Value> {
        let mut m = Map::new();
        if self.is('(') {
            while !self.is(')') {
                let k = self.name()?;
                self.expect(':')?;
                if m.contains_key(&k) {
                    return None;
                }
                if let Some(v) = self.value()? {
                    m.insert(k, v);
                }
            }
            if m.is_empty() {
                return None;
            }
        }
        Some(json!(m))
    }
    fn selection(&mut self, path: &str, out: &mut Vec<String>) -> Option<()> {
        self.expect('{')?;
        let mut any = false;
        while !self.is('}') {
            let mut n = self.name()?;
            let alias = n.clone();
            if self.is(':') {
                n = self.name()?;
                // another name for a member changes the answer
                n = format!("{alias}={n}");
            }
            any = true;
            let p = format!("{path}{n}");
            if self.t.get(self.i) == Some(&T::Punct('{')) {
                self.selection(&format!("{p}."), out)?
            } else {
                out.push(p)
            }
        }
        any.then_some(())
    }
}
/// The operation a server reads in `body`, or None if it is not well formed.
pub fn read(body: &Value) -> Option<Call> {
    let body = body.as_object()?;
    let t = tokens(body.get("query")?.as_str()?)?;
    let given = match body.get("variables") {
        None | Some(Value::Null) => Map::new(),
        Some(v) => v.as_object()?.clone(),
    };
    let mut p = P { t: &t, i: 0, vars: BTreeMap::new(), used: vec![] };
    let mut kind = "query".to_string();
    if t.first() != Some(&T::Punct('{')) {
        kind = p.name()?;
        if let Some(T::Name(n)) = t.get(p.i) {
            // the name of the operation, which `operationName` has to be if there is one
            if !matches!(body.get("operationName"), None | Some(Value::Null)) && body["operationName"] != json!(n) {
                return None;
            }
            p.i += 1
        }
        if p.is('(') {
            while !p.is(')') {
                let T::Var(n) = p.next()? else { return None };
                p.expect(':')?;
                let ty = p.ty()?;
                let default = if p.is('=') { p.value()? } else { None };
                let v = given.get(&n).cloned().or(default);
                if ty.ends_with('!') && matches!(v, None | Some(Value::Null)) {
                    return None;
                }
                // what a variable of a scalar type can hold
                let fits = match (ty.trim_end_matches('!'), &v) {
                    (_, None | Some(Value::Null)) => true,
                    ("String" | "ID", Some(v)) => v.is_string(),
                    ("PublicKey", Some(v)) => v.is_string(),
                    ("Int", Some(v)) => v.as_i64().map_or(false, |i| i as i32 as i64 == i),
                    ("UInt64" | "UInt32", Some(v)) => v.is_string() || v.is_u64(),
                    (t, Some(v)) if t.ends_with("Input") => v.is_object(),
                    _ => false,
                };
                if !fits || p.vars.insert(n, v).is_some() {
                    return None;
                }
            }
        }
    }
    p.expect('{')?;
    let field = p.name()?;
    let args = p.args()?;
    let mut members = vec![];
    p.selection("", &mut members)?;
    p.expect('}')?;
    if p.i != t.len() || p.vars.keys().any(|v| !p.used.contains(v)) {
        return None;
    }
    Some(Call { kind, field, args, members })
}
