//! Stand-in for `serde_yaml`: block mappings and block sequences of scalars, by indentation, with comments and quotes.
use serde::de::{self, value::StrDeserializer, DeserializeOwned, DeserializeSeed, Deserializer, IntoDeserializer, Visitor};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(t: T) -> Self {
        Error(t.to_string())
    }
}
fn err<T>(s: impl fmt::Display) -> Result<T, Error> {
    Err(Error(s.to_string()))
}

enum Node {
    Scalar(String, bool),
    Seq(Vec<Node>),
    Map(Vec<(String, Node)>),
}

pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> Result<T, Error> {
    from_str(std::str::from_utf8(b).map_err(|e| Error(e.to_string()))?)
}
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    let mut lines = vec![];
    for l in s.lines() {
        let l = strip(l);
        let body = l.trim_start();
        if body.is_empty() || body == "---" {
            continue;
        }
        if l[..l.len() - body.len()].contains('\t') {
            return err("found a tab used for indentation");
        }
        lines.push((l.len() - body.len(), body.to_string()));
    }
    let mut p = 0;
    let n = if lines.is_empty() { Node::Scalar("null".into(), false) } else { block(&lines, &mut p, lines[0].0)? };
    if p < lines.len() {
        return err(format!("unexpected {}", lines[p].1));
    }
    T::deserialize(De(&n))
}
/// without comment and trailing space
fn strip(l: &str) -> &str {
    let mut q = None;
    let mut prev = ' ';
    for (i, c) in l.char_indices() {
        match q {
            Some(x) if c == x => q = None,
            Some(_) => {}
            None if (c == '\'' || c == '"') && (prev == ' ' || prev == ':') => q = Some(c),
            None if c == '#' && prev.is_whitespace() => return l[..i].trim_end(),
            None => {}
        }
        prev = c;
    }
    l.trim_end()
}
fn scalar(s: &str) -> Result<Node, Error> {
    for q in ['\'', '"'] {
        if let Some(r) = s.strip_prefix(q) {
            return match r.strip_suffix(q) {
                Some(x) if q == '\'' => Ok(Node::Scalar(x.replace("''", "'"), true)),
                Some(x) if !x.contains('\\') => Ok(Node::Scalar(x.into(), true)),
                _ => err(format!("cannot read {s}")),
            };
        }
    }
    if s == "[]" {
        return Ok(Node::Seq(vec![]));
    }
    if s == "{}" {
        return Ok(Node::Map(vec![]));
    }
    match s.chars().next() {
        Some('[' | '{' | '&' | '*' | '!' | '|' | '>' | '%' | '@' | '`') => err(format!("cannot read {s}")),
        _ => Ok(Node::Scalar(s.into(), false)),
    }
}
fn block(l: &[(usize, String)], p: &mut usize, ind: usize) -> Result<Node, Error> {
    if l[*p].1 == "-" || l[*p].1.starts_with("- ") {
        let mut v = vec![];
        while *p < l.len() && l[*p].0 == ind && (l[*p].1 == "-" || l[*p].1.starts_with("- ")) {
            let rest = l[*p].1[1..].trim_start().to_string();
            if rest.is_empty() {
                *p += 1;
                v.push(inner(l, p, ind)?);
            } else if key(&rest).is_some() {
                // a mapping that starts on the line of the dash
                let off = ind + l[*p].1.len() - rest.len();
                let mut own = vec![(off, rest)];
                *p += 1;
                while *p < l.len() && l[*p].0 > ind {
                    own.push(l[*p].clone());
                    *p += 1;
                }
                let mut q = 0;
                v.push(block(&own, &mut q, off)?);
                if q < own.len() {
                    return err(format!("unexpected {}", own[q].1));
                }
            } else {
                v.push(scalar(&rest)?);
                *p += 1;
            }
        }
        return Ok(Node::Seq(v));
    }
    let mut v: Vec<(String, Node)> = vec![];
    while *p < l.len() && l[*p].0 == ind {
        let Some((k, rest)) = key(&l[*p].1) else {
            if v.is_empty() && *p + 1 == l.len() {
                *p += 1;
                return scalar(&l[*p - 1].1);
            }
            return err(format!("unexpected {}", l[*p].1));
        };
        *p += 1;
        let n = if !rest.is_empty() {
            scalar(&rest)?
        } else if *p < l.len() && l[*p].0 == ind && l[*p].1.starts_with('-') {
            block(l, p, ind)?
        } else {
            inner(l, p, ind)?
        };
        v.push((k, n));
    }
    Ok(Node::Map(v))
}
fn inner(l: &[(usize, String)], p: &mut usize, ind: usize) -> Result<Node, Error> {
    if *p < l.len() && l[*p].0 > ind {
        let i = l[*p].0;
        block(l, p, i)
    } else {
        Ok(Node::Scalar("null".into(), false))
    }
}
fn key(s: &str) -> Option<(String, String)> {
    if s.starts_with(['\'', '"']) {
        let q = s.chars().next()?;
        let e = s[1..].find(q)? + 1;
        let r = s[e + 1..].strip_prefix(':')?;
        return (r.is_empty() || r.starts_with(' ')).then(|| (s[1..e].to_string(), r.trim_start().to_string()));
    }
    if let Some(k) = s.strip_suffix(':').filter(|k| !k.contains(": ")) {
        return Some((k.to_string(), String::new()));
    }
    let (k, r) = s.split_once(": ")?;
    Some((k.trim_end().to_string(), r.trim_start().to_string()))
}

struct De<'a>(&'a Node);
fn number(s: &str) -> Option<i128> {
    let (neg, t) = s.strip_prefix('-').map_or((false, s.strip_prefix('+').unwrap_or(s)), |t| (true, t));
    let n = if let Some(h) = t.strip_prefix("0x") {
        i128::from_str_radix(h, 16).ok()?
    } else if let Some(o) = t.strip_prefix("0o") {
        i128::from_str_radix(o, 8).ok()?
    } else if t.len() > 1 && t.starts_with('0') {
        return None;
    } else if t.bytes().all(|c| c.is_ascii_digit()) {
        t.parse().ok()?
    } else {
        return None;
    };
    Some(if neg { -n } else { n })
}
fn null(s: &str) -> bool {
    matches!(s, "" | "~" | "null" | "Null" | "NULL")
}
impl<'de> Deserializer<'de> for De<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Scalar(s, true) => v.visit_str(s),
            Node::Scalar(s, false) => match number(s) {
                Some(n) if u64::try_from(n).is_ok() => v.visit_u64(n as u64),
                Some(n) if i64::try_from(n).is_ok() => v.visit_i64(n as i64),
                _ if null(s) => v.visit_unit(),
                _ if s == "true" => v.visit_bool(true),
                _ if s == "false" => v.visit_bool(false),
                _ => v.visit_str(s),
            },
            Node::Seq(l) => v.visit_seq(Seq(l.iter())),
            Node::Map(m) => v.visit_map(Map(m.iter(), None)),
        }
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Scalar(s, _) => v.visit_str(s),
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Scalar(s, false) if null(s) => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Scalar(s, _) => v.visit_enum(s.as_str().into_deserializer()),
            _ => err("expected a name"),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf unit unit_struct seq tuple tuple_struct
        map struct identifier ignored_any
    }
}
struct Seq<'a>(std::slice::Iter<'a, Node>);
impl<'de> de::SeqAccess<'de> for Seq<'_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.0.next().map(|n| s.deserialize(De(n))).transpose()
    }
}
struct Map<'a>(std::slice::Iter<'a, (String, Node)>, Option<&'a Node>);
impl<'de> de::MapAccess<'de> for Map<'_> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        let Some((k, n)) = self.0.next() else { return Ok(None) };
        self.1 = Some(n);
        s.deserialize(StrDeserializer::<Error>::new(k)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(De(self.1.take().expect("a key first")))
    }
}
