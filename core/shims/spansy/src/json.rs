//! JSON. The view of a string or key lies between its quotes; that of a pair starts at
//! the key's opening quote and ends with the value, closing quote included; those of
//! objects and arrays include their brackets.
use crate::{viewed, ParseError, Store, View};
use bytes::Bytes;
use rangeset::set::RangeSet;
use std::ops::Range;

macro_rules! leaf {
    ($($t:ident),*) => {$(
        #[derive(Debug, Clone)]
        pub struct $t<S = Bytes> {
            pub(crate) view: View<S>,
        }
    )*};
}
leaf!(JsonKey, String, Number, Bool, Null);

impl<S> PartialEq<str> for JsonKey<S> {
    fn eq(&self, o: &str) -> bool {
        self.view == *o
    }
}
impl<S> PartialEq<&str> for JsonKey<S> {
    fn eq(&self, o: &&str) -> bool {
        self.view == **o
    }
}

#[derive(Debug, Clone)]
pub struct KeyValue<S = Bytes> {
    pub(crate) view: View<S>,
    pub key: JsonKey<S>,
    pub value: JsonValue<S>,
}
#[derive(Debug, Clone)]
pub struct Object<S = Bytes> {
    pub(crate) view: View<S>,
    pub elems: Vec<KeyValue<S>>,
}
#[derive(Debug, Clone)]
pub struct Array<S = Bytes> {
    pub(crate) view: View<S>,
    pub elems: Vec<JsonValue<S>>,
}
#[derive(Debug, Clone)]
pub enum JsonValue<S = Bytes> {
    Null(Null<S>),
    Bool(Bool<S>),
    Number(Number<S>),
    String(String<S>),
    Array(Array<S>),
    Object(Object<S>),
}
viewed!(JsonKey, String, Number, Bool, Null, KeyValue, Object, Array);

impl<S: Store> KeyValue<S> {
    pub fn without_value(&self) -> View<S> {
        self.view.without(self.value.view().indices())
    }
}
impl<S: Store> Object<S> {
    pub fn without_pairs(&self) -> View<S> {
        self.elems.iter().fold(self.view.clone(), |v, e| v.without(e.view.indices()))
    }
}
impl<S: Store> Array<S> {
    pub fn without_values(&self) -> View<S> {
        self.elems.iter().fold(self.view.clone(), |v, e| v.without(e.view().indices()))
    }
}
impl<S> JsonValue<S> {
    pub fn view(&self) -> &View<S> {
        match self {
            JsonValue::Null(v) => &v.view,
            JsonValue::Bool(v) => &v.view,
            JsonValue::Number(v) => &v.view,
            JsonValue::String(v) => &v.view,
            JsonValue::Array(v) => &v.view,
            JsonValue::Object(v) => &v.view,
        }
    }
    pub fn indices(&self) -> &RangeSet<usize> {
        self.view().indices()
    }
    /// The value at a path of keys and positions separated by dots.
    pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
        let (head, rest) = path.split_once('.').map_or((path, None), |(a, b)| (a, Some(b)));
        let v = match self {
            JsonValue::Object(o) => &o.elems.iter().find(|kv| kv.key == *head)?.value,
            JsonValue::Array(a) => a.elems.get(head.parse::<usize>().ok()?)?,
            _ => return None,
        };
        match rest {
            Some(r) => v.get(r),
            None => Some(v),
        }
    }
}

#[derive(Debug, Clone)]
pub struct JsonDocument<S = Bytes> {
    pub root: JsonValue<S>,
}
impl<S> JsonDocument<S> {
    pub fn get(&self, path: &str) -> Option<&JsonValue<S>> {
        self.root.get(path)
    }
}

pub trait JsonVisit<S = Bytes> {}

struct P<'a, S> {
    src: &'a S,
    /// Position in the source of each byte of the document.
    pos: &'a [usize],
    at: usize,
    depth: usize,
}
type R<T> = Result<T, ParseError>;

impl<S: Store> P<'_, S> {
    fn peek(&self) -> Option<u8> {
        self.pos.get(self.at).map(|&p| self.src.as_ref()[p])
    }
    fn bad<T>(&self, what: &str) -> R<T> {
        Err(ParseError(format!("json: {what} at {}", self.at)))
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.at += 1;
        }
    }
    fn view(&self, r: Range<usize>) -> View<S> {
        let mut s = RangeSet::default();
        for &p in &self.pos[r] {
            s.union_mut(p..p + 1);
        }
        View::new(self.src, s)
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.peek() != Some(c) {
            return self.bad(&format!("no '{}'", c as char));
        }
        self.at += 1;
        Ok(())
    }
    /// The range between the quotes.
    fn quoted(&mut self) -> R<Range<usize>> {
        self.expect(b'"')?;
        let s = self.at;
        loop {
            match self.peek() {
                None => return self.bad("open string"),
                Some(b'"') => break,
                Some(b'\\') => self.at += 2,
                Some(c) if c < 0x20 => return self.bad("control character"),
                Some(_) => self.at += 1,
            }
        }
        let r = s..self.at;
        self.at += 1;
        if std::str::from_utf8(self.view(r.clone()).as_bytes()).is_err() {
            return self.bad("not UTF-8");
        }
        Ok(r)
    }
    fn word(&mut self, w: &[u8]) -> R<View<S>> {
        let s = self.at;
        for &c in w {
            self.expect(c)?;
        }
        Ok(self.view(s..self.at))
    }
    fn digits(&mut self) -> R<()> {
        let s = self.at;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.at += 1;
        }
        if s == self.at {
            return self.bad("no digits");
        }
        Ok(())
    }
    fn value(&mut self) -> R<JsonValue<S>> {
        self.depth += 1;
        if self.depth > 100 {
            return self.bad("too deep");
        }
        let s = self.at;
        let v = match self.peek() {
            Some(b'{') => {
                self.at += 1;
                let mut elems = vec![];
                self.ws();
                if self.peek() != Some(b'}') {
                    loop {
                        self.ws();
                        let s = self.at;
                        let k = self.quoted()?;
                        let key = JsonKey { view: self.view(k) };
                        self.ws();
                        self.expect(b':')?;
                        self.ws();
                        let value = self.value()?;
                        elems.push(KeyValue { view: self.view(s..self.at), key, value });
                        self.ws();
                        if self.peek() == Some(b',') {
                            self.at += 1;
                        } else {
                            break;
                        }
                    }
                }
                self.expect(b'}')?;
                JsonValue::Object(Object { view: self.view(s..self.at), elems })
            }
            Some(b'[') => {
                self.at += 1;
                let mut elems = vec![];
                self.ws();
                if self.peek() != Some(b']') {
                    loop {
                        self.ws();
                        elems.push(self.value()?);
                        self.ws();
                        if self.peek() == Some(b',') {
                            self.at += 1;
                        } else {
                            break;
                        }
                    }
                }
                self.expect(b']')?;
                JsonValue::Array(Array { view: self.view(s..self.at), elems })
            }
            Some(b'"') => {
                let r = self.quoted()?;
                JsonValue::String(String { view: self.view(r) })
            }
            Some(b't') => JsonValue::Bool(Bool { view: self.word(b"true")? }),
            Some(b'f') => JsonValue::Bool(Bool { view: self.word(b"false")? }),
            Some(b'n') => JsonValue::Null(Null { view: self.word(b"null")? }),
            Some(b'-' | b'0'..=b'9') => {
                if self.peek() == Some(b'-') {
                    self.at += 1;
                }
                self.digits()?;
                if self.peek() == Some(b'.') {
                    self.at += 1;
                    self.digits()?;
                }
                if matches!(self.peek(), Some(b'e' | b'E')) {
                    self.at += 1;
                    if matches!(self.peek(), Some(b'+' | b'-')) {
                        self.at += 1;
                    }
                    self.digits()?;
                }
                JsonValue::Number(Number { view: self.view(s..self.at) })
            }
            _ => return self.bad("no value"),
        };
        self.depth -= 1;
        Ok(v)
    }
}

pub(crate) fn parse_at<S: Store>(src: &S, pos: &[usize]) -> R<JsonDocument<S>> {
    let mut p = P { src, pos, at: 0, depth: 0 };
    p.ws();
    let root = p.value()?;
    p.ws();
    if p.at != pos.len() {
        return p.bad("more data");
    }
    Ok(JsonDocument { root })
}
