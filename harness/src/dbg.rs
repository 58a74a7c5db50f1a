//! Parses Debug output into a tree and compares it with an expected one from the specification.
//!
//! Fields are matched by name; names that only one side knows are paired in order, so renaming or
//! reordering private fields does not matter. A struct or tuple with a single field may stand for
//! its content (newtypes).
use crate::util::*;
use crate::Res;
use serde_json::Value;

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    /// Number, identifier, or other bare word.
    Word(String),
    Str(String),
    List(Vec<Node>),
    /// Struct, tuple struct, enum variant with content, or anonymous tuple.
    Struct(String, Vec<(String, Node)>),
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}

impl Parser<'_> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let from = self.i.saturating_sub(30);
        let to = (self.i + 30).min(self.s.len());
        Err(format!(
            "cannot parse debug output ({m}) near {:?}",
            String::from_utf8_lossy(&self.s[from..to])
        ))
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            return true;
        }
        false
    }
    fn string(&mut self) -> Result<String, String> {
        let mut out = Vec::new();
        self.i += 1;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = self.s.get(self.i).copied().unwrap_or(0);
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'0' => out.push(0),
                        b'u' => {
                            let end = self.s[self.i..]
                                .iter()
                                .position(|&c| c == b'}')
                                .ok_or("bad escape")?;
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + end])
                                .map_err(|e| e.to_string())?;
                            let c = u32::from_str_radix(h, 16)
                                .ok()
                                .and_then(char::from_u32)
                                .ok_or("bad escape")?;
                            out.extend(c.to_string().as_bytes());
                            self.i += end + 1;
                        }
                        c => out.push(c),
                    }
                }
                c => out.push(c),
            }
        }
        self.err("unterminated string")
    }
    fn word(&mut self) -> String {
        let b = self.i;
        while self.i < self.s.len() && !b" \t\n,:{}()[]\"".contains(&self.s[self.i])
            || self.s[self.i..].starts_with(b"::")
        {
            self.i += if self.s[self.i..].starts_with(b"::") {
                2
            } else {
                1
            };
        }
        String::from_utf8_lossy(&self.s[b..self.i]).into_owned()
    }
    fn items(&mut self, close: u8) -> Result<Vec<Node>, String> {
        let mut v = Vec::new();
        while !self.eat(close) {
            if self.i >= self.s.len() {
                return self.err("unterminated list");
            }
            let n = self.node()?;
            // Map entries appear as pairs.
            if self.eat(b':') {
                let m = self.node()?;
                v.push(Node::Struct(
                    String::new(),
                    vec![(String::new(), n), (String::new(), m)],
                ));
            } else {
                v.push(n);
            }
            self.eat(b',');
        }
        Ok(v)
    }
    fn node(&mut self) -> Result<Node, String> {
        match self.peek() {
            b'"' => return Ok(Node::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                return Ok(Node::List(self.items(b']')?));
            }
            b'(' => {
                self.i += 1;
                let v = self.items(b')')?;
                return Ok(Node::Struct(
                    String::new(),
                    v.into_iter().map(|n| (String::new(), n)).collect(),
                ));
            }
            b'{' => {
                self.i += 1;
                return Ok(Node::List(self.items(b'}')?));
            }
            _ => (),
        }
        let w = self.word();
        if w.is_empty() {
            return self.err("empty word");
        }
        let save = self.i;
        match self.peek() {
            b'(' => {
                self.i += 1;
                // The text of a DeviceSQLString may be shown without quotes.
                if w == "DeviceSQLString" && self.s.get(self.i) != Some(&b'"') {
                    let n = self.s[self.i..]
                        .iter()
                        .position(|&c| c == b')')
                        .ok_or("unterminated string")?;
                    let t = String::from_utf8_lossy(&self.s[self.i..self.i + n]).into_owned();
                    self.i += n + 1;
                    return Ok(Node::Struct(w, vec![(String::new(), Node::Str(t))]));
                }
                let v = self.items(b')')?;
                Ok(Node::Struct(
                    w,
                    v.into_iter().map(|n| (String::new(), n)).collect(),
                ))
            }
            b'{' => {
                self.i += 1;
                let mut f = Vec::new();
                while !self.eat(b'}') {
                    self.ws();
                    if self.i >= self.s.len() {
                        return self.err("unterminated struct");
                    }
                    let name = self.word();
                    if name == ".." {
                        continue;
                    }
                    if !self.eat(b':') {
                        return self.err("missing colon");
                    }
                    let n = self.node()?;
                    f.push((name, n));
                    self.eat(b',');
                }
                Ok(Node::Struct(w, f))
            }
            _ => {
                self.i = save;
                Ok(Node::Word(w))
            }
        }
    }
}

pub fn parse(s: &str) -> Result<Node, String> {
    let mut p = Parser {
        s: s.as_bytes(),
        i: 0,
    };
    let n = p.node()?;
    if p.peek() != 0 {
        return p.err("trailing text");
    }
    Ok(n)
}

fn word(n: &Node) -> Option<&str> {
    match n {
        Node::Word(w) => Some(w),
        Node::Struct(_, f) if f.len() == 1 => word(&f[0].1),
        _ => None,
    }
}

fn number(w: &str) -> Option<u128> {
    if let Some(h) = w.strip_prefix("0x") {
        return u128::from_str_radix(h, 16).ok();
    }
    w.parse().ok()
}

/// Compares a node with the expected tree:
///   integer                 a number
///   {"n": [bytes]}          a number, most significant byte first
///   {"e": name}             a unit variant
///   {"x": [code points]}    a string
///   {"y": [bytes]}          a list of byte-sized numbers
///   {"s": name, "f": [[name, tree], ...]}   a struct (empty name: any)
///   [tree, ...]             a list
pub fn compare(path: &str, got: &Node, exp: &Value) -> Res {
    let fail = |why: String| Err(format!("{path}: {why}"));
    match exp {
        Value::Number(_) => match word(got).and_then(number) {
            Some(n) if n as i64 == int(exp) => Ok(()),
            _ => fail(format!("{} instead of {exp}", show(got))),
        },
        Value::Array(a) => match got {
            Node::List(l) => {
                if l.len() != a.len() {
                    return fail(format!("{} elements instead of {}", l.len(), a.len()));
                }
                l.iter()
                    .zip(a)
                    .enumerate()
                    .try_for_each(|(i, (g, e))| compare(&format!("{path}[{i}]"), g, e))
            }
            Node::Struct(_, f) if f.len() == 1 => compare(path, &f[0].1, exp),
            _ => fail(format!("{} instead of a list", show(got))),
        },
        Value::Object(o) => {
            // A text that is not valid Unicode: how it is shown is not specified.
            if o.contains_key("raw") {
                return Ok(());
            }
            if let Some(b) = o.get("n") {
                let want = bytes(b).iter().fold(0u128, |n, b| n << 8 | *b as u128);
                return match word(got).and_then(number) {
                    Some(n) if n == want => Ok(()),
                    _ => fail(format!("{} instead of {want}", show(got))),
                };
            }
            if let Some(d) = o.get("d") {
                let want = str_of(d);
                return match word(got) {
                    Some(w) if w == want => Ok(()),
                    _ => fail(format!("{} instead of {want}", show(got))),
                };
            }
            if let Some(e) = o.get("e") {
                let want = str_of(e);
                // A variant may be wrapped: Plain(Tracks).
                return match word(got) {
                    Some(w) if w.rsplit("::").next() == Some(want) => Ok(()),
                    _ => fail(format!("{} instead of {want}", show(got))),
                };
            }
            if let Some(x) = o.get("x") {
                let want = text(x);
                return match got {
                    Node::Str(s) if *s == want => Ok(()),
                    Node::Struct(_, f) if f.len() == 1 => compare(path, &f[0].1, exp),
                    _ => fail(format!("{} instead of {want:?}", show(got))),
                };
            }
            if let Some(y) = o.get("y") {
                let want = bytes(y);
                return match got {
                    Node::List(l) => {
                        let g: Option<Vec<u128>> =
                            l.iter().map(|n| word(n).and_then(number)).collect();
                        match g {
                            Some(g)
                                if g.iter()
                                    .map(|&x| x as i64)
                                    .eq(want.iter().map(|&x| x as i64)) =>
                            {
                                Ok(())
                            }
                            _ => fail(format!("{} instead of {}", show(got), hex(&want))),
                        }
                    }
                    Node::Struct(_, f) if f.len() == 1 => compare(path, &f[0].1, exp),
                    _ => fail(format!("{} instead of {}", show(got), hex(&want))),
                };
            }
            let name = str_of(&o["s"]);
            let ef: Vec<(&str, &Value)> = arr(&o["f"])
                .iter()
                .map(|p| (str_of(&p[0]), &p[1]))
                .collect();
            let (gn, gf) = match got {
                Node::Struct(n, f) => (n.as_str(), f),
                _ => return fail(format!("{} instead of {name}", show(got))),
            };
            if !name.is_empty() && !gn.is_empty() && name != gn {
                // The content of a newtype.
                if gf.len() == 1 {
                    return compare(path, &gf[0].1, exp);
                }
                return fail(format!("{gn} instead of {name}"));
            }
            if gf.len() != ef.len() {
                if gf.len() == 1 {
                    return compare(path, &gf[0].1, exp);
                }
                return fail(format!(
                    "{} fields instead of {}: {}",
                    gf.len(),
                    ef.len(),
                    show(got)
                ));
            }
            let mut rest: Vec<&Node> = gf
                .iter()
                .filter(|(n, _)| n.is_empty() || !ef.iter().any(|(e, _)| e == n))
                .map(|(_, n)| n)
                .collect();
            rest.reverse();
            for (n, e) in ef {
                let g = match gf.iter().find(|(g, _)| !n.is_empty() && g == n) {
                    Some((_, g)) => g,
                    None => match rest.pop() {
                        Some(g) => g,
                        None => return fail(format!("no field {n}: {}", show(got))),
                    },
                };
                compare(&format!("{path}.{n}"), g, e)?;
            }
            Ok(())
        }
        _ => fail(format!("bad expectation {exp}")),
    }
}

fn show(n: &Node) -> String {
    let s = format!("{n:?}");
    s.chars().take(300).collect()
}

pub fn check(what: &str, debug: &str, exp: &Value) -> Res {
    compare(what, &parse(debug)?, exp)
}
