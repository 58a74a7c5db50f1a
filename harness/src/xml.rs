//! XML documents: rendered from element trees, read, written, and parsed back into element trees.
use crate::codec::e;
use crate::util::*;
use crate::{dbg, Res};
use quick_xml::events::Event;
use rekordcrate::xml::Document;
use serde_json::Value;

#[derive(Debug, PartialEq)]
struct El {
    tag: String,
    attrs: Vec<(String, String)>,
    kids: Vec<El>,
}

/// How a document is laid out: quotes, white space between elements, empty elements, references.
fn render(v: &Value, style: i64, depth: usize, s: &mut String) {
    let q = if style & 1 == 1 { '\'' } else { '"' };
    let pretty = style & 2 == 2;
    let nl = |s: &mut String, d: usize| {
        if pretty {
            s.push('\n');
            (0..d).for_each(|_| s.push_str("  "));
        }
    };
    nl(s, depth);
    let tag = str_of(&v["tag"]);
    s.push('<');
    s.push_str(tag);
    for a in arr(&v["attrs"]) {
        s.push_str(if pretty { "\n   " } else { " " });
        s.push_str(str_of(&a[0]));
        s.push_str(if pretty { " = " } else { "=" });
        s.push(q);
        if let Some(x) = a[1].get("x") {
            for c in text(x).chars() {
                match c {
                    '&' => s.push_str("&amp;"),
                    '<' => s.push_str("&lt;"),
                    '>' => s.push_str("&gt;"),
                    '"' => s.push_str("&quot;"),
                    '\'' => s.push_str("&apos;"),
                    '\t' | '\n' | '\r' => s.push_str(&format!("&#{};", c as u32)),
                    c if style & 1 == 1 && c as u32 > 127 => {
                        s.push_str(&format!("&#x{:x};", c as u32))
                    }
                    c => s.push(c),
                }
            }
        } else {
            s.push_str(str_of(&a[1]["i"]));
        }
        s.push(q);
    }
    let kids = arr(&v["kids"]);
    if kids.is_empty() && style & 1 == 0 {
        s.push_str("/>");
        return;
    }
    s.push('>');
    if pretty {
        s.push_str("<!-- a comment -->");
    }
    for k in kids {
        render(k, style, depth + 1, s);
    }
    if !kids.is_empty() {
        nl(s, depth);
    }
    s.push_str("</");
    s.push_str(tag);
    s.push('>');
}

fn parse(s: &str) -> Result<El, String> {
    let mut r = quick_xml::Reader::from_str(s);
    let mut stack = vec![El {
        tag: String::new(),
        attrs: vec![],
        kids: vec![],
    }];
    loop {
        let ev = r.read_event().map_err(e)?;
        let (start, empty) = match &ev {
            Event::Start(b) => (Some(b), false),
            Event::Empty(b) => (Some(b), true),
            _ => (None, false),
        };
        if let Some(b) = start {
            let tag = String::from_utf8_lossy(b.name().as_ref()).into_owned();
            let mut attrs = vec![];
            for a in b.attributes() {
                let a = a.map_err(e)?;
                let raw = std::str::from_utf8(&a.value).map_err(e)?;
                let v = quick_xml::escape::unescape(raw).map_err(e)?.into_owned();
                attrs.push((String::from_utf8_lossy(a.key.as_ref()).into_owned(), v));
            }
            stack.push(El {
                tag,
                attrs,
                kids: vec![],
            });
        }
        if empty || matches!(ev, Event::End(_)) {
            let x = stack.pop().ok_or("unbalanced")?;
            stack.last_mut().ok_or("unbalanced")?.kids.push(x);
        }
        match ev {
            Event::Eof => break,
            Event::Text(t) if !String::from_utf8_lossy(&t).trim().is_empty() => {
                return Err("stray text".into())
            }
            _ => (),
        }
    }
    let mut root = stack.pop().ok_or("unbalanced")?;
    if !stack.is_empty() || root.kids.len() != 1 {
        return Err("not one root element".into());
    }
    Ok(root.kids.remove(0))
}

fn same(path: &str, got: &El, want: &Value) -> Res {
    let path = format!("{path}/{}", got.tag);
    if got.tag != str_of(&want["tag"]) {
        return Err(format!("written: {path} instead of {}", want["tag"]));
    }
    let wa = arr(&want["attrs"]);
    if wa.len() != got.attrs.len() {
        return Err(format!(
            "written: {path} has the attributes {:?} instead of {want:.300}",
            got.attrs
        ));
    }
    for a in wa {
        let name = str_of(&a[0]);
        let g = got
            .attrs
            .iter()
            .find(|(n, _)| n == name)
            .ok_or_else(|| format!("written: {path} lacks the attribute {name}"))?;
        let ok = match a[1].get("x") {
            Some(x) => text(x) == g.1,
            None => {
                let w = str_of(&a[1]["d"]);
                w == g.1
                    || (w.contains(['.', 'e', 'f'])
                        && w.parse::<f64>().ok() == g.1.parse::<f64>().ok())
            }
        };
        if !ok {
            return Err(format!(
                "written: {path} has {name}={:?} instead of {}",
                g.1, a[1]
            ));
        }
    }
    let wk = arr(&want["kids"]);
    if wk.len() != got.kids.len() {
        return Err(format!(
            "written: {path} has {} children instead of {}",
            got.kids.len(),
            wk.len()
        ));
    }
    got.kids
        .iter()
        .zip(wk)
        .try_for_each(|(g, w)| same(&path, g, w))
}

pub fn replay(v: &Value) -> Res {
    let style = int(&v["style"]);
    let mut s = String::new();
    if style & 2 == 2 {
        s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
    }
    render(&v["el"], style, 0, &mut s);
    let a: Result<Document, _> = quick_xml::de::from_str(&s);
    let b: Result<Document, _> =
        quick_xml::de::from_reader(std::io::BufReader::with_capacity(7, s.as_bytes()));
    if a.is_ok() != b.is_ok() {
        return Err(format!(
            "from a string: {a:.200?}, from a reader: {b:.200?}"
        ));
    }
    if v["tool"] == true {
        let r = crate::device::with_file("rekordbox.xml", s.as_bytes(), &["dump-xml", "@"])?;
        match &a {
            Err(_) if r.rc == Some(1) && r.out.is_empty() && r.err.contains("Error") => (),
            Ok(_) if r.rc == Some(0) && r.err.is_empty() => {
                crate::device::check_output(&r.out, &[serde_json::json!({"D": v["tree"]})], &[])?
            }
            _ => {
                return Err(format!(
                    "dump-xml ends with {:?}, {:.300?} {:.300?}",
                    r.rc, r.out, r.err
                ))
            }
        }
    }
    let x = match (a, v["ok"] == true) {
        (Err(_), false) => return Ok(()),
        (Err(w), true) => return Err(format!("reading failed: {w}\n{s:.600}")),
        (Ok(x), false) => return Err(format!("reading succeeded, but it must fail: {x:.400?}")),
        (Ok(x), true) => x,
    };
    if b.is_ok_and(|b| b != x) {
        return Err("reading from a reader gives another document".into());
    }
    dbg::check("document", &format!("{x:?}"), &v["tree"])?;
    let _ = format!("{x:#?}");
    let w = quick_xml::se::to_string(&x).map_err(|e| format!("writing failed: {e}"))?;
    let mut pretty = String::new();
    let mut ser = quick_xml::se::Serializer::new(&mut pretty);
    ser.indent(' ', 2);
    serde::Serialize::serialize(&x, ser).map_err(|e| format!("writing failed: {e}"))?;
    for w in [w, pretty] {
        same("", &parse(&w)?, &v["out"])?;
        let again: Document = quick_xml::de::from_str(&w)
            .map_err(|e| format!("reading what was written failed: {e}"))?;
        let broken = w.contains(['\n', '\t', '\r'])
            || s.contains("&#9;")
            || s.contains("&#10;")
            || s.contains("&#13;");
        if !broken && again != x {
            return Err(format!("another document was read back: {again:.600?}"));
        }
    }
    Ok(())
}
