//! Observation of a parsed document through its public API.

use std::fmt::Write as _;

use asciidoc_parser::{
    Document, HasSpan, Span,
    attributes::Attrlist,
    blocks::{Block, IsBlock},
    document::{Attribute, InterpretedValue},
};

pub fn val(v: &InterpretedValue) -> String {
    match v {
        InterpretedValue::Value(s) => format!("={s}"),
        InterpretedValue::Set => "set".into(),
        InterpretedValue::Unset => "unset".into(),
    }
}

/// Visit every block in document order (parents before children).
pub fn walk<'a>(doc: &'a Document<'a>, f: &mut dyn FnMut(&'a Block<'a>, usize)) {
    fn go<'a>(b: &'a Block<'a>, d: usize, f: &mut dyn FnMut(&'a Block<'a>, usize)) {
        f(b, d);
        for c in b.nested_blocks() {
            go(c, d + 1, f);
        }
    }
    for b in doc.nested_blocks() {
        go(b, 0, f);
    }
}

pub fn block_count(doc: &Document<'_>) -> usize {
    fn go<'a>(b: &'a Block<'a>) -> usize {
        1 + b.nested_blocks().map(|c| go(c)).sum::<usize>()
    }
    doc.nested_blocks().map(go).sum()
}

pub struct Sp {
    pub what: &'static str,
    pub data: String,
    pub ptr: usize,
    pub line: usize,
    pub col: usize,
    pub off: usize,
}

impl Sp {
    fn new(what: &'static str, s: Span<'_>) -> Self {
        Sp {
            what,
            data: s.data().to_string(),
            ptr: s.data().as_ptr() as usize,
            line: s.line(),
            col: s.col(),
            off: s.byte_offset(),
        }
    }

    pub fn end(&self) -> usize {
        self.off + self.data.len()
    }
}

fn attr_spans(a: &Attribute<'_>, r: &mut Vec<Sp>) {
    r.push(Sp::new("attribute", a.span()));
    r.push(Sp::new("attribute name", *a.name()));
    if let Some(v) = a.raw_value() {
        r.push(Sp::new("attribute value", v));
    }
}

/// Spans of one block (not of its children), first its own span.
pub fn block_spans<'a>(b: &'a Block<'a>) -> Vec<Sp> {
    let mut r = vec![Sp::new("block", b.span())];
    if let Some(s) = b.title_source() {
        r.push(Sp::new("block title", s));
    }
    if let Some(s) = b.anchor() {
        r.push(Sp::new("block anchor", s));
    }
    if let Some(s) = b.anchor_reftext() {
        r.push(Sp::new("anchor reftext", s));
    }
    if let Some(a) = b.attrlist() {
        r.push(Sp::new("attrlist", a.span()));
    }
    match b {
        Block::Simple(s) => r.push(Sp::new("paragraph content", s.content().original())),
        Block::RawDelimited(s) => r.push(Sp::new("raw content", s.content().original())),
        Block::Section(s) => r.push(Sp::new("section title", s.section_title_source())),
        Block::Media(m) => {
            if let Some(t) = m.target() {
                r.push(Sp::new("media target", *t));
            }
            r.push(Sp::new("media attrlist", m.macro_attrlist().span()));
        }
        Block::DocumentAttribute(a) => attr_spans(a, &mut r),
        _ => {}
    }
    r
}

/// Spans of the document itself, its header and its warnings.
pub fn header_spans(doc: &Document<'_>) -> Vec<Sp> {
    let mut r = vec![Sp::new("document", doc.span())];
    let h = doc.header();
    r.push(Sp::new("header", h.span()));
    if let Some(s) = h.title_source() {
        r.push(Sp::new("document title", s));
    }
    for a in h.attributes() {
        attr_spans(a, &mut r);
    }
    if let Some(a) = h.author_line() {
        r.push(Sp::new("author line", a.span()));
    }
    if let Some(a) = h.revision_line() {
        r.push(Sp::new("revision line", a.span()));
    }
    for c in h.comments() {
        r.push(Sp::new("header comment", *c));
    }
    for w in doc.warnings() {
        r.push(Sp::new("warning", w.source));
    }
    r
}

fn sp(s: Span<'_>) -> String {
    format!("{}:{}@{}+{}", s.line(), s.col(), s.byte_offset(), s.data().len())
}

pub fn attrlist_dump<'a>(a: &'a Attrlist<'a>) -> String {
    let mut s = String::new();
    let _ = write!(s, "[{} anchor={:?}", sp(a.span()), a.anchor());
    for e in a.attributes() {
        let _ = write!(s, " {:?}={:?}{:?}", e.name(), e.value(), e.shorthand_items());
    }
    let _ = write!(s, " id={:?} roles={:?} opts={:?} style={:?}]", a.id(), a.roles(), a.options(), a.block_style());
    s
}

pub fn attr_dump(a: &Attribute<'_>) -> String {
    format!("{} {:?} {:?} {}", sp(a.span()), a.name().data(), a.raw_value().map(|v| v.data().to_string()), val(a.value()))
}

pub fn block_dump<'a>(b: &'a Block<'a>, depth: usize, s: &mut String) {
    let _ = write!(
        s,
        "{}{} ctx={} {:?} span={} style={:?} id={:?} roles={:?} opts={:?} title={:?} rendered={:?} subs={:?}",
        "  ".repeat(depth),
        b.raw_context(),
        b.resolved_context(),
        b.content_model(),
        sp(b.span()),
        b.declared_style(),
        b.id(),
        b.roles(),
        b.options(),
        b.title(),
        b.rendered_content(),
        b.substitution_group()
    );
    for x in block_spans(b).iter().skip(1) {
        let _ = write!(s, " {}={:?}@{}", x.what, x.data, x.off);
    }
    if let Some(a) = b.attrlist() {
        let _ = write!(s, " {}", attrlist_dump(a));
    }
    match b {
        Block::Simple(p) => {
            let _ = write!(s, " {:?}", p.style());
        }
        Block::Section(x) => {
            let _ = write!(
                s,
                " id={:?} level={} {:?} type={:?} number={:?}",
                x.id(),
                x.level(),
                x.section_title(),
                x.section_type(),
                x.section_number().map(|n| n.to_string())
            );
        }
        Block::Media(m) => {
            let _ = write!(s, " {:?} {}", m.type_(), attrlist_dump(m.macro_attrlist()));
        }
        Block::Break(k) => {
            let _ = write!(s, " {:?}", k.type_());
        }
        Block::DocumentAttribute(a) => {
            let _ = write!(s, " {}", attr_dump(a));
        }
        _ => {}
    }
    s.push('\n');
    for c in b.nested_blocks() {
        block_dump(c, depth + 1, s);
    }
}

pub fn header_dump(doc: &Document<'_>) -> String {
    let mut s = String::new();
    let h = doc.header();
    let _ = writeln!(s, "header {} title={:?} src={:?}", sp(h.span()), h.title(), h.title_source().map(|x| sp(x)));
    for a in h.attributes() {
        let _ = writeln!(s, " attr {}", attr_dump(a));
    }
    if let Some(al) = h.author_line() {
        let _ = writeln!(s, " authorline {}", sp(al.span()));
        for a in al.authors() {
            let _ = writeln!(
                s,
                "  author {:?} {:?} {:?} {:?} {:?} {:?}",
                a.name(),
                a.firstname(),
                a.middlename(),
                a.lastname(),
                a.email(),
                a.initials()
            );
        }
    }
    if let Some(r) = h.revision_line() {
        let _ = writeln!(s, " revline {} {:?} {:?} {:?}", sp(r.span()), r.revnumber(), r.revdate(), r.revremark());
    }
    for c in h.comments() {
        let _ = writeln!(s, " comment {:?} {}", c.data(), sp(*c));
    }
    s
}

/// Names that a document could have registered, looked up in its catalog.
pub fn catalog_dump(doc: &Document<'_>) -> String {
    let mut ids: Vec<String> = vec![];
    walk(doc, &mut |b, _| {
        let id = if let Block::Section(x) = b { x.id() } else { b.id() };
        if let Some(i) = id {
            ids.push(i.to_string());
        }
    });
    ids.sort();
    ids.dedup();
    let c = doc.catalog();
    let mut s = format!("catalog {}\n", c.len());
    for i in ids {
        let e = c.get_ref(&i);
        let _ = writeln!(s, " {i:?} {e:?} {:?}", e.and_then(|e| e.reftext.as_deref()).and_then(|t| c.resolve_id(t)));
    }
    s
}

pub fn warnings_dump(doc: &Document<'_>) -> String {
    let mut s = String::new();
    for w in doc.warnings() {
        let _ = writeln!(s, "warning {:?} {:?} {}", w.warning, w.source.data(), sp(w.source));
    }
    s
}

/// Everything the public API says about a document, as text.
pub fn dump(doc: &Document<'_>) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "doc {}", sp(doc.span()));
    s.push_str(&header_dump(doc));
    for b in doc.nested_blocks() {
        block_dump(b, 0, &mut s);
    }
    s.push_str(&warnings_dump(doc));
    s.push_str(&catalog_dump(doc));
    let _ = writeln!(s, "{:?}", doc.source_map());
    s
}

/// First line on which two dumps differ.
pub fn first_diff(a: &str, b: &str) -> String {
    let mut x = a.lines();
    let mut y = b.lines();
    loop {
        match (x.next(), y.next()) {
            (None, None) => return "equal".into(),
            (p, q) if p == q => {}
            (p, q) => return format!("first:  {}\nsecond: {}", p.unwrap_or("<end>"), q.unwrap_or("<end>")),
        }
    }
}

/// Escape the characters that HTML reserves in text.
pub fn html(s: &str) -> String {
    let mut r = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '<' => r.push_str("&lt;"),
            '>' => r.push_str("&gt;"),
            '&' => r.push_str("&amp;"),
            c => r.push(c),
        }
    }
    r
}

/// The single paragraph's rendered text for a one-paragraph document.
pub fn only_rendered(doc: &Document<'_>) -> Option<String> {
    let v: Vec<_> = doc.nested_blocks().collect();
    if v.len() == 1 { v[0].rendered_content().map(|s| s.to_string()) } else { None }
}

/// Whether the preprocessor may rewrite this text (a superset).
pub fn may_preprocess(s: &str, doc: &Document<'_>) -> bool {
    !doc.source_map().0.is_empty()
        || s.lines().any(|l| {
            let l = l.trim_start_matches(|c: char| !c.is_ascii_alphabetic());
            l.starts_with("include::") || l.starts_with("if") || l.starts_with("endif")
        })
}
