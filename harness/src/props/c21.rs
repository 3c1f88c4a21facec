//! Text stays text: special characters and escaped markup.
use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
    document::InterpretedValue,
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        docgen,
        inline::Mix,
        marks::Tags,
        soup,
        spots::{self, Opts},
    },
    rng::Rng,
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C21",
    quick: 360_000,
    thorough: 3_000_000,
    run,
    needs: &["escaped markup", "special characters", "hostile texts scanned", "special characters found escaped", "tags written by the renderer", "attribute values scanned", "attribute values known", "references to values with special characters", "titles scanned"],
    rule: "Three workloads. (1) Hostile texts without any passthrough, rendered by a renderer that writes private-use characters only: a <, > or lone & in any rendered text, title or attribute value can only be text that was not escaped. (2) Texts from known pieces with many special characters and escaped constructs, whose rendering is known. (3) Attribute entries whose values have special characters and references to each other, with each value known: escaped exactly once. Non-trivial: at least two special characters escaped, or at least two kinds of pieces; distinct by text.",
};

/// The offset of something that would be markup in HTML.
fn raw(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let mut k = 0;
    while k < b.len() {
        match b[k] {
            b'<' | b'>' => return Some(k),
            b'&' => {
                let rest = &s[k + 1..];
                // A link ends before a semicolon.
                let Some(n) = rest.find(|c| c == ';' || ('\u{E000}'..'\u{F000}').contains(&c)) else { return Some(k) };
                let e = &rest[..n];
                let ok = match e.strip_prefix('#') {
                    Some(d) => match d.strip_prefix('x') {
                        Some(h) => !h.is_empty() && h.chars().all(|c| c.is_ascii_hexdigit()),
                        None => !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()),
                    },
                    None => !e.is_empty() && e.chars().all(|c| c.is_ascii_alphanumeric()),
                };
                if !ok {
                    return Some(k);
                }
                k += n;
            }
            _ => {}
        }
        k += 1;
    }
    None
}

fn hostile(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let mut s = if r.one_in(4) { docgen::doc(&mut r, &docgen::Profile::default()).src } else { soup::any_text(&mut r) };
    if r.one_in(3) {
        // More of what matters.
        let mut t = String::new();
        for c in s.chars() {
            t.push(c);
            if c == ' ' && r.one_in(6) {
                t.push_str(r.pick(&["<i>", "&", ">", "<<", "&amp;", "&#x1;", "<", "\\<", "&lt", "-> ", "<- "]));
            }
        }
        s = t;
    }
    for (a, b) in [("+", "-"), ("pass", "past"), ("subs", "sobs"), ("$$", "$"), ("\u{96}", ""), ("\u{97}", ""), ("include::", "inc::")] {
        s = s.replace(a, b);
    }
    // The names of authors may contain character references, so they are not escaped.
    for a in ["{author", "{firstname", "{middlename", "{lastname", "{email"] {
        while let Some(k) = s.to_ascii_lowercase().find(a) {
            s.replace_range(k..k + a.len(), "{who");
        }
    }
    ctx.input(&s);
    let mut p = Parser::default().with_inline_substitution_renderer(Tags);
    let doc = p.parse(&s);
    ctx.eval();
    ctx.count("hostile texts scanned");
    let mut found = 0;
    let mut tags = 0;
    let mut bad: Option<(&'static str, String)> = None;
    let mut look = |what: &'static str, t: &str| {
        found += t.matches("&lt;").count() + t.matches("&gt;").count() + t.matches("&amp;").count();
        tags += t.chars().filter(|c| ('\u{E000}'..='\u{F000}').contains(c)).count();
        if let Some(k) = raw(t) {
            if bad.is_none() {
                let from = (0..=k.saturating_sub(20)).rev().find(|x| t.is_char_boundary(*x)).unwrap_or(0);
                bad = Some((what, format!("{:?}", t[from..].chars().take(60).collect::<String>())));
            }
        }
    };
    if let Some(t) = doc.header().title() {
        look("the document title", t);
    }
    let mut values = 0;
    let mut titles = 0;
    let mut value = |v: &asciidoc_parser::document::InterpretedValue, look: &mut dyn FnMut(&'static str, &str)| {
        if let asciidoc_parser::document::InterpretedValue::Value(v) = v {
            values += 1;
            look("an attribute value", v);
        }
    };
    for a in doc.header().attributes() {
        value(a.value(), &mut look);
    }
    util::walk(&doc, &mut |b, _| {
        if let Some(t) = b.title() {
            titles += 1;
            look("a block title", t);
        }
        match b {
            Block::DocumentAttribute(a) => value(a.value(), &mut look),
            Block::Section(x) => {
                titles += 1;
                look("a section title", x.section_title());
            }
            _ => {}
        }
        if b.raw_context().as_ref() == "comment" {
            return;
        }
        if let Some(t) = b.rendered_content() {
            look("a block's text", t);
        }
    });
    ctx.add("special characters found escaped", found as u64);
    ctx.add("tags written by the renderer", tags as u64);
    ctx.add("attribute values scanned", values);
    ctx.add("titles scanned", titles);
    if let Some((w, d)) = bad {
        ctx.fail(&format!("a special character is not escaped in {w}"), d);
    }
    if found >= 2 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
}

/// Values of attribute entries that refer to other entries: what is escaped,
/// is escaped once.
fn values(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let mut src = String::new();
    let body = r.bool();
    if r.bool() {
        src.push_str("= Title\n");
    }
    let mut want: Vec<(String, String)> = vec![];
    let mut specials = 0;
    let n = r.range(2, 7);
    let at = r.range(0, n);
    for k in 0..n {
        if body && k == at {
            src.push_str("\nText.\n\n");
        }
        let name = format!("v{}", r.below(5));
        let mut v = String::new();
        let mut w = String::new();
        for j in 0..r.range(1, 5) {
            if j > 0 && r.one_in(3) {
                v.push(' ');
                w.push(' ');
            }
            match r.below(6) {
                0 | 1 => {
                    let (a, b) = r.choose(&[("<", "&lt;"), (">", "&gt;"), ("&", "&amp;"), ("<b>", "&lt;b&gt;"), ("&lt;", "&amp;lt;"), ("&#167;", "&amp;#167;"), ("a&b", "a&amp;b"), ("=>", "=&gt;")]).to_owned();
                    specials += 1;
                    v.push_str(a);
                    w.push_str(b);
                }
                2 | 3 if !want.is_empty() => {
                    let (n, x) = r.choose(&want).to_owned();
                    // The latest value counts.
                    let _ = x;
                    let x = &want.iter().rev().find(|(m, _)| *m == n).unwrap().1;
                    ctx.count("references in attribute values");
                    if x.contains('&') {
                        ctx.count("references to values with special characters");
                    }
                    v.push_str(&format!("{{{n}}}"));
                    w.push_str(x);
                }
                _ => {
                    let a = r.pick(&["word", "é", "x-y", "*b*", "\"q\"", "日本", "1.", "#h#"]);
                    v.push_str(a);
                    w.push_str(a);
                }
            }
        }
        src.push_str(&format!(":{name}: {v}\n"));
        if body && k >= at {
            src.push('\n');
        }
        want.push((name, w));
    }
    ctx.input(&src);
    let mut p = Parser::default();
    let doc = p.parse(&src);
    ctx.eval();
    let mut got: Vec<(String, String)> = vec![];
    let mut take = |n: &str, v: &InterpretedValue| {
        if let InterpretedValue::Value(v) = v {
            got.push((n.to_string(), v.to_string()));
        }
    };
    for a in doc.header().attributes() {
        take(a.name().data(), a.value());
    }
    util::walk(&doc, &mut |b, _| {
        if let Block::DocumentAttribute(a) = b {
            take(a.name().data(), a.value());
        }
    });
    ctx.add("attribute values known", want.len() as u64);
    ctx.check("values of attribute entries", got == want, || format!("got {got:?}, expected {want:?}"));
    for k in 0..5 {
        let n = format!("v{k}");
        let w = want.iter().rev().find(|(m, _)| *m == n).map(|(_, v)| v.clone());
        let g = match p.attribute_value(&n) {
            InterpretedValue::Value(v) => Some(v.to_string()),
            _ => None,
        };
        ctx.check("values of attributes after parsing", g == w, || format!("{n}: got {g:?}, expected {w:?}"));
    }
    if specials >= 2 {
        ctx.distinct(&src);
        ctx.sample(&src);
    }
}

fn run(ctx: &mut Ctx) {
    if ctx.idx % 16 == 7 {
        return values(ctx);
    }
    if ctx.idx % 2 == 0 {
        return hostile(ctx);
    }
    let mix = Mix { escape: 10, special: 10, marker: 4, quote: 2, refs: 1, rep: 1, pass: 1, link: 1, image: 1, anchor: 1, paren: 1, ..Default::default() };
    spots::case(ctx, mix, &Opts { pieces: 8, ..Default::default() }, "special characters and escaped markup");
}
