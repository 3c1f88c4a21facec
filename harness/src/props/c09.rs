//! Verbatim and raw blocks keep their text exactly.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, ContentModel, IsBlock},
    parser::ModificationContext,
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{docgen, soup},
    rng::Rng,
    util::html,
};

pub const DEF: PropDef = PropDef {
    id: "C09",
    quick: 960_000,
    thorough: 6_000_000,
    run,
    needs: &["listing", "literal", "pass", "comment", "inside other blocks", "with hostile lines", "unterminated"],
    rule: "Each case puts 0 to 12 hostile lines (inline markup, block markup, attribute references to attributes that are set, Unicode, tabs, trailing blanks, CRLF) into a listing, literal, pass or comment block, at the top level, in a section or inside other blocks, with or without metadata and closing delimiter, and requires the exact text back: escaped for listing and literal blocks, untouched for pass and comment blocks. Non-trivial: at least 2 content lines; distinct by content.",
};

fn line(r: &mut Rng) -> String {
    let s = match r.below(6) {
        0 => String::new(),
        1 => soup::LINES[r.below(soup::LINES.len())].lines().next().unwrap_or("").to_string(),
        2 | 3 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 6) {
                s.push_str(r.pick(soup::INLINE));
                if r.one_in(4) {
                    s.push(' ');
                }
            }
            s
        }
        // Lines like other delimiters.
        4 if r.one_in(4) => r.pick(&["-", ".", "+", "/", "=", "*", "_", "|==", "`"]).repeat(r.range(2, 40)),
        4 => format!("{}{}", " ".repeat(if r.one_in(6) { r.range(5, 90) } else { r.below(5) }), { let n = if r.one_in(12) { 60 } else { 5 }; docgen::words(r, 1, n) }),
        _ => r.pick(&["{foo} {bar}", "\t{foo}", "*{foo}*", "<{foo}>", "a  b   c", "x   ", "y\t", "&amp; &#169;", "\\{foo}", "{empty}", "+++<b>+++", "(C) -- ...", "it's", "ends +", "<1> co", "# <2>"]).to_string(),
    };
    s.replace(['\n', '\r'], " ")
}

fn run(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let eol = if r.one_in(5) { "\r\n" } else { "\n" };
    let (ch, name) = *r.choose(&[("-", "listing"), (".", "literal"), ("+", "pass"), ("/", "comment")]);
    let delim = ch.repeat(if r.one_in(8) { r.range(8, 200) } else { 4 + r.weighted(&[6, 1, 1, 1]) });
    let n = if r.one_in(40) { r.range(13, 120) } else { r.weighted(&[1, 2, 3, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1]) };
    let outer = r.below(4);
    let mut wrap: Vec<String> = vec![];
    for i in 0..outer {
        wrap.push(["=", "*", "_"][i % 3].repeat(if r.one_in(8) { r.range(7, 100) } else { r.range(4, 6) }));
    }
    let closed = !r.one_in(8);
    let mut lines: Vec<String> = vec![];
    for _ in 0..n {
        let mut l = line(r);
        if l.trim_end() == delim || wrap.iter().any(|w| w == l.trim_end()) {
            l.insert(0, 'x');
        }
        let t = l.trim_start_matches('\\');
        if t.starts_with("include::") || t.starts_with("if") || t.starts_with("endif") {
            l.insert(0, '.');
        }
        lines.push(l);
    }
    // In an unterminated block, trailing blank lines belong to nothing.
    if !closed {
        while lines.last().is_some_and(|l| l.trim().is_empty()) {
            lines.pop();
        }
        if lines.is_empty() {
            lines.push("x".into());
        }
        let k = lines.len() - 1;
        let t = lines[k].trim_end().len();
        lines[k].truncate(t);
        // But the white space after its last word is the block's.
        lines[k].push_str(r.pick(&["", "", "", " ", "\t", "  ", " \t "]));
    }
    let mut s = String::new();
    let put = |s: &mut String, l: &str| {
        s.push_str(l);
        s.push_str(eol);
    };
    if r.one_in(3) {
        put(&mut s, "= Title");
        put(&mut s, ":bar: in <header>");
        put(&mut s, "");
    }
    if r.bool() {
        put(&mut s, "before {foo}");
        put(&mut s, "");
        if r.one_in(3) {
            put(&mut s, ":foo: changed");
            put(&mut s, "");
        }
    }
    if r.one_in(4) {
        put(&mut s, "== Section");
        put(&mut s, "");
    }
    for w in &wrap {
        put(&mut s, w);
        if r.one_in(3) {
            put(&mut s, "text");
            put(&mut s, "");
        }
    }
    for m in [".Title *x*", "[[anch]]", "[.role%opt]", "[source,rust]"] {
        if r.one_in(7) && !(m.starts_with("[s") && name != "listing") {
            put(&mut s, m);
        }
    }
    put(&mut s, &delim);
    let a = s.len();
    for l in &lines {
        put(&mut s, l);
    }
    let mut b = s.len();
    if b > a {
        b -= eol.len();
    }
    let after = r.bool();
    if closed {
        put(&mut s, &delim);
        for w in wrap.iter().rev() {
            put(&mut s, w);
        }
        if after {
            put(&mut s, "");
            put(&mut s, "after");
        }
    } else if after && !wrap.is_empty() {
        for w in wrap.iter().rev() {
            put(&mut s, w);
        }
        put(&mut s, "");
        put(&mut s, "after");
    }
    let content = s[a..b].to_string();
    let mut p = Parser::default().with_intrinsic_attribute("foo", "SUBSTITUTED", ModificationContext::Anywhere);
    if r.bool() {
        p = p.with_intrinsic_attribute_bool("hardbreaks", true, ModificationContext::Anywhere);
    }
    ctx.input(&s);
    let doc = p.parse(&s);
    ctx.eval();
    ctx.count(name);
    if outer > 0 {
        ctx.count("inside other blocks");
    }
    if !closed {
        ctx.count("unterminated");
    }
    if lines.iter().any(|l| html(l) != *l || l.contains(['*', '{', '`'])) {
        ctx.count("with hostile lines");
    }
    if n >= 2 {
        ctx.distinct(&content);
        ctx.sample(&s);
    }
    let mut found: Vec<&Block<'_>> = vec![];
    crate::util::walk(&doc, &mut |b, _| {
        if let Block::RawDelimited(_) = b {
            found.push(b);
        }
    });
    if found.len() != 1 {
        ctx.fail("the block is not found", format!("{} raw blocks in\n{}", found.len(), crate::util::dump(&doc)));
        return;
    }
    let Block::RawDelimited(rb) = found[0] else { return };
    let o = rb.content().original();
    ctx.expect_eq("kind of block", &name, &rb.raw_context().as_ref());
    ctx.expect_eq("source of the content", &content.as_str(), &o.data());
    if !content.is_empty() {
        ctx.expect_eq("offset of the content", &a, &o.byte_offset());
    }
    let want = if ch == "-" || ch == "." { html(&content) } else { content.clone() };
    ctx.expect_eq("rendered content", &want.as_str(), &rb.content().rendered());
    ctx.expect_eq("rendered content of the block", &Some(want.as_str()), &found[0].rendered_content());
    let verbatim = ch == "-" || ch == ".";
    ctx.expect_eq("content model", &(if verbatim { ContentModel::Verbatim } else { ContentModel::Raw }), &found[0].content_model());
    ctx.expect_eq("nested blocks", &0, &found[0].nested_blocks().count());
    // Nothing in the block has an effect on the document.
    ctx.expect_eq("an entry in the block was obeyed", &None, &crate::util::val(&p.attribute_value("a-b")).strip_prefix('='));
    if closed && after {
        let t = s.trim_end().lines().last().unwrap_or("");
        let last = doc.nested_blocks().last().map(|b| b.span().data().trim_end().ends_with(t));
        ctx.expect_eq("text after the block", &Some(true), &last);
    }
}
