//! Inline content in all the places where a document has some.
use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
};

use super::inline::{Gen, IconMode, Mix, Piece, Steps};
use crate::{ctx::Ctx, rng::Rng, util};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Where {
    Paragraph,
    BlockTitle,
    SectionTitle,
}

impl Where {
    fn name(self) -> &'static str {
        match self {
            Where::Paragraph => "paragraph",
            Where::BlockTitle => "block title",
            Where::SectionTitle => "section title",
        }
    }
}

#[derive(Default)]
pub struct Doc {
    pub src: String,
    /// Where, text as written, text as it must be rendered.
    pub spots: Vec<(Where, String, String)>,
}

pub struct Opts {
    pub spots: usize,
    pub pieces: usize,
    pub titles: bool,
    pub containers: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { spots: 3, pieces: 6, titles: true, containers: true }
    }
}

/// One line of inline content.
pub fn line(g: &mut Gen<'_>, pieces: usize) -> Piece {
    let (n, b) = (g.mix.newline, g.mix.breaks);
    g.mix.newline = 0;
    g.mix.breaks = 0;
    g.one_line = true;
    let p = g.paragraph(pieces);
    g.one_line = false;
    g.mix.newline = n;
    g.mix.breaks = b;
    p
}

/// Write a document from `g`'s text. All steps must be active except in paragraphs written by the caller.
pub fn doc(r: &mut Rng, g: &mut Gen<'_>, o: &Opts) -> Doc {
    let mut d = Doc::default();
    let nl = if r.one_in(6) { "\r\n" } else { "\n" };
    let n = r.range(1, o.spots.max(1));
    let mut open: Vec<&str> = vec![];
    let mut in_section = false;
    for _ in 0..n {
        if o.titles && open.is_empty() && r.one_in(6) {
            let k = r.range(1, o.pieces.max(1));
            let p = line(g, k);
            let eq = if in_section && r.bool() { "===" } else { "==" };
            in_section = true;
            d.src.push_str(&format!("{eq} {}{nl}{nl}", p.src));
            d.spots.push((Where::SectionTitle, p.src, p.out));
        }
        if o.containers && r.one_in(5) {
            let c = r.pick(&["====", "****", "____", "--"]);
            if !open.contains(&c) {
                open.push(c);
                d.src.push_str(&format!("{c}{nl}"));
            }
        }
        if o.titles && r.one_in(5) {
            let k = r.range(1, o.pieces.max(1));
            let p = line(g, k);
            d.src.push_str(&format!(".{}{nl}", p.src));
            d.spots.push((Where::BlockTitle, p.src, p.out));
        }
        let k = r.range(1, o.pieces.max(1));
        let hard = g.mix.newline > 0 && r.one_in(12);
        let p = if hard {
            g.count("paragraphs with hard line breaks");
            d.src.push_str(&format!("[%hardbreaks]{nl}"));
            g.hardbreaks = true;
            let mut p = g.paragraph(k + 2);
            g.hardbreaks = false;
            p.out = g.with_hardbreaks(&p.out);
            p
        } else {
            g.paragraph(k)
        };
        d.src.push_str(&p.src.replace('\n', nl));
        d.src.push_str(nl);
        d.spots.push((Where::Paragraph, p.src, p.out));
        if !open.is_empty() && r.bool() {
            d.src.push_str(&format!("{}{nl}", open.pop().unwrap_or_default()));
        }
        d.src.push_str(nl);
    }
    while let Some(c) = open.pop() {
        d.src.push_str(&format!("{c}{nl}"));
    }
    if r.one_in(4) {
        d.src.truncate(d.src.trim_end().len());
    }
    d
}

/// What the parser made of it.
pub fn rendered(doc: &asciidoc_parser::Document<'_>) -> Vec<(Where, String)> {
    let mut v = vec![];
    util::walk(doc, &mut |b, _| {
        if let Some(t) = b.title() {
            v.push((Where::BlockTitle, t.to_string()));
        }
        match b {
            Block::Section(s) => v.push((Where::SectionTitle, s.section_title().to_string())),
            Block::Simple(_) => v.push((Where::Paragraph, b.rendered_content().unwrap_or_default().to_string())),
            _ => {}
        }
    });
    v
}

/// Compare, reporting the first difference.
pub fn check(ctx: &mut Ctx, d: &Doc, p: &mut Parser, what: &str) {
    ctx.input(&d.src);
    let doc = p.parse(&d.src);
    let got = rendered(&doc);
    ctx.eval();
    ctx.add("texts compared", d.spots.len() as u64);
    for (k, (w, src, out)) in d.spots.iter().enumerate() {
        match got.get(k) {
            Some((gw, g)) if gw == w && g == out => {}
            Some((gw, g)) if gw == w => {
                let c = util::first_diff(out, g);
                ctx.fail(&format!("{what}: a {} is not rendered as it must be", w.name()), format!("written  {src:?}\nmust be  {out:?}\nbut is   {g:?}\n{c}"));
                return;
            }
            g => {
                ctx.fail(&format!("{what}: a {} is missing", w.name()), format!("written {src:?}\nthere is {g:?}"));
                return;
            }
        }
    }
    if got.len() != d.spots.len() {
        ctx.fail(&format!("{what}: there is text that was not written"), format!("{:?}", got.last()));
    }
}

/// The usual case: a document, its text checked in all places.
pub fn case(ctx: &mut Ctx, mix: Mix, o: &Opts, what: &str) {
    let mut r = Rng::new(ctx.rng.next());
    let html = super::inline::Html;
    let mut g = Gen::new(Rng::new(r.next()), Steps::ALL, mix, &html);
    let mut p = settings(&mut r, &mut g);
    let d = doc(&mut r, &mut g, o);
    check(ctx, &d, &mut p, what);
    note(ctx, &g, &d);
}

pub fn note(ctx: &mut Ctx, g: &Gen<'_>, d: &Doc) {
    for (k, v) in &g.counts {
        ctx.add(k, *v);
    }
    if g.counts.len() >= 2 {
        ctx.distinct(&d.src);
        ctx.sample(&d.src);
    }
}

const VALUES: &[(&str, Option<&str>)] = &[
    ("a1", Some("value")),
    ("b-2", Some("two words")),
    ("x_y", Some("é日")),
    ("empty0", Some("")),
    ("sp", Some(" ")),
    ("plus", Some("&#43;")),
    ("deg", Some("&#176;")),
    ("empty", Some("")),
    ("long-name-4", Some("a somewhat longer value that does not fit inline")),
];

/// Attributes that the text may refer to, and the settings that affect rendering.
pub fn settings(r: &mut Rng, g: &mut Gen<'_>) -> Parser {
    use super::config::context;
    let mut p = Parser::default();
    for (n, v) in VALUES {
        if r.one_in(3) {
            continue;
        }
        if !matches!(*n, "sp" | "plus" | "deg" | "empty") {
            p = p.with_intrinsic_attribute(n, v.unwrap_or(""), context(r.below(4) as u8));
        }
        g.attrs.push((n, *v));
    }
    if !g.attrs.iter().any(|a| a.0 == "a1") {
        p = p.with_intrinsic_attribute("a1", "value", context(0));
        g.attrs.push(("a1", Some("value")));
    }
    if r.one_in(4) {
        let d = r.pick(&["img", "a/b/", "é", "", "i", ".", "..", "/", "/abs", "./x", "https://cdn.example.org/i/"]).to_string();
        p = p.with_intrinsic_attribute("imagesdir", &d, context(r.below(4) as u8));
        g.imagesdir = Some(d);
    }
    match r.below(6) {
        0 => {
            p = p.with_intrinsic_attribute("icons", "font", context(r.below(4) as u8));
            g.icons = IconMode::Font;
        }
        1 => {
            p = p.with_intrinsic_attribute("icons", r.pick(&["", "image"]), context(r.below(4) as u8));
            g.icons = IconMode::Image;
        }
        2 => p = p.with_intrinsic_attribute_bool("icons", false, context(r.below(4) as u8)),
        3 => {
            p = p.with_intrinsic_attribute_bool("icons", true, context(r.below(4) as u8));
            g.icons = IconMode::Image;
        }
        _ => {}
    }
    if r.one_in(5) {
        let d = r.pick(&["ic", "./x/y", "/abs/", "https://example.org/icons"]).to_string();
        p = p.with_intrinsic_attribute("iconsdir", &d, context(r.below(4) as u8));
        g.iconsdir = Some(d);
    }
    if r.one_in(5) {
        p = p.with_intrinsic_attribute("icontype", "svg", context(r.below(4) as u8));
        g.icontype = Some("svg".into());
    }
    if r.one_in(4) {
        p = p.with_intrinsic_attribute("hide-uri-scheme", "", context(r.below(4) as u8));
        g.hide_scheme = true;
    }
    p
}
