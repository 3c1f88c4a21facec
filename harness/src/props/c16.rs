//! Attribute references.
use std::collections::BTreeMap;

use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
};

use super::PropDef;
use crate::{ctx::Ctx, generate::config::context, rng::Rng, util};

pub const DEF: PropDef = PropDef {
    id: "C16",
    quick: 280_000,
    thorough: 2_000_000,
    run,
    needs: &[
        "references resolved",
        "references to what is unknown",
        "references in a listing",
        "references in attribute values",
        "references in titles",
        "references in attribute lists",
        "references in targets",
        "values over several lines",
        "attributes set again",
        "attributes unset",
        "references in another case",
        "escaped references",
    ],
    rule: "Documents are written as a sequence of attribute entries and texts that refer to attributes, with a model of each attribute's value at that place, from which follows what each text is rendered as. Non-trivial: at least three references resolved; distinct by text.",
};

/// A part of a value: as in an attribute entry, its value, and what the value is rendered as in a paragraph.
const PARTS: &[(&str, &str, &str)] = &[
    ("word", "word", "word"),
    ("été", "été", "été"),
    ("日本", "日本", "日本"),
    ("<b>", "&lt;b&gt;", "&lt;b&gt;"),
    ("R&D", "R&amp;D", "R&amp;D"),
    ("*x*", "*x*", "*x*"),
    ("_y_", "_y_", "_y_"),
    ("`z`", "`z`", "`z`"),
    ("(C)", "(C)", "&#169;"),
    ("->", "-&gt;", "&#8594;"),
    ("it's", "it's", "it&#8217;s"),
    ("...", "...", "&#8230;&#8203;"),
    ("a--b", "a--b", "a&#8212;&#8203;b"),
    ("&copy;", "&amp;copy;", "&copy;"),
    ("https://example.org/x", "https://example.org/x", "<a href=\"https://example.org/x\" class=\"bare\">https://example.org/x</a>"),
    ("pass:[<i>]", "<i>", "<i>"),
    ("pass:c[<i>]", "&lt;i&gt;", "&lt;i&gt;"),
    ("{nope}", "{nope}", "{nope}"),
    ("a:b", "a:b", "a:b"),
    ("#h#", "#h#", "#h#"),
    ("1.0", "1.0", "1.0"),
    ("!", "!", "!"),
    ("{", "{", "{"),
];

/// Values set by the program: as given, and as rendered in a paragraph.
const API: &[(&str, &str)] = &[
    ("plain", "plain"),
    ("<u>raw</u>", "<u>raw</u>"),
    ("{n1}", "{n1}"),
    ("*x* {nope}", "*x* {nope}"),
    ("&copy; (R)", "&copy; &#174;"),
    ("", ""),
    ("é and 日本 in a longer value than fits", "é and 日本 in a longer value than fits"),
    ("-> <-", "-> <-"),
];

const NAMES: &[&str] = &["n1", "b", "long-name_2", "_u", "9x", "x-y", "the-name-of-an-attribute-that-is-much-longer-than-sixty-four-characters_in-all"];

#[derive(Clone, Default)]
struct Val {
    val: String,
    out: String,
}

struct W {
    r: Rng,
    src: String,
    /// None: unset.
    attrs: BTreeMap<&'static str, Option<Val>>,
    expect: Vec<(&'static str, String)>,
    resolved: u64,
    counts: BTreeMap<&'static str, u64>,
    nl: &'static str,
}

impl W {
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }

    fn spelled(&mut self, n: &str) -> String {
        if self.r.one_in(5) && n.chars().any(|c| c.is_ascii_alphabetic()) {
            self.count("references in another case");
            return n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
        }
        n.to_string()
    }

    /// A reference: as written, its value in an attribute entry or list, and in a paragraph.
    fn reference(&mut self) -> (String, String, String) {
        let n = *self.r.choose(NAMES);
        let spelled = self.spelled(n);
        let s = format!("{{{spelled}}}");
        match self.attrs.get(n).cloned() {
            None => {
                self.count("references to what is unknown");
                (s.clone(), s.clone(), s)
            }
            Some(v) => {
                if self.r.one_in(10) {
                    self.count("escaped references");
                    return (format!("\\{s}"), s.clone(), s);
                }
                self.count("references resolved");
                self.resolved += 1;
                let v = v.unwrap_or_default();
                (s, v.val, v.out)
            }
        }
    }

    fn line(&mut self, n: usize) -> (String, String, String) {
        let mut s = (String::new(), String::new(), String::new());
        for k in 0..n {
            let sep = if k > 0 { " " } else { "" };
            let p = if self.r.pct(60) {
                self.reference()
            } else {
                let w = self.r.pick(&["word", "é", "日本", "the", "x", "{no pe}", "{}", "}", "{nope}", "{-a}", "a{"]).to_string();
                (w.clone(), w.clone(), w)
            };
            s.0.push_str(&format!("{sep}{}", p.0));
            s.1.push_str(&format!("{sep}{}", p.1));
            s.2.push_str(&format!("{sep}{}", p.2));
        }
        s
    }

    /// An attribute entry.
    fn entry(&mut self) {
        let n = *self.r.choose(NAMES);
        if self.attrs.contains_key(n) {
            self.count("attributes set again");
        }
        let spelled = if self.r.one_in(5) { n.to_uppercase() } else { n.to_string() };
        match self.r.below(10) {
            0 => {
                self.count("attributes unset");
                let s = if self.r.bool() { format!(":!{spelled}:") } else { format!(":{spelled}!:") };
                self.src.push_str(&format!("{s}{}", self.nl));
                self.attrs.insert(n, None);
            }
            1 => {
                self.src.push_str(&format!(":{spelled}:{}", self.nl));
                self.attrs.insert(n, Some(Val::default()));
            }
            _ => {
                let (mut src, mut val, mut out) = (String::new(), String::new(), String::new());
                let lines = if self.nl == "\n" && self.r.one_in(4) { self.r.range(2, 4) } else { 1 };
                if lines > 1 {
                    self.count("values over several lines");
                }
                for l in 0..lines {
                    if l > 0 {
                        if self.r.one_in(3) {
                            // A forced line break.
                            src.push_str(" + \\\n");
                            val.push('\n');
                            out.push('\n');
                        } else {
                            src.push_str(" \\\n");
                            val.push(' ');
                            out.push(' ');
                        }
                        src.push_str(&" ".repeat(self.r.below(3)));
                    }
                    for k in 0..self.r.range(1, 3) {
                        let sep = if k > 0 { " " } else { "" };
                        let (a, b, c) = if self.r.one_in(3) {
                            self.count("references in attribute values");
                            self.reference()
                        } else {
                            let p = *self.r.choose(PARTS);
                            (p.0.to_string(), p.1.to_string(), p.2.to_string())
                        };
                        src.push_str(&format!("{sep}{a}"));
                        val.push_str(&format!("{sep}{b}"));
                        out.push_str(&format!("{sep}{c}"));
                    }
                    // Whatever stands at the end is not a continuation mark.
                    src.push_str(" w");
                    val.push_str(" w");
                    out.push_str(" w");
                }
                let sep = self.r.pick(&[" ", "  ", "\t"]);
                self.src.push_str(&format!(":{spelled}:{sep}{src}{}", self.nl));
                self.attrs.insert(n, Some(Val { val, out }));
            }
        }
    }

    fn text(&mut self, inside: bool) {
        let nl = self.nl;
        match self.r.below(if inside { 7 } else { 8 }) {
            0 => {
                self.count("references in titles");
                let k = self.r.range(1, 3);
                let (a, _, c) = self.line(k);
                self.src.push_str(&format!(".T {a} z{nl}Text{nl}{nl}"));
                self.expect.push(("block title", format!("T {c} z")));
                self.expect.push(("paragraph", "Text".into()));
            }
            1 => {
                self.count("references in a listing");
                let (a, _, _) = self.line(3);
                let b = self.r.choose(&["----", "....", "++++"]);
                self.src.push_str(&format!("{b}{nl}{a}{nl}{b}{nl}{nl}"));
                self.expect.push(("listing", a));
            }
            2 => {
                self.count("references in a listing with attributes");
                let (a, v, _) = self.line(3);
                self.src.push_str(&format!("[subs=attributes]{nl}----{nl}{a}{nl}----{nl}{nl}"));
                self.expect.push(("listing", v));
            }
            3 => {
                // A plain value as a role.
                self.count("references in attribute lists");
                let known: Vec<(&str, String)> = self.attrs.iter().filter_map(|(n, v)| v.as_ref().map(|v| (*n, v.val.clone()))).collect();
                let ok: Vec<_> = known.into_iter().filter(|(_, v)| !v.is_empty() && v.chars().all(|c| c.is_alphanumeric() || c == ' ')).collect();
                if ok.is_empty() {
                    return;
                }
                let (n, v) = self.r.choose(&ok).clone();
                self.resolved += 1;
                let n = self.spelled(n);
                self.src.push_str(&format!("[role=\"r {{{n}}}\"]{nl}Text{nl}{nl}"));
                self.expect.push(("roles", format!("r {v}").split(' ').filter(|s| !s.is_empty()).collect::<Vec<_>>().join("|")));
                self.expect.push(("paragraph", "Text".into()));
            }
            4 => {
                self.count("references in targets");
                let n = self.r.choose(NAMES);
                let Some(Some(v)) = self.attrs.get(n).cloned() else { return };
                let v = v.val;
                if v.is_empty() || !v.chars().all(|c| c.is_alphanumeric()) {
                    // Make it so.
                    self.src.push_str(&format!(":{n}: target{nl}{nl}"));
                    self.attrs.insert(n, Some(Val { val: "target".into(), out: "target".into() }));
                }
                let v = match self.attrs.get(n) {
                    Some(Some(v)) => v.val.clone(),
                    _ => return,
                };
                self.resolved += 3;
                let n = self.spelled(n);
                self.src.push_str(&format!("See https://example.org/{{{n}}}[text] or image:{{{n}}}/x.png[Alt] or link:{{{n}}}.html[{{{n}}} z].{nl}{nl}"));
                self.expect.push(("paragraph", format!("See <a href=\"https://example.org/{v}\">text</a> or <span class=\"image\"><img src=\"{v}/x.png\" alt=\"Alt\"></span> or <a href=\"{v}.html\">{v} z</a>.")));
            }
            5 | 6 => {
                let (mut s, mut o) = (String::new(), String::new());
                for k in 0..self.r.range(1, 4) {
                    let w = self.r.range(1, 4);
                    let (a, _, c) = self.line(w);
                    s.push_str(&format!("{}T {a} z", if k > 0 { nl } else { "" }));
                    o.push_str(&format!("{}T {c} z", if k > 0 { "\n" } else { "" }));
                }
                self.src.push_str(&format!("{s}{nl}{nl}"));
                self.expect.push(("paragraph", o));
            }
            _ => {
                self.count("references in titles");
                let k = self.r.range(1, 3);
                let (a, _, c) = self.line(k);
                self.src.push_str(&format!("== S {a} z{nl}{nl}"));
                self.expect.push(("section title", format!("S {c} z")));
            }
        }
    }
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let nl = if r.one_in(6) { "\r\n" } else { "\n" };
    let mut w = W { r: Rng::new(r.next()), src: String::new(), attrs: BTreeMap::new(), expect: vec![], resolved: 0, counts: BTreeMap::new(), nl };
    let mut p = Parser::default();
    for _ in 0..r.below(3) {
        let n = *r.choose(NAMES);
        if w.attrs.contains_key(n) {
            continue;
        }
        if r.one_in(4) {
            // A true value has no text; a false one is unset.
            let v = r.bool();
            p = p.with_intrinsic_attribute_bool(n, v, context(3));
            w.attrs.insert(n, if v { Some(Val::default()) } else { None });
            continue;
        }
        let (v, o) = *r.choose(API);
        p = p.with_intrinsic_attribute(n, v, context(3));
        w.attrs.insert(n, Some(Val { val: v.into(), out: o.into() }));
    }
    if r.one_in(3) {
        w.src.push_str(&format!("= Title{nl}"));
        for _ in 0..r.below(4) {
            w.entry();
        }
        w.src.push_str(nl);
    }
    let mut open = false;
    for _ in 0..r.range(2, 9) {
        if !open && r.one_in(8) {
            w.src.push_str(&format!("===={nl}"));
            open = true;
        }
        if r.bool() {
            for _ in 0..r.range(1, 2) {
                w.entry();
            }
            if r.bool() {
                w.src.push_str(nl);
            }
        }
        w.text(open);
        if open && r.bool() {
            w.src.push_str(&format!("===={nl}{nl}"));
            open = false;
        }
    }
    if open {
        w.src.push_str(&format!("===={nl}"));
    }
    ctx.input(&w.src);
    let doc = p.parse(&w.src);
    let mut got: Vec<(&'static str, String)> = vec![];
    util::walk(&doc, &mut |b, _| {
        if let Some(t) = b.title() {
            got.push(("block title", t.into()));
        }
        match b {
            Block::Section(s) => got.push(("section title", s.section_title().into())),
            Block::Simple(_) => {
                if b.attrlist().is_some() {
                    got.push(("roles", b.roles().join("|")));
                }
                got.push(("paragraph", b.rendered_content().unwrap_or_default().into()));
            }
            Block::RawDelimited(_) => got.push(("listing", b.rendered_content().unwrap_or_default().into())),
            _ => {}
        }
    });
    ctx.eval();
    for (k, e) in w.expect.iter().enumerate() {
        match got.get(k) {
            Some(g) if g == e => {}
            g => {
                ctx.fail(&format!("attribute references in a {}", e.0), format!("text {k} must be {e:?}\nbut is {g:?}"));
                return;
            }
        }
    }
    if got.len() != w.expect.len() {
        ctx.fail("there is text that was not written", format!("{:?}", got.last()));
    }
    // What the program is told afterwards.
    let in_body: Vec<_> = w.attrs.iter().collect();
    for (n, v) in in_body {
        let g = util::val(&p.attribute_value(*n));
        let ok = match v {
            None => !p.is_attribute_set(*n),
            Some(v) if v.val.is_empty() => p.is_attribute_set(*n) && (g == util::val(&p.attribute_value("no-such")) || !g.contains(|c: char| c == '{')),
            Some(v) => p.attribute_value(*n).as_text() == Some(v.val.clone()),
        };
        ctx.check("the value of an attribute afterwards", ok, || format!("{n}: must be {:?} but is {g}", v.as_ref().map(|v| &v.val)));
    }
    for (k, v) in &w.counts {
        ctx.add(k, *v);
    }
    if w.resolved >= 3 {
        ctx.distinct(&w.src);
        ctx.sample(&w.src);
    }
}

trait AsText {
    fn as_text(&self) -> Option<String>;
}

impl AsText for asciidoc_parser::document::InterpretedValue {
    fn as_text(&self) -> Option<String> {
        match self {
            asciidoc_parser::document::InterpretedValue::Value(v) => Some(v.clone()),
            _ => None,
        }
    }
}
