//! Sections: which heading contains what.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock, SectionType},
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::docgen,
    model::compare,
    rng::Rng,
    util::{self, html},
};

pub const DEF: PropDef = PropDef {
    id: "C12",
    quick: 200_000,
    thorough: 6_000_000,
    run,
    needs: &["sections", "discrete headings", "skipped levels", "level 0 headings", "headings deeper than allowed", "preambles", "five levels deep", "constructed documents"],
    rule: "Random sequences of up to 40 headings of levels 0 to 7 (= or #, with or without metadata, some discrete), paragraphs and blocks, against an independent model of the outline (a section holds everything up to the next heading of its level or a higher one) and of its warnings; and constructed documents. Non-trivial: at least 3 sections; distinct by text.",
};

#[derive(Debug, Clone, PartialEq, Eq)]
struct Node {
    /// "section 2", "discrete 3", "text", "listing", "preamble"
    what: String,
    title: String,
    start: usize,
    end: usize,
    kids: Vec<Node>,
}

enum Item {
    Heading(usize, Node),
    Leaf(Node),
}

fn build(items: &mut std::iter::Peekable<std::vec::IntoIter<Item>>, level: usize) -> Vec<Node> {
    let mut v = vec![];
    while let Some(i) = items.peek() {
        if let Item::Heading(l, _) = i
            && *l <= level
        {
            break;
        }
        match items.next().unwrap() {
            Item::Leaf(n) => v.push(n),
            Item::Heading(l, mut n) => {
                n.kids = build(items, l);
                if let Some(k) = n.kids.last() {
                    n.end = k.end;
                }
                v.push(n);
            }
        }
    }
    v
}

fn observed(b: &Block<'_>) -> Node {
    let sp = b.span();
    let start = sp.byte_offset();
    let end = start + sp.data().trim_end().len();
    let (what, title) = match b {
        Block::Section(s) => (
            format!("{} {}", if s.section_type() == SectionType::Discrete { "discrete" } else { "section" }, s.level()),
            s.section_title().to_string(),
        ),
        Block::Simple(_) => ("text".into(), b.rendered_content().unwrap_or("").to_string()),
        Block::Preamble(_) => ("preamble".into(), String::new()),
        Block::RawDelimited(_) => ("listing".into(), b.rendered_content().unwrap_or("").to_string()),
        _ => ("other".into(), String::new()),
    };
    Node { what, title, start, end, kids: b.nested_blocks().map(observed).collect() }
}

fn heading(r: &mut Rng, s: &mut String, level: usize, discrete: bool, eol: &str) -> (Node, usize) {
    let start = s.len();
    let mut meta: Vec<String> = vec![];
    if discrete {
        meta.push(r.pick(&["[discrete]", "[float]", "[discrete.r]", "[float#f]", "[discrete,k=v]"]).into());
    } else if r.one_in(6) {
        meta.push(r.pick(&["[.role]", "[k=v]", "[custom]", "[%opt]"]).into());
    }
    if r.one_in(8) {
        meta.push(".Block title".into());
    }
    if r.one_in(10) {
        meta.push("[[anchor]]".into());
    }
    r.shuffle(&mut meta);
    for m in meta {
        s.push_str(&m);
        s.push_str(eol);
    }
    let t = docgen::words(r, 1, 4);
    let gap = r.pick(&[" ", " ", " ", "  ", "\t"]);
    let m = if r.one_in(6) { "#" } else { "=" };
    let at = s.len();
    s.push_str(&format!("{}{gap}{t}", m.repeat(level + 1)));
    let end = s.len();
    if r.one_in(9) {
        s.push_str(r.pick(&[" ", "\t", "  "]));
    }
    s.push_str(eol);
    let what = if discrete { "discrete" } else { "section" };
    (Node { what: format!("{what} {level}"), title: html(&t), start, end, kids: vec![] }, at)
}

fn random(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let eol = if r.one_in(5) { "\r\n" } else { "\n" };
    let mut s = String::new();
    if r.bool() {
        s.push_str(&format!("= Title{eol}{eol}"));
    }
    let mut items: Vec<Item> = vec![];
    let mut warns: Vec<String> = vec![];
    let mut prev: Option<usize> = None;
    let long = r.one_in(8);
    let n = r.range(1, if long { 40 } else { 12 });
    let stay = r.bool();
    let mut paragraph_last = false;
    for i in 0..n {
        match r.weighted(&[10, if prev.is_some() { 2 } else { 0 }, if i > 0 && !s.is_empty() { 1 } else { 0 }, 4, 2, 1]) {
            0 => {
                let level = match prev {
                    Some(p) if stay => r.range(1.max(p.saturating_sub(2)), (p + 1).min(5)),
                    Some(_) => r.range(1, 5),
                    None if r.bool() => 1,
                    None => r.range(1, 5),
                };
                let (node, at) = heading(&mut r, &mut s, level, false, eol);
                ctx.count("sections");
                if let Some(p) = prev
                    && level > p + 1
                {
                    ctx.count("skipped levels");
                    // Reported once, on the heading itself.
                    warns.push(format!("WarningType::SectionHeadingLevelSkipped({p}, {level}) {at}"));
                }
                prev = Some(level);
                items.push(Item::Heading(level, node));
                paragraph_last = false;
            }
            1 => {
                let level = r.range(1, 5);
                let (node, _) = heading(&mut r, &mut s, level, true, eol);
                ctx.count("discrete headings");
                items.push(Item::Leaf(node));
                paragraph_last = false;
            }
            2 => {
                // Not a heading: level 0, or too deep.
                let k = *r.choose(&[1, 7, 8, 12]);
                let start = s.len();
                let w = docgen::simple_words(&mut r, 1, 3);
                let m = if k > 1 && r.one_in(4) { "#" } else { "=" };
                let t = format!("{} {w}", m.repeat(k));
                s.push_str(&t);
                let end = s.len();
                s.push_str(eol);
                s.push_str(eol);
                if k == 1 {
                    ctx.count("level 0 headings");
                    warns.push(format!("WarningType::Level0SectionHeadingNotSupported {start}"));
                } else {
                    ctx.count("headings deeper than allowed");
                    warns.push(format!("WarningType::SectionHeadingLevelExceedsMaximum({}) {start}", k - 1));
                }
                // Unless that is how a document begins.
                let title = if m == "=" { t } else { "?".into() };
                items.push(Item::Leaf(Node { what: "text".into(), title, start, end, kids: vec![] }));
                paragraph_last = true;
            }
            3 => {
                let start = s.len();
                let mut t = docgen::words(&mut r, 1, 5);
                if r.one_in(3) {
                    t.push_str(eol);
                    t.push_str(r.pick(&["== no heading", "=== none", "## none"]).trim_start_matches('#').trim_start());
                }
                s.push_str(&t);
                let end = s.len();
                s.push_str(eol);
                s.push_str(eol);
                items.push(Item::Leaf(Node { what: "text".into(), title: html(&t.replace("\r\n", "\n")), start, end, kids: vec![] }));
                paragraph_last = true;
            }
            4 => {
                let start = s.len();
                let t = r.pick(&["== no heading", "= x", "[discrete]", "text"]);
                s.push_str(&format!("----{eol}{t}{eol}----"));
                let end = s.len();
                s.push_str(eol);
                items.push(Item::Leaf(Node { what: "listing".into(), title: t.into(), start, end, kids: vec![] }));
                paragraph_last = false;
            }
            _ => {
                // A line that almost is a heading.
                let start = s.len();
                let t = r.pick(&["==text", "===", "\\== x", "-= x"]);
                if t == "===" || (t.starts_with("==") && s.is_empty()) {
                    continue;
                }
                s.push_str(t);
                let end = s.len();
                s.push_str(eol);
                s.push_str(eol);
                items.push(Item::Leaf(Node { what: "text".into(), title: t.into(), start, end, kids: vec![] }));
                paragraph_last = true;
            }
        }
        for _ in 0..r.weighted(&[2, 3, 1]) {
            s.push_str(eol);
        }
    }
    let _ = paragraph_last;
    ctx.input(&s);
    let doc = Parser::default().parse(&s);
    ctx.eval();
    let nsec = items.iter().filter(|i| matches!(i, Item::Heading(..))).count();
    if nsec >= 3 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
    let first = items.iter().position(|i| matches!(i, Item::Heading(..)));
    let mut want = build(&mut items.into_iter().peekable(), 0);
    if let Some(k) = first
        && k > 0
    {
        ctx.count("preambles");
        let rest = want.split_off(k);
        let pre = Node { what: "preamble".into(), title: String::new(), start: want[0].start, end: want[k - 1].end, kids: want };
        want = vec![pre];
        want.extend(rest);
    }
    let mut got: Vec<Node> = doc.nested_blocks().map(observed).collect();
    fn tidy(v: &mut [Node], exp: &[Node]) {
        for (i, n) in v.iter_mut().enumerate() {
            n.title = n.title.replace("\r\n", "\n");
            if let Some(e) = exp.get(i) {
                if e.title == "?" {
                    n.title = "?".into();
                }
                if n.what == "preamble" && e.what == "preamble" && n.start <= e.start && n.end == e.end {
                    n.start = e.start;
                }
                tidy(&mut n.kids, &e.kids);
            }
        }
    }
    tidy(&mut got, &want);
    fn depth(v: &[Node]) -> usize {
        v.iter().filter(|n| n.what.starts_with("section")).map(|n| 1 + depth(&n.kids)).max().unwrap_or(0)
    }
    if depth(&want) >= 5 {
        ctx.count("five levels deep");
    }
    if want != got {
        ctx.fail("the outline differs from the headings", format!("expected {want:?}\n got {got:?}"));
    }
    let mut w: Vec<String> = doc
        .warnings()
        .map(|w| format!("{:?} {}", w.warning, w.source.byte_offset()))
        .filter(|w| !w.contains("DuplicateId"))
        .collect();
    w.sort();
    warns.sort();
    ctx.expect_eq("warnings about headings", &warns, &w);
}

fn run(ctx: &mut Ctx) {
    if ctx.idx % 3 < 2 {
        return random(ctx);
    }
    let p = docgen::Profile { max_blocks: 2, sections: 5, max_sections: *ctx.rng.choose(&[4, 12, 30]), discrete_pct: 25, meta_pct: 25, max_depth: 2, ..Default::default() };
    let d = docgen::doc(&mut ctx.rng, &p);
    ctx.input(&d.src);
    let doc = Parser::default().parse(&d.src);
    ctx.eval();
    ctx.count("constructed documents");
    let mut n = 0;
    d.walk(&mut |e| n += (e.kind == docgen::Kind::Section) as u64);
    ctx.add("sections", n);
    if n >= 3 {
        ctx.distinct(&d.src);
    }
    for m in compare::compare(&d, &doc) {
        if matches!(m.facet, "structure" | "span" | "section" | "header") {
            ctx.fail(format!("constructed document: {}", m.facet), m.detail);
        }
    }
    if util::warnings_dump(&doc).contains("SectionHeading") {
        ctx.fail("warning about a well-formed outline", util::warnings_dump(&doc));
    }
}
