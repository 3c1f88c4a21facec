//! Block metadata belongs to the block it precedes.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock},
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::docgen,
    model::compare,
    util::{self, html},
};

pub const DEF: PropDef = PropDef {
    id: "C11",
    quick: 300_000,
    thorough: 4_000_000,
    run,
    needs: &["titles", "anchors", "attribute lists", "blocks with all three", "blocks without metadata", "metadata without a block", "titles with inline markup", "lines that resemble metadata"],
    rule: "Constructed documents in which every kind of block has a title, an anchor and an attribute list or any subset, in any order; each block must report exactly its own and nothing may leak to its neighbours. A further part leaves metadata without a block. Non-trivial: at least 2 blocks with metadata; distinct by text.",
};

fn orphan(ctx: &mut Ctx) {
    let mut r = crate::rng::Rng::new(ctx.rng.next());
    // Lines of metadata, then a blank line (or the end): they describe nothing, and are text.
    let n = r.range(1, 3);
    let mut kinds = vec![0, 1, 2];
    r.shuffle(&mut kinds);
    let mut lines = vec![];
    for k in &kinds[..n] {
        lines.push(match k {
            0 => ".Title",
            1 => r.pick(&["[[anchor]]", "[[anchor,text]]"]),
            _ => r.pick(&["[.role%opt]", "[#own]", "[#own.role]", "[quote]"]),
        });
    }
    let end: usize = lines.iter().map(|l| l.len() + 1).sum();
    let wrap = r.one_in(3);
    let before = r.bool();
    let after = r.bool();
    let mut s = String::new();
    if before {
        s.push_str("first\n\n");
    }
    if wrap {
        s.push_str("====\n");
    }
    let at = s.len();
    for l in &lines {
        s.push_str(l);
        s.push('\n');
    }
    if after {
        s.push_str(r.pick(&["\n", "\n\n", " \n", "\t\n"]));
        s.push_str("last\n");
    }
    if wrap {
        s.push_str("====\n");
    }
    ctx.input(&s);
    let doc = Parser::default().parse(&s);
    ctx.eval();
    ctx.count("metadata without a block");
    let mut paras: Vec<(usize, usize, Option<String>, Option<String>, Vec<String>)> = vec![];
    util::walk(&doc, &mut |b, _| {
        if let Block::Simple(_) = b {
            let o = b.span();
            paras.push((
                o.byte_offset(),
                o.byte_offset() + o.data().trim_end().len(),
                b.title().map(|t| t.to_string()),
                b.id().map(|t| t.to_string()),
                b.roles().iter().map(|x| x.to_string()).chain(b.anchor_reftext().map(|t| t.data().to_string())).collect(),
            ));
        }
    });
    let w: Vec<String> = doc.warnings().map(|w| format!("{:?} {}", w.warning, w.source.byte_offset())).collect();
    {
        // The lines are not lost.
        let covered = paras.iter().any(|p| p.0 <= at && at < p.1);
        ctx.check("text of metadata without a block is lost", covered, || format!("{paras:?}"));
        let want = format!("WarningType::MissingBlockAfterTitleOrAttributeList {at}");
        ctx.check("no warning for metadata without a block", w.contains(&want), || format!("expected {want:?} in {w:?}"));
    }
    // Being text, they say nothing about themselves.
    let bad = paras.iter().find(|p| at <= p.0 && p.0 < at + end && (p.2.is_some() || p.3.is_some() || !p.4.is_empty()));
    ctx.check("metadata without a block describes its own text", bad.is_none(), || format!("{bad:?}"));
    let known: Vec<&str> = ["anchor", "own"].into_iter().filter(|i| doc.catalog().contains_id(i)).collect();
    ctx.check("an ID without a block is registered", known.is_empty(), || format!("{known:?}"));
    if after {
        let l = s.rfind("last").unwrap();
        let last = paras.iter().find(|p| p.0 == l);
        ctx.check("metadata describes the block after a blank line", matches!(last, Some(p) if p.2.is_none() && p.3.is_none() && p.4.is_empty()), || format!("{paras:?}"));
    }
    if before {
        let first = paras.iter().find(|p| p.0 == 0);
        ctx.check("metadata describes the block before it", matches!(first, Some(p) if p.2.is_none() && p.3.is_none() && p.4.is_empty()), || format!("{paras:?}"));
    }
}

/// A title with inline markup is rendered like any text.
fn titles(ctx: &mut Ctx) {
    let mut r = crate::rng::Rng::new(ctx.rng.next());
    let mut src = String::new();
    let mut want = String::new();
    for i in 0..r.range(1, 4) {
        if i > 0 {
            src.push(' ');
            want.push(' ');
        }
        let w = r.pick(docgen::WORDS);
        let w = w.trim_end_matches(['.', ',', ';', '!', '?']);
        let (a, b) = match r.below(8) {
            0 => (format!("*{w}*"), format!("<strong>{w}</strong>")),
            1 => (format!("_{w}_"), format!("<em>{w}</em>")),
            2 => (format!("`{w}`"), format!("<code>{w}</code>")),
            3 => ("{foo}".into(), "bar &lt;x&gt;".into()),
            4 => ("{Foo}".into(), "bar &lt;x&gt;".into()),
            5 => ("(C)".into(), "&#169;".into()),
            6 => (format!("{w}..."), format!("{}&#8230;&#8203;", html(w))),
            _ => (w.to_string(), html(w)),
        };
        src.push_str(&a);
        want.push_str(&b);
    }
    let block = r.pick(&["text\n", "----\nx\n----\n", "====\nx\n====\n", "== Section\n", "image::x.png[]\n", "++++\nx\n++++\n", "'''\n"]);
    let s = format!("= T\n:foo: bar <x>\n\n[.r]\n.{src}\n{block}");
    ctx.input(&s);
    let doc = Parser::default().parse(&s);
    ctx.eval();
    ctx.count("titles with inline markup");
    let b = doc.nested_blocks().next();
    let got = b.and_then(|b| b.title()).map(|t| t.to_string());
    ctx.expect_eq("rendered title", &Some(want), &got);
    let got = b.and_then(|b| b.title_source()).map(|t| t.data().to_string());
    ctx.expect_eq("source of the title", &Some(src), &got);
    ctx.distinct(&s);
}

/// Lines that resemble metadata are text, and the metadata above them describes it.
fn alike(ctx: &mut Ctx) {
    let mut r = crate::rng::Rng::new(ctx.rng.next());
    let l = r.pick(&["[\tx]", "[ x]", "[ ]", "[\t]", "[\t.r]", ". x", ".\tx", "..x", "..", "...x", "[x", "[.r]y", "x]", "[[x]]y", "[[x", "[]x", "[.r] [.s", ":x", "::", "[x]:"]);
    let meta = r.pick(&["", ".Title\n", "[.role]\n", "[[anchor]]\n", ".Title\n[.role]\n", "[[anchor]]\n.Title\n", "[.role]\n[[anchor]]\n"]);
    let more = r.pick(&["text\n", "", "text\nand more\n"]);
    let before = r.pick(&["", "first\n\n", "----\nx\n----\n"]);
    let after = r.pick(&["", "\nlast\n", "\n== Section\n"]);
    let wrap = r.one_in(3) && !after.contains("==");
    let (w1, w2) = if wrap { ("====\n", "====\n") } else { ("", "") };
    let s = format!("{before}{w1}{meta}{l}\n{more}{w2}{after}");
    ctx.input(&s);
    let doc = Parser::default().parse(&s);
    ctx.eval();
    ctx.count("lines that resemble metadata");
    ctx.distinct(&s);
    let at = before.len() + w1.len();
    let text = format!("{meta}{l}\n{more}");
    let mut seen = vec![];
    util::walk(&doc, &mut |b, _| {
        if let Block::Simple(_) = b
            && (at..at + text.len()).contains(&b.span().byte_offset())
        {
            seen.push((b.span().byte_offset(), b.span().data().to_string(), b.title().map(|t| t.to_string()), b.anchor().map(|t| t.data().to_string()), b.roles().iter().map(|t| t.to_string()).collect::<Vec<_>>(), b.attrlist().is_some()));
        }
    });
    let attr = meta.contains("[.role]");
    let want = vec![(at, text.trim_end().to_string(), meta.contains(".Title").then(|| "Title".to_string()), meta.contains("[[").then(|| "anchor".to_string()), if attr { vec!["role".to_string()] } else { vec![] }, attr)];
    ctx.expect_eq("a line that resembles metadata is not the text of its paragraph", &want, &seen);
}

fn run(ctx: &mut Ctx) {
    if ctx.idx % 12 == 5 {
        return alike(ctx);
    }
    match ctx.idx % 6 {
        0 => return orphan(ctx),
        1 => return titles(ctx),
        _ => {}
    }
    let p = docgen::Profile {
        meta_pct: 80,
        max_blocks: 4,
        sections: ctx.rng.below(4),
        max_sections: 3,
        max_depth: 3,
        ids: if ctx.rng.one_in(4) { docgen::Ids::Colliding } else { docgen::Ids::Unique },
        weights: [6, 4, 5, 4, 4, 1],
        ..Default::default()
    };
    let d = docgen::doc(&mut ctx.rng, &p);
    ctx.input(&d.src);
    let doc = Parser::default().parse(&d.src);
    ctx.eval();
    let mut n = 0;
    d.walk(&mut |e| {
        let k = [e.title.is_some(), e.anchor.is_some(), e.attr.is_some()];
        if k[0] {
            ctx.count("titles");
        }
        if k[1] {
            ctx.count("anchors");
        }
        if k[2] {
            ctx.count("attribute lists");
        }
        if k == [true; 3] {
            ctx.count("blocks with all three");
        }
        if k == [false; 3] {
            ctx.count("blocks without metadata");
        } else {
            n += 1;
        }
    });
    if n >= 2 {
        ctx.distinct(&d.src);
        ctx.sample(&d.src);
    }
    for m in compare::compare(&d, &doc) {
        if matches!(m.facet, "structure" | "title" | "anchor" | "attrlist" | "id" | "span") {
            ctx.fail(format!("constructed document: {}", m.facet), m.detail);
        }
    }
    for w in doc.warnings() {
        let t = format!("{:?}", w.warning);
        if t.contains("Missing") || t.contains("Empty") || t.contains("Invalid") {
            ctx.fail("warning about metadata that is well formed", util::warnings_dump(&doc));
        }
    }
}
