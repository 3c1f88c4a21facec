//! Tree integrity and no lost text.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock},
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{docgen, soup},
    model::compare,
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C07",
    quick: 300_000,
    thorough: 6_000_000,
    run,
    needs: &["blocks checked", "containers with children", "gaps checked", "constructed documents"],
    rule: "Each case parses a hostile text (no include or conditional directives) or a constructed document and walks the tree: children lie inside their parent, siblings are ordered and disjoint, and the source that no block covers is only white space, the document header, a container's own metadata and heading or delimiter lines. Non-trivial: at least 3 blocks; distinct by text.",
};

/// The (trimmed) source range of a block.
fn range(b: &Block<'_>) -> (usize, usize) {
    let s = b.span();
    (s.byte_offset(), s.byte_offset() + s.data().trim_end().len())
}

fn delimiter(l: &str) -> bool {
    l == "--" || l.len() >= 4 && ['=', '*', '_'].iter().any(|c| l.chars().all(|x| x == *c))
}

fn blank(s: &str) -> bool {
    s.chars().all(|c| c.is_whitespace())
}

fn children<'a>(ctx: &mut Ctx, src: &str, parent: &str, kids: &[&'a Block<'a>], lo: usize, hi: usize) {
    let mut at = lo;
    for (i, k) in kids.iter().enumerate() {
        let (a, b) = range(k);
        if a < lo || b > hi || b < a {
            ctx.fail(format!("child outside its parent ({parent})"), format!("child {:?} at {a}..{b}, parent at {lo}..{hi}", k.span().data()));
            return;
        }
        if a < at {
            ctx.fail(format!("siblings overlap or are out of order ({parent})"), format!("child {:?} starts at {a}, before {at}", k.span().data()));
            return;
        }
        if i > 0 {
            ctx.count("gaps checked");
            if !blank(&src[at..a]) {
                ctx.fail(format!("text between siblings belongs to no block ({parent})"), format!("{:?}", &src[at..a]));
            }
        }
        at = b;
    }
}

fn visit(ctx: &mut Ctx, src: &str, b: &Block<'_>) -> usize {
    ctx.count("blocks checked");
    let (lo, hi) = range(b);
    let kids: Vec<&Block<'_>> = b.nested_blocks().collect();
    let what = match b {
        Block::Section(_) => "section",
        Block::CompoundDelimited(_) => "delimited block",
        Block::Preamble(_) => "preamble",
        _ => "leaf",
    };
    children(ctx, src, what, &kids, lo, hi);
    if !kids.is_empty() {
        ctx.count("containers with children");
    }
    let first = kids.first().map(|k| range(k).0).unwrap_or(hi).min(hi).max(lo);
    let last = kids.last().map(|k| range(k).1).unwrap_or(first).min(hi).max(lo);
    let head = &src[lo..first];
    let tail = &src[last.max(first)..hi];
    let head_line = head.lines().rfind(|l| !blank(l)).unwrap_or("");
    match b {
        Block::Section(s) => {
            let title = s.section_title_source();
            if !head_line.trim_end().ends_with(title.data().trim_end()) {
                ctx.fail("a section's children do not follow its heading", format!("heading {:?}, text before the first child {:?}", title.data(), head));
            }
            if !blank(tail) {
                ctx.fail("text at the end of a section belongs to no block", format!("{tail:?}"));
            }
        }
        Block::CompoundDelimited(_) => {
            {
                let t: Vec<&str> = tail.lines().filter(|l| !blank(l)).collect();
                let open = head_line.trim_end();
                if kids.is_empty() {
                    // Nothing but delimiters (after the metadata).
                    let all = &src[lo..hi];
                    let rest: Vec<&str> = all.lines().filter(|l| !blank(l)).map(|l| l.trim_end()).skip_while(|l| !delimiter(l)).collect();
                    if rest.len() > 2 || rest.len() == 2 && rest[0] != rest[1] {
                        ctx.fail("text inside a delimited block belongs to no block", format!("{all:?}"));
                    }
                } else if !(t.is_empty() || t.len() == 1 && t[0].trim_end() == open) {
                    ctx.fail("text at the end of a delimited block belongs to no block", format!("opened by {open:?}, followed by {tail:?}"));
                }
            }
        }
        Block::Preamble(_) => {
            if !blank(head) || !blank(tail) {
                ctx.fail("text of the preamble belongs to no block", format!("{head:?} ... {tail:?}"));
            }
        }
        Block::Simple(p) => {
            // The content of a paragraph runs to its end.
            let o = p.content().original();
            if o.byte_offset() + o.data().trim_end().len() != hi {
                ctx.fail("a paragraph's content does not run to the end of the paragraph", format!("{:?} in {:?}", o.data(), b.span().data()));
            }
        }
        _ => {}
    }
    let mut n = 1;
    for k in kids {
        n += visit(ctx, src, k);
    }
    n
}

fn run(ctx: &mut Ctx) {
    let mut gd = None;
    let s = if ctx.rng.pct(35) {
        let d = docgen::doc(&mut ctx.rng, &Default::default());
        let s = d.src.clone();
        gd = Some(d);
        s
    } else if ctx.rng.one_in(20) {
        soup::nested(&mut ctx.rng, 8)
    } else {
        soup::any_text(&mut ctx.rng)
    };
    ctx.input(&s);
    let doc = Parser::default().parse(&s);
    if util::may_preprocess(&s, &doc) {
        // Preprocessed: what the blocks cover is no longer this text. (Other checks.)
        ctx.count("skipped: preprocessed");
        return;
    }
    ctx.eval();
    let src = s.as_str();
    let kids: Vec<&Block<'_>> = doc.nested_blocks().collect();
    let h = doc.header().span();
    let hend = h.byte_offset() + h.data().trim_end().len();
    let end = src.trim_end().len();
    children(ctx, src, "document", &kids, hend.min(src.len()), src.len());
    let first = kids.first().map(|k| range(k).0).unwrap_or(end).max(hend);
    let last = kids.last().map(|k| range(k).1).unwrap_or(hend);
    if !blank(&src[..h.byte_offset()]) {
        ctx.fail("text before the header belongs to nothing", format!("{:?}", &src[..h.byte_offset()]));
    }
    if hend <= first && !blank(&src[hend..first]) {
        ctx.fail("text between the header and the first block belongs to nothing", format!("{:?}", &src[hend..first]));
    }
    if last < end && !blank(&src[last..end]) {
        ctx.fail("text after the last block belongs to nothing", format!("{:?}", &src[last..end]));
    }
    let mut n = 0;
    for k in &kids {
        n += visit(ctx, src, k);
    }
    if n >= 3 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
    if let Some(d) = gd {
        ctx.count("constructed documents");
        for m in compare::compare(&d, &doc) {
            if matches!(m.facet, "structure" | "content") {
                ctx.fail(format!("constructed: {}", m.facet), m.detail);
            }
        }
    }
}
