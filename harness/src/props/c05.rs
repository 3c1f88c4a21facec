//! Reusing a parser: one document does not show in the next.
use asciidoc_parser::Document;
use asciidoc_parser::blocks::Block;

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{config, docgen, soup},
    rng::Rng,
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C05",
    quick: 60_000,
    thorough: 2_000_000,
    run,
    needs: &["second documents compared", "third documents compared", "earlier documents with numbered sections", "earlier documents with IDs", "earlier documents with appendices", "clones used", "same text again"],
    rule: "Each case parses one to three documents that set no attributes with one parser (or alternating with a clone of it) and then a further one: it must be what a fresh parser of the same configuration makes of it. Non-trivial: the earlier documents have a section, an ID or a warning; distinct by the texts.",
};

/// Documents that leave no attribute behind.
fn neutral(doc: &Document<'_>) -> bool {
    let h = doc.header();
    let mut ok = h.title().is_none() && h.attributes().next().is_none() && h.author_line().is_none() && h.revision_line().is_none();
    util::walk(doc, &mut |b, _| {
        if let Block::DocumentAttribute(_) = b {
            ok = false;
        }
    });
    ok
}

fn earlier(r: &mut Rng) -> String {
    match r.below(3) {
        0 => {
            let s = soup::any_text(r);
            s.lines().filter(|l| !l.starts_with(':') && !l.starts_with("= ") && !l.starts_with("# ")).collect::<Vec<_>>().join("\n")
        }
        _ => {
            let p = docgen::Profile {
                header_pct: 0,
                attr_entries: false,
                ids: docgen::Ids::Colliding,
                appendix_pct: 40,
                same_titles: r.bool(),
                max_sections: 6,
                max_blocks: 3,
                ..Default::default()
            };
            let mut s = docgen::doc(r, &p).src;
            if r.one_in(6) {
                // Ends in the middle of something.
                s.push_str(r.pick(&["\n====\nopen", "\n[[x]]", "\n.Title", "\n----\nx", "\n[appendix]\n== Last\n\ntext", "\n[appendix]\n== Last\n\n=== Sub"]));
            }
            s
        }
    }
}

fn run(ctx: &mut Ctx) {
    let mut cfg = config::config(&mut ctx.rng, &mut soup::any_text);
    if ctx.rng.bool() {
        cfg.bools.push(("sectnums".into(), true, 3));
    }
    let n = ctx.rng.range(1, 3);
    let mut texts: Vec<String> = vec![];
    let mut notable = false;
    let mut parser = cfg.build();
    let mut clone = parser.clone();
    let mut used_clone = false;
    for _ in 0..n {
        let t = earlier(&mut ctx.rng);
        // Is it neutral? (Asked of another parser.)
        let probe = cfg.build().parse(&t);
        if !neutral(&probe) {
            continue;
        }
        ctx.input(&t);
        let on_clone = ctx.rng.one_in(3);
        let p = if on_clone { &mut clone } else { &mut parser };
        used_clone |= on_clone;
        let d = p.parse(&t);
        let x = util::dump(&d);
        if x.contains("number=Some") {
            ctx.count("earlier documents with numbered sections");
        }
        if !x.contains("catalog 0") {
            ctx.count("earlier documents with IDs");
        }
        if x.contains("type=SectionType::Appendix") {
            ctx.count("earlier documents with appendices");
        }
        notable |= x.contains("level=") || !x.contains("catalog 0") || x.contains("\nwarning");
        texts.push(t);
    }
    if texts.is_empty() {
        ctx.count("skipped: earlier documents set attributes");
        return;
    }
    let s = match ctx.rng.below(4) {
        0 => {
            ctx.count("same text again");
            texts[texts.len() - 1].clone()
        }
        1 => soup::any_text(&mut ctx.rng),
        _ => {
            let p = docgen::Profile { ids: docgen::Ids::Colliding, appendix_pct: 35, same_titles: ctx.rng.bool(), ..Default::default() };
            docgen::doc(&mut ctx.rng, &p).src
        }
    };
    ctx.input(&format!("{}\u{1e}{s}", texts.join("\u{1e}")));
    let fresh = util::dump(&cfg.build().parse(&s));
    ctx.eval();
    let got = util::dump(&parser.parse(&s));
    ctx.count(if n >= 2 { "third documents compared" } else { "second documents compared" });
    if fresh != got {
        ctx.fail("a parser that was used before gives another document", util::first_diff(&fresh, &got));
    }
    if used_clone {
        ctx.count("clones used");
        let got = util::dump(&clone.parse(&s));
        if fresh != got {
            ctx.fail("a clone that was used before gives another document", util::first_diff(&fresh, &got));
        }
    }
    if notable {
        ctx.distinct(&ctx.current_input.clone());
        ctx.sample(&ctx.current_input.clone());
    }
}
