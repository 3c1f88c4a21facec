//! Totality: parsing and reading any document, with any configuration, ends.

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{config, soup},
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C01",
    quick: 400_000,
    thorough: 16_000_000,
    run,
    needs: &["documents parsed", "documents with a random configuration", "documents over 10 KB", "include directives resolved", "marks repeated over a long text"],
    rule: "Each case parses one hostile text (token soup, mutated corpus text, repeated fragments up to 60 KB, or delimited blocks nested up to 24 deep) with a random parser configuration, reads every public accessor, and drops the document. Non-trivial: the text yields at least 2 blocks or a warning; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    if ctx.idx == 0 {
        deep(ctx);
        return;
    }
    let kind = ctx.rng.below(1000);
    let big = if ctx.thorough() { 60_000 } else { 24_000 };
    let s = if kind < 2 {
        if ctx.rng.bool() {
            soup::large(&mut ctx.rng, big)
        } else {
            ctx.count("marks repeated over a long text");
            let m = soup::marks(&mut ctx.rng);
            m.repeat(big / m.len().max(1))
        }
    } else if kind < 30 {
        soup::nested(&mut ctx.rng, 24)
    } else {
        soup::any_text(&mut ctx.rng)
    };
    let cfg = if ctx.rng.pct(60) { config::config(&mut ctx.rng, &mut soup::any_text) } else { Default::default() };
    let text = if ctx.idx % 16 == 0 || !cfg.attrs.is_empty() || cfg.files.is_some() {
        format!("{s}\u{1e}{cfg:?}")
    } else {
        s.clone()
    };
    ctx.input(&text);
    let mut p = cfg.build();
    let d = p.parse(&s);
    let out = util::dump(&d);
    ctx.eval();
    ctx.count("documents parsed");
    ctx.add("bytes parsed", s.len() as u64);
    if !cfg.attrs.is_empty() || !cfg.bools.is_empty() {
        ctx.count("documents with a random configuration");
    }
    if s.len() > 10_000 {
        ctx.count("documents over 10 KB");
    }
    if cfg.files.is_some() && s.contains("include::") && !d.source_map().0.is_empty() {
        ctx.count("include directives resolved");
    }
    let n = util::block_count(&d);
    ctx.add("blocks", n as u64);
    let w = d.warnings().count();
    ctx.add("warnings", w as u64);
    if n >= 2 || w > 0 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
    std::hint::black_box(out);
    drop(p);
    drop(d);
}

/// Deeply nested delimited blocks: a recorded finding (see known-findings.txt).
fn deep(ctx: &mut Ctx) {
    let mut s = String::new();
    for n in 4..2004 {
        s.push_str(&"=".repeat(n));
        s.push('\n');
    }
    // The text itself is long; what identifies it is how it is made.
    ctx.input("2000 example blocks, each nested in the one before");
    let mut p = asciidoc_parser::Parser::default();
    let d = p.parse(&s);
    ctx.count("deep nesting survived");
    drop(d);
}
