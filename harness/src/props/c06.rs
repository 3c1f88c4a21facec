//! Source locations.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock},
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{config, docgen, soup},
    model::compare,
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C06",
    quick: 300_000,
    thorough: 6_000_000,
    run,
    needs: &["ends of blocks checked", "spans checked", "spans after multi-byte text on their line", "spans in CRLF documents", "warning spans", "spans in preprocessed documents", "constructed documents"],
    rule: "Each case parses a hostile text or a document written from a known block tree, and checks every span that any accessor reports: its text is the slice of the source at its offset, and its line and column are those of that offset (recounted here). Constructed documents also fix where each block must start and end. Non-trivial: at least 4 spans; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    let constructed = ctx.rng.pct(35);
    let mut cfg = config::Config::default();
    let mut gd = None;
    let s = if constructed {
        let p = docgen::Profile { meta_pct: 45, ..Default::default() };
        let d = docgen::doc(&mut ctx.rng, &p);
        let mut s = d.src.clone();
        if ctx.rng.one_in(5) {
            ctx.count("blank lines at the end");
            let nl = if d.crlf { "\r\n" } else { "\n" };
            if !s.ends_with('\n') && !s.is_empty() {
                s.push_str(nl);
            }
            s.push_str(&nl.repeat(ctx.rng.range(1, 3)));
        }
        gd = Some(d);
        s
    } else {
        if ctx.rng.one_in(3) {
            cfg = config::config(&mut ctx.rng, &mut soup::any_text);
        }
        if ctx.rng.one_in(40) { soup::nested(&mut ctx.rng, 6) } else { soup::any_text(&mut ctx.rng) }
    };
    ctx.input(&s);
    let mut p = if constructed { Parser::default() } else { cfg.build() };
    let doc = p.parse(&s);
    ctx.eval();
    let root = doc.span_source();
    let mut spans = util::header_spans(&doc);
    let mut ends = vec![];
    util::walk(&doc, &mut |b, _| {
        spans.extend(util::block_spans(b));
        // Only a verbatim block without a closing delimiter may have blank lines at its end.
        if !matches!(b, Block::RawDelimited(_) | Block::Preamble(_)) {
            ends.push((b.raw_context().to_string(), b.span().data().to_string()));
        }
    });
    for (what, t) in ends {
        ctx.count("ends of blocks checked");
        if t.ends_with(['\n', '\r']) {
            ctx.fail(format!("span of {what}: goes on after its last line"), format!("{t:?}"));
        }
    }
    let base = root.as_ptr() as usize;
    let pre = util::may_preprocess(&s, &doc);
    if pre {
        ctx.add("spans in preprocessed documents", spans.len() as u64);
    }
    // The text that spans index: the whole source when it was not preprocessed.
    let text: &str = if pre { root } else { &s };
    let mut starts = vec![0usize];
    starts.extend(text.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
    let mut warned = 0;
    for sp in &spans {
        ctx.count("spans checked");
        if sp.what == "warning" {
            warned += 1;
            ctx.count("warning spans");
        }
        if s.contains("\r\n") {
            ctx.count("spans in CRLF documents");
        }
        // A preprocessed document's trailing white space is not visible here.
        if sp.end() > text.len() {
            let beyond_ok = pre && (sp.off >= text.len() || text.is_char_boundary(sp.off)) && sp.data[text.len().saturating_sub(sp.off).min(sp.data.len())..].trim().is_empty();
            if !beyond_ok {
                ctx.fail(format!("span of {} leaves the source", sp.what), format!("offset {} length {} in a source of {} bytes: {:?}", sp.off, sp.data.len(), text.len(), sp.data));
            }
            continue;
        }
        let slice = text.get(sp.off..sp.end());
        if slice != Some(sp.data.as_str()) {
            ctx.fail(
                format!("span of {}: text is not the source at its offset", sp.what),
                format!("span text {:?}; source at {}..{}: {:?}", sp.data, sp.off, sp.end(), slice),
            );
            continue;
        }
        if !sp.data.is_empty() && sp.ptr != base + sp.off {
            ctx.fail(format!("span of {}: does not point into the document's source", sp.what), format!("{:?} at {}", sp.data, sp.off));
        }
        let line = starts.partition_point(|x| *x <= sp.off);
        let col = text[starts[line - 1]..sp.off].chars().count() + 1;
        if text[starts[line - 1]..sp.off].bytes().any(|b| b > 127) {
            ctx.count("spans after multi-byte text on their line");
        }
        if (line, col) != (sp.line, sp.col) {
            ctx.fail(
                format!("span of {}: wrong line or column", sp.what),
                format!("{:?} at offset {}: expected line {line} column {col}, got line {} column {}", sp.data, sp.off, sp.line, sp.col),
            );
        }
    }
    if spans.len() - warned >= 4 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
    if let Some(d) = gd {
        ctx.count("constructed documents");
        for m in compare::compare(&d, &doc) {
            if matches!(m.facet, "span" | "structure") {
                ctx.fail(format!("constructed: {}", m.facet), m.detail);
            }
        }
    }
}

trait SourceOf {
    fn span_source(&self) -> &str;
}

impl SourceOf for asciidoc_parser::Document<'_> {
    fn span_source(&self) -> &str {
        let s = self.span();
        // The span borrows from the document.
        let d: &str = s.data();
        unsafe { std::mem::transmute::<&str, &str>(d) }
    }
}
