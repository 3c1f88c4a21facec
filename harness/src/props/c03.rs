//! A document owns its source; no memory is leaked or read after it is freed.
use asciidoc_parser::Document;

use super::PropDef;
use crate::{
    alloc,
    ctx::Ctx,
    generate::{config, docgen, soup},
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C03",
    quick: 48_000,
    thorough: 500_000,
    run,
    needs: &["documents outliving their input and parser", "documents moved", "leak measurements", "strings checked to be UTF-8"],
    rule: "Each case parses a text held in a heap buffer with poisoned neighbours, reads the document, overwrites and frees the buffer, drops the parser, moves the document, churns the heap, and reads it again: everything read must be the same. Parsing and dropping the same text again must not grow the heap. The same workload runs in a build with AddressSanitizer. Non-trivial: at least 2 blocks; distinct by text.",
};

fn observe(ctx: &mut Ctx, d: &Document<'_>) -> String {
    let s = util::dump(d);
    ctx.count("strings checked to be UTF-8");
    if std::str::from_utf8(s.as_bytes()).is_err() {
        ctx.fail("a string is not valid UTF-8", format!("{:?}", s.as_bytes()));
        return String::new();
    }
    s
}

fn run(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let text = if r.one_in(3) { docgen::doc(r, &Default::default()).src } else { soup::any_text(r) };
    let cfg = if r.one_in(3) { config::config(r, &mut soup::any_text) } else { Default::default() };
    ctx.input(&text);
    // The text sits between neighbours that would be noticed.
    let pad = ctx.rng.below(17);
    let mut buf = String::from("\u{1}").repeat(pad);
    buf.push_str(&text);
    buf.push_str(" *POISON* {poison} [[poison]]\n== Poison\n");
    let mut p = cfg.build();
    let d = p.parse(&buf[pad..pad + text.len()]);
    ctx.eval();
    let before = observe(ctx, &d);
    if before.contains("OISON") || before.contains("oison") {
        ctx.fail("text beyond the input was read", before.lines().find(|l| l.contains("ison")).unwrap_or("").to_string());
    }
    // Overwrite and free the input; drop the parser.
    let mut bytes = buf.into_bytes();
    bytes.fill(b'#');
    drop(bytes);
    drop(p);
    let again = observe(ctx, &d);
    if again != before {
        ctx.fail("document changed when its input or parser went away", util::first_diff(&before, &again));
    }
    ctx.count("documents outliving their input and parser");
    // Move it around while the heap is reused.
    let b = Box::new(d);
    let churn: Vec<String> = (0..32).map(|i| "=".repeat(text.len() / (1 + i % 4) + i)).collect();
    let mut v = vec![b];
    v.reserve(64);
    let d: Document<'_> = *v.pop().unwrap();
    let moved = observe(ctx, &d);
    if moved != before {
        ctx.fail("document changed when it was moved", util::first_diff(&before, &moved));
    }
    drop(churn);
    ctx.count("documents moved");
    // Spans point into the document's own source.
    let n = util::block_count(&d);
    drop(d);
    if n >= 2 {
        ctx.distinct(&text);
        ctx.sample(&text);
    }
    // Leaks: the same work, again and again.
    if ctx.idx % 4 < 2 {
        let mut last = 0usize;
        let mut grew = 0;
        let mut amount = 0usize;
        for k in 0..7 {
            {
                let mut p = cfg.build();
                let d = p.parse(&text);
                std::hint::black_box(&d);
            }
            let l = alloc::live();
            if k >= 2 && l > last {
                grew += 1;
                amount = l - last;
            }
            last = l;
        }
        ctx.count("leak measurements");
        if grew == 5 {
            ctx.fail("memory leaks each time this text is parsed and its document dropped", format!("{amount} bytes each time"));
        }
    }
}
