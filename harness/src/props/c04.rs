//! Parsing is a function of text and configuration.
use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{config, docgen, soup},
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C04",
    quick: 60_000,
    thorough: 2_000_000,
    run,
    needs: &["parsed again", "parsed again after other documents", "parsed on other threads", "cloned parsers", "documents with IDs"],
    rule: "Each case parses a text several times with equal configurations: at once, after unrelated documents were parsed by other parsers (some configured against it), on other threads at the same time, and with a clone of the parser; everything observable, and document equality, must agree. Non-trivial: at least 2 blocks; distinct by text.",
};

fn text(r: &mut crate::rng::Rng) -> String {
    if r.one_in(3) {
        let p = docgen::Profile { ids: docgen::Ids::Colliding, meta_pct: 50, same_titles: r.bool(), ..Default::default() };
        docgen::doc(r, &p).src
    } else {
        soup::any_text(r)
    }
}

fn run(ctx: &mut Ctx) {
    let s = text(&mut ctx.rng);
    let cfg = config::config(&mut ctx.rng, &mut soup::any_text);
    ctx.input(&s);
    let d1 = cfg.build().parse(&s);
    let first = util::dump(&d1);
    ctx.eval();
    let d2 = cfg.build().parse(&s);
    let second = util::dump(&d2);
    ctx.count("parsed again");
    if first != second {
        ctx.fail("parsing again gives another document", util::first_diff(&first, &second));
    } else if d1 != d2 {
        ctx.fail("documents that look the same do not compare equal", String::new());
    }
    if first.contains("catalog 0") {
    } else {
        ctx.count("documents with IDs");
    }
    // Unrelated documents in between.
    for _ in 0..ctx.rng.range(1, 3) {
        let mut t = text(&mut ctx.rng);
        if ctx.rng.one_in(3) {
            // The same words in another light.
            ctx.count("the same text parsed with other settings in between");
            t = format!("{}\n\n{s}", ctx.rng.pick(&[":idprefix:", ":idprefix: x\n:idseparator: -", ":idseparator:", ":sectnums:", ":foo: other", ":imagesdir: o\n:icons: font", ":!sectids:", ":hardbreaks:"]));
        }
        let c = config::config(&mut ctx.rng, &mut soup::any_text);
        let mut p = c.build();
        let d = p.parse(&t);
        if ctx.rng.bool() {
            std::hint::black_box(util::dump(&d));
        }
    }
    let third = util::dump(&cfg.build().parse(&s));
    ctx.count("parsed again after other documents");
    if first != third {
        ctx.fail("parsing after unrelated documents gives another document", util::first_diff(&first, &third));
    }
    // A clone of an unused parser is as good as the parser.
    let p = cfg.build();
    let mut q = p.clone();
    drop(p);
    let fourth = util::dump(&q.parse(&s));
    ctx.count("cloned parsers");
    if first != fourth {
        ctx.fail("a clone of the parser gives another document", util::first_diff(&first, &fourth));
    }
    if ctx.idx % 20 < 8 && ctx.idx % 5 == 0 || ctx.idx % 37 == 3 {
        let other = text(&mut ctx.rng);
        let got: Vec<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..3)
                .map(|k| {
                    let (s, other, cfg) = (&s, &other, &cfg);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            if k > 0 {
                                std::hint::black_box(util::dump(&cfg.build().parse(other)));
                            }
                            util::dump(&cfg.build().parse(s))
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().ok()).collect()
        });
        ctx.add("parsed on other threads", got.len() as u64);
        for g in got {
            if g != first {
                ctx.fail("parsing on another thread gives another document", util::first_diff(&first, &g));
            }
        }
    }
    if util::block_count(&d1) >= 2 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
}
