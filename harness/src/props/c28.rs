//! A custom renderer is asked for exactly what the text contains.
use asciidoc_parser::Parser;

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        inline::{Gen, Mix, Steps},
        marks::{Log, Marks},
        spots::{self, Opts},
    },
    rng::Rng,
};

pub const DEF: PropDef = PropDef {
    id: "C28",
    quick: 200_000,
    thorough: 3_000_000,
    run,
    needs: &[
        "special characters asked for",
        "formatted texts asked for",
        "replacements asked for",
        "line breaks asked for",
        "images asked for",
        "icons asked for",
        "links asked for",
        "anchors asked for",
        "rendered without any request",
        "paragraphs with hard line breaks",
    ],
    rule: "Texts from known pieces are parsed with a renderer that writes what it is asked to render, with all values, between private-use characters, and counts the requests; the text must be that of the pieces, with a request for every element in it. Text that contains no markup must cause no request at all. Non-trivial: at least two kinds of pieces; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let log = Log::default();
    let backend = Marks::default();
    if r.one_in(10) {
        // Nothing to render.
        let mut s = String::new();
        for k in 0..r.range(1, 8) {
            s.push_str(if k > 0 { r.pick(&[" ", "\n"]) } else { "" });
            s.push_str(r.pick(&["word", "été", "日本", "one,", "end.", "(see)", "half-way", "1/2"]));
        }
        ctx.input(&s);
        let mut p = Parser::default().with_inline_substitution_renderer(Marks { log: log.clone() });
        let d = p.parse(&s);
        let got = spots::rendered(&d);
        ctx.eval();
        ctx.count("rendered without any request");
        ctx.check("plain text is changed", got.len() == 1 && got[0].1 == s, || format!("{got:?}"));
        ctx.check("plain text causes a request to the renderer", log.borrow().is_empty(), || format!("{:?}", log.borrow()));
        return;
    }
    let mix = Mix { quote: 4, link: 3, image: 3, anchor: 2, rep: 3, special: 3, breaks: 3, link_quotes: 1, ..Default::default() };
    let mut g = Gen::new(Rng::new(r.next()), Steps::ALL, mix, &backend);
    let mut p = spots::settings(&mut r, &mut g).with_inline_substitution_renderer(Marks { log: log.clone() });
    let d = spots::doc(&mut r, &mut g, &Opts { pieces: 8, ..Default::default() });
    spots::check(ctx, &d, &mut p, "custom renderer");
    // Every element in the text was asked for.
    let outs: Vec<String> = d.spots.iter().map(|s| s.2.clone()).collect();
    let all = outs.join("\n");
    let n = |c: char| all.matches(c).count() as u64;
    let count = |k: &str| log.borrow().get(k).copied().unwrap_or(0);
    for (k, c) in [("formatted texts asked for", '\u{E000}'), ("replacements asked for", '\u{E006}'), ("line breaks asked for", '\u{E01C}'), ("images asked for", '\u{E00E}'), ("icons asked for", '\u{E01D}'), ("links asked for", '\u{E008}'), ("anchors asked for", '\u{E018}')] {
        ctx.add(k, count(k));
        ctx.check(&format!("the number of {k}"), count(k) >= n(c), || format!("{} in the text, {} requests", n(c), count(k)));
    }
    ctx.add("special characters asked for", count("special characters asked for"));
    let esc = (all.matches("&lt;").count() + all.matches("&gt;").count()) as u64;
    // Arrows consume the characters they are made of.
    ctx.check("the number of special characters asked for", count("special characters asked for") >= esc, || format!("{esc} in the text, {}", count("special characters asked for")));
    for (k, v) in &g.counts {
        ctx.add(k, *v);
    }
    if g.counts.len() >= 2 {
        ctx.distinct(&d.src);
        ctx.sample(&d.src);
    }
}
