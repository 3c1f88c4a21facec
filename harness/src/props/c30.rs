//! Hard line breaks.
use asciidoc_parser::Parser;

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        config::context,
        inline::{Gen, Html, Mix, Steps},
        spots::{self, Where},
    },
    rng::Rng,
};

pub const DEF: PropDef = PropDef {
    id: "C30",
    quick: 200_000,
    thorough: 3_000_000,
    run,
    needs: &["paragraphs", "paragraphs with the option", "paragraphs under the attribute", "line breaks expected", "plus signs that are no line breaks", "the attribute set and unset", "plus signs at line ends under the option"],
    rule: "Paragraphs from known pieces, with lines that end with a plus sign or only seem to, with and without the hardbreaks option, while an attribute entry switches it on and off for all. Non-trivial: at least one line break expected; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let html = Html;
    let mix = Mix { newline: 8, breaks: 0, quote: 2, link: 1, image: 0, anchor: 0, pass: 1, ..Default::default() };
    let mut g = Gen::new(Rng::new(r.next()), Steps::ALL, mix, &html);
    let mut p: Parser = spots::settings(&mut r, &mut g);
    let mut d = spots::Doc::default();
    let mut on = false;
    let nl = if r.one_in(5) { "\r\n" } else { "\n" };
    if r.one_in(6) {
        p = p.with_intrinsic_attribute("hardbreaks-option", "", context(3));
        on = true;
    }
    let mut expected = 0;
    for _ in 0..r.range(1, 4) {
        if r.one_in(4) {
            on = r.bool();
            ctx.count("the attribute set and unset");
            d.src.push_str(if on { r.pick(&[":hardbreaks:", ":hardbreaks:", ":hardbreaks-option:", ":Hardbreaks:", ":HARDBREAKS:"]) } else { r.pick(&[":!hardbreaks:", ":hardbreaks!:", ":!Hardbreaks:", ":hardbreaks-option!:", ":HARDBREAKS-OPTION!:"]) });
            d.src.push_str(&format!("{nl}{nl}"));
        }
        let opt = r.one_in(3);
        ctx.count("paragraphs");
        let hard = opt || on;
        if opt {
            ctx.count("paragraphs with the option");
            d.src.push_str(r.pick(&["[%hardbreaks]", "[options=hardbreaks]", "[opts=hardbreaks]", "[%hardbreaks.role]", "[%x%hardbreaks]", "[opts=\"a,hardbreaks\"]"]));
            d.src.push_str(nl);
        }
        if on {
            ctx.count("paragraphs under the attribute");
        }
        let (mut src, mut out) = (String::new(), String::new());
        let lines = r.range(1, 5);
        for k in 0..lines {
            let n = r.range(1, 4);
            let last = k + 1 == lines;
            g.continued = !last;
            let x = g.paragraph(n);
            src.push_str(&x.src);
            let body = if hard { x.out.replace('\n', "<br>\n") } else { x.out };
            out.push_str(&body);
            expected += body.matches("<br>").count();
            if last {
                continue;
            }
            match r.below(4) {
                0 => {
                    // A hard line break.
                    if r.one_in(4) {
                        src.push_str(" +");
                        out.push_str(" +");
                    }
                    src.push_str(" +");
                    out.push_str("<br>");
                    expected += 1;
                    if hard {
                        ctx.count("plus signs at line ends under the option");
                    }
                }
                1 => {
                    // These are not.
                    ctx.count("plus signs that are no line breaks");
                    let s = r.pick(&[" + w", " w+", " C+", " w\t+", " w\u{a0}+"]);
                    src.push_str(s);
                    out.push_str(s);
                    if hard {
                        out.push_str("<br>");
                        expected += 1;
                    }
                }
                _ => {
                    if hard {
                        out.push_str("<br>");
                        expected += 1;
                    }
                }
            }
            src.push('\n');
            out.push('\n');
        }
        d.src.push_str(&src.replace('\n', nl));
        d.src.push_str(&format!("{nl}{nl}"));
        d.spots.push((Where::Paragraph, src, out));
    }
    ctx.add("line breaks expected", expected as u64);
    spots::check(ctx, &d, &mut p, "hard line breaks");
    if expected > 0 {
        ctx.distinct(&d.src);
        ctx.sample(&d.src);
    }
}
