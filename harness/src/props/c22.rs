//! Formatted text.
use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        inline::Mix,
        spots::{self, Opts},
    },
};

pub const DEF: PropDef = PropDef {
    id: "C22",
    quick: 240_000,
    thorough: 3_000_000,
    run,
    needs: &["formatted texts", "nested formatted texts", "formatted texts with attributes", "unconstrained formatted texts", "markers that mean nothing", "formatted texts directly inside others", "escaped attribute lists", "marks inside that do not close", "pairs of marks that do not open", "empty attribute lists"],
    rule: "Paragraphs, block titles and section titles are written from known pieces, so that what each must be rendered as is known from the rules for formatted text alone. Non-trivial: at least two kinds of pieces; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    let mix = Mix { quote: 12, marker: 4, special: 2, refs: 1, rep: 1, pass: 1, link: 1, image: 0, anchor: 0, escape: 1, paren: 2, depth: 4, ..Default::default() };
    spots::case(ctx, mix, &Opts { pieces: 7, ..Default::default() }, "formatted text");
}
