//! Passthroughs.
use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        inline::Mix,
        spots::{self, Opts},
    },
};

pub const DEF: PropDef = PropDef {
    id: "C23",
    quick: 250_000,
    thorough: 3_000_000,
    run,
    needs: &["passthroughs", "passthroughs with substitutions", "formatted texts", "special characters"],
    rule: "Paragraphs, block titles and section titles are written from known pieces, so that what each must be rendered as is known from the rules alone. Non-trivial: at least two kinds of pieces; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    let mix = Mix { pass: 12, quote: 2, marker: 2, special: 2, refs: 2, rep: 1, link: 1, image: 1, anchor: 0, escape: 1, paren: 1, ..Default::default() };
    spots::case(ctx, mix, &Opts { pieces: 7, ..Default::default() }, "passthroughs");
}
