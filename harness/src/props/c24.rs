//! Replacements.
use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        inline::Mix,
        spots::{self, Opts},
    },
};

pub const DEF: PropDef = PropDef {
    id: "C24",
    quick: 300_000,
    thorough: 3_000_000,
    run,
    needs: &["replacements", "special characters", "dashes at the end"],
    rule: "Paragraphs, block titles and section titles are written from known pieces, so that what each must be rendered as is known from the rules alone. Non-trivial: at least two kinds of pieces; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    let mix = Mix { rep: 12, quote: 2, marker: 2, special: 3, refs: 1, pass: 1, link: 1, image: 0, anchor: 0, escape: 2, paren: 2, ..Default::default() };
    spots::case(ctx, mix, &Opts { pieces: 7, ..Default::default() }, "replacements");
}
