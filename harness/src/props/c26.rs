//! Inline images and icons.
use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        inline::Mix,
        spots::{self, Opts},
    },
};

pub const DEF: PropDef = PropDef {
    id: "C26",
    quick: 200_000,
    thorough: 3_000_000,
    run,
    needs: &["attribute lists with white space", "escaped brackets and line ends in attributes", "images", "icons", "SVG images"],
    rule: "Paragraphs, block titles and section titles are written from known pieces, so that what each must be rendered as is known from the rules alone. Non-trivial: at least two kinds of pieces; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    let mix = Mix { link_quotes: ctx.idx as usize % 2, image: 12, quote: if ctx.idx % 2 == 0 { 0 } else { 2 }, marker: 1, special: 1, refs: 1, rep: 1, pass: 1, link: 1, anchor: 0, escape: if ctx.idx % 2 == 0 { 0 } else { 1 }, paren: 1, ..Default::default() };
    spots::case(ctx, mix, &Opts { pieces: 7, ..Default::default() }, "images");
}
