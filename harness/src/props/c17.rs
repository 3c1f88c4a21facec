//! The document header: what belongs to it, and what each line means.
use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::header::{self, Focus},
    rng::Rng,
};

pub const DEF: PropDef = PropDef {
    id: "C17",
    quick: 480_000,
    thorough: 4_000_000,
    run,
    needs: &["headers with a title", "headers without a title", "documents without a header", "comments", "attribute entries", "values over several lines", "special characters", "references", "passthroughs", "authors", "revision dates", "headers that are not terminated", "CRLF"],
    rule: "Documents with headers of every order of blank lines, comments, attribute entries, title, author and revision line, ended by blank lines, by the end of the text or not at all; each part must be found with its text and value, the header must cover exactly its lines, and the rest must be body. Non-trivial: a header of at least three lines; distinct by text.",
};

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let (h, mut p) = header::document(&mut r, Focus::All);
    header::note(ctx, &h);
    let nl = if r.one_in(5) {
        ctx.count("CRLF");
        "\r\n"
    } else {
        "\n"
    };
    let s = h.src.replace('\n', nl);
    ctx.input(&s);
    ctx.count(if h.title.is_some() {
        "headers with a title"
    } else if h.text.is_empty() {
        "documents without a header"
    } else {
        "headers without a title"
    });
    let doc = p.parse(&s);
    ctx.eval();
    header::check_parts(ctx, &h, &doc, nl);
    header::check_env(ctx, &h, &p, &[]);
    if h.text.lines().count() > 2 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
}
