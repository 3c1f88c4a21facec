//! The author line and author entries.
use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::header::{self, Focus},
    rng::Rng,
};

pub const DEF: PropDef = PropDef {
    id: "C18",
    quick: 420_000,
    thorough: 4_000_000,
    run,
    needs: &["attributes that had a value before the document", "authors", "author entries", "e-mail addresses", "e-mail addresses with references", "five authors and more", "names of more than three parts", "names with other characters", "authors that are a reference", "names that are a reference", "names that are all references", "attributes the document may not set"],
    rule: "Headers with author lines of up to 14 authors (one to seven name parts with compound names, letters of several scripts and character references, e-mail addresses or URLs, references, and names that do not fit the form) and author entries; every author's parts and initials and all numbered attributes must be as written. Non-trivial: at least two authors; distinct by author line.",
};

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let (h, mut p) = header::document(&mut r, Focus::Authors);
    header::note(ctx, &h);
    ctx.input(&h.src);
    let doc = p.parse(&h.src);
    ctx.eval();
    header::check_authors(ctx, &h, &doc);
    header::check_env(ctx, &h, &p, &["author", "authorinitials", "firstname", "middlename", "lastname", "email"]);
    let n = h.author_line.as_ref().map_or(0, |a| a.1.len());
    for base in ["author", "firstname", "lastname", "middlename", "email", "authorinitials"] {
        for k in [n + 1, n + 2] {
            let name = if k == 1 { base.to_string() } else { format!("{base}_{k}") };
            if !h.env.contains_key(&name) {
                ctx.check("an attribute for an author that there is not", !p.is_attribute_set(&name), || name.clone());
            }
        }
        for k in 2..=n {
            let name = format!("{base}_{k}");
            if !h.env.contains_key(&name) {
                ctx.check("an attribute for a part that an author has not", !p.is_attribute_set(&name), || name.clone());
            }
        }
    }
    if n > 1 {
        ctx.distinct(&h.author_line.as_ref().map(|a| a.0.clone()).unwrap_or_default());
        ctx.sample(&h.src);
    }
}
