//! The revision line.
use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::header::{self, Focus},
    rng::Rng,
};

pub const DEF: PropDef = PropDef {
    id: "C19",
    quick: 480_000,
    thorough: 4_000_000,
    run,
    needs: &["revision numbers", "revision numbers alone", "revision numbers that are a reference", "revision dates", "revision remarks", "special characters", "references", "attributes the document may not set"],
    rule: "Headers with revision lines of every combination of number, date and remark, with prefixes, references, special characters, further colons and commas; the parts and the attributes they set must be as written. Non-trivial: at least two of the three parts; distinct by revision line.",
};

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let (h, mut p) = header::document(&mut r, Focus::Revision);
    header::note(ctx, &h);
    ctx.input(&h.src);
    let doc = p.parse(&h.src);
    ctx.eval();
    header::check_revision(ctx, &h, &doc);
    header::check_env(ctx, &h, &p, &["revnumber", "revdate", "revremark"]);
    if let Some(v) = &h.revision {
        for (n, x) in [("revnumber", v.number.is_none()), ("revremark", v.remark.is_none())] {
            if x && !h.env.contains_key(n) {
                ctx.check("an attribute for a part that the revision line has not", !p.is_attribute_set(n), || n.into());
            }
        }
        if v.number.is_some() as u8 + v.remark.is_some() as u8 + !v.date.is_empty() as u8 > 1 {
            ctx.distinct(&v.src);
            ctx.sample(&h.src);
        }
    }
}
