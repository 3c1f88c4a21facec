//! Include directives.
use std::{cell::RefCell, rc::Rc};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        project::{self, Project},
        soup,
    },
    rng::Rng,
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C31",
    quick: 280_000,
    thorough: 2_000_000,
    run,
    needs: &[
        "files included",
        "files not found",
        "files included again",
        "empty files",
        "files nested four deep and more",
        "files nested too deeply",
        "chains of files met again",
        "very many files in a row",
        "directives without a handler",
        "directives in the header",
        "directives in a paragraph",
        "targets with references",
        "directive attributes with references",
        "targets with unknown references",
        "targets with escaped references",
        "entries in the header",
        "entries in the body",
        "entries in a paragraph",
        "entries that are refused",
        "entries over several lines",
        "lines like a directive",
        "texts cut into files",
        "CRLF",
    ],
    rule: "Documents in up to 60 files, nested up to 8 deep (chains up to 70) or up to 500 one after another, with include directives in the header, between and within blocks, with references in the targets whose values change from file to file, and with lines that only look like directives or entries; the text parsed, every request to the handler (file, target, attributes, attribute values at that point) must be those of the project as built. One in four cases cuts a hostile text into files at arbitrary line ends, which must parse as the uncut text does. Non-trivial: at least two files included; distinct by shape.",
};

pub fn text_check(ctx: &mut Ctx, p: &Project, got: &str) -> bool {
    let want: Vec<&str> = p.out.iter().map(|l| l.text.trim_end()).collect();
    let mut w = want.len();
    while w > 0 && want[w - 1].is_empty() {
        w -= 1;
    }
    let got: Vec<&str> = got.lines().map(|l| l.trim_end()).collect();
    let mut g = got.len();
    while g > 0 && got[g - 1].is_empty() {
        g -= 1;
    }
    ctx.check("the text of the included files", want[..w] == got[..g], || {
        let k = (0..w.min(g)).find(|&k| want[k] != got[k]).unwrap_or(w.min(g));
        format!("line {}: expected {:?}, got {:?}", k + 1, want.get(k), got.get(k))
    })
}

pub fn note(ctx: &mut Ctx, p: &Project) {
    for (k, n) in &p.kinds {
        ctx.add(k, *n);
    }
    if p.depth > 3 {
        ctx.count("files nested four deep and more");
    }
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    if r.one_in(4) {
        return cut(ctx, &mut r);
    }
    let p = if r.one_in(60) {
        project::chain(&mut r)
    } else if r.one_in(150) {
        project::wide(&mut r)
    } else { project::project(&mut r) };
    note(ctx, &p);
    ctx.input(&p.text());
    let calls = Rc::new(RefCell::new(vec![]));
    let mut parser = p.parser(&calls);
    let doc = parser.parse(&p.root);
    ctx.eval();
    if !text_check(ctx, &p, doc.span().data()) {
        return;
    }
    let got = calls.borrow();
    for (k, (w, g)) in p.calls.iter().zip(got.iter()).enumerate() {
        let at = || format!("request {}: expected {w:?}, got {g:?}", k + 1);
        ctx.check("the file that a directive stands in", w.from == g.from, at);
        ctx.check("the target of a directive", w.target == g.target, at);
        ctx.check("the attributes of a directive", w.named == g.named, at);
        ctx.check("the attribute values at a directive", w.env == g.env, at);
    }
    ctx.expect_eq("the number of requests to the handler", &p.calls.len(), &got.len());
    if p.files.len() > 1 {
        let shape: Vec<String> = p.out.iter().map(|l| format!("{:?}{}", l.file, l.line)).collect();
        ctx.distinct(&shape.concat());
        ctx.sample(&p.text());
    }
}

fn cut(ctx: &mut Ctx, r: &mut Rng) {
    let mut s = soup::any_text(r).replace('\r', "").replace("include::", "incl::");
    // Leave out what makes the uncut text subject to preprocessing, or else it is not.
    if r.one_in(3) {
        s = s.lines().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n");
    }
    let p = project::cut(r, &s);
    if s.trim().is_empty() || !p.active() {
        return;
    }
    ctx.input(&p.text());
    ctx.count("texts cut into files");
    ctx.add("files included", p.files.len() as u64);
    let calls = Rc::new(RefCell::new(vec![]));
    let mut a = asciidoc_parser::Parser::default();
    let mut b = p.parser(&calls);
    let text: String = p.out.iter().map(|l| format!("{}\n", l.text)).collect();
    let whole = a.parse(&text);
    let doc = b.parse(&p.root);
    ctx.eval();
    let strip = |d: String| d.lines().filter(|l| !l.starts_with("SourceMap")).collect::<Vec<_>>().join("\n");
    let (x, y) = (strip(util::dump(&whole)), strip(util::dump(&doc)));
    ctx.check("a text cut into files parses like the whole", x == y, || util::first_diff(&x, &y));
    ctx.expect_eq("the number of requests to the handler", &p.files.len(), &calls.borrow().len());
    if p.files.len() > 1 {
        ctx.distinct(&p.text());
    }
}
