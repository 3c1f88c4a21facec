//! The way back from the parsed text to the files.
use std::{cell::RefCell, rc::Rc};

use asciidoc_parser::{HasSpan, parser::SourceLine};

use super::{PropDef, c31};
use crate::{
    ctx::Ctx,
    generate::{
        project::{self, Project},
        soup,
    },
    rng::Rng,
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C32",
    quick: 280_000,
    thorough: 2_000_000,
    run,
    needs: &[
        "files included",
        "files not found",
        "files included again",
        "empty files",
        "files nested four deep and more",
        "files nested too deeply",
        "entries over several lines",
        "lines traced",
        "spans traced",
        "warnings traced",
        "documents in one file",
        "texts cut into files",
        "CRLF",
    ],
    rule: "The documents of C31: every line of the parsed text must be traced to the file and line it was read from, and so must the first line of every block, title, attribute list and warning, whose text must be found there. Non-trivial: at least two files included; distinct by shape.",
};

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let p = match r.below(60) {
        0 => project::chain(&mut r),
        1 if r.one_in(20) => project::wide(&mut r),
        1..20 => {
            let s = soup::any_text(&mut r).replace('\r', "").replace("include::", "incl::");
            ctx.count("texts cut into files");
            project::cut(&mut r, &s)
        }
        _ => project::project(&mut r),
    };
    c31::note(ctx, &p);
    if p.files.is_empty() {
        ctx.count("documents in one file");
    } else {
        ctx.add("files included", p.files.len() as u64);
    }
    ctx.input(&p.text());
    let calls = Rc::new(RefCell::new(vec![]));
    let mut parser = p.parser(&calls);
    let doc = parser.parse(&p.root);
    ctx.eval();
    if !c31::text_check(ctx, &p, doc.span().data()) {
        return;
    }
    let map = doc.source_map();
    let n = doc.span().data().lines().count();
    for (k, l) in p.out.iter().take(n).enumerate() {
        let want = SourceLine(if p.active() { l.file.clone() } else { None }, l.line);
        let got = map.original_file_and_line(k + 1);
        if !ctx.check("the origin of a line", got.as_ref() == Some(&want), || format!("line {} {:?}: expected {want:?}, got {got:?}", k + 1, l.text)) {
            return;
        }
    }
    ctx.add("lines traced", n as u64);
    let mut spans: Vec<(usize, String)> = vec![];
    util::walk(&doc, &mut |b, _| {
        for s in [Some(b.span()), asciidoc_parser::blocks::IsBlock::title_source(b)].into_iter().flatten() {
            spans.push((s.line(), s.data().lines().next().unwrap_or_default().into()));
        }
    });
    ctx.add("spans traced", spans.len() as u64);
    for w in doc.warnings() {
        ctx.count("warnings traced");
        spans.push((w.source.line(), w.source.data().lines().next().unwrap_or_default().into()));
    }
    for (line, text) in spans {
        let Some(SourceLine(f, l)) = map.original_file_and_line(line) else {
            ctx.fail("the origin of a span", format!("line {line} {text:?} has none"));
            return;
        };
        let at = origin(&p, f.as_deref(), l);
        ctx.check(
            "the text of a span in the file it is traced to",
            at.is_some_and(|t| t.contains(text.trim_end()) || text.contains(t.trim_end())),
            || format!("line {line} {text:?} is traced to {f:?} line {l}: {at:?}"),
        );
    }
    if p.files.len() > 1 {
        let shape: Vec<String> = p.out.iter().map(|l| format!("{:?}{}", l.file, l.line)).collect();
        ctx.distinct(&shape.concat());
        ctx.sample(&p.text());
    }
}

fn origin<'p>(p: &'p Project, file: Option<&str>, line: usize) -> Option<&'p str> {
    if line == 0 {
        return None;
    }
    p.source_lines(file.or(p.root_name.as_deref())).get(line - 1).copied()
}
