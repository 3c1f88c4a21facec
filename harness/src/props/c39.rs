//! Different ways of asking about the same thing agree.
use asciidoc_parser::{
    Document, HasSpan, Parser,
    attributes::Attrlist,
    blocks::{Block, ContentModel, IsBlock},
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{config, docgen, soup},
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C39",
    quick: 80_000,
    thorough: 2_000_000,
    run,
    needs: &["blocks asked both ways", "attribute lists asked", "catalogs asked", "documents compared", "debug output", "attributes asked of the parser", "sections numbered"],
    rule: "Each case parses a hostile text or a constructed document and asks for everything in every way the public API offers: a `Block` and the block inside it, an accessor and those it is documented to be made of, the catalog by ID, by reference text and as a list, the document as a block, a clone and the original, the debug output of equal documents, a parser by each of its three questions about an attribute. Non-trivial: at least 2 blocks; distinct by text.",
};

/// What a block answers, as text.
fn answers<'a, B: IsBlock<'a> + HasSpan<'a>>(b: &'a B, id: bool) -> Vec<(&'static str, String)> {
    let sp = |s: asciidoc_parser::Span<'_>| format!("{}:{}@{} {:?}", s.line(), s.col(), s.byte_offset(), s.data());
    vec![
        ("content_model", format!("{:?}", b.content_model())),
        ("rendered_content", format!("{:?}", b.rendered_content())),
        ("resolved_context", b.resolved_context().to_string()),
        ("raw_context", b.raw_context().to_string()),
        ("declared_style", format!("{:?}", b.declared_style())),
        ("nested_blocks", format!("{:?}", b.nested_blocks().map(|b| b as *const _ as usize).collect::<Vec<_>>())),
        ("id", if id { format!("{:?}", b.id()) } else { String::new() }),
        ("roles", format!("{:?}", b.roles())),
        ("options", format!("{:?}", b.options())),
        ("title_source", format!("{:?}", b.title_source().map(sp))),
        ("title", format!("{:?}", b.title())),
        ("anchor", format!("{:?}", b.anchor().map(sp))),
        ("anchor_reftext", format!("{:?}", b.anchor_reftext().map(sp))),
        ("attrlist", format!("{:?}", b.attrlist().map(|a| a as *const _ as usize))),
        ("substitution_group", format!("{:?}", b.substitution_group())),
        ("span", sp(b.span())),
    ]
}

fn same(ctx: &mut Ctx, outer: Vec<(&'static str, String)>, inner: Vec<(&'static str, String)>) {
    ctx.count("blocks asked both ways");
    for (o, i) in outer.into_iter().zip(inner) {
        if o != i {
            ctx.fail(format!("a block and the block inside it disagree: {}", o.0), format!("{o:?} and {i:?}"));
        }
    }
}

fn attrlist<'a>(ctx: &mut Ctx, a: &'a Attrlist<'a>) {
    ctx.count("attribute lists asked");
    let all: Vec<_> = a.attributes().collect();
    let unnamed: Vec<_> = all.iter().filter(|x| x.name().is_none()).collect();
    ctx.check("nth_attribute(0) is something", a.nth_attribute(0).is_none(), || format!("{a:?}"));
    for n in 0..=unnamed.len() {
        let got = a.nth_attribute(n + 1).map(|x| x as *const _);
        let want = unnamed.get(n).map(|x| **x as *const _);
        ctx.check("nth_attribute is not the nth without a name", got == want, || format!("{} of {a:?}", n + 1));
    }
    for x in &all {
        if let Some(n) = x.name() {
            let got = a.named_attribute(n);
            ctx.check("an attribute cannot be found by its name", got.is_some_and(|g| g.name() == Some(n)), || format!("{n} of {a:?}"));
            let got = got.map(|x| x as *const _);
            for i in [0, 1, 2, 9] {
                let g = a.named_or_positional_attribute(n, i).map(|x| x as *const _);
                ctx.check("an attribute is found by position although it has the name", g == got, || format!("{n} of {a:?}"));
            }
        }
        let id = x.id();
        let own: Vec<&str> = x.shorthand_items();
        ctx.check("a shorthand ID is no shorthand item", id.is_none_or(|i| own.iter().any(|o| o.strip_prefix('#') == Some(i))), || format!("{id:?} in {own:?}"));
        for (k, v) in [('.', x.roles()), ('%', x.options())] {
            let w: Vec<&str> = own.iter().filter_map(|o| o.strip_prefix(k)).collect();
            ctx.check("shorthand items disagree with roles or options", v == w, || format!("{k} {v:?} in {own:?}"));
        }
    }
    let p = a.named_or_positional_attribute("no such name", 1).map(|x| x as *const _);
    ctx.check("an attribute without a name is not found by position", p == a.nth_attribute(1).map(|x| x as *const _), || format!("{a:?}"));
    let o = a.options();
    for x in &o {
        ctx.check("an option that is listed is not there", a.has_option(x), || format!("{x} of {a:?}"));
    }
    for x in ["", "no such option", "noopener", "inline", "header", "%", ","] {
        ctx.check("has_option and options disagree", a.has_option(x) == o.contains(&x), || format!("{x} of {a:?}"));
    }
    ctx.check("block style of the list and of its first attribute disagree", a.block_style() == a.nth_attribute(1).and_then(|x| x.block_style()), || format!("{a:?}"));
}

const CONTEXTS: &[&str] = &["admonition", "audio", "colist", "dlist", "document", "example", "floating_title", "image", "list_item", "listing", "literal", "olist", "open", "page_break", "paragraph", "pass", "preamble", "quote", "section", "sidebar", "table", "table_cell", "thematic_break", "toc", "ulist", "verse", "video"];

fn block<'a>(ctx: &mut Ctx, b: &'a Block<'a>) {
    // (The ID of a section is the one answer that is known to differ: C14.)
    let outer = |id| answers(b, id);
    match b {
        Block::Simple(i) => same(ctx, outer(true), answers(i, true)),
        Block::Media(i) => same(ctx, outer(true), answers(i, true)),
        Block::Section(i) => same(ctx, outer(false), answers(i, false)),
        Block::RawDelimited(i) => same(ctx, outer(true), answers(i, true)),
        Block::CompoundDelimited(i) => same(ctx, outer(true), answers(i, true)),
        Block::Preamble(i) => same(ctx, outer(true), answers(i, true)),
        Block::Break(i) => same(ctx, outer(true), answers(i, true)),
        Block::DocumentAttribute(i) => same(ctx, outer(true), answers(i, true)),
        _ => {}
    }
    // What the documentation derives from something else.
    let a = b.attrlist();
    if let Some(a) = a {
        attrlist(ctx, a);
    }
    if let Block::Media(m) = b {
        attrlist(ctx, m.macro_attrlist());
        ctx.check("the target of a block macro is missing", m.target().is_some(), String::new);
    }
    let show = || format!("{b:?}");
    ctx.check("roles are not those of the attribute list", b.roles() == a.map(|a| a.roles()).unwrap_or_default(), show);
    ctx.check("options are not those of the attribute list", b.options() == a.map(|a| a.options()).unwrap_or_default(), show);
    ctx.check("has_option of a block disagrees with its options", b.options().iter().all(|o| b.has_option(o)) && !b.has_option("no such option"), show);
    ctx.check("the style is not that of the attribute list", b.declared_style() == a.and_then(|a| a.block_style()), show);
    if !matches!(b, Block::Section(_)) {
        let want = b.anchor().map(|s| s.data()).or_else(|| a.and_then(|a| a.id()));
        ctx.check("the ID is neither the anchor nor that of the attribute list", b.id() == want, || format!("{:?} expected {want:?}", b.id()));
    }
    let want = match b.declared_style() {
        Some(s) if CONTEXTS.contains(&s) => s.to_string(),
        _ => b.raw_context().to_string(),
    };
    ctx.expect_eq("resolved context", &want, &b.resolved_context().to_string());
    ctx.check("a title without source, or the reverse", b.title().is_some() == b.title_source().is_some(), show);
    ctx.check("a reference text without an anchor", b.anchor_reftext().is_none() || b.anchor().is_some(), show);
    let (content, raw): (_, &[&str]) = match b {
        Block::Simple(p) => (Some(p.content()), &["paragraph", "literal", "listing"]),
        Block::RawDelimited(p) => (Some(p.content()), &["listing", "literal", "pass", "comment"]),
        Block::CompoundDelimited(_) => (None, &["example", "open", "sidebar", "quote"]),
        Block::Section(_) => (None, &["section"]),
        Block::Preamble(_) => (None, &["preamble"]),
        Block::Break(_) => (None, &["thematic_break", "page_break"]),
        Block::Media(_) => (None, &["image", "video", "audio"]),
        Block::DocumentAttribute(_) => (None, &["attribute"]),
        _ => (None, &[]),
    };
    ctx.check("a context that is not one of this kind of block", raw.contains(&&*b.raw_context()), || b.raw_context().to_string());
    ctx.check("rendered content is not that of the content", b.rendered_content() == content.map(|c| c.rendered()), show);
    if let Some(c) = content {
        ctx.check("is_empty disagrees with the rendered text", c.is_empty() == c.rendered().is_empty(), show);
    }
    let compound = b.content_model() == ContentModel::Compound;
    ctx.check("blocks in a block that is not compound", compound || b.nested_blocks().next().is_none(), show);
    ctx.check("content model does not fit the kind of block", compound == matches!(b, Block::Section(_) | Block::CompoundDelimited(_) | Block::Preamble(_)), show);
    ctx.check("content model does not fit the content", content.is_some() == matches!(b.content_model(), ContentModel::Simple | ContentModel::Verbatim | ContentModel::Raw), show);
    if let Block::Section(s) = b
        && let Some(n) = s.section_number()
    {
        ctx.count("sections numbered");
        let t = n.to_string();
        let parts: Vec<&str> = t.split('.').collect();
        ctx.check("a section number is shown with another number of parts", parts.len() == n.components().len(), || format!("{t} {:?}", n.components()));
        for (i, (p, c)) in parts.iter().zip(n.components()).enumerate() {
            ctx.check("a section number is shown other than it is", *p == c.to_string() || i == 0 && p.len() == 1 && p.starts_with(|x: char| x.is_ascii_uppercase()) && (p.as_bytes()[0] - b'A') as usize + 1 == *c, || format!("{t} {:?}", n.components()));
        }
    }
}

fn document<'a>(ctx: &mut Ctx, doc: &'a Document<'a>) {
    ctx.check("a document is not a compound block", doc.content_model() == ContentModel::Compound && doc.raw_context().as_ref() == "document" && doc.resolved_context().as_ref() == "document", || format!("{:?} {} {}", doc.content_model(), doc.raw_context(), doc.resolved_context()));
    ctx.check("a document has metadata of its own", doc.attrlist().is_none() && doc.anchor().is_none() && doc.anchor_reftext().is_none() && doc.id().is_none() && doc.roles().is_empty() && doc.options().is_empty() && doc.declared_style().is_none() && doc.rendered_content().is_none(), String::new);
    ctx.check("a document title without source, or the reverse", doc.header().title().is_some() == doc.header().title_source().is_some(), String::new);
    let c = doc.catalog();
    let mut ids: Vec<String> = ["no such ID", "", "\u{0}"].iter().map(|s| s.to_string()).collect();
    let mut texts = ids.clone();
    util::walk(doc, &mut |b, _| {
        let id = match b {
            Block::Section(s) => s.id(),
            _ => b.id(),
        };
        ids.extend(id.map(|s| s.to_string()));
        texts.extend(b.title().map(|s| s.to_string()));
        texts.extend(b.anchor_reftext().map(|s| s.data().to_string()));
        if let Block::Section(s) = b {
            texts.push(s.section_title().to_string());
        }
    });
    ids.sort();
    ids.dedup();
    if !c.is_empty() {
        ctx.count("catalogs asked");
    }
    let n = ids.iter().filter(|i| c.contains_id(i)).count();
    ctx.check("the catalog holds fewer IDs than it says", n == c.len() && c.is_empty() == (n == 0), || format!("{n} of {ids:?} {c:?}"));
    for id in &ids {
        let g = c.get_ref(id);
        ctx.check("an ID that is in the catalog cannot be got, or the reverse", c.contains_id(id) == g.is_some() && g.is_none_or(|g| g.id == *id), || format!("{id} {c:?}"));
        texts.extend(g.and_then(|g| g.reftext.clone()));
    }
    for t in &texts {
        let any = ids.iter().any(|i| c.get_ref(i).is_some_and(|g| g.reftext.as_deref() == Some(t)));
        let r = c.resolve_id(t);
        ctx.check("a reference text resolves to nothing, or to an element with another text", any == r.is_some() && r.as_ref().is_none_or(|r| c.get_ref(r).is_some_and(|g| g.reftext.as_deref() == Some(t))), || format!("{t:?} {r:?} {c:?}"));
    }
}

fn parser(ctx: &mut Ctx, p: &Parser, names: &[String]) {
    for n in names {
        ctx.count("attributes asked of the parser");
        let v = p.attribute_value(n);
        let (has, set) = (p.has_attribute(n), p.is_attribute_set(n));
        let is = util::val(&v) != "unset";
        ctx.check("a parser's answers about an attribute disagree", set == is && (has || !is), || format!("{n}: {} has {has} set {set}", util::val(&v)));
    }
}

fn run(ctx: &mut Ctx) {
    let s = if ctx.rng.one_in(2) {
        let p = docgen::Profile { ids: docgen::Ids::Colliding, meta_pct: 60, same_titles: ctx.rng.bool(), sections: ctx.rng.below(4), max_sections: 3, max_depth: 3, ..Default::default() };
        let d = docgen::doc(&mut ctx.rng, &p).src;
        if ctx.rng.bool() { format!("= Title\n:sectnums:\n\n{d}") } else { d }
    } else {
        soup::any_text(&mut ctx.rng)
    };
    let cfg = config::config(&mut ctx.rng, &mut soup::any_text);
    ctx.input(&s);
    let mut p = cfg.build();
    let doc = p.parse(&s);
    ctx.eval();
    util::walk(&doc, &mut |b, _| block(ctx, b));
    document(ctx, &doc);
    let mut names: Vec<String> = ["sectnums", "doctitle", "author", "empty", "sp", "nope", "foo", "a", "toc", "", "é"].iter().map(|s| s.to_string()).collect();
    for a in doc.header().attributes() {
        names.push(a.name().data().to_string());
    }
    parser(ctx, &p, &names);
    // Equality and debug output.
    let again = cfg.build().parse(&s);
    ctx.count("documents compared");
    ctx.check("equal documents compare unequal", doc == again, String::new);
    util::walk(&doc, &mut |b, _| {
        if b.nested_blocks().next().is_none() {
            ctx.check("a clone differs from its original", b.clone() == *b, || format!("{b:?}"));
        }
    });
    if s.len() < 3000 && ctx.idx % 4 == 0 {
        ctx.count("debug output");
        let blocks = |d: &Document<'_>| d.nested_blocks().map(|b| format!("{b:?}")).collect::<Vec<_>>();
        let (x, y) = (blocks(&doc), blocks(&again));
        ctx.check("equal documents are shown differently", x == y && format!("{:?}", doc.header()) == format!("{:?}", again.header()), || util::first_diff(&x.join("\n"), &y.join("\n")));
        let all = format!("{doc:?}{:#?}{:?}{:?}", doc, doc.source_map(), doc.warnings().collect::<Vec<_>>());
        ctx.check("debug output is empty", all.contains("Document"), String::new);
        // A document with more text is another document.
        let more = cfg.build().parse(&format!("{s}\n\nanother paragraph\n"));
        ctx.check("different documents compare equal", doc != more, String::new);
    }
    if util::block_count(&doc) >= 2 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
}
