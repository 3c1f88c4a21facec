//! Compares a parsed document with the tree that it was constructed from.

use asciidoc_parser::{
    Document, HasSpan,
    blocks::{Block, BreakType, ContentModel, IsBlock, MediaType, SectionType, SimpleBlockStyle},
};

use crate::{
    generate::docgen::{Doc, Exp, Kind},
    util,
};

pub struct Mismatch {
    pub facet: &'static str,
    pub detail: String,
}

fn kind_of(b: &Block<'_>) -> Kind {
    match b {
        Block::Simple(s) => Kind::Para(match s.style() {
            SimpleBlockStyle::Paragraph => "Paragraph",
            SimpleBlockStyle::Literal => "Literal",
            SimpleBlockStyle::Listing => "Listing",
            SimpleBlockStyle::Source => "Source",
        }),
        Block::RawDelimited(r) => {
            let c = r.raw_context();
            Kind::Raw(match c.as_ref() {
                "comment" => "comment",
                "listing" => "listing",
                "literal" => "literal",
                "pass" => "pass",
                _ => "?",
            })
        }
        Block::CompoundDelimited(r) => {
            let c = r.raw_context();
            Kind::Compound(match c.as_ref() {
                "example" => "example",
                "sidebar" => "sidebar",
                "quote" => "quote",
                "open" => "open",
                _ => "?",
            })
        }
        Block::Section(s) => {
            if s.section_type() == SectionType::Discrete {
                Kind::Discrete
            } else {
                Kind::Section
            }
        }
        Block::Preamble(_) => Kind::Preamble,
        Block::Media(m) => Kind::Media(match m.type_() {
            MediaType::Image => "image",
            MediaType::Video => "video",
            MediaType::Audio => "audio",
        }),
        Block::Break(b) => Kind::Break(match b.type_() {
            BreakType::Page => "Page",
            BreakType::Thematic => "Thematic",
        }),
        Block::DocumentAttribute(_) => Kind::Attr,
        _ => Kind::Para("?"),
    }
}

fn context_of(k: Kind) -> &'static str {
    match k {
        Kind::Para(_) => "paragraph",
        Kind::Raw(c) | Kind::Compound(c) => c,
        Kind::Section | Kind::Discrete => "section",
        Kind::Preamble => "preamble",
        Kind::Media("image") => "image",
        Kind::Media("video") => "video",
        Kind::Media(_) => "audio",
        Kind::Break(_) => "break",
        Kind::Attr => "attribute",
    }
}

fn model_of(k: Kind) -> ContentModel {
    match k {
        Kind::Para(_) => ContentModel::Simple,
        Kind::Raw("listing" | "literal") => ContentModel::Verbatim,
        Kind::Raw(_) => ContentModel::Raw,
        Kind::Compound(_) | Kind::Section | Kind::Discrete | Kind::Preamble => ContentModel::Compound,
        Kind::Media(_) | Kind::Break(_) | Kind::Attr => ContentModel::Empty,
    }
}

fn lf(s: &str) -> String {
    s.replace("\r\n", "\n")
}

struct Cmp<'a> {
    src: &'a str,
    out: Vec<Mismatch>,
}

impl Cmp<'_> {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, facet: &'static str, what: &str, at: &Exp, exp: T, got: T) {
        if exp != got && self.out.len() < 12 {
            self.out.push(Mismatch {
                facet,
                detail: format!("{what} of the {:?} block on line {}: expected {exp:?}, got {got:?}", at.kind, at.line),
            });
        }
    }

    fn list<'b>(&mut self, exp: &[Exp], got: impl Iterator<Item = &'b Block<'b>>, whose: &str) {
        let got: Vec<_> = got.collect();
        let want: Vec<_> = exp.iter().map(|e| e.kind).collect();
        let have: Vec<_> = got.iter().map(|b| kind_of(b)).collect();
        if want != have {
            self.out.push(Mismatch {
                facet: "structure",
                detail: format!("blocks in {whose}: expected {want:?}\n got {have:?}"),
            });
            return;
        }
        for (e, b) in exp.iter().zip(got) {
            self.one(e, b);
        }
    }

    fn one(&mut self, e: &Exp, b: &Block<'_>) {
        let sp = b.span();
        if e.kind != Kind::Preamble {
            // The white space after an attribute entry is not part of it.
            let got = if e.kind == Kind::Attr { sp.data() } else { sp.data().trim_end() };
            let want = self.src[e.start..e.end].trim_end();
            self.eq("span", "source text", e, want, got);
            self.eq("span", "(offset, line, column)", e, (e.start, e.line, 1), (sp.byte_offset(), sp.line(), sp.col()));
        } else {
            let ok = sp.byte_offset() <= e.start && sp.byte_offset() + sp.data().len() >= e.end;
            self.eq("span", "covers its blocks", e, true, ok);
        }
        self.eq("structure", "content model", e, model_of(e.kind), b.content_model());
        if e.kind == Kind::Attr {
            if let (Block::DocumentAttribute(a), Some((n, v))) = (b, &e.entry) {
                self.eq("attribute", "name", e, n.as_str(), a.name().data());
                self.eq("attribute", "value", e, format!("={v}"), util::val(a.value()));
            }
        } else if !matches!(e.kind, Kind::Break(_)) {
            let c = b.raw_context();
            self.eq("structure", "raw context", e, context_of(e.kind), c.as_ref());
        }
        // Metadata.
        self.eq("title", "title", e, e.title.as_ref().map(|t| t.1.as_str()), b.title());
        let ts = b.title_source();
        self.eq("title", "title source", e, e.title.as_ref().map(|t| t.0.as_str()), ts.as_ref().map(|s| s.data()));
        let an = b.anchor();
        self.eq("anchor", "anchor", e, e.anchor.as_ref().map(|t| t.0.as_str()), an.as_ref().map(|s| s.data()));
        let rt = b.anchor_reftext();
        self.eq("anchor", "anchor reference text", e, e.anchor.as_ref().and_then(|t| t.1.as_deref()), rt.as_ref().map(|s| s.data()));
        match (&e.attr, b.attrlist()) {
            (None, None) => {}
            (Some(x), Some(a)) => {
                self.eq("attrlist", "attribute list source", e, x.src.as_str(), a.span().data());
                self.eq("attrlist", "style", e, x.style.as_deref(), b.declared_style());
                self.eq("attrlist", "ID in the attribute list", e, x.id.as_deref(), a.id());
                let r: Vec<&str> = x.roles.iter().map(|s| s.as_str()).collect();
                self.eq("attrlist", "roles", e, r, b.roles());
                let o: Vec<&str> = x.opts.iter().map(|s| s.as_str()).collect();
                self.eq("attrlist", "options", e, o, b.options());
                for o in &x.opts {
                    self.eq("attrlist", &format!("has option {o}"), e, true, b.has_option(o));
                }
                self.eq("attrlist", "has option absent", e, false, b.has_option("absent"));
                for (n, v) in &x.named {
                    self.eq("attrlist", &format!("named attribute {n}"), e, Some(v.as_str()), a.named_attribute(n).map(|y| y.value()));
                }
            }
            (x, a) => self.eq("attrlist", "presence of an attribute list", e, x.is_some(), a.is_some()),
        }
        if !matches!(e.kind, Kind::Section | Kind::Discrete) || e.id().is_some() {
            self.eq("id", "ID", e, e.id(), b.id());
        }
        // Content.
        if let Some((x, y)) = e.body {
            let sp = match b {
                Block::Simple(s) => Some(s.content().original()),
                Block::RawDelimited(s) => Some(s.content().original()),
                _ => None,
            };
            if let Some(sp) = sp {
                self.eq("content", "content source", e, &self.src[x..y], sp.data());
                if y > x {
                    self.eq("span", "content offset", e, x, sp.byte_offset());
                }
            }
        }
        if let Some(t) = &e.rendered
            && e.id_subs_default()
        {
            self.eq("content", "rendered content", e, Some(lf(t)), b.rendered_content().map(lf));
        }
        match b {
            Block::Section(s) => {
                self.eq("section", "level", e, e.level, s.level());
                if let Some((x, y)) = &e.heading {
                    self.eq("section", "heading source", e, x.as_str(), s.section_title_source().data());
                    self.eq("section", "heading", e, y.as_str(), s.section_title());
                }
                if e.kind == Kind::Section {
                    let t = if e.appendix { SectionType::Appendix } else { SectionType::Normal };
                    self.eq("section", "type", e, t, s.section_type());
                }
            }
            Block::Media(m) => {
                self.eq("media", "target", e, e.target.as_deref(), m.target().map(|t| t.data()));
            }
            _ => {}
        }
        self.list(&e.children, b.nested_blocks(), &format!("the {:?} block on line {}", e.kind, e.line));
    }
}

impl Exp {
    fn id_subs_default(&self) -> bool {
        true
    }
}

pub fn compare(d: &Doc, doc: &Document<'_>) -> Vec<Mismatch> {
    let mut c = Cmp { src: &d.src, out: vec![] };
    c.list(&d.blocks, doc.nested_blocks(), "the document");
    let t = doc.header().title();
    if d.title.as_deref() != t {
        c.out.push(Mismatch { facet: "header", detail: format!("document title: expected {:?}, got {t:?}", d.title) });
    }
    c.out
}
