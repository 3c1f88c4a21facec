//! Breaks and block macros.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, BreakType, IsBlock, MediaType},
    parser::ModificationContext,
};

use super::PropDef;
use crate::{ctx::Ctx, generate::docgen, rng::Rng, util};

pub const DEF: PropDef = PropDef {
    id: "C37",
    quick: 480_000,
    thorough: 3_000_000,
    run,
    needs: &[
        "thematic breaks",
        "page breaks",
        "images",
        "videos",
        "audios",
        "lines like a break",
        "lines like a block macro",
        "breaks and macros in a paragraph",
        "breaks with metadata",
        "macros with metadata",
        "macros with attributes",
        "white space at the end",
        "without blank lines between",
        "in other blocks",
        "in literal paragraphs",
        "CRLF",
    ],
    rule: "Sequences of up to 12 breaks, block macros, paragraphs and lines that nearly are a break or macro (more or fewer signs, other spacing, text before or behind, missing target or brackets, other names), with and without metadata and blank lines between, at the top level, in sections and in other blocks; each must be the block it was written as, with its type, target, attributes, title, ID and span. Non-trivial: at least three items; distinct by text.",
};

const THEMATIC: &[&str] = &["'''", "---", "- - -", "***", "* * *"];
const NEAR_BREAK: &[&str] = &[
    "''", "''''", "' ' '", "'''x", "''' '''", "- - - -", "-- -", "- --", "--- x", "- - -x", "-  -  -", "---- x", "** *", "* * * *", "*** x", "*  *  *", "<<", "<<<<", "<<< x", "< < <", ">>>", "___", "_ _ _", "===x", "x'''", "\u{2019}\u{2019}\u{2019}", "-\t-\t-",
];
const NEAR_MACRO: &[&str] = &[
    "image:x.png[]", "image::[]", "image::x.png", "image::x.png[", "image::x.png]", "image::x.png[] y", "Image::x.png[]", "images::x.png[]", "image ::x.png[]", "video:x[]", "video::[x]", "video::x[]x", "audio::x", "audio::[]", "audios::x[]", "AUDIO::x[]", "foo::x[]", "x image::x[]", "image::", "image", "video::x[a] and b", "toc::x[]", "é::x[]",
];
const TARGETS: &[&str] = &["x.png", "a/b.svg", "with space.png", "é日本.jpg", "http://h.example/x?a=b&c=<d>", "{foo}.png", "{nope}", "a:b", "x]y", "*x*", "-", "'''", "a,b", "1", "x::y", "a\u{a0}b.png", "c\u{3000}d", "e\tf.png", "g\u{200b}h", "🎉", "x]"];

#[derive(Clone, Debug, PartialEq)]
enum K {
    Break(bool),
    Media(MediaType, String, Vec<(Option<String>, String)>),
    Text,
}

#[derive(Clone, Debug)]
struct Item {
    k: K,
    text: String,
    title: Option<String>,
    id: Option<String>,
}

fn attrs(r: &mut Rng) -> (String, Vec<(Option<String>, String)>) {
    let mut src = vec![];
    let mut v = vec![];
    let n = r.below(5);
    for k in 0..n {
        let (s, a) = match r.below(11) {
            7 => {
                let (n, v) = (format!("z{}", docgen::ident(r).replace('_', "-")), docgen::ident(r));
                (format!("{n}={v}"), (Some(n), v))
            }
            8 => {
                let v = r.pick(&["a\\b", "x\\", "[y", "100%", "1.5", "é", "a/b", "#x", ".y", "%z", "a:b", "*b*", "x]", "]"]).to_string();
                // The shorthand is for blocks only.
                let v = if src.is_empty() && v.starts_with('[') { "Fig. 1".to_string() } else { v };
                (v.clone(), (None, v))
            }
            9 => {
                let v = r.pick(&["", "a, b=c", "x\\y", "]", "a]b", "'", "é <b>, \\ "]).to_string();
                (format!("n{k}=\"{v}\""), (Some(format!("n{k}")), v))
            }
            10 => {
                let v = r.range(0, 99999).to_string();
                (v.clone(), (None, v))
            }
            0 => (format!("w{k}=10"), (Some(format!("w{k}")), "10".to_string())),
            1 => (format!("n{k}=\"a, b\""), (Some(format!("n{k}")), "a, b".to_string())),
            2 => ("\"x]y, z\"".to_string(), (None, "x]y, z".to_string())),
            3 => (format!("n{k}={{foo}}"), (Some(format!("n{k}")), "bar".to_string())),
            4 => ("A (b)".to_string(), (None, "A (b)".to_string())),
            5 => (format!("n{k}='é <b>'"), (Some(format!("n{k}")), "é <b>".to_string())),
            _ => (format!("Alt text {k}"), (None, format!("Alt text {k}"))),
        };
        src.push(s);
        v.push(a);
    }
    // Shorthand is not the matter here.
    (src.join(r.pick(&[",", ", "])), v)
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let mut src = String::new();
    let (open, close) = match r.below(6) {
        0 => ("== Section\n\n", ""),
        1 => ("====\n", "====\n"),
        2 => ("****\n--\n", "--\n****\n"),
        3 => ("== Section\n\n____\n", "____\n"),
        _ => ("", ""),
    };
    if !open.is_empty() {
        ctx.count("in other blocks");
    }
    src.push_str(open);
    let mut items: Vec<Item> = vec![];
    let n = r.range(1, 12);
    for k in 0..n {
        let mut meta = vec![];
        let (mut title, mut id) = (None, None);
        let with = r.one_in(3);
        if with {
            if r.bool() {
                title = Some(format!("Title {k}"));
                meta.push(format!(".Title {k}"));
            }
            match r.below(4) {
                0 => {
                    id = Some(format!("i{k}"));
                    meta.push(format!("[[i{k}]]"));
                }
                1 => {
                    id = Some(format!("i{k}"));
                    meta.push(format!("[#i{k}.role]"));
                }
                2 => meta.push("[%opt]".into()),
                _ => (),
            }
            r.shuffle(&mut meta);
        }
        let mut text: String = meta.iter().map(|m| format!("{m}\n")).collect();
        let trail = if r.one_in(5) { r.pick(&[" ", "  ", "   ", "\t", " \t ", "                                        "]) } else { "" };
        let mut literal = false;
        let (kind, line) = match r.below(11) {
            0..3 => (K::Break(true), r.pick(THEMATIC).to_string()),
            3 => (K::Break(false), "<<<".into()),
            4..7 => {
                let t = r.choose(&[MediaType::Image, MediaType::Video, MediaType::Audio]).clone();
                let name = match t {
                    MediaType::Image => "image",
                    MediaType::Video => "video",
                    MediaType::Audio => "audio",
                };
                let target = r.pick(TARGETS).to_string();
                let (a, v) = attrs(&mut r);
                (K::Media(t, target.clone(), v), format!("{name}::{target}[{a}]"))
            }
            7 => (K::Text, r.pick(NEAR_BREAK).to_string()),
            8 => (K::Text, r.pick(NEAR_MACRO).to_string()),
            9 => {
                literal = true;
                let l = r.pick(&["'''", "<<<", "image::x[]", "---", "video::x[a]"]);
                // Indented, or of literal style.
                if meta.iter().any(|m| m.starts_with('[') && !m.starts_with("[[")) || r.bool() {
                    (K::Text, format!(" {l}"))
                } else {
                    text.push_str("[literal]\n");
                    meta.push("[literal]".into());
                    (K::Text, l.to_string())
                }
            }
            _ => {
                let mut s = format!("para {k}");
                for _ in 0..r.range(1, 3) {
                    s.push('\n');
                    s.push_str(r.pick(&["'''", "---", "image::x[]", "<<<", "* * *", "video::y[z]", "text", "***"]));
                }
                (K::Text, s)
            }
        };
        match &kind {
            K::Break(t) => {
                ctx.count(if *t { "thematic breaks" } else { "page breaks" });
                if !meta.is_empty() {
                    ctx.count("breaks with metadata");
                }
            }
            K::Media(t, _, a) => {
                ctx.count(match t {
                    MediaType::Image => "images",
                    MediaType::Video => "videos",
                    MediaType::Audio => "audios",
                });
                if !meta.is_empty() {
                    ctx.count("macros with metadata");
                }
                if !a.is_empty() {
                    ctx.count("macros with attributes");
                }
            }
            K::Text if literal => ctx.count("in literal paragraphs"),
            K::Text if line.starts_with("para") => ctx.count("breaks and macros in a paragraph"),
            K::Text => ctx.count(if NEAR_MACRO.contains(&line.as_str()) { "lines like a block macro" } else { "lines like a break" }),
        }
        text.push_str(&line);
        src.push_str(&text);
        src.push_str(trail);
        if !trail.is_empty() {
            ctx.count("white space at the end");
        }
        src.push('\n');
        let last = k + 1 == n;
        // A paragraph takes what follows; the closing delimiter ends it, too.
        if (matches!(kind, K::Text) && !last) || r.bool() {
            src.push_str(r.pick(&["\n", "\n", "\n\n", "  \n"]));
        } else if !last {
            ctx.count("without blank lines between");
        }
        items.push(Item { k: kind, text, title, id });
    }
    src.push_str(close);
    let nl = if r.one_in(6) {
        ctx.count("CRLF");
        "\r\n"
    } else {
        "\n"
    };
    let src = src.replace('\n', nl);
    ctx.input(&src);
    let mut p = Parser::default().with_intrinsic_attribute("foo", "bar", ModificationContext::Anywhere);
    let doc = p.parse(&src);
    ctx.eval();
    let mut got: Vec<&Block<'_>> = vec![];
    util::walk(&doc, &mut |b, _| {
        if !matches!(b, Block::Section(_) | Block::CompoundDelimited(_) | Block::Preamble(_)) {
            got.push(b);
        }
    });
    if !ctx.expect_eq("the number of blocks", &items.len(), &got.len()) {
        return;
    }
    for (i, b) in items.iter().zip(got) {
        let at = || format!("{i:?} became {}", {
            let mut s = String::new();
            util::block_dump(b, 0, &mut s);
            s
        });
        match (&i.k, b) {
            (K::Break(t), Block::Break(x)) => {
                ctx.check("the type of a break", (x.type_() == BreakType::Thematic) == *t, at);
                ctx.check("the context of a break", b.raw_context().as_ref() == if *t { "thematic_break" } else { "page_break" }, at);
            }
            (K::Media(t, target, attrs), Block::Media(x)) => {
                ctx.check("the type of a block macro", x.type_() == *t, at);
                ctx.check("the target of a block macro", x.target().is_some_and(|s| s.data() == target), at);
                let got: Vec<(Option<String>, String)> = x.macro_attrlist().attributes().map(|a| (a.name().map(String::from), a.value().to_string())).collect();
                ctx.check("the attributes of a block macro", got == *attrs, at);
            }
            (K::Text, Block::Simple(_)) => (),
            _ => {
                ctx.fail("the kind of a block", at());
                return;
            }
        }
        ctx.check("the title of a block", b.title_source().map(|t| t.data().to_string()) == i.title, at);
        ctx.check("the ID of a block", b.id().map(String::from) == i.id, at);
        ctx.check("the span of a block", b.span().data().replace("\r\n", "\n") == i.text, at);
    }
    ctx.check("a warning in a text without mistakes", doc.warnings().next().is_none(), || util::warnings_dump(&doc));
    if items.len() > 2 {
        ctx.distinct(&src);
        ctx.sample(&src);
    }
}
