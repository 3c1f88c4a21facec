//! Which substitutions apply, and in what order.
use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
    parser::ModificationContext,
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::{
        inline::{Gen, Html, Mix, Steps},
        spots,
    },
    rng::Rng,
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C29",
    quick: 300_000,
    thorough: 3_000_000,
    run,
    needs: &["subs given", "subs relative to the default", "subs that are not known", "blocks without subs", "steps in another order", "steps named twice", "paragraphs", "listing blocks", "literal blocks", "pass blocks", "pass paragraphs", "titles", "blocks that are not closed", "texts from pieces"],
    rule: "Blocks of every kind (the last one sometimes not closed) carry random lists of substitutions (names, abbreviations, groups, added in front, added behind, removed, unknown), and text of markers one for each step, on which every step is a literal replacement; the model performs them in the order that the list gives. A second workload renders constructed text with a random subset of the steps. Non-trivial: at least two blocks with subs; distinct by text.",
};

const NAMES: &[(char, &[&str])] = &[
    ('c', &["c", "specialchars", "specialcharacters"]),
    ('q', &["q", "quotes"]),
    ('a', &["a", "attributes"]),
    ('r', &["r", "replacements"]),
    ('m', &["m", "macros"]),
    ('p', &["p", "post_replacements"]),
];

const NORMAL: &str = "cqarmp";

/// The steps a list stands for; None if something in it is not known.
fn steps(default: &str, list: &str) -> Option<String> {
    let list = list.trim();
    match list {
        "none" => return Some(String::new()),
        "n" | "normal" => return Some(NORMAL.into()),
        "v" | "verbatim" => return Some("c".into()),
        _ => {}
    }
    let mut v = String::new();
    for (k, item) in list.split(',').enumerate() {
        let item = item.trim();
        match item {
            "n" | "normal" => {
                v = NORMAL.into();
                continue;
            }
            "v" | "verbatim" => {
                v = "c".into();
                continue;
            }
            _ => {}
        }
        let (m, name) = if let Some(n) = item.strip_prefix('+') {
            ('+', n)
        } else if let Some(n) = item.strip_suffix('+') {
            ('<', n)
        } else if let Some(n) = item.strip_prefix('-') {
            ('-', n)
        } else {
            (' ', item)
        };
        if k == 0 && m != ' ' {
            v = default.into();
        }
        let c = NAMES.iter().find(|(_, ns)| ns.contains(&name))?.0;
        match m {
            '<' => v.insert(0, c),
            '-' => v.retain(|x| x != c),
            _ => v.push(c),
        }
    }
    Some(v)
}

const HTML_LINK: &str = "<a href=\"x.html\">y</a>";

/// Each step on texts made of the markers below.
fn apply(steps: &str, text: &str, value: &str) -> String {
    let mut s = text.to_string();
    let passes = steps.contains('m');
    if passes {
        s = s.replace("+++<u>w+++", "\u{1}");
    }
    let mut done = String::new();
    for c in steps.chars() {
        if done.contains(c) {
            continue;
        }
        done.push(c);
        s = match c {
            'c' => util::html(&s),
            'q' => s.replace("*b*", "<strong>b</strong>").replace("_i_", "<em>i</em>"),
            'a' => s.replace("{a1}", value),
            'r' => s.replace("(C)", "&#169;").replace("&amp;deg;", "&deg;"),
            'm' => s.replace("link:x.html[y]", HTML_LINK),
            _ => s.replace(" +\n", "<br>\n"),
        };
    }
    s.replace('\u{1}', "<u>w")
}

fn text(r: &mut Rng, lines: usize) -> String {
    let mut s = String::new();
    for l in 0..lines {
        if l > 0 {
            s.push_str(r.pick(&["\n", " +\n"]));
        }
        s.push('T');
        for _ in 0..r.range(1, 6) {
            s.push(' ');
            s.push_str(r.pick(&["*b*", "_i_", "{a1}", "(C)", "&deg;", "link:x.html[y]", "+++<u>w+++", "<", ">", "&", "word", "é", "{nope}"]));
        }
        s.push_str(" z");
    }
    s
}

/// A list of substitutions, at times with white space around it.
fn list(ctx: &mut Ctx, r: &mut Rng) -> String {
    let l = bare_list(ctx, r);
    match r.below(12) {
        0 => {
            ctx.count("white space around the list");
            format!("{}{l}", " ".repeat(r.range(1, 2)))
        }
        1 => {
            ctx.count("white space around the list");
            format!("{l} ")
        }
        _ => l,
    }
}

fn bare_list(ctx: &mut Ctx, r: &mut Rng) -> String {
    match r.below(14) {
        0 => return "none".into(),
        1 => return r.pick(&["normal", "n"]).into(),
        2 => return r.pick(&["verbatim", "v"]).into(),
        3 => {
            ctx.count("subs that are not known");
            return r.pick(&["bogus", "quotes,bogus", "+bogus", "x", "q,,a", "quotess", "none,q", "Quotes", "+quotes+", "-quotes+", "++q", "q++", "--m", "q,+r+"]).into();
        }
        _ => {}
    }
    let n = r.range(1, 4);
    let relative = r.bool();
    let mut v = vec![];
    let mut seen = String::new();
    for k in 0..n {
        let (c, ns) = *r.choose(NAMES);
        if seen.contains(c) {
            ctx.count("steps named twice");
        }
        if let Some(l) = seen.chars().last()
            && NORMAL.find(l) > NORMAL.find(c)
        {
            ctx.count("steps in another order");
        }
        seen.push(c);
        let name = r.pick(ns);
        v.push(if k == 0 && relative || k > 0 && r.one_in(3) {
            if k == 0 {
                ctx.count("subs relative to the default");
            }
            match r.below(3) {
                0 => format!("+{name}"),
                1 => format!("{name}+"),
                _ => format!("-{name}"),
            }
        } else if r.one_in(12) {
            r.pick(&["n", "v", "normal", "verbatim"]).to_string()
        } else {
            name.to_string()
        });
    }
    v.join(r.pick(&[",", ", ", ",", " ,", " , "]))
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    if r.one_in(3) {
        return pieces(ctx, &mut r);
    }
    let value = r.pick(&["value", "*b*", "<v>", "(C)", "&deg;", "link:x.html[y]", "é and 日本", ""]).to_string();
    let mut p = Parser::default().with_intrinsic_attribute("a1", &value, ModificationContext::Anywhere);
    let mut s = String::new();
    let mut expect: Vec<(&'static str, String, String)> = vec![];
    let mut with = 0;
    let blocks = r.range(1, 5);
    for k in 0..blocks {
        let mut attrs = vec![];
        let mut subs = None;
        if r.pct(85) {
            let l = list(ctx, &mut r);
            attrs.push(if l.contains([',', ' ']) || r.bool() { format!("subs=\"{l}\"") } else { format!("subs={l}") });
            subs = Some(l);
            ctx.count("subs given");
            with += 1;
        } else {
            ctx.count("blocks without subs");
        }
        let (kind, default, open): (&'static str, &str, &str) = match r.below(8) {
            0 | 1 | 2 => ("paragraphs", NORMAL, ""),
            3 => ("pass paragraphs", "", ""),
            4 => ("listing blocks", "c", "----"),
            5 => ("literal blocks", "c", "...."),
            6 => ("pass blocks", "", "++++"),
            _ => ("listing blocks", "c", "----"),
        };
        if kind == "pass paragraphs" {
            attrs.insert(0, "pass".into());
        } else if r.one_in(3) {
            attrs.insert(0, r.pick(&["style1", ".role", "#id-9"]).to_string());
        }
        ctx.count(kind);
        if r.one_in(4) {
            let t = text(&mut r, 1);
            s.push_str(&format!(".{t}\n"));
            ctx.count("titles");
            expect.push(("titles", t.clone(), apply(NORMAL, &t, &value)));
        }
        if !attrs.is_empty() {
            s.push_str(&format!("[{}]\n", attrs.join(",")));
        }
        let n = r.range(1, 4);
        let t = text(&mut r, n);
        if open.is_empty() {
            s.push_str(&format!("{t}\n\n"));
        } else if k + 1 == blocks && r.one_in(3) {
            ctx.count("blocks that are not closed");
            s.push_str(&format!("{open}\n{t}{}", r.pick(&["", "\n"])));
        } else {
            s.push_str(&format!("{open}\n{t}\n{open}\n\n"));
        }
        let st = subs.as_deref().and_then(|l| steps(default, l)).unwrap_or_else(|| default.to_string());
        expect.push((kind, format!("[{}] {t}", attrs.join(",")), apply(&st, &t, &value)));
    }
    ctx.input(&s);
    let doc = p.parse(&s);
    ctx.eval();
    let mut got: Vec<String> = vec![];
    util::walk(&doc, &mut |b, _| {
        if let Some(t) = b.title() {
            got.push(t.into());
        }
        if matches!(b, Block::Simple(_) | Block::RawDelimited(_)) {
            got.push(b.rendered_content().unwrap_or_default().into());
        }
    });
    for (k, (kind, t, e)) in expect.iter().enumerate() {
        if got.get(k) != Some(e) {
            ctx.fail(&format!("substitutions of {kind}"), format!("written {t:?}\nmust be {e:?}\nbut is  {:?}", got.get(k)));
            return;
        }
    }
    ctx.check("blocks that were not written", got.len() == expect.len(), || format!("{got:?}"));
    if with >= 2 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
}

/// Constructed text with a subset of the steps.
fn pieces(ctx: &mut Ctx, r: &mut Rng) {
    let html = Html;
    let mut s = String::new();
    let mut d = spots::Doc::default();
    let mut st = Steps::NONE;
    let mut names = vec![];
    for (c, ns) in NAMES {
        if r.bool() {
            st.set(*c, true);
            names.push(r.pick(ns));
        }
    }
    let spec = if names.is_empty() { "none".to_string() } else { names.join(",") };
    let mut g = Gen::new(Rng::new(r.next()), st, Mix::default(), &html);
    let mut p = spots::settings(r, &mut g);
    for _ in 0..r.range(1, 3) {
        let x = g.paragraph(7);
        match r.below(4) {
            0 if !x.src.contains("----") => s.push_str(&format!("[subs=\"{spec}\"]\n----\n{}\n----\n\n", x.src)),
            _ => s.push_str(&format!("[subs=\"{spec}\"]\n{}\n\n", x.src)),
        }
        d.spots.push((spots::Where::Paragraph, x.src, x.out));
    }
    d.src = s;
    ctx.count("texts from pieces");
    ctx.input(&d.src);
    let doc = p.parse(&d.src);
    ctx.eval();
    let mut got: Vec<String> = vec![];
    util::walk(&doc, &mut |b, _| {
        if matches!(b, Block::Simple(_) | Block::RawDelimited(_)) {
            got.push(b.rendered_content().unwrap_or_default().into());
        }
    });
    for (k, (_, src, out)) in d.spots.iter().enumerate() {
        if got.get(k) != Some(out) {
            ctx.fail("text with some of the steps", format!("subs={spec}\nwritten {src:?}\nmust be {out:?}\nbut is  {:?}", got.get(k)));
            return;
        }
    }
    spots::note(ctx, &g, &d);
}
