//! Paragraphs: where they begin and end, and what they say.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, SimpleBlockStyle},
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::docgen::{simple_words, words},
    rng::Rng,
    util::{self, html},
};

pub const DEF: PropDef = PropDef {
    id: "C10",
    quick: 720_000,
    thorough: 8_000_000,
    run,
    needs: &["paragraphs", "literal paragraphs", "comment lines", "comment lines before the text", "ended by a blank line", "ended by a delimiter line", "ended by an attribute line", "ended by a plus sign", "lines like metadata", "ended by a white space line", "ended by the end of the text", "markup-like lines inside", "indented lines like markup", "inside a block"],
    rule: "Each case writes 1 to 7 paragraphs of 1 to 9 lines (indented or not, with comment lines, lines that look like other markup in the middle, trailing blanks, Unicode, tabs, CRLF), each ended in one of the ways a paragraph ends, and requires exactly these paragraphs with these spans and texts. Non-trivial: at least 2 paragraphs; distinct by text.",
};

/// Lines that begin something at the start of a block, but not in the middle of a paragraph.
const INSIDE: &[&str] = &[
    "== not a section", "=== nor this", "# neither", ". dot", ".Title", "'''", "<<<", "---", "- - -", "***", "* * *", ":name: value", ":!name:", "image::x.png[alt]", "video::v[]", "= title",
    "[open", "open]", "[[x", "[a]b", "[x] y", "=====x", "----x", "x----", "++", "+a", "a +b", "///", "///// x", "/// three slashes", "1. one", "| cell", "* item", "- item", "a:: b", "> q",
    "====  =", "-----.", "`", "===", "...", "___", "--x", "-", "x //", "/ /", "toc::[]", "NOTE: x", "::", ":", "|===", "++++x", "!", "\\", "]", "[",
];

/// What the substitutions make of the lines above in a paragraph (none, unless listed).
fn plain(l: &str) -> bool {
    !["'", "*", "_", "`", "#", "...", "--", "->", "image:", "link:", "::", "\\", "+", "["].iter().any(|x| l.contains(x)) || l.starts_with('[')
}

/// A line that is nearly a block delimiter, a break or a comment, but is text.
fn near(r: &mut Rng) -> String {
    const SIGNS: [char; 9] = ['/', '-', '.', '+', '=', '*', '_', '\'', '<'];
    loop {
        let c = *r.choose(&SIGNS);
        let mut v: Vec<char> = std::iter::repeat_n(c, r.range(2, 8)).collect();
        for _ in 0..r.range(1, 2) {
            let x = match r.below(4) {
                0 => *r.choose(&['x', 'é', '日', '0', '|', '~', '#', '\u{a0}']),
                _ => *r.choose(&SIGNS),
            };
            let k = r.below(v.len() + 1);
            if r.bool() || k == v.len() { v.insert(k, x) } else { v[k] = x }
        }
        let s: String = v.iter().collect();
        let same = v.iter().all(|c| *c == v[0]);
        if (same && v.len() > 1) || s.starts_with("//") && !s.starts_with("///") || s.starts_with('\u{a0}') || s.ends_with('\u{a0}') || s.starts_with('#') && v.len() < 8 && s[1..].starts_with(' ') {
            continue;
        }
        // A block title.
        if s.starts_with('.') && !s.starts_with("..") {
            continue;
        }
        return s;
    }
}

struct P {
    start: usize,
    end: usize,
    line: usize,
    body: usize,
    shown: Vec<String>,
    style: SimpleBlockStyle,
    raw: bool,
}

fn run(ctx: &mut Ctx) {
    let mut s = String::new();
    let mut line = 1;
    let eol = if ctx.rng.one_in(5) { "\r\n" } else { "\n" };
    let mut ps: Vec<P> = vec![];
    let mut put = |s: &mut String, l: &str| {
        let a = s.len();
        s.push_str(l);
        let b = s.len();
        s.push_str(eol);
        line += 1;
        (a, b, line - 1)
    };
    let header = ctx.rng.one_in(3);
    if header {
        put(&mut s, "= Title");
        put(&mut s, "");
    }
    let wrap = ctx.rng.one_in(4);
    if wrap {
        put(&mut s, "======");
        ctx.count("inside a block");
    }
    let n = ctx.rng.range(1, 7);
    let mut attr_next: Option<&str> = None;
    let mut plus_next = false;
    for i in 0..n {
        let mut rr = Rng::new(ctx.rng.next());
        let r = &mut rr;
        let mut p = P { start: s.len(), end: 0, line: 0, body: 0, shown: vec![], style: SimpleBlockStyle::Paragraph, raw: false };
        let mut first_line = None;
        let mut normal = false;
        if let Some(a) = attr_next.take() {
            first_line = Some(put(&mut s, a).2);
            p.raw = a.contains("none");
            match a {
                _ if a.starts_with("[listing") => p.style = SimpleBlockStyle::Listing,
                _ if a.starts_with("[source") => p.style = SimpleBlockStyle::Source,
                "[normal]" => normal = true,
                _ => {}
            }
        }
        let plus = std::mem::take(&mut plus_next);
        let indent = if plus { 0 } else if r.one_in(4) { if r.one_in(6) { r.range(7, 40) } else { r.range(1, 6) } } else { 0 };
        let tab = indent > 0 && r.one_in(4);
        let ind = |k: usize| if tab { "\t".repeat(k) } else { " ".repeat(k) };
        if indent > 0 && !normal && p.style == SimpleBlockStyle::Paragraph {
            p.style = SimpleBlockStyle::Literal;
        }
        if indent > 0 {
            ctx.count("literal paragraphs");
        }
        let m = r.weighted(&[2, 5, 4, 3, 2, 1, 1, 1, 1]) + 1;
        let mut first = true;
        let mut used = false;
        // A comment line before the first line belongs to the paragraph, but not to its text.
        let lead_comment = (header || wrap || i > 0) && indent == 0 && !plus && r.one_in(10);
        if lead_comment {
            for _ in 0..r.range(1, 2) {
                let (a, _, l) = put(&mut s, r.pick(&["// before", "//", "//c", "// [x]", "// ----"]));
                if first_line.is_none() {
                    first_line = Some(l);
                }
                if p.body == 0 {
                    p.body = a + 1;
                }
            }
            ctx.count("comment lines");
            ctx.count("comment lines before the text");
        }
        for k in 0..m {
            if !first && r.one_in(8) {
                let c = format!("{}{}", r.pick(&["//", "// "]), r.pick(&["", "c", "[x]", "{foo}", "see http://x.org/y", "a // b", "c::d"]));
                if c.starts_with("///") {
                    continue;
                }
                let (_, b, _) = put(&mut s, &c);
                p.end = b;
                ctx.count("comment lines");
                continue;
            }
            let (text, lead) = if first && plus {
                ("+".into(), 0)
            } else if first && indent == 0 && r.one_in(20) {
                // Nearly a title or an attribute list.
                ctx.count("lines like metadata");
                (r.pick(&[".\tx", ". x", "[\tx]", "[ x]", "[x", "[[x] y", ". . x", "[x] y"]).to_string(), 0)
            } else if r.one_in(5) && p.raw && (!first || indent == 0) {
                ctx.count("lines like a delimiter");
                used = true;
                (near(r), 0)
            } else if !first && r.one_in(3) && (p.raw || !used) {
                let t = r.pick(INSIDE);
                if p.raw || plain(t) {
                    used = true;
                    (t.to_string(), 0)
                } else {
                    (simple_words(r, 1, 3), 0)
                }
            } else if !first && r.one_in(8) {
                // What means something at the start of a line only.
                ctx.count("indented lines like markup");
                let t = if p.raw { r.pick(&["----", "--", "....", "++++", "+", "****", "____", "[[x]]"]) } else { r.pick(&["// c", "//", "// ----", "////", "====", "[x]", "[x=y]"]) };
                (t.to_string(), r.range(1, indent + 4))
            } else {
                (words(r, 1, 6), if first { indent } else { [0, indent, r.below(indent + 8)][r.below(3)] })
            };
            let lead = if indent == 0 && first { 0 } else { lead };
            // Unindented paragraphs keep the white space of their other lines; keep those short.
            let trail = if r.one_in(6) && (k + 1 < m || k > 0 || r.bool()) { r.pick(&[" ", "   ", "\t", " \t "]) } else { "" };
            let (a, b, l) = put(&mut s, &format!("{}{text}{trail}", ind(lead)));
            if text != text.trim_start() {
                continue;
            }
            if first {
                p.body = if p.body > 0 { p.body - 1 } else { a };
                if first_line.is_none() {
                    first_line = Some(l);
                }
            } else if used {
                ctx.count("markup-like lines inside");
            }
            p.end = b - trail.len();
            let shown = format!("{}{text}", ind(lead - lead.min(indent)));
            p.shown.push(if p.raw { shown } else { html(&shown) });
            first = false;
        }
        p.line = first_line.unwrap();
        ps.push(p);
        ctx.count("paragraphs");
        let last = i + 1 == n;
        match ctx.rng.weighted(&[8, 3, 3, 2]) {
            0 => {
                put(&mut s, "");
                ctx.count("ended by a blank line");
            }
            1 => {
                let d = ctx.rng.pick(&["----", ".....", "++++", "////"]);
                put(&mut s, d);
                put(&mut s, "inner");
                put(&mut s, d);
                ctx.count("ended by a delimiter line");
            }
            2 if !last && ctx.rng.one_in(4) => {
                ctx.count("ended by a plus sign");
                plus_next = true;
            }
            2 if !last => {
                ctx.count("ended by an attribute line");
                attr_next = Some(ctx.rng.pick(&["[normal]", "[.role]", "[#id%opt]", "[quote,a b]", "[k=v]", "[[anchor]]", "[[other,a text]]", "[subs=none]", "[subs=none]", "[listing]", "[source,x]", "[listing,x]", "[listing,ruby,y]", "[source]", "[source%o,a,b]"]));
            }
            3 => {
                put(&mut s, ctx.rng.pick(&[" ", "\t", "   ", "\t\t", " \t"]));
                ctx.count("ended by a white space line");
            }
            _ => {
                if last && !wrap && ctx.rng.bool() {
                    s.truncate(s.trim_end().len());
                    ctx.count("ended by the end of the text");
                } else {
                    put(&mut s, "");
                }
            }
        }
    }
    if wrap {
        s.truncate(s.trim_end_matches(['\r', '\n']).len());
        s.push_str(eol);
        s.push_str("======");
        s.push_str(eol);
    }
    ctx.input(&s);
    let doc = Parser::default().parse(&s);
    ctx.eval();
    if ps.len() >= 2 {
        ctx.distinct(&s);
        ctx.sample(&s);
    }
    let mut got: Vec<&Block<'_>> = vec![];
    let mut other = 0;
    util::walk(&doc, &mut |b, _| match b {
        Block::Simple(_) => got.push(b),
        Block::RawDelimited(_) => {}
        Block::CompoundDelimited(_) if wrap => {}
        _ => other += 1,
    });
    ctx.expect_eq("blocks that are not there", &0, &other);
    if !ctx.expect_eq("number of paragraphs", &ps.len(), &got.len()) {
        return;
    }
    for (p, b) in ps.iter().zip(got) {
        let sp = b.span();
        let want = &s[p.start..p.end.min(s.len())];
        ctx.expect_eq("source of a paragraph", &want.trim_end(), &sp.data().trim_end());
        ctx.expect_eq("position of a paragraph", &(p.start, p.line, 1), &(sp.byte_offset(), sp.line(), sp.col()));
        let Block::Simple(x) = b else { continue };
        ctx.expect_eq("start of the content", &p.body, &x.content().original().byte_offset());
        ctx.expect_eq("text of a paragraph", &p.shown.join("\n"), &x.content().rendered().to_string());
        ctx.expect_eq("style of a paragraph", &p.style, &x.style());
    }
}
