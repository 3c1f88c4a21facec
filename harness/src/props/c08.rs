//! Delimited blocks: pairing, nesting, content, unterminated blocks.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock},
};

use super::PropDef;
use crate::{
    ctx::Ctx,
    generate::docgen,
    model::compare,
    rng::Rng,
    util,
};

pub const DEF: PropDef = PropDef {
    id: "C08",
    quick: 500_000,
    thorough: 5_000_000,
    run,
    needs: &["delimited blocks", "unterminated blocks", "nested 3 deep or more", "closing lines of another length inside", "indented delimiter lines", "constructed documents"],
    rule: "Half of the cases are sequences of delimiter lines (all eight kinds, lengths 2 to 9, trailing blanks), lines that are nearly delimiters (indented, followed by text), words and blank lines, decided by an independent pairing model (a block ends at the first line equal to its opening line, else at the end of its container, with one warning); the other half are constructed documents with blocks nested up to 9 deep. Non-trivial: at least 2 delimited blocks; distinct by text.",
};

#[derive(Debug, PartialEq, Eq, Clone)]
enum Node {
    Para(String),
    Leaf(&'static str, String),
    Tree(&'static str, Vec<Node>),
}

fn delimiter(l: &str) -> Option<(&'static str, bool)> {
    let l = l.trim_end_matches([' ', '\t']);
    if l == "--" {
        return Some(("open", false));
    }
    let c = l.chars().next()?;
    if l.len() < 4 || !l.chars().all(|x| x == c) {
        return None;
    }
    Some(match c {
        '/' => ("comment", true),
        '-' => ("listing", true),
        '.' => ("literal", true),
        '+' => ("pass", true),
        '=' => ("example", false),
        '*' => ("sidebar", false),
        '_' => ("quote", false),
        _ => return None,
    })
}

struct Model {
    unterminated: Vec<String>,
    mixed: usize,
    indented: usize,
    depth: usize,
    blocks: usize,
}

fn tree(lines: &[&str], depth: usize, m: &mut Model) -> Vec<Node> {
    let mut r = vec![];
    let mut i = 0;
    m.depth = m.depth.max(depth);
    while i < lines.len() {
        let l = lines[i].trim_end_matches([' ', '\t']);
        if l.is_empty() {
            i += 1;
            continue;
        }
        if let Some((ctx, raw)) = delimiter(l) {
            m.blocks += 1;
            let end = (i + 1..lines.len()).find(|j| lines[*j].trim_end_matches([' ', '\t']) == l);
            let inner = &lines[i + 1..end.unwrap_or(lines.len())];
            if end.is_none() {
                m.unterminated.push(l.to_string());
            }
            if inner.iter().any(|x| delimiter(x).is_some_and(|d| d.0 == ctx)) {
                m.mixed += 1;
            }
            if raw {
                r.push(Node::Leaf(ctx, inner.join("\n")));
            } else {
                r.push(Node::Tree(ctx, tree(inner, depth + 1, m)));
            }
            i = end.map(|e| e + 1).unwrap_or(lines.len());
        } else {
            let mut v = vec![l.trim_start()];
            if l.len() > v[0].len() && delimiter(v[0]).is_some() {
                m.indented += 1;
            }
            i += 1;
            while i < lines.len() {
                let x = lines[i].trim_end_matches([' ', '\t']);
                if x.is_empty() || delimiter(x).is_some() {
                    break;
                }
                v.push(x.trim_start());
                i += 1;
            }
            r.push(Node::Para(v.join("\n")));
        }
    }
    r
}

fn observed<'a>(bs: impl Iterator<Item = &'a Block<'a>>) -> Vec<Node> {
    bs.map(|b| match b {
        Block::RawDelimited(r) => {
            let c = r.raw_context();
            let s = r.content().original().data().to_string();
            Node::Leaf(
                match c.as_ref() {
                    "comment" => "comment",
                    "listing" => "listing",
                    "literal" => "literal",
                    "pass" => "pass",
                    _ => "?",
                },
                s,
            )
        }
        Block::CompoundDelimited(r) => {
            let c = r.raw_context();
            Node::Tree(
                match c.as_ref() {
                    "example" => "example",
                    "sidebar" => "sidebar",
                    "quote" => "quote",
                    "open" => "open",
                    _ => "?",
                },
                observed(b.nested_blocks()),
            )
        }
        _ => {
            let s = b.span();
            Node::Para(s.data().lines().map(|l| l.trim()).collect::<Vec<_>>().join("\n"))
        }
    })
    .collect()
}

/// Trailing line ends and blanks are compared elsewhere.
fn normal(v: &[Node]) -> Vec<Node> {
    v.iter()
        .map(|n| match n {
            Node::Para(s) => Node::Para(s.clone()),
            Node::Leaf(c, s) => Node::Leaf(c, s.trim_end().to_string()),
            Node::Tree(c, k) => Node::Tree(c, normal(k)),
        })
        .collect()
}

fn soup(r: &mut Rng) -> Vec<String> {
    let n = r.range(2, 26);
    let kinds: Vec<(char, usize)> = (0..r.range(1, 5)).map(|_| (*r.choose(&['/', '-', '.', '+', '=', '*', '_', '=', '*', '_']), r.range(4, 6))).collect();
    let mut v = vec![];
    for i in 0..n {
        let l = match r.weighted(&[10, 3, 1, 5, 5, 2]) {
            0 => {
                let (c, n) = *r.choose(&kinds);
                c.to_string().repeat(n)
            }
            1 => "--".into(),
            2 => {
                let (c, n) = *r.choose(&kinds);
                c.to_string().repeat(n + r.range(1, 3))
            }
            3 => String::new(),
            5 => {
                // Almost a delimiter.
                let (c, n) = *r.choose(&kinds);
                let d = if r.one_in(4) { "--".into() } else { c.to_string().repeat(n) };
                match r.below(6) {
                    4 if c != '.' => format!("{d}x{}", &d[1..]),
                    // White space within.
                    5 if c != '=' && c != '.' && !d.starts_with("--") => format!("{d}{}{}", r.pick(&[" ", "\t", "  "]), c.to_string().repeat(r.range(1, 4))),
                    0 => format!("{}{d}", r.pick(&[" ", "  ", "\t"])),
                    1 if c != '.' => format!("{d}x"),
                    2 if c != '.' => format!("{d}{}", if d.starts_with('-') { '+' } else { '-' }),
                    3 if c != '=' && c != '.' => format!("{d} x"),
                    _ => format!("x{d}"),
                }
            }
            _ => r.pick(&["word", "two words", "é", "x"]).to_string(),
        };
        // The text must not begin with a document title or the like: it cannot here.
        let t = if !l.is_empty() && r.one_in(9) { r.pick(&[" ", "  ", "\t", " \t"]) } else { "" };
        let _ = i;
        v.push(format!("{l}{t}"));
    }
    v
}

fn run(ctx: &mut Ctx) {
    if ctx.idx % 2 == 0 {
        let lines = soup(&mut ctx.rng);
        let crlf = ctx.rng.one_in(5);
        let mut s = lines.join(if crlf { "\r\n" } else { "\n" });
        if ctx.rng.bool() {
            s.push_str(if crlf { "\r\n" } else { "\n" });
        }
        ctx.input(&s);
        let refs: Vec<&str> = lines.iter().map(|x| x.as_str()).collect();
        let mut m = Model { unterminated: vec![], mixed: 0, indented: 0, depth: 1, blocks: 0 };
        let want = normal(&tree(&refs, 1, &mut m));
        let doc = Parser::default().parse(&s);
        let got = normal(&observed(doc.nested_blocks()));
        let got: Vec<Node> = fix(got);
        ctx.eval();
        ctx.add("delimited blocks", m.blocks as u64);
        ctx.add("unterminated blocks", m.unterminated.len() as u64);
        ctx.add("closing lines of another length inside", m.mixed as u64);
        ctx.add("indented delimiter lines", m.indented as u64);
        if m.depth >= 3 {
            ctx.count("nested 3 deep or more");
        }
        ctx.expect_eq("blocks differ from the pairing of delimiter lines", &want, &got);
        // One warning for each unterminated block, and no other.
        let mut w: Vec<String> = doc
            .warnings()
            .map(|w| format!("{:?} {}", w.warning, w.source.data().lines().next().unwrap_or("").trim_end()))
            .collect();
        let mut e: Vec<String> = m.unterminated.iter().map(|l| format!("WarningType::UnterminatedDelimitedBlock {l}")).collect();
        w.sort();
        e.sort();
        ctx.expect_eq("warnings for blocks without a closing delimiter", &e, &w);
        if m.blocks >= 2 {
            ctx.distinct(&s);
            ctx.sample(&s);
        }
        return;
    }
    let p = docgen::Profile {
        max_depth: *ctx.rng.choose(&[3, 5, 9]),
        max_blocks: 3,
        sections: ctx.rng.below(3),
        weights: [6, 6, 9, 1, 1, 1],
        meta_pct: 25,
        ..Default::default()
    };
    let d = docgen::doc(&mut ctx.rng, &p);
    ctx.input(&d.src);
    let doc = Parser::default().parse(&d.src);
    ctx.eval();
    ctx.count("constructed documents");
    let mut n = 0;
    d.walk(&mut |e| {
        if matches!(e.kind, docgen::Kind::Raw(_) | docgen::Kind::Compound(_)) {
            n += 1;
        }
    });
    ctx.add("delimited blocks", n);
    if n >= 2 {
        ctx.distinct(&d.src);
    }
    for m in compare::compare(&d, &doc) {
        if matches!(m.facet, "structure" | "span" | "content") {
            ctx.fail(format!("constructed document: {}", m.facet), m.detail);
        }
    }
    for w in doc.warnings() {
        if format!("{:?}", w.warning).contains("Unterminated") {
            ctx.fail("warning about a block that is terminated", util::warnings_dump(&doc));
        }
    }
}

fn fix(v: Vec<Node>) -> Vec<Node> {
    v.into_iter()
        .map(|n| match n {
            Node::Leaf(c, s) => Node::Leaf(c, s.replace("\r\n", "\n")),
            Node::Tree(c, k) => Node::Tree(c, fix(k)),
            n => n,
        })
        .collect()
}
