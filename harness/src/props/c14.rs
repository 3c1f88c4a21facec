//! IDs: how they are made, that they are unique, and the catalog.
use std::collections::{BTreeMap, BTreeSet};

use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock, SectionType},
    document::RefType,
    parser::ModificationContext,
};

use super::PropDef;
use crate::{ctx::Ctx, rng::Rng, util};

pub const DEF: PropDef = PropDef {
    id: "C14",
    quick: 120_000,
    thorough: 4_000_000,
    run,
    needs: &["generated IDs", "explicit IDs", "generated IDs that had to differ from others", "duplicate explicit IDs", "sections without an ID", "IDs with another prefix or separator", "prefix changed in the body", "titles with markup", "reference texts", "reference texts of several blocks", "ten of the same title"],
    rule: "Random outlines whose titles (words, markup, special characters, Unicode, repeated) have a slug known by construction, with idprefix, idseparator and sectids set in the header, the body or the API, and blocks with explicit IDs (some duplicate, some like generated ones). Every generated ID must be the slug, or the slug with the first free number; all are unique; the catalog has exactly the IDs of the document, with their reference texts; each duplicate is reported once. Non-trivial: at least 3 IDs; distinct by text.",
};

/// (source, rendered, slug with '\u{1}' for a separator)
const PIECES: &[(&str, &str, &str)] = &[
    ("Alpha", "Alpha", "alpha"),
    ("beta", "beta", "beta"),
    ("GAMMA", "GAMMA", "gamma"),
    ("x86_64", "x86_64", "x86_64"),
    ("Été", "Été", "été"),
    ("日本語", "日本語", "日本語"),
    ("ΑΒΓ", "ΑΒΓ", "αβγ"),
    ("v1.2", "v1.2", "v1\u{1}2"),
    ("a-b", "a-b", "a\u{1}b"),
    ("R&D", "R&amp;D", "rd"),
    ("<tag>", "&lt;tag&gt;", ""),
    ("(C)", "&#169;", ""),
    ("it's", "it&#8217;s", "its"),
    ("what?!", "what?!", "what"),
    ("50%", "50%", "50"),
    ("*bold*", "<strong>bold</strong>", "bold"),
    ("_It_", "<em>It</em>", "it"),
    ("`code`", "<code>code</code>", "code"),
    ("*_Both_*", "<strong><em>Both</em></strong>", "both"),
    ("{foo}", "Bar baz", "bar\u{1}baz"),
    ("{empty}", "", ""),
    ("🎉", "🎉", ""),
    ("end.", "end.", "end\u{1}"),
    ("-", "-", "\u{1}"),
    ("2", "2", "2"),
    ("key:val", "key:val", "keyval"),
    ("a/b", "a/b", "ab"),
    ("&#xab;", "&#xab;", ""),
    ("&#8217;", "&#8217;", ""),
    ("&nbsp;", "&nbsp;", ""),
    ("&#12354;", "&#12354;", ""),
    ("&#128512;", "&#128512;", ""),
    ("&#x1f600;", "&#x1f600;", ""),
    ("&#x2161;", "&#x2161;", ""),
    ("x&sup2;", "x&sup2;", "x"),
    ("&#xA9;", "&#xA9;", ""),
];

/// A section's ID is asked from the section: see the known finding.
fn id_of<'a>(b: &'a Block<'a>) -> Option<String> {
    match b {
        Block::Section(s) => s.id(),
        _ => b.id(),
    }
    .map(|i| i.to_string())
}

/// A section and the block that is this section agree about its ID.
fn views(ctx: &mut Ctx) {
    let s = "== Alpha";
    ctx.input(s);
    let doc = Parser::default().parse(s);
    for b in doc.nested_blocks() {
        if let Block::Section(x) = b {
            ctx.expect_eq("a section's generated ID, asked from the block that is the section", &x.id(), &b.id());
        }
    }
}

struct Gen {
    r: Rng,
    s: String,
    prefix: String,
    sep: String,
    sectids: bool,
    /// Title source -> rendered
    same: bool,
    want: Vec<Want>,
    nsect: usize,
    budget: usize,
    changed: u64,
    api: bool,
    markup: u64,
}

#[derive(Debug)]
enum Want {
    /// Generated from this slug.
    Auto { base: String, reftext: String },
    Manual { id: String, reftext: Option<String>, section: bool },
    None { section: bool },
}

impl Gen {
    fn slug(&self, t: &str) -> String {
        let sep: String = self.sep.chars().take(1).collect();
        let mut v = String::new();
        let mut gap = false;
        for c in t.chars() {
            if c == '\u{1}' {
                gap = true;
            } else {
                if gap && !sep.is_empty() {
                    v.push_str(&sep);
                }
                gap = false;
                v.push(c);
            }
        }
        // A separator is never left at the end, nor at the start where there is no prefix.
        if self.prefix.is_empty() && !sep.is_empty() && v.starts_with(&sep) {
            v = v[sep.len()..].to_string();
        }
        format!("{}{v}", self.prefix)
    }

    fn title(&mut self) -> (String, String, String) {
        let n = if self.same { 1 } else { self.r.range(1, 4) };
        let (mut a, mut b, mut c) = (String::new(), String::new(), String::new());
        for i in 0..n {
            let k = if self.same { self.r.below(4) } else { self.r.below(PIECES.len()) };
            let mut p = PIECES[k];
            if i == 0 && p.2.is_empty() || p.0 == "_" {
                p = PIECES[0];
            }
            if i > 0 {
                a.push(' ');
                b.push(' ');
                c.push('\u{1}');
            }
            if p.0 != p.1 {
                self.markup += 1;
            }
            a.push_str(p.0);
            b.push_str(p.1);
            c.push_str(p.2);
        }
        if a.ends_with(" -") || a == "-" {
            a.push_str(" z");
            b.push_str(" z");
            c.push_str("\u{1}z");
        }
        (a, b, c)
    }

    fn manual(&mut self) -> String {
        if self.r.one_in(3) {
            self.r.pick(&["_alpha", "_beta", "_alpha-2", "alpha", "dup", "dup", "_gamma"]).to_string()
        } else {
            format!("{}{}", self.r.pick(&["id-", "X", "é", "_n", "x٣"]), self.r.below(40))
        }
    }

    fn meta(&mut self, section: bool) -> (Option<String>, Option<String>, Option<String>) {
        // (ID, block title, reftext attribute)
        let mut title = None;
        let mut lines = vec![];
        let mut id = None;
        let mut reft = None;
        if self.r.one_in(3) {
            let m = self.manual();
            match self.r.below(4) {
                0 => lines.push(format!("[[{m}]]")),
                1 => lines.push(format!("[#{m}]")),
                2 => lines.push(format!("[.r#{m}%o]")),
                _ => {
                    // The anchor has precedence.
                    lines.push(format!("[[{m}]]"));
                    lines.push("[#other]".into());
                }
            }
            id = Some(m);
        } else if section && self.r.one_in(6) {
            let t = format!("Ref {}", self.r.below(9));
            lines.push(format!("[reftext=\"{t}\"]"));
            reft = Some(t);
        }
        if self.r.one_in(4) {
            let n = self.r.below(9);
            let (a, b) = self.r.choose(&[("Title", "Title"), ("Title", "Title"), ("A *b*", "A <strong>b</strong>"), ("R&D", "R&amp;D"), ("{foo},", "Bar baz,")]).to_owned();
            lines.push(format!(".{a} {n}"));
            title = Some(format!("{b} {n}"));
        }
        self.r.shuffle(&mut lines);
        for l in lines {
            self.s.push_str(&l);
            self.s.push('\n');
        }
        (id, title, reft)
    }

    fn leaf(&mut self, depth: usize) {
        let (id, title, _) = self.meta(false);
        let w = match id {
            Some(id) => Want::Manual { id, reftext: title, section: false },
            None => Want::None { section: false },
        };
        self.want.push(w);
        match self.r.below(6) {
            0 => self.s.push_str("text\n\n"),
            1 => self.s.push_str("----\n[[inner]]\nx\n----\n\n"),
            2 => self.s.push_str("image::x.png[]\n\n"),
            3 => self.s.push_str("'''\n\n"),
            4 if depth < 2 => {
                let d = "=".repeat(4 + depth);
                self.s.push_str(&format!("{d}\n"));
                for _ in 0..self.r.below(3) {
                    self.leaf(depth + 1);
                }
                self.s.push_str(&format!("{d}\n\n"));
            }
            _ => self.s.push_str("++++\nx\n++++\n\n"),
        }
    }

    fn setting(&mut self) {
        match self.r.below(3) {
            0 => {
                self.prefix = self.r.pick(&["_", "", "id_", "sec-", "é", "X"]).to_string();
                self.s.push_str(&format!(":idprefix:{}{}\n", if self.prefix.is_empty() { "" } else { " " }, self.prefix));
            }
            1 => {
                self.sep = self.r.pick(&["_", "-", "", ".", "ø", "-x", "__"]).to_string();
                self.s.push_str(&format!(":idseparator:{}{}\n", if self.sep.is_empty() { "" } else { " " }, self.sep));
            }
            _ => {
                self.sectids = self.r.pct(60);
                self.s.push_str(if self.sectids { ":sectids:\n" } else { ":!sectids:\n" });
            }
        }
    }

    fn section(&mut self, level: usize) {
        self.budget = self.budget.saturating_sub(1);
        self.nsect += 1;
        let discrete = self.nsect > 1 && self.r.one_in(10);
        let (id, _, reft) = self.meta(true);
        if discrete && id.is_none() && reft.is_none() {
            self.s.push_str("[discrete]\n");
        }
        let discrete = discrete && id.is_none() && reft.is_none();
        let (src, shown, slug) = self.title();
        self.s.push_str(&format!("{} {src}\n\n", "=".repeat(level + 1)));
        let w = match id {
            Some(id) => Want::Manual { id, reftext: Some(reft.unwrap_or(shown)), section: true },
            None if self.sectids => Want::Auto { base: self.slug(&slug), reftext: reft.unwrap_or(shown) },
            None => Want::None { section: true },
        };
        self.want.push(w);
        if discrete {
            return;
        }
        for _ in 0..self.r.below(3) {
            self.leaf(0);
        }
        if !self.api && self.r.one_in(6) {
            self.setting();
            self.s.push('\n');
            self.changed += 1;
        }
        while level < 5 && self.budget > 0 && self.r.pct(45) {
            self.section(level + 1);
        }
    }
}

fn run(ctx: &mut Ctx) {
    if ctx.idx == 0 {
        views(ctx);
    }
    let mut r = Rng::new(ctx.rng.next());
    let mut g = Gen {
        s: "= Doc\n:foo: Bar baz\n".into(),
        prefix: "_".into(),
        sep: "_".into(),
        sectids: true,
        same: r.one_in(3),
        want: vec![],
        nsect: 0,
        budget: if r.one_in(10) { 45 } else { r.range(1, 10) },
        changed: 0,
        api: r.one_in(4),
        markup: 0,
        r: Rng::new(r.next()),
    };
    let mut p = Parser::default();
    if g.api {
        g.prefix = g.r.pick(&["_", "", "api-"]).to_string();
        g.sep = g.r.pick(&["_", "-", ""]).to_string();
        g.sectids = g.r.pct(80);
        let c = if g.r.bool() { ModificationContext::ApiOnly } else { ModificationContext::Anywhere };
        p = p.with_intrinsic_attribute("idprefix", g.prefix.clone(), c.clone()).with_intrinsic_attribute("idseparator", g.sep.clone(), c.clone()).with_intrinsic_attribute_bool("sectids", g.sectids, c);
    } else {
        for _ in 0..g.r.weighted(&[4, 3, 2, 1]) {
            g.setting();
        }
    }
    if g.prefix != "_" || g.sep != "_" {
        ctx.count("IDs with another prefix or separator");
    }
    g.s.push('\n');
    while g.budget > 0 {
        g.section(1);
    }
    ctx.input(&g.s);
    let doc = p.parse(&g.s);
    ctx.eval();
    ctx.add("prefix changed in the body", g.changed);
    ctx.add("titles with markup", g.markup);

    // (id, is a section, parent, path)
    struct Seen {
        id: Option<String>,
        section: bool,
        parent: usize,
    }
    let mut seen: Vec<Seen> = vec![];
    fn go<'a>(b: &'a Block<'a>, parent: usize, out: &mut Vec<Seen>) {
        if let Block::DocumentAttribute(_) = b {
            return;
        }
        let k = out.len();
        out.push(Seen { id: id_of(b), section: matches!(b, Block::Section(_)), parent });
        for c in b.nested_blocks() {
            go(c, k, out);
        }
        if let Block::Section(s) = b
            && s.section_type() == SectionType::Discrete
        {
            assert!(b.nested_blocks().next().is_none());
        }
    }
    for b in doc.nested_blocks() {
        go(b, usize::MAX, &mut seen);
    }
    if seen.len() != g.want.len() {
        ctx.fail("number of blocks", format!("expected {}, got {}:\n{}", g.want.len(), seen.len(), util::dump(&doc)));
        return;
    }
    let c = doc.catalog();
    let mut holders: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    let mut bases: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, s) in seen.iter().enumerate() {
        if let Some(id) = &s.id {
            holders.entry(id.clone()).or_default().push(i);
        }
        if let Want::Auto { base, .. } = &g.want[i] {
            *bases.entry(base).or_default() += 1;
        }
    }
    if bases.values().any(|n| *n >= 10) {
        ctx.count("ten of the same title");
    }
    let manual: BTreeSet<&str> = g.want.iter().filter_map(|w| if let Want::Manual { id, .. } = w { Some(id.as_str()) } else { None }).collect();
    let mut last: BTreeMap<(usize, String), usize> = BTreeMap::new();
    for (i, w) in g.want.iter().enumerate() {
        let got = seen[i].id.as_deref();
        match w {
            Want::None { section } => {
                ctx.expect_eq("a block that should have no ID", &None, &got);
                if *section {
                    ctx.count("sections without an ID");
                }
                ctx.expect_eq("kind of block", section, &seen[i].section);
            }
            Want::Manual { id, section, .. } => {
                ctx.count("explicit IDs");
                ctx.expect_eq("explicit ID", &Some(id.as_str()), &got);
                ctx.expect_eq("kind of block", section, &seen[i].section);
            }
            Want::Auto { base, .. } => {
                ctx.count("generated IDs");
                let Some(id) = got else {
                    ctx.fail("a section has no generated ID", format!("expected {base:?}"));
                    continue;
                };
                let n = if id == base {
                    1
                } else {
                    match id.strip_prefix(base.as_str()).and_then(|t| t.strip_prefix('-')).and_then(|t| t.parse::<usize>().ok()) {
                        Some(n) if n >= 2 => {
                            ctx.count("generated IDs that had to differ from others");
                            n
                        }
                        _ => {
                            ctx.fail("a generated ID is not made from the title", format!("expected {base:?} (or with a number), got {id:?}"));
                            continue;
                        }
                    }
                };
                // Every smaller number is taken.
                for k in 1..n {
                    let t = if k == 1 { base.clone() } else { format!("{base}-{k}") };
                    if !c.contains_id(&t) {
                        ctx.fail("a generated ID skips a free number", format!("{id:?} although {t:?} is free"));
                    }
                }
                // Sections side by side are numbered in order.
                if !manual.iter().any(|m| m.starts_with(base.as_str())) {
                    let key = (seen[i].parent, base.clone());
                    if let Some(l) = last.get(&key)
                        && *l >= n
                    {
                        ctx.fail("generated IDs are out of order", format!("{id:?} after number {l}"));
                    }
                    last.insert(key, n);
                }
            }
        }
    }
    // Uniqueness, the catalog, the warnings.
    let mut want_warn: Vec<String> = vec![];
    for (id, hs) in &holders {
        let autos = hs.iter().filter(|h| matches!(g.want[**h], Want::Auto { .. })).count();
        if autos > 1 {
            ctx.fail("two sections have the same generated ID", format!("{id:?}"));
        }
        if hs.len() > 1 {
            ctx.count("duplicate explicit IDs");
        }
        for _ in 1..hs.len() {
            want_warn.push(format!("WarningType::DuplicateId({id:?})"));
        }
        let Some(e) = c.get_ref(id) else {
            ctx.fail("an ID of the document is not in the catalog", format!("{id:?}"));
            continue;
        };
        ctx.expect_eq("ID in the catalog entry", id, &e.id);
        // Which block an entry describes is the first, unless one is inside another.
        let inside = hs.iter().any(|a| {
            let mut k = seen[*a].parent;
            while k != usize::MAX {
                if hs.contains(&k) {
                    return true;
                }
                k = seen[k].parent;
            }
            false
        });
        if !inside && autos == 0 || hs.len() == 1 {
            let (t, section) = match &g.want[hs[0]] {
                Want::Auto { reftext, .. } => (Some(reftext.clone()), true),
                Want::Manual { reftext, section, .. } => (reftext.clone(), *section),
                Want::None { .. } => continue,
            };
            if t.is_some() {
                ctx.count("reference texts");
            }
            ctx.expect_eq("reference text", &t, &e.reftext);
            ctx.expect_eq("type of reference", &(if section { RefType::Section } else { RefType::Anchor }), &e.ref_type);
        }
    }
    ctx.expect_eq("number of IDs in the catalog", &holders.len(), &c.len());
    ctx.expect_eq("catalog is empty", &holders.is_empty(), &c.is_empty());
    ctx.check("unknown ID in the catalog", !c.contains_id("no such id") && c.get_ref("no such id").is_none() && !c.contains_id("inner"), String::new);
    // A reference text leads to the (first) block that has it.
    let mut by_text: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for id in holders.keys() {
        if let Some(t) = c.get_ref(id).and_then(|e| e.reftext.as_deref()) {
            by_text.entry(t).or_default().push(id);
        }
    }
    for (t, ids) in by_text {
        match c.resolve_id(t) {
            Some(i) if ids.contains(&i.as_str()) => {
                // Of several blocks that have it, none in another, to the first.
                let mut first: Vec<usize> = vec![];
                for id in &ids {
                    if let [a] = holders[*id][..] {
                        first.push(a);
                    }
                }
                first.sort();
                let nested = first.iter().any(|a| {
                    let mut k = seen[*a].parent;
                    while k != usize::MAX {
                        if first.contains(&k) {
                            return true;
                        }
                        k = seen[k].parent;
                    }
                    false
                });
                if ids.len() > 1 && first.len() == ids.len() && !nested {
                    ctx.count("reference texts of several blocks");
                    ctx.check("a reference text leads to the first block that has it", holders[i.as_str()][0] == first[0], || {
                        format!("{t:?} -> {i:?}, one of {ids:?}")
                    });
                }
            }
            x => ctx.fail("reference text is not resolved", format!("{t:?} -> {x:?}, expected one of {ids:?}")),
        }
    }
    ctx.expect_eq("unknown reference text", &None, &c.resolve_id("no such text"));
    let mut got_warn: Vec<String> = doc.warnings().map(|w| format!("{:?}", w.warning)).filter(|w| w.contains("Duplicate")).collect();
    got_warn.sort();
    want_warn.sort();
    ctx.expect_eq("warnings about duplicate IDs", &want_warn, &got_warn);
    if holders.len() >= 3 {
        ctx.distinct(&g.s);
        ctx.sample(&g.s);
    }
}
