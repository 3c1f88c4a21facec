//! Attribute entries: values, scope in document order, and permission to modify.
use std::collections::BTreeMap;

use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock},
    document::{Attribute, InterpretedValue},
};

use super::PropDef;
use crate::{ctx::Ctx, generate::config::context, rng::Rng, util::val};

pub const DEF: PropDef = PropDef {
    id: "C15",
    quick: 180_000,
    thorough: 4_000_000,
    run,
    needs: &[
        "header entries",
        "body entries",
        "entries refused in the header",
        "entries refused in the body",
        "references to a value",
        "references to a set attribute",
        "references to an unset attribute",
        "unknown references",
        "parsers used again",
        "entries in nested blocks",
        "values over several lines",
        "built-in attributes changed",
    ],
    rule: "Each case configures a parser with up to 6 attributes (value, set or unset; each of the four modification contexts), then parses one to three documents of header and body attribute entries (set, unset, multi-line, with references, refused or not), references in paragraphs, titles and attribute lists, in sections and nested blocks, against a model of each attribute's value and permission. Every entry's value, every rendered reference, the locked warnings and the parser's values afterwards must be the model's. Non-trivial: at least 3 entries; distinct by text.",
};

#[derive(Clone, Debug, PartialEq)]
enum V {
    Val(String),
    Set,
    Unset,
}

#[derive(Clone, Debug)]
struct A {
    v: V,
    /// 0 API only, 1 API or header, 2 API or body, 3 anywhere
    c: u8,
}

fn built_in() -> BTreeMap<String, A> {
    let mut m = BTreeMap::new();
    let mut p = |n: &str, v: V, c: u8| {
        m.insert(n.to_string(), A { v, c });
    };
    p("empty", V::Val(String::new()), 0);
    p("sp", V::Val(" ".into()), 0);
    p("deg", V::Val("&#176;".into()), 0);
    p("plus", V::Val("&#43;".into()), 0);
    p("toc", V::Unset, 1);
    p("sectnumlevels", V::Val("3".into()), 1);
    p("sectids", V::Set, 3);
    p("sectnums", V::Unset, 3);
    p("idprefix", V::Val("_".into()), 3);
    p("idseparator", V::Val("_".into()), 3);
    p("example-caption", V::Set, 3);
    p("iconsdir", V::Set, 3);
    m
}

fn default_of(n: &str) -> Option<&'static str> {
    Some(match n {
        "example-caption" => "Example",
        "iconsdir" => "./images/icons",
        "sectnums" => "all",
        "toc" => "auto",
        _ => return None,
    })
}

const OWN: &[&str] = &["a_long_name_with_low_lines_of_more_than_thirty_characters", "a", "b-c", "x1", "foo", "bar_baz", "9lives", "product-name", "_u", "zz-z-", "very-long-attribute-name-of-some-kind"];
const BUILT: &[&str] = &["empty", "sp", "plus", "toc", "sectnumlevels", "sectids", "sectnums", "idprefix", "idseparator", "example-caption", "iconsdir", "doctitle"];

struct Entry {
    name: String,
    raw: Option<String>,
    value: V,
    src: String,
}

struct M<'c> {
    r: Rng,
    st: BTreeMap<String, A>,
    ctx: &'c mut Ctx,
    src: String,
    header: Vec<Entry>,
    body: Vec<Entry>,
    locked: Vec<(String, String)>,
    /// Rendered texts expected in document order.
    rendered: Vec<String>,
    entries: usize,
    in_header: bool,
    budget: usize,
}

impl M<'_> {
    fn lookup(&self, n: &str) -> Option<V> {
        let a = self.st.get(n)?;
        Some(match (&a.v, default_of(n)) {
            (V::Set, Some(d)) => V::Val(d.into()),
            (v, _) => v.clone(),
        })
    }

    fn name(&mut self) -> String {
        if self.r.one_in(4) { self.r.pick(BUILT).to_string() } else { self.r.pick(OWN).to_string() }
    }

    fn cased(&mut self, n: &str) -> String {
        match self.r.below(8) {
            0 => n.to_uppercase(),
            1 => {
                let mut c = n.chars();
                c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
            }
            _ => n.to_string(),
        }
    }

    /// A reference as written and as rendered.
    fn reference(&mut self) -> (String, String) {
        if self.r.one_in(8) {
            let n = self.r.pick(&["nope", "not-set-x", "q9"]);
            self.ctx.count("unknown references");
            return (format!("{{{n}}}"), format!("{{{n}}}"));
        }
        let n = self.name();
        let w = format!("{{{}}}", self.cased(&n));
        match self.lookup(&n) {
            None => {
                self.ctx.count("unknown references");
                (w.clone(), w)
            }
            Some(V::Val(v)) => {
                self.ctx.count("references to a value");
                (w, v)
            }
            Some(V::Set) => {
                self.ctx.count("references to a set attribute");
                (w, String::new())
            }
            Some(V::Unset) => {
                self.ctx.count("references to an unset attribute");
                (w, String::new())
            }
        }
    }

    fn piece(&mut self) -> (String, String) {
        if self.r.pct(35) {
            return self.reference();
        }
        let w = *self.r.choose(&["v", "one", "42", "é", "<", "&", ">", "x=y", "a:b", "ok", "Uno", "4+", "false", "0"]);
        (w.to_string(), crate::util::html(w))
    }

    fn value(&mut self) -> (String, String) {
        let n = self.r.range(1, 4);
        let mut s = String::new();
        let mut v = String::new();
        for k in 0..n {
            let (a, b) = self.piece();
            if k > 0 {
                match self.r.below(12) {
                    10 => {
                        // A line that is a break, and one that begins or ends with white space of another kind.
                        self.ctx.count("values over several lines");
                        let (a, b) = *self.r.choose(&[(" \\\n + \\\n ", " \n"), (" \\\n+ \\\n", " \n"), (" \\\n\u{a0}", " \u{a0}"), (" \\\n \u{2003}", " \u{2003}"), ("\u{a0} \\\n", "\u{a0} ")]);
                        s.push_str(a);
                        v.push_str(b);
                    }
                    0 | 1 => {
                        self.ctx.count("values over several lines");
                        s.push_str(self.r.pick(&[" \\\n", " \\\n  ", " \\\n\t"]));
                        v.push(' ');
                    }
                    2 => {
                        self.ctx.count("values over several lines");
                        s.push_str(self.r.pick(&[" + \\\n", " + \\\n    ", " + \\\n \t "]));
                        v.push('\n');
                    }
                    _ => {
                        s.push(' ');
                        v.push(' ');
                    }
                }
            }
            s.push_str(&a);
            v.push_str(&b);
        }
        (s, v)
    }

    fn entry(&mut self) {
        let n = self.name();
        let mut w = self.cased(&n);
        if w.to_lowercase() != n {
            w = n.clone();
        }
        let (src, raw, value) = match self.r.weighted(&[7, 2, 2]) {
            0 => {
                let (s, v) = if matches!(n.as_str(), "sectnumlevels") {
                    let l = self.r.range(1, 5).to_string();
                    (l.clone(), l)
                } else {
                    self.value()
                };
                let gap = self.r.pick(&[" ", " ", " ", "  ", "\t"]);
                (format!(":{w}:{gap}{s}"), Some(s), V::Val(v))
            }
            1 => (format!(":{w}:"), None, V::Set),
            _ => (if self.r.bool() { format!(":!{w}:") } else { format!(":{w}!:") }, None, V::Unset),
        };
        self.entries += 1;
        let tail = if self.r.one_in(10) { self.r.pick(&[" ", "  ", "\t"]) } else { "" };
        self.src.push_str(&src);
        self.src.push_str(tail);
        self.src.push('\n');
        let old = self.st.get(&n).cloned();
        let refused = match &old {
            Some(a) => {
                if self.in_header {
                    a.c == 0 || a.c == 2
                } else {
                    a.c == 0 || a.c == 1
                }
            }
            None => false,
        };
        if refused {
            self.ctx.count(if self.in_header { "entries refused in the header" } else { "entries refused in the body" });
            self.locked.push((src.clone(), n.clone()));
        } else {
            if BUILT.contains(&n.as_str()) {
                self.ctx.count("built-in attributes changed");
            }
            self.st.insert(n.clone(), A { v: value.clone(), c: old.map(|a| a.c).unwrap_or(3) });
        }
        let e = Entry { name: w, raw, value, src };
        if self.in_header {
            self.ctx.count("header entries");
            self.header.push(e);
        } else {
            self.ctx.count("body entries");
            self.body.push(e);
        }
    }

    fn text(&mut self) -> (String, String) {
        let n = self.r.range(1, 5);
        let mut s = String::from("t");
        let mut v = String::from("t");
        for _ in 0..n {
            let (a, b) = self.piece();
            let g = self.r.pick(&[" ", " ", "|", "\n"]);
            s.push_str(g);
            v.push_str(g);
            if g == "\n" {
                s.push('z');
                v.push('z');
                s.push('z');
                v.push('z');
            }
            s.push_str(&a);
            v.push_str(&b);
        }
        (s + "|", v + "|")
    }

    fn line(&mut self) -> (String, String) {
        let (s, v) = self.text();
        (s.replace('\n', " "), v)
    }

    fn blocks(&mut self, depth: usize, level: usize) {
        let n = self.r.range(1, 6);
        for _ in 0..n {
            if self.budget == 0 {
                return;
            }
            self.budget -= 1;
            match self.r.weighted(&[8, 9, 2, 2, 1, 2]) {
                0 => {
                    for _ in 0..self.r.range(1, 3) {
                        if depth > 0 {
                            self.ctx.count("entries in nested blocks");
                        }
                        self.entry();
                    }
                    if self.r.bool() {
                        self.src.push('\n');
                    }
                }
                1 => {
                    let (s, v) = self.text();
                    self.src.push_str(&s);
                    // An entry that does not begin a block is text.
                    let v = if self.r.one_in(6) {
                        self.src.push_str("\n:a: not an entry");
                        v + "\n:a: not an entry"
                    } else {
                        v
                    };
                    self.src.push_str("\n\n");
                    self.rendered.push(v);
                }
                2 if depth < 3 => {
                    let d = self.r.pick(&["====", "****", "____"]);
                    let d = d.to_string() + &d[..1].repeat(depth);
                    self.src.push_str(&format!("{d}\n"));
                    self.blocks(depth + 1, 9);
                    self.src.push_str(&format!("{d}\n\n"));
                }
                3 if level < 3 => {
                    let mut s = String::from("T");
                    let mut v = String::from("T");
                    for _ in 0..2 {
                        let (a, b) = self.piece();
                        s += &format!(" {a}");
                        v += &format!(" {b}");
                    }
                    self.src.push_str(&format!("{} {s}|\n\n", "=".repeat(level + 2)));
                    self.rendered.push(format!("{v}|"));
                    self.blocks(depth, level + 1);
                }
                4 => {
                    // Nothing in a listing block is an entry or a reference.
                    self.src.push_str("----\n:a: changed\n{a}\n:!b-c:\n----\n\n");
                    self.rendered.push(":a: changed\n{a}\n:!b-c:".into());
                }
                _ => {
                    let mut s = String::from("x");
                    let mut v = String::from("x");
                    let (a, b) = self.piece();
                    s += &format!(" {a}");
                    v += &format!(" {b}");
                    self.src.push_str(&format!(".{s}|\ntitled\n\n"));
                    self.rendered.push(format!("{v}|"));
                    self.rendered.push("titled".into());
                }
            }
        }
    }

    fn document(&mut self) {
        self.in_header = true;
        self.budget = self.r.range(2, 18);
        let crowd = self.r.below(5);
        for _ in 0..crowd {
            self.entry();
            if self.r.one_in(6) {
                self.src.push_str(self.r.pick(&["// comment\n", "\n"]));
            }
        }
        if self.r.pct(60) {
            let t = self.r.pick(&["Title", "A < B", "My Document"]);
            self.src.push_str(&format!("= {t}\n"));
            let c = self.st.get("doctitle").map(|a| a.c).unwrap_or(3);
            if c == 1 || c == 3 {
                self.st.insert("doctitle".into(), A { v: V::Val(crate::util::html(t)), c });
            }
            for _ in 0..self.r.below(5) {
                self.entry();
            }
            self.src.push('\n');
        } else {
            self.src.push('\n');
            self.src.push_str("start\n\n");
            self.rendered.push("start".into());
        }
        self.in_header = false;
        while self.budget > 0 {
            self.blocks(0, 0);
        }
    }
}

fn observed_entry(a: &Attribute<'_>) -> String {
    format!("{:?} {:?} {} {:?}", a.name().data(), a.raw_value().map(|v| v.data().trim_end().to_string()), val(a.value()), a.span().data())
}

fn expected_entry(e: &Entry) -> String {
    let v = match &e.value {
        V::Val(s) => format!("={s}"),
        V::Set => "set".into(),
        V::Unset => "unset".into(),
    };
    format!("{:?} {:?} {} {:?}", e.name, e.raw, v, e.src)
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let mut p = Parser::default();
    let mut st = built_in();
    let mut note = String::new();
    for _ in 0..r.below(7) {
        let n = if r.one_in(3) { r.pick(BUILT) } else { r.pick(OWN) };
        let c = r.below(4) as u8;
        let written = if r.one_in(5) { n.to_uppercase() } else { n.to_string() };
        let mc = context(c);
        let c = match mc {
            asciidoc_parser::parser::ModificationContext::ApiOnly => 0,
            asciidoc_parser::parser::ModificationContext::ApiOrHeader => 1,
            asciidoc_parser::parser::ModificationContext::ApiOrDocumentBody => 2,
            asciidoc_parser::parser::ModificationContext::Anywhere => 3,
        };
        let v = match r.below(4) {
            0 => V::Set,
            1 => V::Unset,
            _ => V::Val(if n == "sectnumlevels" { "2".into() } else { r.pick(&["api", "api value", "", "é", "a|b", "false", "0", "!", "unset"]).to_string() }),
        };
        note.push_str(&format!("{written} {v:?} {mc:?}; "));
        p = match &v {
            V::Val(s) => p.with_intrinsic_attribute(&written, s, mc),
            V::Set => p.with_intrinsic_attribute_bool(&written, true, mc),
            V::Unset => p.with_intrinsic_attribute_bool(&written, false, mc),
        };
        st.insert(n.to_string(), A { v, c });
    }
    let mut all = format!("[{note}]\n");
    let times = r.weighted(&[6, 3, 1]) + 1;
    for turn in 0..times {
        if turn > 0 {
            ctx.count("parsers used again");
        }
        let mut m = M {
            r: Rng::new(r.next()),
            st: std::mem::take(&mut st),
            ctx,
            src: String::new(),
            header: vec![],
            body: vec![],
            locked: vec![],
            rendered: vec![],
            entries: 0,
            in_header: true,
            budget: 0,
        };
        m.document();
        let M { st: s2, src, header, body, mut locked, rendered, entries, .. } = m;
        st = s2;
        all.push_str(&src);
        all.push('\u{1e}');
        ctx.input(&all);
        let doc = p.parse(&src);
        ctx.eval();
        let got: Vec<String> = doc.header().attributes().map(|a| observed_entry(a)).collect();
        let want: Vec<String> = header.iter().map(expected_entry).collect();
        ctx.expect_eq("attribute entries in the header", &want, &got);
        let mut got = vec![];
        let mut texts: Vec<String> = vec![];
        crate::util::walk(&doc, &mut |b, _| {
            if let Some(t) = b.title() {
                texts.push(t.to_string());
            }
            match b {
                Block::DocumentAttribute(a) => got.push(observed_entry(a)),
                Block::Section(s) => texts.push(s.section_title().to_string()),
                _ => {
                    if let Some(t) = b.rendered_content() {
                        texts.push(t.to_string());
                    }
                }
            }
        });
        let want: Vec<String> = body.iter().map(expected_entry).collect();
        ctx.expect_eq("attribute entries in the body", &want, &got);
        ctx.expect_eq("references as rendered", &rendered, &texts);
        let mut w: Vec<(String, String)> = doc
            .warnings()
            .filter_map(|w| {
                let d = format!("{:?}", w.warning);
                let n = d.strip_prefix("WarningType::AttributeValueIsLocked(\"")?.strip_suffix("\")")?.to_string();
                Some((w.source.data().to_string(), n))
            })
            .collect();
        w.sort();
        locked.sort();
        ctx.expect_eq("warnings about attributes that may not be changed", &locked, &w);
        for n in OWN.iter().chain(BUILT).chain(["nope", "deg"].iter()) {
            let want = st.get(*n).map(|a| match (&a.v, default_of(n)) {
                (V::Set, Some(d)) => V::Val(d.into()),
                (v, _) => v.clone(),
            });
            let got = match p.attribute_value(n) {
                InterpretedValue::Value(s) => V::Val(s),
                InterpretedValue::Set => V::Set,
                InterpretedValue::Unset => V::Unset,
            };
            let w2 = want.clone().unwrap_or(V::Unset);
            ctx.check("value of an attribute after parsing", got == w2, || format!("{n}: expected {w2:?}, got {got:?}"));
            ctx.check("whether an attribute exists after parsing", p.has_attribute(n) == want.is_some(), || n.to_string());
            ctx.check("whether an attribute is set after parsing", p.is_attribute_set(n) == (w2 != V::Unset), || n.to_string());
        }
        if entries >= 3 {
            ctx.distinct(&all);
            ctx.sample(&src);
        }
    }
}
