//! Warnings: every mistake once, at its place, and nothing else.
use asciidoc_parser::{Parser, parser::ModificationContext};

use super::PropDef;
use crate::{ctx::Ctx, rng::Rng, util};

pub const DEF: PropDef = PropDef {
    id: "C34",
    quick: 180_000,
    thorough: 3_000_000,
    run,
    needs: &[
        "several mistakes in one list",
        "AttributeValueMissingTerminatingQuote",
        "DocumentHeaderNotTerminated",
        "EmptyAttributeValue",
        "EmptyShorthandItem",
        "MissingCommaAfterQuotedAttributeValue",
        "UnterminatedDelimitedBlock",
        "MissingBlockAfterTitleOrAttributeList",
        "EmptyBlockAnchorName",
        "InvalidBlockAnchorName",
        "AttributeValueIsLocked",
        "DuplicateId",
        "Level0SectionHeadingNotSupported",
        "SectionHeadingLevelSkipped",
        "SectionHeadingLevelExceedsMaximum",
        "mistakes in the document header",
        "mistakes in the preamble",
        "mistakes in sections",
        "mistakes in nested blocks",
        "mistakes above a section heading",
        "mistakes in a block macro",
        "documents without mistakes",
        "documents of ten mistakes and more",
        "CRLF",
    ],
    rule: "Documents with a header, a preamble, sections of up to four levels, blocks nested up to four deep, and all kinds of leaf blocks, with up to 40 mistakes of the 14 reported kinds put in; the reported warnings must be exactly these mistakes, each once, on the line where it was made and about text of that line. Non-trivial: at least two mistakes; distinct by text.",
};

struct G<'r> {
    r: &'r mut Rng,
    lines: Vec<String>,
    /// Kind and line.
    want: Vec<(String, usize)>,
    places: Vec<&'static str>,
    place: &'static str,
    ids: Vec<String>,
    next: usize,
    rate: usize,
    several: u64,
}

impl G<'_> {
    fn push(&mut self, s: impl Into<String>) {
        self.lines.push(s.into());
    }

    fn blank(&mut self) {
        self.push("");
        if self.r.one_in(6) {
            self.push("");
        }
    }

    fn mistake(&mut self) -> bool {
        self.rate > 0 && self.r.one_in(self.rate)
    }

    /// The mistake is on the line to be pushed next.
    fn note(&mut self, kind: &str) {
        self.want.push((kind.into(), self.lines.len() + 1));
        self.places.push(self.place);
    }

    fn attrlist(&mut self) -> String {
        self.next += 1;
        let n = self.next;
        if !self.mistake() {
            return match self.r.below(8) {
                0 => format!("#i{n}.r%o"),
                1 => format!("a{n}=\"x, y\",b=2"),
                2 => format!("style,a{n}=''"),
                3 => format!("a{n}='x\"', b=\"'\""),
                4 => ".r1.r2".into(),
                5 => format!("role=\"a b\",id=j{n}"),
                6 => "options=\"a,b\"".into(),
                _ => format!("n{n}=v w, title=é"),
            };
        }
        if self.r.one_in(4) {
            // Several mistakes in one list, each reported.
            let (n, s): (&[&str], &str) = self.r.choose(&[
                (&["EmptyAttributeValue", "EmptyAttributeValue"][..], "a=1,,b=2,,c=3"),
                (&["EmptyAttributeValue", "EmptyAttributeValue"], "x,,y, ,z"),
                (&["EmptyAttributeValue", "AttributeValueMissingTerminatingQuote"], "a=1,,b=\"x"),
                (&["EmptyAttributeValue", "MissingCommaAfterQuotedAttributeValue"], "a=1,,b=\"x\"y"),
                (&["EmptyShorthandItem", "EmptyAttributeValue"], "#,,a=1"),
                (&["EmptyShorthandItem", "EmptyShorthandItem"], "..a#"),
            ]).to_owned();
            if self.place != "mistakes in a block macro" || !n.contains(&"EmptyShorthandItem") {
                self.several += 1;
                for k in n {
                    self.note(k);
                }
                return s.into();
            }
        }
        let (k, s) = match self.r.below(5) {
            0 => ("AttributeValueMissingTerminatingQuote", self.r.pick(&["a=\"x", "a='x y", "a=1,b=\"é", "\"x"])),
            1 => ("EmptyShorthandItem", self.r.pick(&[".", "#", "%", ".a#", ".a%%b", "x.", "style#", ".r.,a=b"])),
            2 => ("MissingCommaAfterQuotedAttributeValue", self.r.pick(&["a=\"x\"y", "a='x'y,b=c", "\"x\"y", "a=\"\"b"])),
            3 => ("EmptyAttributeValue", self.r.pick(&["a=1,,b=2", "a=1,,b", "a=b, ,c=d"])),
            _ => ("EmptyShorthandItem", self.r.pick(&["#,a=1", "a..b"])),
        };
        // In a macro there is no shorthand, just text.
        if k != "EmptyShorthandItem" || self.place != "mistakes in a block macro" {
            self.note(k);
        }
        s.into()
    }

    /// Title and attribute list.
    fn meta(&mut self) {
        if self.r.one_in(5) {
            self.push(".A title");
        }
        if self.r.one_in(3) {
            let a = self.attrlist();
            let k = self.lines.len() + 1;
            debug_assert!(self.want.last().is_none_or(|w| w.1 <= k));
            self.push(format!("[{a}]"));
        }
    }

    fn text(&mut self) {
        self.next += 1;
        let t = self.r.pick(&["text", "é 日本", "*bold* and `code`", "image::x", "x [a=\"b] y", "video::[]", "link:x[", "a ** b", "{nope}", "100% & <b>", "term:: def", "[[inline]] here", "x = y", "#mark# a", "#a b#", "##unconstrained##", "###x"]);
        self.push(format!("{t} {}", self.next));
        for _ in 0..self.r.below(3) {
            let t = self.r.pick(&["more", ".not a title", "= no heading", "image::y[a=\"z] no", ":x: y", "// comment", "====="]);
            if t == "=====" {
                continue;
            }
            self.push(t);
        }
    }

    fn leaf(&mut self, top: bool) {
        match self.r.below(16) {
            // A locked attribute.
            0 => {
                let n = self.r.pick(&["locked", "Locked", "free", "other"]);
                if n.eq_ignore_ascii_case("locked") {
                    if !self.mistake() {
                        return;
                    }
                    self.note("AttributeValueIsLocked");
                }
                let v = self.r.pick(&[":", ": x", "!:"]);
                self.push(format!(":{n}{v}"));
                self.blank();
            }
            // Anchors.
            1 | 2 => {
                if self.mistake() {
                    match self.r.below(3) {
                        0 => {
                            self.note("EmptyBlockAnchorName");
                            self.push("[[]]");
                        }
                        1 => {
                            self.note("InvalidBlockAnchorName");
                            let a = self.r.pick(&["1x", "a b", "x!", ",t", "a\"", "-a", "é/", "日 本,text", " ", "\t"]);
                            self.push(format!("[[{a}]]"));
                        }
                        _ if !self.ids.is_empty() => {
                            let id = self.r.choose(&self.ids).clone();
                            self.note("DuplicateId");
                            match self.r.below(3) {
                                0 => self.push(format!("[[{id}]]")),
                                1 => self.push(format!("[#{id}]")),
                                _ => self.push(format!("[[{id},with text]]")),
                            }
                        }
                        _ => (),
                    }
                } else {
                    self.next += 1;
                    let id = format!("{}{}", self.r.pick(&["id", "é", "A_"]), self.next);
                    match self.r.below(3) {
                        0 => self.push(format!("[[{id}]]")),
                        1 => self.push(format!("[[{id}, text, and more]]")),
                        _ => self.push(format!("[#{id}]")),
                    }
                    self.ids.push(id);
                }
                self.text();
                self.blank();
            }
            // Headings that are none.
            3 if top && self.mistake() => {
                if self.r.bool() {
                    self.note("Level0SectionHeadingNotSupported");
                    self.push("= Zero");
                } else {
                    self.note("SectionHeadingLevelExceedsMaximum");
                    let n = self.r.range(7, 9);
                    let h = self.r.pick(&["=", "#"]).repeat(n);
                    self.push(format!("{h} Deep"));
                }
                self.blank();
            }
            4 | 5 => {
                self.meta();
                let t = self.r.pick(&["image", "video", "audio"]);
                let old = self.place;
                self.place = "mistakes in a block macro";
                let a = if self.r.bool() { self.attrlist() } else { String::new() };
                self.place = old;
                self.push(format!("{t}::x.png[{a}]"));
                if self.r.bool() {
                    self.blank();
                }
            }
            6 => {
                self.meta();
                let b = self.r.pick(&["'''", "<<<", "* * *"]);
                self.push(b);
                if self.r.bool() {
                    self.blank();
                }
            }
            7 | 8 => {
                self.meta();
                let d = self.r.pick(&["----", "....", "++++", "////", "------"]);
                self.push(d);
                for _ in 0..self.r.below(4) {
                    let l = self.r.pick(&["[a=\"x]", ".t", "", "=======", "= T", "[[]]", "x", "== X"]);
                    self.push(l);
                }
                self.push(d);
                self.blank();
            }
            9 if self.mistake() => {
                // Metadata, then a blank line.
                self.note("MissingBlockAfterTitleOrAttributeList");
                match self.r.below(3) {
                    0 => self.push(".Only a title"),
                    1 => self.push("[alone]"),
                    _ => {
                        // The title becomes text, which ends at the list, which stands alone, too.
                        self.push(".Title");
                        self.note("MissingBlockAfterTitleOrAttributeList");
                        self.push("[and,list]");
                    }
                }
                self.blank();
            }
            _ => {
                self.meta();
                self.text();
                self.blank();
            }
        }
    }

    fn blocks(&mut self, depth: usize, top: bool, used: &[&str]) {
        for _ in 0..self.r.range(1, if depth == 0 { 5 } else { 4 }) {
            if depth < 4 && self.r.one_in(4) {
                self.compound(depth, used);
            } else {
                self.leaf(top);
            }
        }
    }

    fn compound(&mut self, depth: usize, used: &[&str]) {
        let free: Vec<&str> = ["====", "--", "****", "____", "=====", "******"].into_iter().filter(|d| !used.contains(d)).collect();
        let d = *self.r.choose(&free);
        self.meta();
        self.push(d);
        let old = self.place;
        self.place = "mistakes in nested blocks";
        let mut u = used.to_vec();
        u.push(d);
        self.blocks(depth + 1, false, &u);
        if self.mistake() {
            // Up to the end of this block.
            self.blank();
            let free: Vec<&str> = ["----", "....", "++++", "====", "--", "____", "////"].into_iter().filter(|d| !u.contains(d)).collect();
            let o = *self.r.choose(&free);
            self.meta();
            self.note("UnterminatedDelimitedBlock");
            self.push(o);
            self.push("open");
        }
        self.place = old;
        self.push(d);
        if self.r.bool() {
            self.blank();
        }
    }
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let rate = r.choose(&[0, 8, 4, 2, 2, 1]).to_owned();
    let mut g = G {
        r: &mut r,
        lines: vec![],
        want: vec![],
        places: vec![],
        place: "mistakes in the document header",
        ids: vec![],
        next: 0,
        rate,
        several: 0,
    };
    if g.r.bool() {
        let mut title = false;
        if g.r.bool() {
            g.push("= Title");
            title = true;
        }
        for _ in 0..g.r.below(3) {
            if g.mistake() {
                g.note("AttributeValueIsLocked");
                g.push(":locked: x");
            } else {
                let l = g.r.pick(&[":free: x", ":x!:", "// comment", ":y: \"z"]);
                g.push(l);
            }
        }
        if title && g.mistake() {
            g.push("Ann Bell");
            g.push("v1.0");
            g.note("DocumentHeaderNotTerminated");
            g.push("What is this?");
        }
        g.blank();
    }
    if !g.lines.first().is_some_and(|l| l == "= Title") {
        // Lest a heading below become the title.
        g.push("Intro.");
        g.blank();
    }
    g.place = "mistakes in the preamble";
    if g.r.bool() {
        g.blocks(0, true, &[]);
        g.blank();
    }
    g.place = "mistakes in sections";
    let mut level = 0;
    for _ in 0..g.r.below(5) {
        let l = g.r.range(1, (level + 1).min(4));
        let mut l2 = l;
        let skip = level > 0 && l == level + 1 && l < 4 && g.mistake();
        if skip {
            l2 = l + 1;
        }
        let old = g.place;
        g.place = "mistakes above a section heading";
        g.meta();
        if skip {
            g.note("SectionHeadingLevelSkipped");
        }
        g.place = old;
        let n = g.next;
        g.push(format!("{} Section {n}", "=".repeat(l2 + 1)));
        g.next += 1;
        g.blank();
        // What follows a level that was skipped is in doubt: start again at the top.
        level = if skip { 0 } else { l };
        g.blocks(0, true, &[]);
        g.blank();
    }
    if g.mistake() {
        g.blank();
        let o = g.r.pick(&["----", "====", "--", "....", "****"]);
        g.meta();
        g.note("UnterminatedDelimitedBlock");
        g.push(o);
        g.push("open to the end");
    } else if g.mistake() {
        g.blank();
        g.note("MissingBlockAfterTitleOrAttributeList");
        let l = g.r.pick(&[".Last", "[last]", "[a=b]", "[[x]]"]);
        g.push(l);
    }
    let several = g.several;
    let G { lines, want, places, .. } = g;
    let nl = if r.one_in(6) {
        ctx.count("CRLF");
        "\r\n"
    } else {
        "\n"
    };
    let mut src = lines.join(nl);
    if r.bool() {
        src.push_str(nl);
    }
    ctx.input(&src);
    for p in places {
        ctx.count(p);
    }
    for (k, _) in &want {
        ctx.count(k);
    }
    ctx.add("several mistakes in one list", several);
    if want.is_empty() {
        ctx.count("documents without mistakes");
    }
    if want.len() >= 10 {
        ctx.count("documents of ten mistakes and more");
    }
    let mut p = Parser::default().with_intrinsic_attribute("locked", "v", ModificationContext::ApiOnly);
    let doc = p.parse(&src);
    ctx.eval();
    let mut got: Vec<(String, usize)> = vec![];
    for w in doc.warnings() {
        let d = format!("{:?}", w.warning);
        let k = d.trim_start_matches("WarningType::").split('(').next().unwrap_or_default().to_string();
        let line = w.source.line();
        let first = w.source.data().lines().next().unwrap_or_default().trim_end();
        ctx.check("the text that a warning is about", lines.get(line - 1).is_some_and(|l| l.contains(first)), || format!("{d} at line {line} {first:?}, which is {:?}", lines.get(line - 1)));
        got.push((k, line));
    }
    let mut want2 = want.clone();
    want2.sort();
    got.sort();
    ctx.check("the mistakes reported", want2 == got, || {
        let missing: Vec<_> = want2.iter().filter(|w| !got.contains(w)).collect();
        let more: Vec<_> = got.iter().filter(|w| !want2.contains(w)).collect();
        format!("missing {missing:?}, not expected {more:?}; {} expected, {} reported: {}", want2.len(), got.len(), util::warnings_dump(&doc))
    });
    if want2.len() > 1 {
        ctx.distinct(&src);
        ctx.sample(&src);
    }
}
