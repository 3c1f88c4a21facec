//! Documents by construction: writes a random document and, with it, the tree
//! of blocks that it denotes. The tree is never derived from the code under
//! test.

use crate::{rng::Rng, util::html};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Paragraph style: Paragraph, Literal, Listing, Source.
    Para(&'static str),
    Raw(&'static str),
    Compound(&'static str),
    Section,
    Discrete,
    Preamble,
    Media(&'static str),
    Break(&'static str),
    Attr,
}

#[derive(Clone, Debug, Default)]
pub struct AttrExp {
    pub src: String,
    pub style: Option<String>,
    pub id: Option<String>,
    pub roles: Vec<String>,
    pub opts: Vec<String>,
    pub named: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    pub line: usize,
    /// (source, rendered)
    pub title: Option<(String, String)>,
    pub anchor: Option<(String, Option<String>)>,
    pub attr: Option<AttrExp>,
    /// Byte range of the content.
    pub body: Option<(usize, usize)>,
    pub rendered: Option<String>,
    /// Sections: level, title (source, rendered). Appendix or normal.
    pub level: usize,
    pub appendix: bool,
    pub heading: Option<(String, String)>,
    /// Media: target.
    pub target: Option<String>,
    /// Attribute entries: name and value.
    pub entry: Option<(String, String)>,
    pub children: Vec<Exp>,
}

impl Exp {
    pub fn new(kind: Kind) -> Self {
        Exp {
            kind,
            start: 0,
            end: 0,
            line: 0,
            title: None,
            anchor: None,
            attr: None,
            body: None,
            rendered: None,
            level: 0,
            appendix: false,
            heading: None,
            target: None,
            entry: None,
            children: vec![],
        }
    }

    pub fn id(&self) -> Option<&str> {
        match &self.anchor {
            Some((a, _)) => Some(a),
            None => self.attr.as_ref().and_then(|a| a.id.as_deref()),
        }
    }

    pub fn count(&self) -> usize {
        1 + self.children.iter().map(|c| c.count()).sum::<usize>()
    }

    pub fn depth(&self) -> usize {
        1 + self.children.iter().map(|c| c.depth()).max().unwrap_or(0)
    }

    pub fn shape(&self) -> String {
        let mut s = format!("{:?}", self.kind);
        if !self.children.is_empty() {
            s.push('(');
            for c in &self.children {
                s.push_str(&c.shape());
                s.push(',');
            }
            s.push(')');
        }
        s
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ids {
    None,
    /// All different.
    Unique,
    /// From a small pool, so that they collide.
    Colliding,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub max_depth: usize,
    pub max_blocks: usize,
    /// Deepest section level (0: no sections).
    pub sections: usize,
    pub max_sections: usize,
    pub discrete_pct: usize,
    pub appendix_pct: usize,
    pub meta_pct: usize,
    pub ids: Ids,
    pub header_pct: usize,
    pub attr_entries: bool,
    pub crlf_pct: usize,
    pub weights: [usize; 6], // para, raw, compound, break, media, attr
    pub same_titles: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            max_depth: 4,
            max_blocks: 5,
            sections: 4,
            max_sections: 4,
            discrete_pct: 8,
            appendix_pct: 10,
            meta_pct: 35,
            ids: Ids::Unique,
            header_pct: 50,
            attr_entries: true,
            crlf_pct: 15,
            weights: [10, 5, 5, 2, 2, 2],
            same_titles: false,
        }
    }
}

pub struct Doc {
    pub src: String,
    pub blocks: Vec<Exp>,
    pub crlf: bool,
    /// Title (source) when the document has a header.
    pub title: Option<String>,
}

impl Doc {
    pub fn count(&self) -> usize {
        self.blocks.iter().map(|b| b.count()).sum()
    }

    pub fn shape(&self) -> String {
        self.blocks.iter().map(|b| b.shape()).collect::<Vec<_>>().join(";")
    }

    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Exp)) {
        fn go<'a>(e: &'a Exp, f: &mut dyn FnMut(&'a Exp)) {
            f(e);
            for c in &e.children {
                go(c, f);
            }
        }
        for b in &self.blocks {
            go(b, f);
        }
    }
}

pub const WORDS: &[&str] = &[
    "alpha", "Beta", "gamma", "delta", "x86", "2024", "naïve", "Ünder", "日本語", "Ελλάδα", "q", "Zed", "one", "two", "three", "über", "emoji🎉", "mid.dot", "comma,",
    "semi;", "end.", "what?", "wow!", "(paren)", "a-b", "key=val", "50%", "a/b",
];
pub const SPECIAL: &[&str] = &["<", "&", ">", "<b>", "a<b", "R&D", "&&", "x>y"];

/// Plain words: no substitution but special characters applies to them.
pub fn words(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    let mut v: Vec<&str> = vec![];
    for i in 0..n {
        if i > 0 && r.one_in(7) {
            v.push(r.pick(SPECIAL));
        } else {
            v.push(r.pick(WORDS));
        }
    }
    v.join(" ")
}

pub fn simple_words(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| r.pick(&WORDS[..16])).collect::<Vec<_>>().join(" ")
}

/// Lines that mean something elsewhere but are plain text in the middle of a paragraph.
const MID_PARA: &[&str] = &[
    "== not a section", "=== nor this", ". dot", ".Title", "'''", "<<<", "---", ":name: value", "image::x.png[]", "= title", "[open", "open]", "[[x", "=====x",
    "----x", "++", "////x", "/// three slashes", "1. one", "| cell", "[a] b", "\tindented", "    indented", "(x)", "====  =",
];

const RAW_LINES: &[&str] = &[
    "", "", "plain text", "== Section", ":attr: v", "[attr]", ".Title", "[[id]]", "*bold* _it_ `m`", "<b>&amp;</b>", "  indented", "\ttab", "trailing   ", "{sp}{empty}",
    "\\{x} \\*y*", "(C) (TM) ...", "a -- b -> c", "https://x.org[y]", "image::a.png[]", "// comment", "'''", "<<<", "é日本🎉", "+++<u>+++", "link:a[b]", "& < > \"",
    "----x", "=== x", "    deep", "- - -", "[source]", "a +", "it's", "pass:[x]", "\u{96}0\u{97}", "<<x,y>>",
];

const DELIMS: &[(&str, char)] = &[
    ("comment", '/'),
    ("listing", '-'),
    ("literal", '.'),
    ("pass", '+'),
    ("example", '='),
    ("sidebar", '*'),
    ("quote", '_'),
    ("open", '-'),
];

/// A name of ASCII letters, digits, hyphens and low lines.
pub fn ident(r: &mut Rng) -> String {
    let n = if r.one_in(8) { r.range(10, 60) } else { r.range(1, 9) };
    let mut o = String::new();
    for i in 0..n {
        let k = r.below(if i == 0 { 26 } else { 38 }) as u8;
        o.push(match k {
            0..26 => b'a' + k,
            26..36 => b'0' + k - 26,
            36 => b'-',
            _ => b'_',
        } as char);
    }
    o
}

struct W<'r> {
    r: &'r mut Rng,
    p: Profile,
    s: String,
    line: usize,
    eol: &'static str,
    /// Delimiter lines of the blocks that are open.
    open: Vec<String>,
    next_id: usize,
    nattr: usize,
}

impl W<'_> {
    /// Write one line; returns (start, end, line number).
    fn put(&mut self, t: &str) -> (usize, usize, usize) {
        let a = self.s.len();
        self.s.push_str(t);
        let b = self.s.len();
        self.s.push_str(self.eol);
        let l = self.line;
        self.line += 1;
        (a, b, l)
    }

    fn blanks(&mut self, lo: usize) {
        let n = lo + self.r.weighted(&[6, 2, 1]);
        for _ in 0..n {
            let t = self.r.pick(&["", "", "", "", "  ", "\t"]);
            self.put(t);
        }
    }

    fn ident(&mut self) -> Option<String> {
        match self.p.ids {
            Ids::None => None,
            Ids::Unique => {
                self.next_id += 1;
                Some(format!("{}{}", self.r.pick(&["id", "id", "x-", "_a.", "é", "N_", "x:y", ":", "a·", "日本-", "_", "ß.ü-", "Ωμ_", "x٣", "b²-", "very-long-identifier.of_some:kind-"]), self.next_id))
            }
            Ids::Colliding => Some(self.r.pick(&["one", "two", "_alpha", "_beta", "_alpha-2", "tri"]).to_string()),
        }
    }

    fn attrlist(&mut self, kind: Kind) -> AttrExp {
        let mut a = AttrExp::default();
        let styles: &[&str] = match kind {
            Kind::Para(_) => &["quote", "verse", "abstract", "lead", "normal", "NOTE", "listing", "source"],
            Kind::Raw(_) => &["source", "listing", "custom", "stem", "verse"],
            Kind::Compound(_) => &["sidebar", "example", "TIP", "quote", "custom", "open"],
            Kind::Section => &["preface", "custom", "glossary"],
            Kind::Discrete => &["discrete", "float"],
            _ => &["custom", "x1"],
        };
        let mut src = String::new();
        if kind == Kind::Discrete || self.r.bool() {
            a.style = Some(self.r.pick(styles).to_string());
            src.push_str(a.style.as_ref().unwrap());
        }
        // The shorthand items come in any order.
        let mut items: Vec<u8> = vec![];
        if self.r.one_in(3) && self.p.ids != Ids::None {
            items.push(b'#');
        }
        for _ in 0..self.r.weighted(&[5, 3, 2, 1]) {
            items.push(b'.');
        }
        for _ in 0..self.r.weighted(&[6, 2, 1]) {
            items.push(b'%');
        }
        self.r.shuffle(&mut items);
        for i in items {
            match i {
                b'#' => {
                    if let Some(id) = self.ident() {
                        // Shorthand IDs cannot contain the other markers.
                        let id = id.replace('.', "-");
                        src.push('#');
                        src.push_str(&id);
                        a.id = Some(id);
                    }
                }
                b'.' => {
                    let v = if self.r.one_in(3) { ident(self.r) } else { self.r.pick(&["r1", "role-two", "ö", "lead", "x_y"]).to_string() };
                    src.push('.');
                    src.push_str(&v);
                    a.roles.push(v);
                }
                _ => {
                    let v = if self.r.one_in(3) { ident(self.r) } else { self.r.pick(&["opt", "header", "step2", "linenums"]).to_string() };
                    src.push('%');
                    src.push_str(&v);
                    a.opts.push(v);
                }
            }
        }
        for _ in 0..self.r.weighted(&[6, 3, 1]) {
            let n = if self.r.one_in(4) { format!("z{}", ident(self.r).replace('_', "-")) } else { self.r.pick(&["cols", "start", "k1", "data-x"]).to_string() };
            if a.named.iter().any(|(x, _)| *x == n) {
                continue;
            }
            let v = simple_words(self.r, 1, 2);
            let q = self.r.below(2);
            if !src.is_empty() {
                src.push_str(self.r.pick(&[",", ", "]));
            }
            if q == 0 && !v.contains(' ') {
                src.push_str(&format!("{n}={v}"));
            } else {
                src.push_str(&format!("{n}=\"{v}\""));
            }
            a.named.push((n, v));
        }
        if src.is_empty() {
            src = "role=r9".into();
            a.roles.push("r9".into());
            a.named.push(("role".into(), "r9".into()));
        }
        a.src = src;
        a
    }

    /// Write metadata lines in random order; sets start, line, title, anchor, attr.
    fn meta(&mut self, e: &mut Exp, force_attr: Option<AttrExp>) {
        e.start = self.s.len();
        e.line = self.line;
        let mut v: Vec<u8> = vec![];
        let p = self.p.meta_pct;
        if self.r.pct(p) {
            v.push(0);
        }
        if self.r.pct(p / 2) && self.p.ids != Ids::None {
            v.push(1);
        }
        if force_attr.is_some() || self.r.pct(p) {
            v.push(2);
        }
        self.r.shuffle(&mut v);
        for k in v {
            match k {
                0 => {
                    let t = words(self.r, 1, 4);
                    self.put(&format!(".{t}"));
                    e.title = Some((t.clone(), html(&t)));
                }
                1 => {
                    let id = self.ident().unwrap();
                    if self.r.bool() {
                        let mut rt = simple_words(self.r, 1, 3);
                        if self.r.one_in(3) {
                            rt = self.r.pick(&["a, b", "a,b, and c", "x]y", "Ref [1]", "\"q\", 'r'", ",,", "é, *b* {x}", "#i.r%o", "a=b, c=d", "[x]"]).to_string();
                        }
                        self.put(&format!("[[{id},{rt}]]"));
                        e.anchor = Some((id, Some(rt)));
                    } else {
                        self.put(&format!("[[{id}]]"));
                        e.anchor = Some((id, None));
                    }
                }
                _ => {
                    let a = force_attr.clone().unwrap_or_else(|| self.attrlist(e.kind));
                    let pad = if self.r.one_in(10) { self.r.pick(&[" ", "\t", "  "]) } else { "" };
                    let mut a = a;
                    a.src.push_str(pad);
                    self.put(&format!("[{}]", a.src));
                    e.attr = Some(a);
                }
            }
        }
    }

    fn delim(&mut self, ctx: &str) -> String {
        let ch = DELIMS.iter().find(|d| d.0 == ctx).unwrap().1;
        if ctx == "open" {
            return "--".into();
        }
        let mut n = 4 + self.r.weighted(&[8, 2, 1, 1]);
        if self.r.one_in(10) {
            n = self.r.range(8, 120);
        }
        loop {
            let d = ch.to_string().repeat(n);
            if !self.open.contains(&d) {
                return d;
            }
            n += 1;
        }
    }

    fn para(&mut self) -> Exp {
        let mut e = Exp::new(Kind::Para("Paragraph"));
        let literal = self.r.one_in(8);
        self.meta(&mut e, None);
        let indent = if literal { self.r.range(1, 5) } else { 0 };
        let mut style = if literal { "Literal" } else { "Paragraph" };
        match e.attr.as_ref().and_then(|a| a.style.as_deref()) {
            Some("normal") => style = "Paragraph",
            Some("listing") => style = "Listing",
            Some("source") => style = "Source",
            _ => {}
        }
        e.kind = Kind::Para(style);
        let n = self.r.range(1, 4);
        let mut shown: Vec<String> = vec![];
        let mut first = true;
        let mut body = (0, 0);
        let mut tricky_used = false;
        for i in 0..n {
            let (text, comment) = if !first && !tricky_used && self.r.one_in(4) {
                tricky_used = true;
                (self.r.pick(MID_PARA).to_string(), false)
            } else if !first && self.r.one_in(10) {
                (format!("// {}", simple_words(self.r, 1, 2)), true)
            } else {
                (words(self.r, 1, 6), false)
            };
            let ind = if first {
                indent
            } else if literal && !comment {
                self.r.below(7)
            } else {
                0
            };
            let line = format!("{}{}{}", " ".repeat(ind), text, if self.r.one_in(9) && i > 0 { "  " } else { "" });
            let (a, b, _) = self.put(&line);
            if first {
                body.0 = a;
            }
            body.1 = b - (line.len() - line.trim_end().len());
            if !comment {
                let t: &str = line.trim_end();
                let lead = t.len() - t.trim_start_matches([' ', '\t']).len();
                shown.push(html(&t[lead.min(indent)..]));
            }
            first = false;
        }
        e.body = Some(body);
        e.rendered = Some(shown.join("\n"));
        e.end = body.1;
        e
    }

    fn raw(&mut self) -> Exp {
        let ctx = self.r.pick(&["comment", "listing", "literal", "pass"]);
        let mut e = Exp::new(Kind::Raw(match ctx {
            "comment" => "comment",
            "listing" => "listing",
            "literal" => "literal",
            _ => "pass",
        }));
        self.meta(&mut e, None);
        let d = self.delim(ctx);
        self.put(&d);
        let a = self.s.len();
        let n = if self.r.one_in(20) { self.r.range(7, 40) } else { self.r.weighted(&[1, 2, 2, 2, 2, 1, 1]) };
        for _ in 0..n {
            let mut l = self.r.pick(RAW_LINES).to_string();
            if self.r.one_in(6) {
                // The delimiter line of some other block.
                let (_, ch) = *self.r.choose(DELIMS);
                l = ch.to_string().repeat(if self.r.one_in(6) { self.r.range(8, 120) } else { self.r.range(2, 9) });
            }
            if l.trim_end() == d || self.open.iter().any(|o| o == l.trim_end()) {
                l = format!("{l}x");
            }
            self.put(&l);
        }
        let b = self.s.len();
        let end = if b > a { b - self.eol.len() } else { b };
        let (_, z, _) = self.put(&d);
        e.body = Some((a, end));
        let content = self.s[a..end].to_string();
        e.rendered = Some(if ctx == "listing" || ctx == "literal" { html(&content) } else { content });
        e.end = z;
        e
    }

    fn compound(&mut self, depth: usize) -> Exp {
        let mut ctx = self.r.pick(&["example", "sidebar", "quote", "open"]);
        if ctx == "open" && self.open.iter().any(|o| o == "--") {
            ctx = "example";
        }
        let mut e = Exp::new(Kind::Compound(match ctx {
            "example" => "example",
            "sidebar" => "sidebar",
            "quote" => "quote",
            _ => "open",
        }));
        self.meta(&mut e, None);
        let d = self.delim(ctx);
        self.put(&d);
        self.open.push(d.clone());
        if self.r.one_in(4) {
            self.blanks(0);
        }
        e.children = self.blocks(depth + 1, 0);
        self.open.pop();
        let (_, z, _) = self.put(&d);
        e.end = z;
        e
    }

    fn brk(&mut self) -> Exp {
        let page = self.r.one_in(3);
        let mut e = Exp::new(Kind::Break(if page { "Page" } else { "Thematic" }));
        self.meta(&mut e, None);
        let t = if page { "<<<" } else { self.r.pick(&["'''", "---", "- - -", "***", "* * *"]) };
        let (_, b, _) = self.put(t);
        e.end = b;
        e
    }

    fn media(&mut self) -> Exp {
        let k = *self.r.choose(&["image", "video", "audio"]);
        let mut e = Exp::new(Kind::Media(k));
        self.meta(&mut e, None);
        let t = self.r.pick(&["a.png", "dir/b c.svg", "https://x.org/i.png", "é.mp4", "../up.ogg", "{foo}/x.png"]);
        let al = self.r.pick(&["", "alt text", "Alt,100,200", "opts=autoplay", "role=r", "x,title=\"A b\""]);
        let (_, b, _) = self.put(&format!("{k}::{t}[{al}]"));
        e.target = Some(t.into());
        e.end = b;
        e
    }

    fn attr(&mut self) -> Exp {
        let mut e = Exp::new(Kind::Attr);
        e.start = self.s.len();
        e.line = self.line;
        self.nattr += 1;
        let n = format!("v{}", self.nattr);
        let mut v = simple_words(self.r, 1, 3);
        let ws = self.r.pick(&["", "", "", " ", "\t", " \t"]);
        let b = if self.r.one_in(6) {
            // Over several lines.
            let first = format!(":{n}: {v} \\");
            let w = simple_words(self.r, 1, 2);
            self.put(&first);
            let ind = self.r.pick(&["", "  ", "\t"]);
            v = format!("{v} {w}");
            self.put(&format!("{ind}{w}{ws}")).1
        } else {
            self.put(&format!(":{n}: {v}{ws}")).1
        };
        e.entry = Some((n, v));
        e.end = b - ws.len();
        e
    }

    /// A sequence of sibling blocks (no sections).
    fn blocks(&mut self, depth: usize, min: usize) -> Vec<Exp> {
        let n = self.r.range(min, self.p.max_blocks.max(min));
        let mut v: Vec<Exp> = vec![];
        for _ in 0..n {
            let mut w = self.p.weights;
            if depth >= self.p.max_depth {
                w[2] = 0;
            }
            if !self.p.attr_entries {
                w[5] = 0;
            }
            let e = match self.r.weighted(&w) {
                0 => self.para(),
                1 => self.raw(),
                2 => self.compound(depth),
                3 => self.brk(),
                4 => self.media(),
                _ => self.attr(),
            };
            let need = matches!(e.kind, Kind::Para(_));
            v.push(e);
            if need || self.r.pct(70) {
                self.blanks(if need { 1 } else { 0 });
            }
        }
        v
    }

    fn section(&mut self, level: usize, left: &mut usize) -> Exp {
        let mut e = Exp::new(Kind::Section);
        e.level = level;
        let appendix = level == 1 && self.r.pct(self.p.appendix_pct);
        let force = if appendix {
            let mut a = AttrExp { src: "appendix".into(), style: Some("appendix".into()), ..Default::default() };
            if self.r.bool() {
                a.src.push_str(".r1");
                a.roles.push("r1".into());
            }
            Some(a)
        } else {
            None
        };
        self.meta(&mut e, force);
        let t = if self.p.same_titles { self.r.pick(&["Alpha", "Beta", "Alpha", "Alpha 2"]).to_string() } else { words(self.r, 1, 4) };
        let ch = if self.r.one_in(8) { "#" } else { "=" };
        let gap = self.r.pick(&[" ", " ", "  ", "\t"]);
        let (_, b, _) = self.put(&format!("{}{gap}{t}", ch.repeat(level + 1)));
        e.heading = Some((t.clone(), html(&t)));
        e.end = b;
        self.blanks(0);
        e.children = self.blocks(1, 0);
        if self.r.pct(self.p.discrete_pct) {
            e.children.push(self.discrete());
            self.blanks(0);
            let more = self.blocks(1, 0);
            e.children.extend(more);
        }
        while level < self.p.sections && *left > 0 && self.r.pct(45) {
            *left -= 1;
            let c = self.section(level + 1, left);
            e.children.push(c);
        }
        if let Some(l) = e.children.last() {
            e.end = l.end;
        }
        e
    }

    fn discrete(&mut self) -> Exp {
        let mut e = Exp::new(Kind::Discrete);
        let a = self.attrlist(Kind::Discrete);
        self.meta(&mut e, Some(a));
        e.level = self.r.range(1, 5);
        let t = words(self.r, 1, 3);
        let (_, b, _) = self.put(&format!("{} {}", "=".repeat(e.level + 1), t));
        e.heading = Some((t.clone(), html(&t)));
        e.end = b;
        e
    }
}

fn inherit(e: &mut Exp, appendix: bool) {
    let here = if e.kind != Kind::Section {
        appendix
    } else if e.level == 1 {
        e.attr.as_ref().and_then(|a| a.style.as_deref()) == Some("appendix")
    } else {
        appendix
    };
    e.appendix = here && e.kind == Kind::Section;
    for c in &mut e.children {
        inherit(c, here);
    }
}

pub fn doc(r: &mut Rng, p: &Profile) -> Doc {
    doc_with(r, p, "")
}

/// As `doc`, with these lines (attribute entries) in the document header.
pub fn doc_with(r: &mut Rng, p: &Profile, header_lines: &str) -> Doc {
    let crlf = r.pct(p.crlf_pct);
    let mut w = W {
        r,
        p: p.clone(),
        s: String::new(),
        line: 1,
        eol: if crlf { "\r\n" } else { "\n" },
        open: vec![],
        next_id: 0,
        nattr: 0,
    };
    let mut title = None;
    let mut header = !header_lines.is_empty();
    if w.r.pct(p.header_pct) {
        let t = simple_words(w.r, 1, 4);
        w.put(&format!("= {t}"));
        title = Some(t);
        header = true;
    }
    for l in header_lines.lines() {
        w.put(l);
    }
    if header {
        w.put("");
    }
    let mut blocks: Vec<Exp> = vec![];
    // Without a header, leading attribute entries would form one.
    let saved = w.p.attr_entries;
    let n = w.r.below(4);
    if n > 0 {
        w.p.attr_entries = false;
        w.p.max_blocks = 1;
        blocks.extend(w.blocks(1, 1));
        w.p.attr_entries = saved;
        w.p.max_blocks = p.max_blocks;
        blocks.extend(w.blocks(1, 0));
    }
    let mut first_section = None;
    if p.sections > 0 {
        let mut left = w.r.range(0, p.max_sections);
        while left > 0 {
            left -= 1;
            first_section.get_or_insert(blocks.len());
            let e = w.section(1, &mut left);
            blocks.push(e);
        }
    }
    if let Some(k) = first_section
        && blocks[..k].iter().any(|b| b.kind != Kind::Attr)
    {
        let rest = blocks.split_off(k);
        let mut pre = Exp::new(Kind::Preamble);
        pre.start = blocks[0].start;
        pre.line = blocks[0].line;
        pre.end = blocks.last().unwrap().end;
        pre.children = blocks;
        blocks = vec![pre];
        blocks.extend(rest);
    }
    for b in &mut blocks {
        inherit(b, false);
    }
    let mut src = w.s;
    if r.one_in(3) {
        let n = src.trim_end_matches(['\n', '\r']).len();
        src.truncate(n);
    }
    Doc { src, blocks, crlf, title }
}
