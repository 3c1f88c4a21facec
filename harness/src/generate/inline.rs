//! Inline content written from known pieces, with the text it must be rendered as.
//!
//! Every piece stands where its meaning does not depend on its neighbours (apart from the nesting that is
//! intended), so that what it must become follows from the language description alone.
use std::collections::BTreeMap;

use crate::{rng::Rng, util::html};

/// The substitution steps that are applied.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Steps {
    pub c: bool,
    pub q: bool,
    pub a: bool,
    pub r: bool,
    pub m: bool,
    pub p: bool,
}

impl Steps {
    pub const ALL: Steps = Steps { c: true, q: true, a: true, r: true, m: true, p: true };
    pub const NONE: Steps = Steps { c: false, q: false, a: false, r: false, m: false, p: false };

    pub fn has(&self, k: char) -> bool {
        match k {
            'c' => self.c,
            'q' => self.q,
            'a' => self.a,
            'r' => self.r,
            'm' => self.m,
            _ => self.p,
        }
    }

    pub fn set(&mut self, k: char, v: bool) {
        *(match k {
            'c' => &mut self.c,
            'q' => &mut self.q,
            'a' => &mut self.a,
            'r' => &mut self.r,
            'm' => &mut self.m,
            _ => &mut self.p,
        }) = v;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Q {
    Strong,
    Em,
    Mono,
    Mark,
    Sup,
    Sub,
    Double,
    Single,
    /// Mark with attributes.
    Plain,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rep {
    Copy,
    Reg,
    Tm,
    Dash,
    DashSpaced,
    Dots,
    Apos,
    Right,
    RightD,
    Left,
    LeftD,
    Entity(&'static str),
}

#[derive(Clone, Debug, Default)]
pub struct Link {
    pub target: String,
    pub text: String,
    pub bare: bool,
    pub id: Option<String>,
    pub roles: Vec<String>,
    pub window: Option<String>,
    /// `^` at the end of the text
    pub caret: bool,
    pub opts: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Image {
    pub target: String,
    /// Where the target leads once imagesdir is applied.
    pub src: String,
    pub alt: String,
    pub width: Option<String>,
    pub height: Option<String>,
    pub title: Option<String>,
    pub link: Option<String>,
    pub float: Option<String>,
    pub roles: Vec<String>,
    pub window: Option<String>,
    /// The SVG options `inline` or `interactive`.
    pub svg: Option<&'static str>,
    pub fallback: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Icon {
    pub target: String,
    /// How icons are shown: not at all (text), by a font, or by images.
    pub mode: IconMode,
    pub src: String,
    pub alt: String,
    pub size: Option<String>,
    pub flip: Option<String>,
    pub rotate: Option<String>,
    pub width: Option<String>,
    pub height: Option<String>,
    pub title: Option<String>,
    pub link: Option<String>,
    pub window: Option<String>,
    pub float: Option<String>,
    pub roles: Vec<String>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum IconMode {
    #[default]
    Text,
    Font,
    Image,
}

/// What the renderer makes of each element.
pub trait Backend {
    fn special(&self, c: char) -> String;
    fn quote(&self, q: Q, un: bool, id: Option<&str>, roles: &[String], body: &str) -> String;
    fn rep(&self, r: Rep) -> String;
    fn line_break(&self) -> String;
    fn link(&self, l: &Link) -> String;
    fn image(&self, i: &Image) -> String;
    fn icon(&self, i: &Icon) -> String;
    fn anchor(&self, id: &str, reftext: Option<&str>) -> String;
}

/// HTML 5 as documented for AsciiDoc.
pub struct Html;

fn attr(n: &str, v: Option<&str>) -> String {
    v.map(|v| format!(" {n}=\"{v}\"")).unwrap_or_default()
}

impl Backend for Html {
    fn special(&self, c: char) -> String {
        html(&c.to_string())
    }

    fn quote(&self, q: Q, un: bool, id: Option<&str>, roles: &[String], body: &str) -> String {
        let tag = match q {
            Q::Strong => "strong",
            Q::Em => "em",
            Q::Mono => "code",
            Q::Mark => "mark",
            Q::Sup => "sup",
            Q::Sub => "sub",
            Q::Double | Q::Single => {
                let body = if q == Q::Double { format!("&#8220;{body}&#8221;") } else { format!("&#8216;{body}&#8217;") };
                if id.is_none() && roles.is_empty() {
                    return body;
                }
                return self.quote(Q::Plain, un, id, roles, &body);
            }
            Q::Plain => {
                if id.is_none() && roles.is_empty() {
                    return body.to_string();
                }
                "span"
            }
        };
        let class = if roles.is_empty() { None } else { Some(roles.join(" ")) };
        format!("<{tag}{}{}>{body}</{tag}>", attr("id", id), attr("class", class.as_deref()))
    }

    fn rep(&self, r: Rep) -> String {
        match r {
            Rep::Copy => "&#169;".into(),
            Rep::Reg => "&#174;".into(),
            Rep::Tm => "&#8482;".into(),
            Rep::Dash => "&#8212;&#8203;".into(),
            Rep::DashSpaced => "&#8201;&#8212;&#8201;".into(),
            Rep::Dots => "&#8230;&#8203;".into(),
            Rep::Apos => "&#8217;".into(),
            Rep::Right => "&#8594;".into(),
            Rep::RightD => "&#8658;".into(),
            Rep::Left => "&#8592;".into(),
            Rep::LeftD => "&#8656;".into(),
            Rep::Entity(e) => format!("&{e};"),
        }
    }

    fn line_break(&self) -> String {
        "<br>".into()
    }

    fn link(&self, l: &Link) -> String {
        let mut roles: Vec<String> = vec![];
        if l.bare {
            roles.push("bare".into());
        }
        roles.extend(l.roles.iter().cloned());
        let class = if roles.is_empty() { None } else { Some(roles.join(" ")) };
        let window = l.window.clone().or(if l.caret { Some("_blank".to_string()) } else { None });
        let nofollow = l.opts.iter().any(|o| o == "nofollow");
        let rel = match &window {
            Some(w) if w == "_blank" || l.opts.iter().any(|o| o == "noopener") => Some("noopener"),
            _ if nofollow => Some("nofollow"),
            _ => None,
        };
        format!(
            "<a href=\"{}\"{}{}{}{}>{}</a>",
            l.target,
            attr("id", l.id.as_deref()),
            attr("class", class.as_deref()),
            attr("target", window.as_deref()),
            attr("rel", rel),
            l.text
        )
    }

    fn image(&self, i: &Image) -> String {
        let img = format!(
            "<img src=\"{}\" alt=\"{}\"{}{}{}>",
            i.src,
            i.alt,
            attr("width", i.width.as_deref()),
            attr("height", i.height.as_deref()),
            attr("title", i.title.as_deref())
        );
        let rest = format!("{}{}{}", attr("width", i.width.as_deref()), attr("height", i.height.as_deref()), attr("title", i.title.as_deref()));
        let img = match i.svg {
            Some("inline") => format!("<span class=\"alt\">{}</span>", i.alt),
            Some("interactive") => {
                let inner = match &i.fallback {
                    Some(f) => format!("<img src=\"{f}\" alt=\"{}\"{rest}>", i.alt),
                    None => format!("<span class=\"alt\">{}</span>", i.alt),
                };
                format!("<object type=\"image/svg+xml\" data=\"{}\"{rest}>{inner}</object>", i.src)
            }
            _ => img,
        };
        let img = match &i.link {
            None => img,
            Some(l) => {
                let l = if l == "self" { &i.src } else { l };
                let rel = if i.window.as_deref() == Some("_blank") { Some("noopener") } else { None };
                format!("<a class=\"image\" href=\"{l}\"{}{}>{img}</a>", attr("target", i.window.as_deref()), attr("rel", rel))
            }
        };
        let mut c = vec!["image".to_string()];
        c.extend(i.float.iter().cloned());
        c.extend(i.roles.iter().cloned());
        format!("<span class=\"{}\">{img}</span>", c.join(" "))
    }

    fn icon(&self, i: &Icon) -> String {
        let inner = match i.mode {
            IconMode::Text => format!("[{}&#93;", i.alt),
            IconMode::Font => {
                let mut c = format!("fa fa-{}", i.target);
                if let Some(s) = &i.size {
                    c.push_str(&format!(" fa-{s}"));
                }
                if let Some(s) = &i.flip {
                    c.push_str(&format!(" fa-flip-{s}"));
                } else if let Some(s) = &i.rotate {
                    c.push_str(&format!(" fa-rotate-{s}"));
                }
                format!("<i class=\"{c}\"{}></i>", attr("title", i.title.as_deref()))
            }
            IconMode::Image => format!("<img src=\"{}\" alt=\"{}\"{}{}{}>", i.src, i.alt, attr("width", i.width.as_deref()), attr("height", i.height.as_deref()), attr("title", i.title.as_deref())),
        };
        let inner = match &i.link {
            Some(l) => {
                let l = if l == "self" { &i.src } else { l };
                let rel = if i.window.as_deref() == Some("_blank") { Some("noopener") } else { None };
                format!("<a class=\"image\" href=\"{l}\"{}{}>{inner}</a>", attr("target", i.window.as_deref()), attr("rel", rel))
            }
            None => inner,
        };
        let mut c = vec!["icon".to_string()];
        c.extend(i.float.iter().cloned());
        c.extend(i.roles.iter().cloned());
        format!("<span class=\"{}\">{inner}</span>", c.join(" "))
    }

    fn anchor(&self, id: &str, _reftext: Option<&str>) -> String {
        format!("<a id=\"{id}\"></a>")
    }
}

#[derive(Clone, Debug, Default)]
pub struct Piece {
    pub src: String,
    pub out: String,
}

impl Piece {
    fn add(&mut self, p: &Piece) {
        self.src.push_str(&p.src);
        self.out.push_str(&p.out);
    }

    fn same(&mut self, s: &str) {
        self.src.push_str(s);
        self.out.push_str(s);
    }
}

/// Relative weights of the kinds of pieces.
#[derive(Clone, Debug)]
pub struct Mix {
    pub word: usize,
    pub special: usize,
    pub marker: usize,
    pub quote: usize,
    pub refs: usize,
    pub rep: usize,
    pub pass: usize,
    pub link: usize,
    pub image: usize,
    pub anchor: usize,
    pub escape: usize,
    pub paren: usize,
    pub breaks: usize,
    pub newline: usize,
    pub depth: usize,
    /// Formatted text in the text of links.
    pub link_quotes: usize,
}

impl Default for Mix {
    fn default() -> Self {
        Mix {
            word: 8,
            special: 2,
            marker: 1,
            quote: 3,
            refs: 2,
            rep: 2,
            pass: 2,
            link: 2,
            image: 1,
            anchor: 1,
            escape: 1,
            paren: 1,
            breaks: 1,
            newline: 3,
            depth: 3,
            link_quotes: 1,
        }
    }
}

pub const WORDS: &[&str] = &[
    "a", "word", "and", "the", "été", "日本", "naïve", "x1", "B2", "Ünïcode", "42", "3.14", "ok", "well-known", "e.g", "one,", "end.", "stop!", "why?",
    "semi", "half", "😀", "ﬁ", "Straße", "10%", "$5", "@", "a/b", "c:d", "x|y", "\\", "a\\b", "ß", "x\u{a0}y", "z",
];

/// Names and values of the attributes that a document's references use.
pub type Attrs = Vec<(&'static str, Option<&'static str>)>;

pub struct Gen<'a> {
    pub r: Rng,
    pub steps: Steps,
    pub mix: Mix,
    pub attrs: Attrs,
    pub b: &'a dyn Backend,
    pub counts: BTreeMap<&'static str, u64>,
    pub imagesdir: Option<String>,
    pub icons: IconMode,
    pub iconsdir: Option<String>,
    pub icontype: Option<String>,
    pub hide_scheme: bool,
    pub hardbreaks: bool,
    /// No line ends at all.
    pub one_line: bool,
    /// The text is followed by more of the same paragraph.
    pub continued: bool,
}

const ORDER: &[Q] = &[Q::Strong, Q::Double, Q::Single, Q::Mono, Q::Em, Q::Mark, Q::Sup, Q::Sub];

fn pos(q: Q) -> usize {
    ORDER.iter().position(|x| *x == q).unwrap_or(5)
}

impl<'a> Gen<'a> {
    pub fn new(r: Rng, steps: Steps, mix: Mix, b: &'a dyn Backend) -> Self {
        Gen { r, steps, mix, attrs: vec![], b, counts: BTreeMap::new(), imagesdir: None, icons: IconMode::Text, iconsdir: None, icontype: None, hide_scheme: false, hardbreaks: false, one_line: false, continued: false }
    }

    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }

    /// Text that has no markup.
    pub fn plain(&self, s: &str) -> Piece {
        let mut out = String::new();
        for c in s.chars() {
            if self.steps.c && matches!(c, '<' | '>' | '&') {
                out.push_str(&self.b.special(c));
            } else {
                out.push(c);
            }
        }
        Piece { src: s.to_string(), out }
    }

    fn word(&mut self) -> Piece {
        let w = self.r.pick(WORDS).to_string();
        Piece { src: w.clone(), out: w }
    }

    fn safe_word(&mut self) -> String {
        self.r.pick(&["w", "word", "été", "x1", "日本", "B", "last", "n2o"]).to_string()
    }

    /// A paragraph's text; it begins with a word.
    pub fn paragraph(&mut self, pieces: usize) -> Piece {
        let mut p = Piece::default();
        p.same(self.r.pick(&["Start", "x", "Él", "The", "日本"]));
        let rest = self.run(pieces, &[], self.mix.depth, true);
        if !rest.src.is_empty() {
            p.same(" ");
            p.add(&rest);
        }
        if self.mix.rep > 0 && !self.continued && self.r.one_in(16) {
            // At the end of the text a dash needs no space after it.
            self.count("dashes at the end");
            p.same(" w");
            p.src.push_str(" --");
            if self.steps.r {
                p.out.push_str(&self.b.rep(Rep::DashSpaced));
            } else {
                p.out.push_str(" --");
            }
            return p;
        }
        // Nothing at the end takes part in anything.
        p.same(self.r.pick(&["", " z", "", " end."]));
        p
    }

    /// A paragraph's text as it is after the hardbreaks option.
    pub fn with_hardbreaks(&self, out: &str) -> String {
        out.replace('\n', &format!("{}\n", self.b.line_break()))
    }

    fn run(&mut self, n: usize, used: &[Q], depth: usize, top: bool) -> Piece {
        let mut p = Piece::default();
        for k in 0..n {
            if k > 0 {
                let w = [20, self.mix.newline, self.mix.breaks, if self.mix.rep > 0 { 1 } else { 0 }];
                match self.r.weighted(&w) {
                    1 => {
                        p.same("\n");
                        p.same(self.r.pick(&["next ", "and ", "日 ", "Then "]));
                    }
                    2 if top && !self.hardbreaks => {
                        self.count("hard line breaks");
                        p.src.push_str(" +\n");
                        if self.steps.p {
                            p.out.push_str(&self.b.line_break());
                        } else {
                            p.out.push_str(" +");
                        }
                        p.out.push('\n');
                        p.same(self.r.pick(&["after ", "é ", "B "]));
                    }
                    3 => {
                        self.count("replacements");
                        p.same(" w");
                        // A line end is as good as a space.
                        let dash = if self.mix.newline > 0 && self.r.one_in(3) { self.r.pick(&[" --\n", "\n-- "]) } else { " -- " };
                        p.src.push_str(dash);
                        if self.steps.r {
                            p.out.push_str(&self.b.rep(Rep::DashSpaced));
                        } else {
                            p.out.push_str(dash);
                        }
                        p.same("w ");
                    }
                    _ => p.same(" "),
                }
            }
            let x = self.piece(used, depth);
            p.add(&x);
        }
        p
    }

    fn piece(&mut self, used: &[Q], depth: usize) -> Piece {
        let m = self.mix.clone();
        let w = [
            m.word,
            m.special,
            m.marker,
            if depth > 0 { m.quote } else { 0 },
            m.refs,
            m.rep,
            if self.steps.m { m.pass } else { 0 },
            m.link,
            m.image,
            m.anchor,
            m.escape,
            if depth > 0 { m.paren } else { 0 },
        ];
        match self.r.weighted(&w) {
            0 => self.word(),
            1 => {
                self.count("special characters");
                let s = *self.r.choose(&["<", ">", "&", "a<b", "R&D", "&&", "x>y", "<<", "<b>", "</i>", "&<>", "<é>"]);
                self.plain(s)
            }
            2 => {
                self.count("markers that mean nothing");
                let s = *self.r.choose(&["*", "_", "#", "`", "^", "~", "snake_case_x", "a*b", "2 * 3", "C#m", "x^y", "+ w", "{", "}", "{ }", "[", "]", "[x]", "a[0]", "_ _", "{a b}", "(c)", "(x)", "a_b", "''", "' '", "- -", "..", "::", ":", "|", "\u{96}", "\u{96}0\u{97}", "x\u{97}", "\u{96}12\u{97}", "1'2", "a'9", "5'", "'9", "x;+y+", "x:+y z+,", "w+y+", "a\\+b"]);
                self.plain(s)
            }
            3 => self.quote(used, depth),
            4 => self.reference(),
            5 => self.replacement(),
            6 => self.pass_in(used),
            7 => self.link_in(used),
            8 if self.r.one_in(3) => self.icon(),
            8 => self.image(),
            9 => self.anchor(),
            10 => self.escape(used),
            _ => {
                let mut p = Piece::default();
                p.same("(");
                let n = self.r.range(1, 3);
                let w = self.safe_word();
                if self.r.bool() {
                    p.same(&w);
                    p.same(" ");
                    let x = self.run(n, used, depth - 1, false);
                    p.add(&x);
                } else if m.quote > 0 && self.r.bool() {
                    let x = self.quote(used, depth - 1);
                    p.add(&x);
                } else {
                    p.same(&w);
                }
                p.same(self.r.pick(&[" w)", " w),", " w)."]));
                p
            }
        }
    }

    /// Attributes of formatted text: as written, ID, roles.
    fn quote_attrs(&mut self, ids: bool) -> (String, Option<String>, Vec<String>) {
        let mut a = self.quote_attrs_tight(ids);
        if self.r.one_in(16) {
            self.count("attribute lists with white space");
            let ws = if self.one_line { " " } else { self.r.pick(&[" ", "\n", "\t"]) };
            a.0.insert_str(1, ws);
        }
        a
    }

    fn quote_attrs_tight(&mut self, ids: bool) -> (String, Option<String>, Vec<String>) {
        let n = self.r.below(1000);
        let role = self.r.pick(&["lead", "red", "r1", "big", "role-x"]).to_string();
        let nl = if self.one_line { " " } else { "\n" };
        match self.r.below(if ids { 15 } else { 4 }) {
            9 => (format!("[.{role},{nl}id=q{n}]"), Some(format!("q{n}")), vec![role]),
            10 => (format!("[id=q{n},{nl}role={role}]"), Some(format!("q{n}")), vec![role]),
            11 => {
                let r2 = self.r.pick(&["r2", "x-1"]).to_string();
                (format!("[role=\"{role} {r2}\"]"), None, vec![role, r2])
            }
            12 => (format!("[role=\"{role}  r2\", id='q{n}']"), Some(format!("q{n}")), vec![role, "r2".into()]),
            13 => (format!("[.{role},role=other]"), None, vec![role, "other".into()]),
            14 => (format!("[#q{n}.{role}.r2%opt]"), Some(format!("q{n}")), vec![role, "r2".into()]),
            0 => (format!("[.{role}]"), None, vec![role]),
            1 => (format!("[.{role}.r2]"), None, vec![role, "r2".into()]),
            2 => (format!("[{role}]"), None, vec![role]),
            3 => (format!("[{role}.r2]"), None, vec![role, "r2".into()]),
            4 => (format!("[#q{n}]"), Some(format!("q{n}")), vec![]),
            5 => (format!("[#q{n}.{role}]"), Some(format!("q{n}")), vec![role]),
            6 => (format!("[.{role}#q{n}]"), Some(format!("q{n}")), vec![role]),
            7 => (format!("[role={role}]"), None, vec![role]),
            _ => (format!("[id=q{n},role={role}]"), Some(format!("q{n}")), vec![role]),
        }
    }

    fn quote(&mut self, used: &[Q], depth: usize) -> Piece {
        // Where only replacements apply, "`'" is an apostrophe.
        let no_single = self.steps.r && !self.steps.q;
        let free: Vec<Q> = ORDER.iter().copied().filter(|q| !used.contains(q) && !(no_single && *q == Q::Single)).collect();
        if free.is_empty() || depth == 0 {
            return self.word();
        }
        let q = *self.r.choose(&free);
        if self.r.one_in(14) {
            return self.unopened(used);
        }
        self.count("formatted texts");
        if depth < self.mix.depth {
            self.count("nested formatted texts");
        }
        let un = match q {
            Q::Sup | Q::Sub => true,
            Q::Double | Q::Single => false,
            _ => self.r.one_in(3),
        };
        let with_attrs = self.r.one_in(4);
        let (asrc, id, roles) = if with_attrs { self.quote_attrs(!matches!(q, Q::Sup | Q::Sub)) } else { (String::new(), None, vec![]) };
        if with_attrs {
            self.count("formatted texts with attributes");
        }
        if un {
            self.count("unconstrained formatted texts");
        }
        let (open, close) = match (q, un) {
            (Q::Strong, false) => ("*", "*"),
            (Q::Strong, true) => ("**", "**"),
            (Q::Em, false) => ("_", "_"),
            (Q::Em, true) => ("__", "__"),
            (Q::Mono, false) => ("`", "`"),
            (Q::Mono, true) => ("``", "``"),
            (Q::Mark, false) => ("#", "#"),
            (Q::Mark, true) => ("##", "##"),
            (Q::Sup, _) => ("^", "^"),
            (Q::Sub, _) => ("~", "~"),
            (Q::Double, _) => ("\"`", "`\""),
            (Q::Single, _) => ("'`", "`'"),
            _ => ("", ""),
        };
        // Text in which the marks are adjacent to a word on the outside (unconstrained only).
        let (before, after) = if un { (self.r.pick(&["", "", "pre", "é", "9"]).to_string(), self.r.pick(&["", "", "post", "日", "s"]).to_string()) } else { (String::new(), self.r.pick(&["", "", "", ",", "!", ")", "."]).to_string()) };
        let mut inside = Piece::default();
        let mut used2 = used.to_vec();
        used2.push(q);
        if matches!(q, Q::Sup | Q::Sub) {
            match self.r.below(6) {
                0 => {
                    let w = self.r.pick(&["<x", "a&b", "a>"]);
                    let x = self.plain(w);
                    inside.add(&x);
                }
                1 => {
                    let (c, m) = *self.r.choose(&[(Q::Strong, "*"), (Q::Em, "_"), (Q::Mark, "#")]);
                    let o = if self.steps.q { self.b.quote(c, false, None, &[], "w") } else { format!("{m}w{m}") };
                    if used.contains(&c) || o.contains(char::is_whitespace) || (c == Q::Em && self.no_emphasis()) {
                        inside.same("2");
                    } else {
                        self.count("formatted texts in superscript and subscript");
                        inside.src.push_str(&format!("{m}w{m}"));
                        inside.out.push_str(&o);
                    }
                }
                _ => inside.same(self.r.pick(&["2", "nd", "é", "x1", "日本"])),
            }
        } else {
            match self.r.below(5) {
                0 | 1 => {
                    let w = self.safe_word();
                    inside.same(&w);
                    if !un && matches!(q, Q::Strong | Q::Em | Q::Mono | Q::Mark) && self.r.one_in(6) {
                        // A mark that can't close: directly before a word, after a space, or,
                        // for monospaced text, before a quote.
                        self.count("marks inside that do not close");
                        let quoted = used.contains(&Q::Double) || used.contains(&Q::Single);
                        let w2 = self.safe_word();
                        let mid = match self.r.below(6) {
                            0 => format!(" {open}"),
                            // Directly after a space, whatever follows.
                            3 => format!(" {open} "),
                            4 if q == Q::Mono && !quoted => format!("`\"{w2} ` "),
                            5 if q == Q::Mono && !quoted => format!("`\"{w2}`\"{w2}"),
                            1 if q == Q::Mono && !quoted => "`\"".to_string(),
                            _ => open.to_string(),
                        };
                        inside.same(&mid);
                        let w = self.safe_word();
                        inside.same(&w);
                    } else if self.r.one_in(3) {
                        let nl = if self.one_line { " " } else { "\n" };
                        inside.same(self.r.pick(&[" two", " é 日", nl, " "]));
                        let w = self.safe_word();
                        inside.same(&w);
                    }
                }
                2 if depth > 1 => {
                    // Directly adjacent: only what is unambiguous.
                    let ok: Vec<Q> = ORDER
                        .iter()
                        .copied()
                        .filter(|c| {
                            !used2.contains(c)
                                && !matches!(c, Q::Double | Q::Single)
                                && !(matches!(q, Q::Double | Q::Single) && *c != Q::Strong)
                                && !(q == Q::Em && !un && pos(*c) < pos(Q::Em))
                                && !(q == Q::Em && un && pos(*c) < pos(Q::Em))
                        })
                        .collect();
                    let hidden: Vec<Q> = ORDER.iter().copied().filter(|c| !ok.contains(c)).collect();
                    if ok.is_empty() {
                        let w = self.safe_word();
                        inside.same(&w);
                    } else {
                        self.count("formatted texts directly inside others");
                        let mut h = hidden;
                        for u in &used2 {
                            if !h.contains(u) {
                                h.push(*u);
                            }
                        }
                        let mut x = self.adjacent(&h);
                        // The child must not be able to reach past its parent.
                        if x.src.is_empty() {
                            x.same("w");
                        }
                        inside.add(&x);
                    }
                }
                _ => {
                    let w = self.safe_word();
                    inside.same(&w);
                    inside.same(" ");
                    let n = self.r.range(1, 3);
                    let x = self.run(n, &used2, depth - 1, false);
                    inside.add(&x);
                    inside.same(" ");
                    let w = self.safe_word();
                    inside.same(&w);
                }
            }
        }
        let mut p = Piece::default();
        p.same(&before);
        if !with_attrs && self.r.one_in(12) {
            // An empty list of attributes is text.
            self.count("empty attribute lists");
            p.same("[]");
        }
        if with_attrs && !un && self.r.one_in(4) {
            // An escaped attribute list is text; the formatting remains.
            self.count("escaped attribute lists");
            let role = self.r.pick(&["[.lead]", "[lead]", "[a,b]", "[.r1.r2]", "[see this]"]);
            p.src.push_str(&format!("\\{role}{open}{}{close}", inside.src));
            if self.steps.q {
                p.out.push_str(&format!("{role}{}", self.b.quote(q, un, None, &[], &inside.out)));
            } else {
                p.out.push_str(&format!("\\{role}{open}{}{close}", inside.out));
            }
            p.same(&after);
            return p;
        }
        p.src.push_str(&format!("{asrc}{open}{}{close}", inside.src));
        if self.steps.q {
            let kind = if q == Q::Mark && with_attrs { Q::Plain } else { q };
            p.out.push_str(&self.b.quote(kind, un, id.as_deref(), &roles, &inside.out));
        } else {
            p.out.push_str(&format!("{asrc}{open}{}{close}", inside.out));
        }
        p.same(&after);
        p
    }

    /// A pair of constrained marks that can't open: directly after a word, `:`, `;`, `}` or `&`.
    fn unopened(&mut self, used: &[Q]) -> Piece {
        let quoted = used.contains(&Q::Double) || used.contains(&Q::Single);
        let mono = used.contains(&Q::Mono);
        let free: Vec<Q> = [Q::Strong, Q::Em, Q::Mono, Q::Mark, Q::Double, Q::Single]
            .into_iter()
            .filter(|q| !used.contains(q) && !(*q == Q::Mono && quoted) && !(mono && matches!(q, Q::Double | Q::Single)))
            .collect();
        if free.is_empty() {
            return self.word();
        }
        self.count("pairs of marks that do not open");
        let (open, close) = match *self.r.choose(&free) {
            Q::Strong => ("*", "*"),
            Q::Em => ("_", "_"),
            Q::Mono => ("`", "`"),
            Q::Mark => ("#", "#"),
            Q::Double => ("\"`", "`\""),
            // Where only replacements apply, "`'" is an apostrophe.
            _ => ("'`", "`'"),
        };
        let w = self.safe_word();
        let mut p = Piece::default();
        let before = self.r.pick(&["w", "é", "9", "日", "x:", "x;", "x}", "&", ":", ";", "}", "x:y"]);
        let x = self.plain(before);
        p.add(&x);
        p.same(open);
        p.same(&w);
        if close == "`'" && self.steps.r {
            p.src.push_str(close);
            p.out.push_str(&self.b.rep(Rep::Apos));
        } else {
            p.same(close);
        }
        p.same(self.r.pick(&["", ",", ".", "!"]));
        p
    }

    /// A formatted word with nothing around it.
    fn adjacent(&mut self, hidden: &[Q]) -> Piece {
        let free: Vec<Q> = ORDER.iter().copied().filter(|q| !hidden.contains(q) && !matches!(q, Q::Sup | Q::Sub)).collect();
        if free.is_empty() {
            return Piece::default();
        }
        let q = *self.r.choose(&free);
        let un = self.r.one_in(4);
        let m = match q {
            Q::Strong => "*",
            Q::Em => "_",
            Q::Mono => "`",
            _ => "#",
        };
        let m = if un { m.repeat(2) } else { m.to_string() };
        let w = self.safe_word();
        let mut p = Piece { src: format!("{m}{w}{m}"), out: String::new() };
        p.out = if self.steps.q { self.b.quote(q, un, None, &[], &w) } else { p.src.clone() };
        p
    }

    fn reference(&mut self) -> Piece {
        if self.attrs.is_empty() || self.r.one_in(6) {
            self.count("unknown references");
            let s = self.r.pick(&["{nope}", "{un-known}", "{x_y9}", "{nope}{nope}", "{a b}", "{}", "{-x}", "{é}", "{nope", "nope}", "{{nope}}"]);
            return Piece { src: s.to_string(), out: s.to_string() };
        }
        let mut p = Piece::default();
        for _ in 0..if self.r.one_in(5) { 2 } else { 1 } {
            self.count("references");
            let (n, v) = *self.r.choose(&self.attrs);
            let n = match self.r.below(6) {
                0 => n.to_uppercase(),
                1 => {
                    self.count("references in another case");
                    n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect()
                }
                _ => n.to_string(),
            };
            let pre = if self.r.one_in(4) { self.r.pick(&["pre", "é", "("]) } else { "" };
            let post = if self.r.one_in(4) { self.r.pick(&["post", "s", ",", ")"]) } else { "" };
            p.same(pre);
            p.src.push_str(&format!("{{{n}}}"));
            if self.steps.a {
                p.out.push_str(v.unwrap_or(""));
            } else {
                p.out.push_str(&format!("{{{n}}}"));
            }
            p.same(post);
        }
        p
    }

    fn replacement(&mut self) -> Piece {
        self.count("replacements");
        let mut p = Piece::default();
        for k in 0..if self.r.one_in(5) { self.r.range(2, 3) } else { 1 } {
            let _ = k;
            let (pre, src, rep, post): (&str, &str, Rep, &str) = match self.r.below(14) {
                0 => (self.r.pick(&["", "x", "é"]), "(C)", Rep::Copy, self.r.pick(&["", "2", "x"])),
                1 => (self.r.pick(&["", "x", "é"]), "(R)", Rep::Reg, self.r.pick(&["", "2", "x"])),
                2 => (self.r.pick(&["", "x", "é"]), "(TM)", Rep::Tm, self.r.pick(&["", "2", "x"])),
                3 | 4 => (self.r.pick(&["a", "é", "9", "日"]), "--", Rep::Dash, self.r.pick(&["b", "é", "7", "日"])),
                5 => (self.r.pick(&["", "a", "é"]), "...", Rep::Dots, self.r.pick(&["", "b", "é"])),
                6 | 7 => (self.r.pick(&["it", "9", "O", "don"]), "'", Rep::Apos, self.r.pick(&["s", "t", "Neil"])),
                8 => (self.r.pick(&["", "a", "é "]), "->", Rep::Right, self.r.pick(&["", "b", " é"])),
                9 => (self.r.pick(&["", "a", "é "]), "=>", Rep::RightD, self.r.pick(&["", "b", " é"])),
                10 => (self.r.pick(&["", "a", "é "]), "<-", Rep::Left, self.r.pick(&["", "b", " é"])),
                11 => (self.r.pick(&["", "a", "é "]), "<=", Rep::LeftD, self.r.pick(&["", "b", " é"])),
                _ => {
                    let mut e = *self.r.choose(&["copy", "nbsp", "frac12", "sup2", "amp", "lt", "#169", "#8217", "#128512", "#x2014", "#xa9", "#x1F60", "#10", "#xcafe", "#x1f60a", "#xFFFFD", "#x10abc", "#99", "Aacute", "there4", "thetasym", "ZeroWidthSpace", "frac78"]);
                    if !self.steps.c && matches!(e, "amp" | "lt") {
                        // As they stand, these are part of what is replaced.
                        e = "copy";
                    }
                    let s = format!("&{e};");
                    let x = self.plain(&s);
                    p.same(self.r.pick(&["", "a", "é"]));
                    if self.r.one_in(8) {
                        // None of these is a reference.
                        self.count("ampersands that begin no reference");
                        let s = self.r.pick(&["&#xfgh;", "&a;", "&copy", "& copy;", "&#x;", "&#12a;", "&co py;", "&1copy;", "&é;", "&#1234567890;", "&&"]);
                        let x = self.plain(s);
                        p.add(&x);
                        continue;
                    }
                    p.src.push_str(&s);
                    if self.steps.r && self.steps.c {
                        p.out.push_str(&self.b.rep(Rep::Entity(e)));
                    } else {
                        p.out.push_str(&x.out);
                    }
                    p.same(self.r.pick(&["", "b", "é"]));
                    continue;
                }
            };
            let needs_c = matches!(rep, Rep::Right | Rep::RightD | Rep::Left | Rep::LeftD);
            p.same(pre);
            let x = self.plain(src);
            p.src.push_str(src);
            if self.steps.r && (self.steps.c || !needs_c) {
                p.out.push_str(&self.b.rep(rep));
            } else {
                p.out.push_str(&x.out);
            }
            p.same(post);
            // The next one must not form a pattern together with this one.
            p.same(" ");
            p.same("w");
        }
        p
    }

    /// Text that must come out untouched, apart from special characters.
    pub fn hostile(&mut self, avoid: &[&str]) -> String {
        for _ in 0..30 {
            let n = self.r.range(1, 4);
            let mut s = String::new();
            for k in 0..n {
                if k > 0 {
                    s.push(' ');
                }
                s.push_str(self.r.pick(&[
                    "*b*", "_i_", "`m`", "#h#", "^u^", "~d~", "**bb**", "{a1}", "{nope}", "(C)", "(TM)", "a--b", "it's", "...", "->", "<b>", "&amp;", "&", "x<y", "https://example.org", "https://example.org[t]",
                    "link:x[y]", "image:x.png[]", "[[id]]", "a@example.org", "word", "é", "日本", "\"`q`\"", "\\", "\\{a1}", "<<x>>", "$x", "++", "+", "\\*b*", "'`s`'", "mailto:a@b.co[]", "[.r]#t#", "icon:x[]", "://", "%",
                ]));
            }
            if !avoid.iter().any(|a| s.contains(a)) && !s.ends_with('\\') && !s.starts_with('+') && !s.ends_with('+') {
                return s;
            }
        }
        "plain".into()
    }

    /// Only if macros are substituted.
    /// An inline passthrough with substitutions of its own.
    fn pass_subs(&mut self) -> Piece {
        self.count("passthroughs with substitutions");
        let w = self.safe_word();
        let v = self.attrs.first().map(|(n, v)| (*n, v.unwrap_or(""))).unwrap_or(("nope", "{nope}"));
        let b = self.b;
        let strong = b.quote(Q::Strong, false, None, &[], &w);
        let em = b.quote(Q::Em, false, None, &[], &w);
        let (subs, src, out) = match self.r.below(12) {
            0 => ("q", format!("<u>*{w}*</u> (C) {{{}}}", v.0), format!("<u>{strong}</u> (C) {{{}}}", v.0)),
            1 => ("quotes", format!("_{w}_ & {{{}}}", v.0), format!("{em} & {{{}}}", v.0)),
            2 => ("a", format!("<i>{{{}}}</i> *{w}* ...", v.0), format!("<i>{}</i> *{w}* ...", v.1)),
            3 => ("attributes", format!("{{{}}} & _{w}_", v.0), format!("{} & _{w}_", v.1)),
            4 => ("c,q", format!("< *{w}* > (R)"), format!("{} {strong} {} (R)", b.special('<'), b.special('>'))),
            5 => ("v", format!("<b> *{w}* & ..."), format!("{}b{} *{w}* {} ...", b.special('<'), b.special('>'), b.special('&'))),
            6 => ("r", format!("(C) *{w}* <b>"), format!("{} *{w}* <b>", b.rep(Rep::Copy))),
            7 => ("q,a", format!("*{w}* {{{}}} <b>", v.0), format!("{strong} {} <b>", v.1)),
            8 => ("n", format!("*{w}* (TM) <b> {{{}}} z", v.0), format!("{strong} {} {}b{} {} z", b.rep(Rep::Tm), b.special('<'), b.special('>'), v.1)),
            9 => ("m", format!("<b> *{w}* anchor:here[\\]"), format!("<b> *{w}* {}", b.anchor("here", None))),
            10 => ("none", format!("<b> *{w}* {{{}}}", v.0), format!("<b> *{w}* {{{}}}", v.0)),
            _ => ("specialchars", format!("<b> *{w}* {{{}}}", v.0), format!("{}b{} *{w}* {{{}}}", b.special('<'), b.special('>'), v.0)),
        };
        Piece { src: format!("pass:{subs}[{src}]"), out }
    }

    /// Passthroughs with attributes, literal monospaced text in its other forms, escaped passthroughs.
    fn pass_attrs(&mut self) -> Piece {
        self.count("passthroughs with attributes or escaped");
        let b = self.b;
        let verbatim = |s: &str| s.chars().map(|c| if matches!(c, '<' | '>' | '&') { b.special(c) } else { c.to_string() }).collect::<String>();
        let short = |g: &mut Self, avoid: &[&str]| if g.r.one_in(3) { g.r.pick(&["a", "ab", "é", "日本", "<", "a b", "*b*", "&&"]).to_string() } else { g.hostile(avoid) };
        let w = self.safe_word();
        match self.r.below(9) {
            0 => {
                // Only if the attributes say so is it monospaced.
                let t = short(self, &["`", "++"]);
                Piece { src: format!("[x-]`{t}`"), out: b.quote(Q::Mono, true, None, &[], &verbatim(&t)) }
            }
            1 => {
                let t = short(self, &["`", "++"]);
                let (a, id, roles) = self.quote_attrs(true);
                Piece { src: format!("{} x-]`{t}`", &a[..a.len() - 1]), out: b.quote(Q::Mono, true, id.as_deref(), &roles, &verbatim(&t)) }
            }
            2 => {
                let v = self.attrs.first().map(|(n, v)| (*n, v.unwrap_or(""))).unwrap_or(("nope", "{nope}"));
                let body = format!("{} {} {}b{} {} z", b.quote(Q::Strong, false, None, &[], &w), b.rep(Rep::Tm), b.special('<'), b.special('>'), v.1);
                let m = *self.r.pick(&[&"+", &"++"]);
                let (a, id, roles) = if self.r.bool() { self.quote_attrs(true) } else { (String::new(), None, vec![]) };
                let a = if a.is_empty() { "[x-".to_string() } else { format!("{} x-", &a[..a.len() - 1]) };
                Piece { src: format!("{a}]{m}*{w}* (TM) <b> {{{}}} z{m}", v.0), out: b.quote(Q::Mono, true, id.as_deref(), &roles, &body) }
            }
            3 | 4 => {
                let (m, avoid): (&str, &[&str]) = *self.r.pick(&[&("+", &["+"] as &[&str]), &("++", &["++"]), &("$$", &["$"]), &("+++", &["++"])]);
                let t = short(self, avoid);
                let (a, id, roles) = self.quote_attrs(true);
                let body = if m == "+++" { t.clone() } else { verbatim(&t) };
                Piece { src: format!("{a}{m}{t}{m}"), out: b.quote(Q::Plain, true, id.as_deref(), &roles, &body) }
            }
            // Escaped: what follows is text like any other.
            5 => Piece { src: format!("\\+{w}+"), out: format!("+{w}+") },
            6 => {
                let m = *self.r.pick(&[&"$$", &"+++"]);
                // Of three marks, two are a passthrough still.
                let out = if m == "+++" { format!("++{w}++") } else { format!("$${w}$$") };
                let src = if m == "+++" { format!("\\\\++{w}++") } else { format!("\\{m}{w}{m}") };
                Piece { src, out }
            }
            7 => {
                let t = format!("<b> {w} & {{nope}}");
                Piece { src: format!("\\pass:[{t}]"), out: format!("pass:[{}]", self.plain(&t).out) }
            }
            _ => {
                // Every form has its escape; of two backslashes, one remains.
                let r = self.r.pick(&["[.lead]", "[.a.b]", "[lead]", "[role=x]", ""]).to_string();
                let m = self.r.pick(&["+", "$$"]);
                let bs = if r.is_empty() && m == "+" { "\\" } else { self.r.pick(&["\\", "\\\\"]) };
                Piece { src: format!("{r}{bs}{m}{w}{m}"), out: format!("{r}{}{m}{w}{m}", &bs[1..]) }
            }
        }
    }

    fn pass_in(&mut self, used: &[Q]) -> Piece {
        self.count("passthroughs");
        let k = self.r.below(if used.contains(&Q::Mono) { 8 } else { 10 });
        if self.r.one_in(4) {
            return self.pass_subs();
        }
        if self.r.one_in(4) {
            return self.pass_attrs();
        }
        let (src, raw, verbatim, wrap): (String, String, bool, Option<Q>) = match k {
            0 => {
                let t = self.hostile(&["+"]);
                (format!("+{t}+"), t, true, None)
            }
            1 => {
                let t = self.hostile(&["++"]);
                (format!("++{t}++"), t, true, None)
            }
            2 => {
                let t = self.hostile(&["++"]);
                (format!("+++{t}+++"), t, false, None)
            }
            3 => {
                let t = self.hostile(&["$"]);
                (format!("$${t}$$"), t, true, None)
            }
            4 => {
                let t = self.hostile(&["[", "]"]);
                (format!("pass:[{t}]"), t, false, None)
            }
            5 => {
                let t = self.hostile(&["[", "]"]);
                (format!("pass:c[{t}]"), t, true, None)
            }
            6 => {
                let t = self.hostile(&["]"]);
                let (a, b) = (t.replace(']', "\\]"), t);
                (format!("pass:[{a}\\]]"), format!("{b}]"), false, None)
            }
            7 => {
                // Several of them, next to each other, one in another's neighbourhood.
                let t = self.hostile(&["+"]);
                let u = self.hostile(&["+", "[", "]"]);
                self.count("passthroughs");
                let mut p = Piece::default();
                p.src = format!("pre+++{t}+++mid pass:[{u}]w");
                p.out = format!("pre{t}mid {u}w");
                return p;
            }
            _ => {
                // Literal monospace; the marks are not part of a word.
                let t = self.hostile(&["+", "`"]);
                (format!("`+{t}+`"), t, true, Some(Q::Mono))
            }
        };
        let body = if verbatim {
            // Special characters are replaced here even if they are not elsewhere.
            let c = self.steps.c;
            self.steps.c = true;
            let x = self.plain(&raw);
            self.steps.c = c;
            x.out
        } else {
            raw
        };
        let out = match wrap {
            Some(q) if self.steps.q => self.b.quote(q, false, None, &[], &body),
            Some(_) => format!("`{body}`"),
            None => body,
        };
        Piece { src, out }
    }

    /// An underscore that begins a word cannot begin emphasis.
    fn no_emphasis(&self) -> bool {
        self.mix.quote == 0 && self.mix.escape == 0 && self.mix.link_quotes == 0 || !self.steps.q
    }

    pub fn url(&mut self) -> (String, String) {
        let scheme = self.r.pick(&["https://", "http://", "https://", "ftp://", "file://", "irc://"]).to_string();
        let rest = self.r.pick(&["example.org", "example.org/path", "example.org/a/b.html", "example.org/?q=1", "example.org/a_b", "example.org:8080/x", "sub.example.co.uk/x-y", "localhost", "example.org/é", "example.org/p,q", "example.org/x%20y", "a", "example.org/x(1)y", "example.org/a(b)-c"]).to_string();
        if self.r.one_in(3) {
            let (h, p) = (self.ident(), self.name_parts());
            let more = match self.r.below(5) {
                0 => String::new(),
                1 => format!(":{}", self.r.range(1, 65535)),
                2 => format!("/{p}"),
                3 => format!("/{p}.html?{}={}", self.ident(), self.r.below(1000)),
                _ => format!("/{p}/"),
            };
            return (scheme, format!("{h}.example.net{more}"));
        }
        (scheme, rest)
    }

    /// Letters and digits.
    pub fn ident(&mut self) -> String {
        let n = if self.r.one_in(8) { self.r.range(9, 40) } else { self.r.range(1, 8) };
        let mut o = String::new();
        o.push((b'a' + self.r.below(26) as u8) as char);
        for _ in 1..n {
            let k = self.r.below(36) as u8;
            o.push(if k < 26 { b'a' + k } else { b'0' + k - 26 } as char);
        }
        o
    }

    /// Names joined by single hyphens and low lines.
    pub fn name_parts(&mut self) -> String {
        let n = self.r.range(1, 6);
        let mut o = self.ident();
        for _ in 1..n {
            o.push(if self.r.bool() { '-' } else { '_' });
            let w = self.ident();
            o.push_str(&w);
        }
        o
    }

    /// Text of a link: no `=`, brackets or commas.
    fn link_text(&mut self, used: &[Q]) -> Piece {
        let mut p = Piece::default();
        p.same(self.r.pick(&["text", "the docs", "été", "日本", "Read more", "a [b", "x"]).replace(" [", " ").as_str());
        let q = *self.r.choose(&[Q::Strong, Q::Em, Q::Mono]);
        if self.mix.link_quotes > 0 && !used.contains(&q) && self.r.one_in(3) {
            p.same(" ");
            let w = self.safe_word();
            let m = match q {
                Q::Strong => "*",
                Q::Em => "_",
                _ => "`",
            };
            p.src.push_str(&format!("{m}{w}{m}"));
            if self.steps.q {
                p.out.push_str(&self.b.quote(q, false, None, &[], &w));
            } else {
                p.out.push_str(&format!("{m}{w}{m}"));
            }
            p.same(" end");
        } else if self.r.one_in(4) {
            p.same(" ");
            let x = self.plain("A & B");
            p.add(&x);
        } else if self.r.one_in(4) {
            // Only at the end does a caret mean something.
            p.same(self.r.pick(&[" x^ y", " 2 ^ 3", "^ z"]));
        } else if self.r.one_in(4) {
            self.count("escaped brackets in link text");
            for _ in 0..self.r.range(1, 2) {
                p.same(self.r.pick(&[" [a", " x", " é[0"]));
                p.src.push_str("\\]");
                p.out.push_str(if self.steps.m { "]" } else { "\\]" });
                p.same(self.r.pick(&["", " b", "c"]));
            }
        }
        p
    }

    pub fn link(&mut self) -> Piece {
        self.link_in(&[])
    }

    fn link_in(&mut self, used: &[Q]) -> Piece {
        self.count("links");
        let k = self.r.below(12);
        let (scheme, rest) = self.url();
        let mut l = Link::default();
        let amp = self.r.one_in(5);
        let mut url_src = format!("{scheme}{rest}");
        let mut url = url_src.clone();
        let mut shown = if self.hide_scheme { rest.clone() } else { url.clone() };
        if amp && k != 3 {
            url_src.push_str("?a&b");
            let e = self.plain("?a&b").out;
            url.push_str(&e);
            shown.push_str(&e);
        }
        l.target = url.clone();
        let m = self.steps.m;
        match k {
            0 | 1 if self.r.one_in(6) => {
                self.count("URLs that are no links");
                let p = match self.r.below(4) {
                    0 => ("link:", ""),
                    1 => ("\"", "\""),
                    2 => ("'", "'"),
                    _ => {
                        // Other schemes, and schemes within a word.
                        let s = self.r.pick(&["ftps://example.org", "ssh://a.b/c", "HTTPS://example.org", "xhttps://example.org", "httpss://a", "ircs://a.b/c", "1http://x.y", "https:/example.org", "https:example.org", "éhttp://x", "tel:+1"]);
                        let s = if s.contains('+') { "tel:123" } else { s };
                        return Piece { src: s.to_string(), out: s.to_string() };
                    }
                };
                Piece { src: format!("{}{url_src}{}", p.0, p.1), out: format!("{}{url}{}", p.0, p.1) }
            }
            0 | 1 => {
                self.count("bare URLs");
                l.text = shown;
                l.bare = true;
                let pre = self.r.pick(&["", "", "(", "w (", "w;", ";", "w>", "w)", ")", "()", "w]"]);
                let post = match pre {
                    "" | "w;" | ";" | "w>" | "w)" | ")" | "()" | "w]" => self.r.pick(&["", ",", ".", "!", "?", ";", ":"]),
                    _ => self.r.pick(&[")", ").", ");", "):"]),
                };
                // A semicolon after an escaped ampersand would be ambiguous to the reader only.
                let before = self.plain(pre).out;
                let out = if m { format!("{before}{}{post}", self.b.link(&l)) } else { format!("{before}{url}{post}") };
                Piece { src: format!("{pre}{url_src}{post}"), out }
            }
            2 => {
                self.count("URLs in angle brackets");
                l.text = shown;
                l.bare = true;
                let lt = self.plain("<").out;
                let gt = self.plain(">").out;
                // Without the special characters step the brackets are just characters.
                if !self.steps.c {
                    return self.word();
                }
                if m && self.r.one_in(4) {
                    self.count("escaped markup");
                    return Piece { src: format!("<\\{url_src}>"), out: format!("{lt}{url}{gt}") };
                }
                let out = if m { self.b.link(&l) } else { format!("{lt}{url}{gt}") };
                Piece { src: format!("<{url_src}>"), out }
            }
            3 if self.r.one_in(6) => {
                // Part of something else.
                self.count("addresses that are no links");
                let s = self.r.pick(&["a/b@example.org", "x:b@example.org", "/b@example.org", ":y.z@example.org", "a@b", "a@b.c", "@example.org", "a@-b.org", "a@b.toolongtld"]);
                Piece { src: s.to_string(), out: s.to_string() }
            }
            3 => {
                let user = self.r.pick(&["doc.writer", "a", "x_y", "a-b", "user+tag", "u%1"]);
                let dom = self.r.pick(&["example.org", "mail.example.co", "x.info", "ex-ample.com"]);
                let a = format!("{user}@{dom}");
                if a.contains('+') {
                    // A plus sign could pair with another one as a passthrough.
                    return self.word();
                }
                self.count("e-mail addresses");
                l.target = format!("mailto:{a}");
                l.text = a.clone();
                let post = self.r.pick(&["", ",", ".", "!", ")"]);
                Piece { src: format!("{a}{post}"), out: if m { format!("{}{post}", self.b.link(&l)) } else { format!("{a}{post}") } }
            }
            4 | 5 => {
                self.count("URLs with text");
                let mut t = self.link_text(used);
                if self.r.one_in(20) {
                    t = Piece::default();
                    t.same(" ");
                }
                l.text = t.out.clone();
                let caret = self.r.one_in(4);
                l.caret = caret;
                let c = if caret { "^" } else { "" };
                let pre = self.r.pick(&["", "", "link:", "(", ";", "\"", "'", "w;"]);
                let post = match pre {
                    "(" => ")",
                    "\"" | "'" => pre,
                    _ => self.r.pick(&["", "s", ",", "."]),
                };
                let out = if m { format!("{}{}{post}", if pre == "link:" { "" } else { pre }, self.b.link(&l)) } else { format!("{pre}{url}[{}{c}]{post}", t.out) };
                Piece { src: format!("{pre}{url_src}[{}{c}]{post}", t.src), out }
            }
            6 => {
                l.text = shown;
                l.bare = true;
                let pre = self.r.pick(&["", "link:"]);
                // A caret alone is no text.
                l.caret = self.r.one_in(3);
                let c = if l.caret { "^" } else { "" };
                Piece { src: format!("{pre}{url_src}[{c}]"), out: if m { self.b.link(&l) } else { format!("{pre}{url}[{c}]") } }
            }
            7 => {
                self.count("link macros");
                let target = self.r.pick(&["index.html", "a/b.pdf", "../x", "file.tar.gz", "é.html", "{nope}", "tools.html", "x", "é", "/", "#a", "a:b", "x()y", "https://"]).to_string();
                if self.r.one_in(8) {
                    self.count("link macros without a target");
                    let s = self.r.pick(&["link::[text]", "link:[text]", "link:[]", "link: x[text]", "link:a b[text]", "mailto:[x]", "mailto::x[y]", "link:x"]);
                    return Piece { src: s.to_string(), out: s.to_string() };
                }
                let t = self.link_text(used);
                let caret = self.r.one_in(4);
                l.caret = caret;
                let c = if caret { "^" } else { "" };
                let empty = self.r.one_in(4);
                l.target = target.clone();
                if empty {
                    l.text = target.clone();
                    l.bare = true;
                    return Piece { src: format!("link:{target}[{c}]"), out: if m { self.b.link(&l) } else { format!("link:{target}[{c}]") } };
                }
                l.text = t.out.clone();
                Piece { src: format!("link:{target}[{}{c}]", t.src), out: if m { self.b.link(&l) } else { format!("link:{target}[{}{c}]", t.out) } }
            }
            8 | 9 => {
                self.count("links with attributes");
                // Attributes: the text is the first positional one.
                let t = self.r.pick(&["text", "the docs", "été", "See fig. 2", "100%", "C#1", "a.b%c#d", ".x", "x#id", "=t", "= t"]).to_string();
                let mut src = format!("\"{t}\"");
                if self.r.bool() {
                    src = t.clone();
                }
                l.text = t;
                let caret = self.r.one_in(3);
                if caret {
                    // Inside the quotes as well as without.
                    let at = if src.ends_with('"') { src.len() - 1 } else { src.len() };
                    src.insert(at, '^');
                    l.caret = true;
                    self.count("carets with attributes");
                }
                if self.r.bool() {
                    if self.r.one_in(3) {
                        let (a, b) = (self.ident(), self.name_parts());
                        src.push_str(&format!(",role=\"{a} {b}\""));
                        l.roles.extend([a, b]);
                    } else {
                        let role = self.r.pick(&["btn", "ext", "r-1"]).to_string();
                        src.push_str(&format!(",role={role}"));
                        l.roles.push(role);
                    }
                }
                if self.r.one_in(3) {
                    let n = self.r.below(100);
                    src.push_str(&format!(",id=l{n}"));
                    l.id = Some(format!("l{n}"));
                }
                if !caret && (self.r.bool() || !src.contains('=')) || !src.contains('=') {
                    let w = if self.no_emphasis() { self.r.pick(&["_blank", "other", "_self"]) } else { self.r.pick(&["other", "w2", "top"]) }.to_string();
                    src.push_str(&format!(",window={w}"));
                    l.window = Some(w);
                    if self.r.one_in(3) {
                        src.push_str(",opts=noopener");
                        l.opts.push("noopener".into());
                    }
                } else if !caret && self.r.bool() {
                    src.push_str(",opts=nofollow");
                    l.opts.push("nofollow".into());
                }
                let (t1, t2, mac) = if self.r.bool() { (url_src.clone(), url.clone(), "") } else { ("x/y.html".to_string(), "x/y.html".to_string(), "link:") };
                l.target = t2.clone();
                let src = self.spread(src, false);
                Piece { src: format!("{mac}{t1}[{src}]"), out: if m { self.b.link(&l) } else { format!("{mac}{t2}[{src}]") } }
            }
            _ => {
                self.count("mailto macros");
                let a = "join@example.org";
                let t = self.link_text(used);
                let line = |r: &mut Rng| {
                    let n = r.range(1, 3);
                    (0..n).map(|_| r.pick(&["50%", "a/b", "x?", "a:b", "a;b", "$5", "(x)", "stop!", "é日", "a|b", "A-Z", "v1.0", "%20", "x_y", "\\o", "9", "a`b", "a#b", "a*b", "{ }", "a}b", "c @ d", "a|", "n.b.", "(", ")", "6\"", "x\"y\"", "1 + 1", "a+b", "$=5", "(a)=b", "x ^ y", "[a", "b[0", "[", "^ 2", "8' x", "(=", ";=", "a\\]b", "[c\\]"]).to_string()).collect::<Vec<_>>().join(" ")
                };
                let (l1, l2) = (line(&mut self.r), line(&mut self.r));
                let enc = |s: &str| s.replace("\\]", "]").bytes().map(|b| if b.is_ascii_alphanumeric() || b"*_.-~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect::<String>();
                let (src, text, target) = match self.r.below(6) {
                    4 => (format!("Join,{l1}"), "Join".to_string(), format!("mailto:{a}?subject={}", enc(&l1))),
                    5 => (format!("Join,{l1},{l2}"), "Join".to_string(), format!("mailto:{a}?subject={}&amp;body={}", enc(&l1), enc(&l2))),
                    0 => (String::new(), a.to_string(), format!("mailto:{a}")),
                    1 => (t.src.clone(), t.out.clone(), format!("mailto:{a}")),
                    2 => ("Join,Hello there".to_string(), "Join".to_string(), format!("mailto:{a}?subject=Hello%20there")),
                    _ => ("Join,Hi,Let me in/é".to_string(), "Join".to_string(), format!("mailto:{a}?subject=Hi&amp;body=Let%20me%20in%2F%C3%A9")),
                };
                l.target = target;
                l.text = text;
                let off = format!("mailto:{a}[{}]", if src == t.src { t.out.clone() } else { src.clone() });
                Piece { src: format!("mailto:{a}[{src}]"), out: if m { self.b.link(&l) } else { off } }
            }
        }
    }

    /// White space around the attributes of a list means nothing.
    fn spread(&mut self, s: String, ends: bool) -> String {
        if s.is_empty() || !self.r.one_in(4) {
            return s;
        }
        self.count("attribute lists with white space");
        let ws: &[&str] = if self.one_line { &["", " ", "  ", "\t"] } else { &["", " ", "  ", "\n", "\n  ", "\t"] };
        let mut o = String::new();
        if ends {
            o.push_str(self.r.pick(ws));
        }
        for c in s.chars() {
            if c == ',' {
                o.push_str(self.r.pick(&["", "", " "]));
                o.push(',');
                o.push_str(self.r.pick(ws));
            } else {
                o.push(c);
            }
        }
        if ends {
            o.push_str(self.r.pick(ws));
        }
        o
    }

    pub fn image(&mut self) -> Piece {
        self.count("images");
        let mut i = Image::default();
        let uri = self.r.one_in(4);
        let name = if self.r.bool() { self.name_parts() } else { self.r.pick(&["sunset", "my-picture", "a_b", "x.y", "été", "logo2", "-lead", "trail-"]).to_string() };
        let ext = self.r.pick(&[".png", ".jpg", ".gif", ""]).to_string();
        let dir = self.r.pick(&["", "", "pics/", "a/b/"]).to_string();
        let mut path = format!("{dir}{name}{ext}");
        if !uri && self.r.one_in(12) {
            // A colon alone does not make it a URL.
            path.insert_str(0, self.r.pick(&["c:/", "1a:/", "-x:/", "a/b:c/"]));
            self.count("targets with a colon");
        }
        i.target = if uri { format!("https://example.org/{path}") } else { path.clone() };
        if !uri && self.r.one_in(12) {
            // Any scheme of two letters or more.
            i.target = format!("{}{path}", self.r.pick(&["data:image/", "HTTPS://e.org/", "git+ssh://g/", "z39.50r://x/", "é9:/"]));
            self.count("targets with a scheme");
        }
        let uri = uri || i.target != path;
        if uri && self.r.one_in(8) {
            // A URL has no spaces.
            self.count("targets with spaces");
            let at = i.target.len() - path.len();
            i.target.insert_str(at, "a b  c/");
        }
        i.src = match (&self.imagesdir, uri) {
            (Some(d), false) if !d.is_empty() => format!("{}/{path}", d.trim_end_matches('/')),
            (_, true) => i.target.replace(' ', "%20"),
            _ => i.target.clone(),
        };
        // The default text: the file name without directory and extension.
        let stem = if ext.is_empty() { name.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or(name) } else { name };
        i.alt = stem.replace(['_', '-'], " ");
        let mut src = String::new();
        match self.r.below(5) {
            0 => {}
            1 => {
                i.alt = self.r.pick(&["Alt", "A view", "é 日", "Fig. 1", "100%", "No#3", ".role", "x#id", "%opt", "a.b", "A [x] y", "Fig. [1]"]).to_string();
                src.push_str(&i.alt.replace(']', "\\]"));
            }
            2 => {
                i.alt = self.ident();
                let w = self.r.range(1, 5000).to_string();
                src.push_str(&format!("{},{w}", i.alt));
                i.width = Some(w);
            }
            3 => {
                i.alt = "Some alt".into();
                let (w, h) = (self.r.range(1, 5000).to_string(), self.r.range(1, 5000).to_string());
                src.push_str(&format!("\"Some alt\",{w},{h}{}", self.r.pick(&["", "", ",left", ",1,2"])));
                i.width = Some(w);
                i.height = Some(h);
            }
            _ => {
                i.alt = "named alt".into();
                let w = format!("{}%", self.r.range(1, 100));
                src.push_str(&format!("alt=named alt,width={w}"));
                i.width = Some(w);
                if self.r.bool() {
                    let h = self.r.range(1, 5000).to_string();
                    src.push_str(&format!(",height={h}"));
                    i.height = Some(h);
                }
            }
        }
        let sep = |s: &mut String| {
            if !s.is_empty() {
                s.push(',');
            }
        };
        if self.r.one_in(4) {
            sep(&mut src);
            let t = if self.one_line { self.r.pick(&["A title", "A [title\\]", "x\\]", "b [0\\]"]) } else { self.r.pick(&["A title", "A [title\\]", "x\\]", "two\nlines", "b [0\\]"]) };
            src.push_str(&format!("title=\"{t}\""));
            i.title = Some(t.replace("\\]", "]").replace('\n', " "));
            if t.len() != 7 {
                self.count("escaped brackets and line ends in attributes");
            }
        }
        if self.r.one_in(5) {
            sep(&mut src);
            let f = self.r.pick(&["left", "right"]).to_string();
            src.push_str(&format!("float={f}"));
            i.float = Some(f);
        }
        if self.r.one_in(4) {
            sep(&mut src);
            if self.r.bool() {
                src.push_str("role=thumb");
                i.roles.push("thumb".into());
            } else {
                let (a, b) = (self.ident(), self.name_parts());
                src.push_str(&format!("role=\"{a} {b}\""));
                i.roles.extend([a, b]);
            }
        }
        if self.r.one_in(5) {
            sep(&mut src);
            let l = self.r.pick(&["self", "page.html", "x/y"]).to_string();
            src.push_str(&format!("link={l}"));
            i.link = Some(l);
            if self.r.bool() {
                let w = if self.r.bool() && self.no_emphasis() { "_blank".to_string() } else { self.ident() };
                src.push_str(&format!(",window={w}"));
                i.window = Some(w);
            }
        }
        if self.r.one_in(6) {
            // The extension decides, or the format.
            if self.r.bool() || ext.is_empty() {
                sep(&mut src);
                src.push_str("format=svg");
            } else {
                let cut = |s: &str| format!("{}.svg", s.strip_suffix(&ext).unwrap_or(s));
                i.target = cut(&i.target);
                i.src = cut(&i.src);
            }
            let o = self.r.pick(&["inline", "interactive"]);
            sep(&mut src);
            src.push_str(&format!("opts={o}"));
            i.svg = Some(if o == "inline" { "inline" } else { "interactive" });
            if o == "interactive" && self.r.bool() {
                src.push_str(",fallback=https://example.org/f.png");
                i.fallback = Some("https://example.org/f.png".into());
            }
            self.count("SVG images");
        }
        let src = self.spread(src, true);
        let w = format!("image:{}[{src}]", i.target);
        let before = if self.r.one_in(6) { "(" } else { "" };
        let after = if before.is_empty() { self.r.pick(&["", ",", ".", "s"]) } else { ")" };
        Piece { src: format!("{before}{w}{after}"), out: if self.steps.m { format!("{before}{}{after}", self.b.image(&i)) } else { format!("{before}{w}{after}") } }
    }

    pub fn icon(&mut self) -> Piece {
        self.count("icons");
        let target = if self.r.bool() { self.name_parts() } else { self.r.pick(&["heart", "tags", "my-icon", "a_b", "x2"]).to_string() };
        let mut i = Icon { mode: self.icons, alt: target.replace(['_', '-'], " "), ..Default::default() };
        let file = format!("{target}.{}", self.icontype.as_deref().unwrap_or("png"));
        i.src = match &self.iconsdir {
            None => format!("./images/icons/{file}"),
            Some(d) if d.is_empty() => file,
            Some(d) => format!("{}/{file}", d.trim_end_matches('/')),
        };
        i.target = target;
        let mut a: Vec<String> = vec![];
        match self.r.below(4) {
            0 => {
                let s = self.r.pick(&["2x", "2x", "1.5x", "10%"]).to_string();
                a.push(s.clone());
                i.size = Some(s);
                if self.r.one_in(4) {
                    // Only the first position of an icon has a meaning.
                    a.push(self.r.pick(&["foo", "12", "90,13"]).to_string());
                }
            }
            1 => {
                i.size = Some("lg".into());
                a.push("size=lg".into());
            }
            _ => {}
        }
        if self.r.one_in(4) {
            i.flip = Some("vertical".into());
            a.push("flip=vertical".into());
        }
        if self.r.one_in(4) {
            i.rotate = Some("90".into());
            a.push("rotate=90".into());
        }
        if self.r.one_in(5) {
            i.alt = "An icon".into();
            a.push("alt=An icon".into());
        }
        if self.r.one_in(5) {
            i.width = Some("16".into());
            a.push("width=16".into());
        }
        if self.r.one_in(5) {
            i.height = Some("24".into());
            a.push("height=24".into());
        }
        if self.r.one_in(5) {
            let t = self.r.pick(&["The title", "The [title\\]", "b [0\\]"]);
            a.push(format!("title=\"{t}\""));
            i.title = Some(t.replace("\\]", "]"));
        }
        if self.r.one_in(5) {
            // A URL before the bracket of an icon shown as text would look like a link with text.
            let l = if i.mode != IconMode::Text && self.r.one_in(4) { "https://example.org/p".to_string() } else { self.r.pick(&["page.html", "self", "x/y"]).to_string() };
            let l = if l == "self" && i.mode == IconMode::Text && i.src.contains("://") { "x".to_string() } else { l };
            a.push(format!("link={l}"));
            i.link = Some(l);
            if self.r.bool() {
                let w = if self.r.bool() && self.no_emphasis() { "_blank".to_string() } else { self.ident() };
                a.push(format!("window={w}"));
                i.window = Some(w);
            }
        }
        if self.r.one_in(6) {
            let f = self.r.pick(&["left", "right"]).to_string();
            a.push(format!("float={f}"));
            i.float = Some(f);
        }
        if self.r.one_in(4) {
            i.roles = vec!["red".into(), "big".into()];
            a.push("role=\"red big\"".into());
        }
        let a = a.join(",");
        let a = self.spread(a, true);
        let w = format!("icon:{}[{a}]", i.target);
        let post = self.r.pick(&["", ",", "."]);
        Piece { src: format!("{w}{post}"), out: if self.steps.m { format!("{}{post}", self.b.icon(&i)) } else { format!("{w}{post}") } }
    }

    fn anchor(&mut self) -> Piece {
        self.count("inline anchors");
        let u = if self.no_emphasis() { "_x" } else { "x" };
        let id = format!("{}{}", self.r.pick(&["a", "été", u, "p-q.r:s", "Z", "x٣", ":c", "日本-", "Жx.", "ªb:", "b९-é"]), self.r.below(100));
        let (src, rt): (String, Option<&str>) = match self.r.below(10) {
            4 => (format!("anchor:{id}[See [1\\] x]"), Some("See [1] x")),
            5 => (format!("[[{id},See [1] x]]"), Some("See [1] x")),
            6 => (format!("[[{id}, Ref, more]]"), Some("Ref, more")),
            7 => (format!("[[{id},  ü]]"), Some("ü")),
            8 => (format!("anchor:{id}[,]"), Some(",")),
            0 => (format!("[[{id}]]"), None),
            1 => (format!("[[{id},Ref text]]"), Some("Ref text")),
            2 => (format!("anchor:{id}[]"), None),
            _ => (format!("anchor:{id}[Some text]"), Some("Some text")),
        };
        let post = self.r.pick(&["", "w", " x"]);
        let out = if self.steps.m { self.b.anchor(&id, rt) } else { src.clone() };
        if post == " x" && self.r.one_in(4) {
            // Brackets around it are text.
            self.count("inline anchors in brackets");
            return Piece { src: format!("w[{src}]{post}"), out: format!("w[{out}]{post}") };
        }
        Piece { src: format!("{src}{post}"), out: format!("{out}{post}") }
    }

    /// Escaped markup: `(step that would apply, source without backslash, backslashes)`.
    fn escape(&mut self, used: &[Q]) -> Piece {
        let st = self.steps;
        let (ok, pre, bs, text): (bool, &str, &str, &str) = match self.r.below(31) {
            29 => (st.r, "w ", "\\", "-- w"),
            0 => (st.q, "", "\\", "*b*"),
            1 => (st.q, "", "\\", "_i_"),
            2 => (st.q, "", "\\", "`m`"),
            3 => (st.q, "", "\\", "#h#"),
            4 => (st.q, "", "\\", "^u^"),
            5 => (st.q, "", "\\", "~d~"),
            6 => (st.q, "", "\\\\", "**bb**"),
            7 => (st.q, "", "\\\\", "__ii__"),
            8 => (st.q, "", "\\\\", "##hh##"),
            9 => (st.r, "", "\\", "(C)"),
            10 => (st.r, "", "\\", "(R)"),
            11 => (st.r, "", "\\", "(TM)"),
            12 => (st.r, "", "\\", "..."),
            13 => (st.r, "a", "\\", "--b"),
            14 => (st.r, "it", "\\", "'s"),
            15 => (st.r && st.c, "", "\\", "->"),
            16 => (st.r && st.c, "", "\\", "=>"),
            17 => (st.r && st.c, "", "\\", "<-"),
            18 => (st.r && st.c, "", "\\", "<="),
            19 => (st.r && st.c, "", "\\", "&copy;"),
            20 => (st.m, "", "\\", "https://example.org/x"),
            21 => (st.m, "", "\\", "https://example.org[text]"),
            22 => (st.m, "", "\\", "link:x.html[text]"),
            23 => (st.m, "", "\\", "image:x.png[Alt]"),
            24 => (st.m, "", "\\", "a@example.org"),
            25 => (st.m, "", "\\", "[[anchor]]"),
            26 => (st.m, "", "\\", "pass:[x y]"),
            27 => (st.m, "", "\\", "mailto:x@example.org[y]"),
            28 => (st.m, "", "\\", "icon:tags[]"),
            _ => {
                let Some((n, _)) = self.attrs.first().copied() else { return self.word() };
                self.count("escaped markup");
                let s = format!("{{{n}}}");
                return Piece { src: format!("\\{s}"), out: if st.a { s } else { format!("\\{s}") } };
            }
        };
        let kinds = [('*', Q::Strong), ('_', Q::Em), ('`', Q::Mono), ('#', Q::Mark), ('^', Q::Sup), ('~', Q::Sub)];
        if kinds.iter().any(|(c, q)| text.starts_with(*c) && used.contains(q)) {
            return self.word();
        }
        self.count("escaped markup");
        let x = self.plain(text);
        Piece { src: format!("{pre}{bs}{text}"), out: if ok { format!("{pre}{}", x.out) } else { format!("{pre}{bs}{}", x.out) } }
    }
}
