//! Document headers with everything that must be found in them.
use std::collections::BTreeMap;

use asciidoc_parser::{Document, HasSpan, Parser, blocks::IsBlock, document::InterpretedValue};

use super::config::context;
use crate::{ctx::Ctx, rng::Rng, util};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Focus {
    All,
    Authors,
    Revision,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Author {
    pub name: String,
    pub first: String,
    pub middle: Option<String>,
    pub last: Option<String>,
    pub email: Option<String>,
}

impl Author {
    fn initials(&self) -> String {
        [Some(&self.first), self.middle.as_ref(), self.last.as_ref()].into_iter().flatten().filter_map(|s| s.chars().next()).collect()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Revision {
    pub src: String,
    pub number: Option<String>,
    pub date: String,
    pub remark: Option<String>,
}

#[derive(Default)]
pub struct Header {
    pub src: String,
    pub title: Option<(String, String)>,
    /// Name, raw value, value.
    pub attrs: Vec<(String, Option<String>, InterpretedValue2)>,
    pub comments: Vec<String>,
    pub author_line: Option<(String, Vec<Author>)>,
    pub revision: Option<Revision>,
    /// What references mean after the header.
    pub env: BTreeMap<String, String>,
    /// The line that should have been separated from the header.
    pub warn: Option<String>,
    /// The header's own text.
    pub text: String,
    /// Paragraphs of the body, as written and as rendered.
    pub body: Vec<(String, String)>,
    pub counts: BTreeMap<&'static str, u64>,
    /// Attributes that the document may not set: name and value.
    pub locked: Vec<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum InterpretedValue2 {
    Value(String),
    Set,
    Unset,
}

fn same(a: &InterpretedValue2, b: &InterpretedValue) -> bool {
    match (a, b) {
        (InterpretedValue2::Value(x), InterpretedValue::Value(y)) => x == y,
        (InterpretedValue2::Set, InterpretedValue::Set) | (InterpretedValue2::Unset, InterpretedValue::Unset) => true,
        _ => false,
    }
}

struct G<'r> {
    r: &'r mut Rng,
    h: Header,
    focus: Focus,
    lines: Vec<String>,
    next: usize,
}

const TEXT: &[&str] = &["word", "Title", "été", "日本", "x1", "A:", "well-known", "C+1", "*b*", "_i_", "`m`", "(C)", "...", "it's", "http://x.org", "v1", "2,", "--", "😀", "a=b", "#5", "e.g."];

impl G<'_> {
    fn count(&mut self, k: &'static str) {
        *self.h.counts.entry(k).or_insert(0) += 1;
    }

    fn set(&mut self, n: &str, v: &str) {
        if self.h.locked.iter().any(|l| l.0 == n) {
            return;
        }
        self.h.env.insert(n.to_string(), v.to_string());
    }

    fn reference(&mut self) -> (String, String) {
        if self.h.env.is_empty() || self.r.one_in(5) {
            let s = self.r.pick(&["{nope}", "{not-defined}", "{a b}", "{}", "{x_y_z}"]);
            return (s.into(), s.into());
        }
        let names: Vec<String> = self.h.env.keys().cloned().collect();
        let n = self.r.choose(&names).clone();
        let v = self.h.env[&n].clone();
        self.count("references");
        (format!("{{{n}}}"), v)
    }

    /// Words, special characters and references; in titles and values also passthroughs.
    fn text(&mut self, pieces: usize, passes: bool) -> (String, String) {
        let w = self.r.pick(&["Start", "A", "The", "Él", "日"]).to_string();
        let (mut s, mut o) = (w.clone(), w);
        for _ in 0..pieces {
            let (a, b) = match self.r.below(9) {
                0 | 1 => self.reference(),
                2 => {
                    self.count("special characters");
                    let c = self.r.pick(&["<", ">", "&", "<b>", "R&D", "&lt;", "&#169;"]);
                    (c.to_string(), util::html(c))
                }
                3 if passes => {
                    self.count("passthroughs");
                    let (a, b) = *self.r.choose(&[("pass:[<u>&]", "<u>&"), ("+++<i>&+++", "<i>&"), ("pass:q[*b* <]", "<strong>b</strong> <"), ("pass:c[<x>]", "&lt;x&gt;")]);
                    (a.to_string(), b.to_string())
                }
                _ => {
                    let w = self.r.pick(TEXT).to_string();
                    (w.clone(), w)
                }
            };
            s.push(' ');
            o.push(' ');
            s.push_str(&a);
            o.push_str(&b);
        }
        // Nothing that ends in white space.
        s.push_str(" z");
        o.push_str(" z");
        (s, o)
    }

    fn comment(&mut self) {
        let n = self.r.below(3);
        let mut c = format!("{}{}", self.r.pick(&["//", "// ", "// = ", "// :a: "]), self.text(n, false).0);
        if self.r.one_in(8) {
            c = "//".into();
        }
        self.h.comments.push(c.clone());
        self.lines.push(c);
        self.count("comments");
    }

    fn attribute(&mut self) {
        self.count("attribute entries");
        let n = if self.focus == Focus::Authors && self.r.one_in(3) {
            return self.author_entry();
        } else {
            self.next += 1;
            format!("{}{}", self.r.pick(&["at-", "x", "Z_", "é"]), self.next)
        };
        let n = if self.r.one_in(8) {
            // Attributes that other lines of the header set as well: the latest counts.
            self.count("entries for attributes of the title, author and revision");
            // (Whether a revision line may refer to itself is left open.)
            let rev = if self.h.revision.is_some() { self.r.pick(&["revnumber", "revdate"]) } else { "revremark" };
            self.r.pick(&[rev, "doctitle", "DocTitle", "firstname", "lastname", "middlename", "email", "authorinitials", "author_2", "lastname_2"]).to_string()
        } else {
            n
        };
        let n = if n.starts_with('é') { n.replace('é', "e") } else { n };
        let key = n.to_lowercase();
        match self.r.below(8) {
            0 => {
                self.lines.push(format!(":{n}:"));
                self.set(&key, "");
                self.h.attrs.push((n, None, InterpretedValue2::Set));
            }
            1 => {
                let l = if self.r.bool() { format!(":!{n}:") } else { format!(":{n}!:") };
                self.lines.push(l);
                self.set(&key, "");
                self.h.attrs.push((n, None, InterpretedValue2::Unset));
            }
            2 => {
                let k = self.r.below(3);
                let (a, b) = self.text(k, false);
                let (c, d) = self.text(1, false);
                self.count("values over several lines");
                let raw = format!("{a} \\\n  {c}");
                for (k, l) in format!(":{n}: {raw}").split('\n').enumerate() {
                    let _ = k;
                    self.lines.push(l.to_string());
                }
                let v = format!("{b} {d}");
                self.set(&key, &v);
                self.h.attrs.push((n, Some(raw), InterpretedValue2::Value(v)));
            }
            _ => {
                let k = self.r.below(4);
                let (a, b) = self.text(k, true);
                let sp = self.r.pick(&[" ", "  ", " \t"]);
                self.lines.push(format!(":{n}:{sp}{a}"));
                self.set(&key, &b);
                self.h.attrs.push((n, Some(a), InterpretedValue2::Value(b)));
            }
        }
    }

    fn author_entry(&mut self) {
        self.count("author entries");
        let (s, a) = loop {
            let x = self.author();
            if !x.0.contains('{') {
                break x;
            }
        };
        let n = self.r.pick(&["author", "author", "Author", "AUTHOR"]);
        self.lines.push(format!(":{n}: {s}"));
        self.set("firstname", &a.first);
        for (n, v) in [("middlename", &a.middle), ("lastname", &a.last), ("email", &a.email)] {
            if let Some(v) = v {
                self.set(n, v);
            }
        }
        self.set("authorinitials", &a.initials());
        let v = util::html(&s);
        self.set("author", &v);
        self.h.attrs.push((n.into(), Some(s), InterpretedValue2::Value(v)));
    }

    fn name_part(&mut self) -> String {
        let mut s = String::new();
        let n = if self.r.one_in(4) { self.r.range(2, 3) } else { 1 };
        for k in 0..n {
            if k > 0 {
                s.push_str(self.r.pick(&["_", "-", "'", ".", "_"]));
            }
            s.push_str(self.r.pick(&["Ann", "Lee", "José", "Łukasz", "日本", "B", "de", "X2", "O", "Zoë", "ß", "van", "Üwe", "Q", "Иван", "S&#248;ren"]));
        }
        if self.r.one_in(10) {
            s.push('.');
        }
        s
    }

    fn email(&mut self) -> (String, String) {
        if self.r.one_in(6) {
            self.count("e-mail addresses with references");
            let (a, b) = self.reference();
            if !b.contains(['<', '>']) && !a.contains(' ') {
                return (a, b);
            }
        }
        let e = self.r.pick(&["a@b.org", "ann_lee@example.com", "https://example.org/~x?a=b", "é@日本.jp", "x y", "@", "a;b@c", "first.last+tag@mail.example.org"]).to_string();
        (e.clone(), e)
    }

    fn author(&mut self) -> (String, Author) {
        match self.r.below(12) {
            0 => {
                // One reference stands for the whole name.
                let (s, v) = loop {
                    let (s, v) = self.reference();
                    if !s.contains(' ') && s != "{}" && !v.is_empty() {
                        break (s, v);
                    }
                    if self.r.one_in(20) {
                        break ("{nope}".to_string(), "{nope}".to_string());
                    }
                };
                self.count("authors that are a reference");
                let v = v.replace('_', " ");
                (s, Author { name: v.clone(), first: v, ..Default::default() })
            }
            3 if self.r.bool() => {
                // A reference and what cannot be in a name.
                let (s, v) = loop {
                    let (s, v) = self.reference();
                    if s.starts_with('{') && s.ends_with('}') && !s.contains(' ') && s != "{}" && !v.is_empty() && !v.contains(['&', '<', '>', ';']) {
                        break (s, v);
                    }
                    if self.r.one_in(20) {
                        break ("{nope}".to_string(), "{nope}".to_string());
                    }
                };
                self.count("authors that are a reference and what is no name");
                let x = self.r.pick(&["<Lee", "> Lee", "<b", "<<x", "a<b Lee", "x>"]);
                let v = util::html(&format!("{v} {x}")).replace('_', " ");
                (format!("{s} {x}"), Author { name: v.clone(), first: v, ..Default::default() })
            }
            1 => {
                // More names than are understood.
                self.count("names of more than three parts");
                let n = self.r.range(4, 7);
                let mut v: Vec<String> = vec![];
                for _ in 0..n {
                    v.push(self.name_part());
                }
                let mut s = v.join(" ");
                if self.r.one_in(3) {
                    s = format!("{s} <a@b.org>");
                    let v = util::html(&s).replace("&amp;", "&amp;").replace('_', " ");
                    return (s, Author { name: v.clone(), first: v, ..Default::default() });
                }
                let v = s.replace('_', " ");
                (s, Author { name: v.clone(), first: v, ..Default::default() })
            }
            2 => {
                self.count("names with other characters");
                let s = self.r.pick(&["Ann (Lee)", "Ann, Lee", "Ann \"X\" Lee", "*Ann* Lee", "Ann/Lee", "<a@b.org>", "Ann <Lee", "Ann Lee <>", "Ann> Lee", "Ann Lee <a@b.org> x", "=Ann", "-Ann", "Ann: Lee", "Ann Lee<a@b.org>", "😀"]).to_string();
                let v = util::html(&s).replace('_', " ");
                (s, Author { name: v.clone(), first: v, ..Default::default() })
            }
            _ => {
                let n = self.r.range(1, 3);
                let mut v: Vec<String> = vec![];
                for _ in 0..n {
                    v.push(self.name_part());
                }
                let mut s = v.join(" ");
                let mut by_ref = false;
                let mut several = false;
                if n > 1 && self.r.one_in(12) {
                    // All of the names are.
                    let w: Vec<(String, String)> = (0..n).map(|_| self.reference()).collect();
                    if w.iter().all(|(_, b)| !b.is_empty() && b.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') && b.starts_with(char::is_alphanumeric)) {
                        self.count("names that are all references");
                        several = true;
                        s = w.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ");
                        v = w.into_iter().map(|x| x.1).collect();
                    }
                } else if n > 1 && self.r.one_in(6) {
                    // One of the names is a reference.
                    let (a, b) = self.reference();
                    if !b.is_empty() && b.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') && b.starts_with(char::is_alphanumeric) {
                        self.count("names that are a reference");
                        by_ref = true;
                        let k = self.r.below(n);
                        let mut w = v.clone();
                        w[k] = a;
                        s = w.join(" ");
                        v[k] = b;
                    }
                }
                let p: Vec<String> = v.iter().map(|x| x.replace('_', " ")).collect();
                let mut a = Author { name: p.join(" "), first: p[0].clone(), ..Default::default() };
                if n == 2 {
                    a.last = Some(p[1].clone());
                }
                if n == 3 {
                    a.middle = Some(p[1].clone());
                    a.last = Some(p[2].clone());
                }
                if !several && self.r.one_in(2) {
                    let (e, v) = loop {
                        let x = self.email();
                        if !by_ref || !x.0.contains('{') {
                            break x;
                        }
                    };
                    self.count("e-mail addresses");
                    s = format!("{s}{}<{e}>", self.r.pick(&[" ", " ", "  ", "   "]));
                    a.email = Some(v);
                }
                (s, a)
            }
        }
    }

    fn author_line(&mut self) {
        let mut n = if self.focus == Focus::Authors { self.r.range(1, 4) } else { self.r.range(1, 2) };
        if self.r.one_in(40) {
            n = self.r.range(5, 14);
            self.count("five authors and more");
        }
        let mut v = vec![];
        let mut src: Vec<String> = vec![];
        while v.len() < n {
            let (s, a) = self.author();
            // The line must be nothing else.
            if v.is_empty() && (s.starts_with(['=', ':']) || s.starts_with("//")) {
                continue;
            }
            if self.r.one_in(20) && !v.is_empty() {
                src.push(String::new());
            }
            src.push(s);
            v.push(a);
        }
        let line = src.join("; ");
        for (k, a) in v.iter().enumerate() {
            let name = |n: &str| if k == 0 { n.to_string() } else { format!("{n}_{}", k + 1) };
            self.set(&name("author"), &a.name);
            self.set(&name("authorinitials"), &a.initials());
            self.set(&name("firstname"), &a.first);
            for (n, x) in [("middlename", &a.middle), ("lastname", &a.last), ("email", &a.email)] {
                if let Some(x) = x {
                    self.set(&name(n), x);
                }
            }
        }
        *self.h.counts.entry("authors").or_insert(0) += v.len() as u64;
        self.lines.push(line.clone());
        self.h.author_line = Some((line, v));
    }

    fn revision_text(&mut self, colons: bool, commas: bool) -> (String, String) {
        loop {
            let k = self.r.below(4);
            let (s, o) = self.text(k, false);
            if (colons || !s.contains(':')) && (commas || !s.contains(',')) && !s.contains("+++") {
                return (s, o);
            }
        }
    }

    fn revision(&mut self) {
        let mut r = Revision::default();
        let number = match self.r.below(3) {
            0 => None,
            _ => {
                let (pre, num) = (self.r.pick(&["v", "", "rev ", "LPR", "version ", "é-", "v."]), self.r.pick(&["1.0", "2", "3.14.15-beta.1", "0", "1 draft", "7x", "55", "1.0<2", "2023-é"]));
                let mut s = format!("{pre}{num}");
                let mut o = util::html(num);
                match self.r.below(8) {
                    0 => {
                        let (a, b) = self.reference();
                        if !a.contains(' ') {
                            s.push_str(&a);
                            o.push_str(&b);
                        }
                    }
                    1 => {
                        // A reference where the number begins.
                        let (a, b) = self.reference();
                        if !a.contains(' ') {
                            s = format!("{pre}{a}");
                            o = b;
                            self.count("revision numbers that are a reference");
                        }
                    }
                    _ => {}
                }
                Some((s, o))
            }
        };
        let mut src;
        let date = if self.r.pct(70) { Some(self.revision_text(false, number.is_some())) } else { None };
        let mut date = date;
        if let Some(d) = &mut date
            && self.r.bool()
        {
            *d = self.r.choose(&[("2023-01-15", "2023-01-15"), ("January 1 2020", "January 1 2020"), ("é 2020 & more", "é 2020 &amp; more"), ("winter", "winter")]).to_owned().into_pair();
        }
        match (&number, &date) {
            (Some((n, v)), Some((d, dv))) => {
                src = format!("{n}{}{d}", self.r.pick(&[", ", ",", " , ", ",  "]));
                r.number = Some(v.clone());
                r.date = dv.clone();
                self.count("revision numbers");
                self.count("revision dates");
            }
            (Some((n, v)), None) => {
                // On its own a number needs its letter.
                if n.starts_with('v') && n[1..].starts_with(|c: char| c.is_ascii_digit()) && !n.contains(',') {
                    src = n.clone();
                    r.number = Some(v.clone());
                    self.count("revision numbers alone");
                } else {
                    src = format!("{n},");
                    r.number = Some(v.clone());
                }
            }
            (None, Some((d, dv))) => {
                src = d.clone();
                r.date = dv.clone();
                self.count("revision dates");
            }
            (None, None) => {
                src = "v9".into();
                r.number = Some("9".into());
            }
        }
        if number.is_none() && src.starts_with('v') && src[1..].starts_with(|c: char| c.is_ascii_digit()) && date.is_some() {
            src.insert(0, 'x');
            r.date.insert(0, 'x');
        }
        if self.r.bool() {
            let (a, b) = self.revision_text(true, true);
            src.push_str(self.r.pick(&[": ", ":", " : ", ":   "]));
            src.push_str(&a);
            r.remark = Some(b);
            self.count("revision remarks");
        } else if self.r.one_in(10) {
            src.push(':');
            r.remark = Some(String::new());
        }
        if let Some(n) = r.number.clone() {
            self.set("revnumber", &n);
        }
        let d = r.date.clone();
        self.set("revdate", &d);
        if let Some(n) = r.remark.clone() {
            self.set("revremark", &n);
        }
        self.lines.push(src.clone());
        r.src = src;
        self.h.revision = Some(r);
    }
}

trait IntoPair {
    fn into_pair(self) -> (String, String);
}

impl IntoPair for (&str, &str) {
    fn into_pair(self) -> (String, String) {
        (self.0.to_string(), self.1.to_string())
    }
}

/// A document with a header, and the parser for it.
pub fn document(r: &mut Rng, focus: Focus) -> (Header, Parser) {
    let mut p = Parser::default();
    let mut g = G { r, h: Header::default(), focus, lines: vec![], next: 0 };
    for (n, v) in [("api-1", "value"), ("api-2", "two words"), ("api3", "é日"), ("api_4", ""), ("api-5", "&lt;5&gt;"), ("first", "Ann_Marie")] {
        if g.r.bool() {
            p = p.with_intrinsic_attribute(n, v, context(g.r.below(4) as u8));
            g.set(n, v);
        }
    }
    if g.r.one_in(8) {
        let n = g.r.pick(&["author", "revnumber", "revdate", "firstname", "lastname", "email", "author_2", "authorinitials", "revremark"]);
        p = p.with_intrinsic_attribute(n, "locked", context(if g.r.bool() { 0 } else { 2 }));
        g.set(n, "locked");
        g.h.locked.push((n.to_string(), "locked".to_string()));
        g.count("attributes the document may not set");
    }
    while g.r.one_in(8) {
        // Known before, but for the document to set.
        let n = g.r.pick(&["author", "middlename", "firstname", "lastname", "email", "author_2", "middlename_2", "email_2", "authorinitials", "revremark"]);
        if g.h.env.contains_key(n) {
            continue;
        }
        p = p.with_intrinsic_attribute(n, "Preset", context(if g.r.bool() { 1 } else { 3 }));
        g.set(n, "Preset");
        g.count("attributes that had a value before the document");
    }
    let blank = |g: &mut G| {
        while g.r.one_in(4) {
            let b = g.r.pick(&["", "  ", "\t"]).to_string();
            g.lines.push(b);
        }
    };
    let mut lead = 0;
    while g.r.one_in(6) {
        g.lines.push(g.r.pick(&["", "   "]).to_string());
        lead += 1;
    }
    let titled = focus != Focus::All || g.r.pct(85);
    let before = if titled { [0, 0, 0, 1, 2, 3][g.r.below(6)] } else { g.r.below(4) };
    for k in 0..before {
        if g.r.one_in(3) {
            g.comment();
        } else {
            g.attribute();
        }
        if titled || k + 1 < before {
            blank(&mut g);
        }
    }
    if titled {
        let k = g.r.below(5);
        let (a, b) = g.text(k, true);
        let sp = g.r.pick(&[" ", " ", "  ", " \t"]);
        g.lines.push(format!("={sp}{a}"));
        g.set("doctitle", &b);
        g.h.title = Some((a, b));
        let (want_a, want_r) = match focus {
            Focus::All => {
                let a = g.r.bool();
                (a, a && g.r.bool())
            }
            Focus::Authors => (true, g.r.one_in(3)),
            Focus::Revision => (true, true),
        };
        let mut todo: Vec<u8> = vec![];
        for (w, k) in [(want_a, 0u8), (want_r, 1)] {
            while g.r.one_in(3) {
                todo.push(2 + g.r.below(2) as u8);
            }
            if w {
                todo.push(k);
            }
        }
        while g.r.one_in(3) {
            todo.push(2 + g.r.below(2) as u8);
        }
        for k in todo {
            match k {
                0 => g.author_line(),
                1 => g.revision(),
                2 => g.comment(),
                _ => g.attribute(),
            }
        }
    }
    // Trailing white space belongs to no line.
    let mut all = g.lines[lead..].join("\n");
    if g.r.one_in(5) {
        let mut t = vec![];
        for l in all.split('\n') {
            t.push(if !l.ends_with('\\') && g.r.one_in(3) { format!("{l}{}", g.r.pick(&[" ", "  ", "\t", " \t "])) } else { l.to_string() });
        }
        all = t.join("\n");
    }
    g.h.text = all.trim_end().to_string();
    let mut src = g.lines[..lead].join("\n");
    if lead > 0 {
        src.push('\n');
    }
    src.push_str(&all);
    if !all.is_empty() {
        src.push('\n');
    }
    let end = g.r.below(8);
    let mut paras = vec![];
    let full = g.h.author_line.is_some() && g.h.revision.is_some();
    if end == 0 && full && titled {
        g.count("headers that are not terminated");
        let l = g.r.pick(&["Not separated from it.", "///x is no comment", "= Another title", "== A section", "Ann Bell", "v3.0"]).to_string();
        g.h.warn = Some(l.clone());
        src.push_str(&l);
        src.push_str(g.r.pick(&["", "", " ", "\t", "  "]));
        src.push_str("\n\n");
        if l.starts_with("== ") {
            // All the rest is in that section.
            src.push_str("Body\n");
            g.h.body = vec![(l, "(none)".into())];
            g.h.src = src;
            return (g.h, p);
        }
        paras.push((l.clone(), l));
    } else if end == 1 {
        while g.r.one_in(3) {
            src.push('\n');
        }
        if src.ends_with('\n') && g.r.bool() {
            src.pop();
        }
        g.h.src = src;
        return (g.h, p);
    } else if titled || !all.is_empty() {
        src.push_str(g.r.pick(&["\n", "\n\n", "  \n", "\n\n\n"]));
    }
    let n = g.r.range(1, 2);
    for _ in 0..n {
        let names: Vec<String> = g.h.env.keys().cloned().collect();
        let (mut s, mut o) = ("Body".to_string(), "Body".to_string());
        for _ in 0..g.r.range(1, 6) {
            let (a, b) = if names.is_empty() || g.r.one_in(6) { ("{nope}".to_string(), "{nope}".to_string()) } else {
                let n = g.r.choose(&names);
                (format!("{{{n}}}"), g.h.env[n].clone())
            };
            // Values are not to meet the substitutions that come after the references.
            let b2 = b.clone();
            if b2.contains(['\'', '.', '(', '-', '@', ':', '&', '+', '=', '<', '>']) {
                continue;
            }
            s.push_str(&format!(" {a} w"));
            o.push_str(&format!(" {b} w"));
        }
        src.push_str(&s);
        src.push_str("\n\n");
        paras.push((s, o));
    }
    g.h.body = paras;
    g.h.src = src;
    (g.h, p)
}

pub fn note(ctx: &mut Ctx, h: &Header) {
    for (k, v) in &h.counts {
        ctx.add(k, *v);
    }
}

/// The header's parts are all there, in order, and nothing else.
pub fn check_parts(ctx: &mut Ctx, h: &Header, doc: &Document<'_>, nl: &str) {
    let d = doc.header();
    let title = h.title.as_ref().map(|t| t.1.as_str());
    ctx.expect_eq("the document title is not the one written", &title, &d.title());
    ctx.expect_eq("the source of the document title is not what was written", &h.title.as_ref().map(|t| t.0.as_str()), &d.title_source().map(|s| s.data()));
    let got: Vec<_> = d.attributes().collect();
    if ctx.expect_eq("the number of attribute entries in the header", &h.attrs.len(), &got.len()) {
        for (w, a) in h.attrs.iter().zip(&got) {
            ctx.expect_eq("the name of an attribute entry in the header", &w.0.as_str(), &a.name().data());
            let raw = a.raw_value().map(|v| v.data().lines().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n"));
            ctx.expect_eq("the text of an attribute entry's value", &w.1.clone(), &raw);
            ctx.check("the value of an attribute entry in the header", same(&w.2, a.value()), || format!("{w:?}\nbut is {:?}", a.value()));
        }
    }
    ctx.expect_eq("the comments of the header", &h.comments.iter().map(|c| c.as_str()).collect::<Vec<_>>(), &d.comments().map(|c| c.data()).collect::<Vec<_>>());
    ctx.expect_eq("the author line", &h.author_line.as_ref().map(|a| a.0.trim_end()), &d.author_line().map(|a| a.span().data()));
    ctx.expect_eq("the revision line", &h.revision.as_ref().map(|a| a.src.trim_end()), &d.revision_line().map(|a| a.span().data()));
    ctx.expect_eq("the text that the header covers", &h.text.replace('\n', nl).as_str(), &d.span().data());
    let warned: Vec<String> = doc.warnings().map(|w| format!("{:?} {}", w.warning, w.source.data())).collect();
    let expect: Vec<String> = h.warn.iter().map(|w| format!("WarningType::DocumentHeaderNotTerminated {w}")).collect();
    let warned: Vec<String> = warned.into_iter().filter(|w| !w.contains("AttributeValueIsLocked") && !w.contains("Level0SectionHeadingNotSupported")).collect();
    ctx.expect_eq("the warnings about the header", &expect, &warned);
    let body: Vec<String> = doc.nested_blocks().map(|b| b.rendered_content().unwrap_or("(none)").to_string()).collect();
    ctx.expect_eq("what follows the header", &h.body.iter().map(|b| b.1.clone()).collect::<Vec<_>>(), &body);
}

/// The parser's attributes after the document.
pub fn check_env(ctx: &mut Ctx, h: &Header, p: &Parser, names: &[&str]) {
    for (n, v) in &h.env {
        let base = n.rsplit_once('_').filter(|x| x.1.chars().all(|c| c.is_ascii_digit())).map_or(n.as_str(), |x| x.0);
        if !names.is_empty() && !names.contains(&base) {
            continue;
        }
        let got = match p.attribute_value(n) {
            InterpretedValue::Value(s) => s,
            _ => String::new(),
        };
        ctx.check("an attribute that the header sets has another value", got == *v, || format!("{n} must be {v:?} but is {got:?}"));
    }
}

pub fn check_authors(ctx: &mut Ctx, h: &Header, doc: &Document<'_>) {
    let Some((line, authors)) = &h.author_line else { return };
    let got: Vec<Author> = doc
        .header()
        .author_line()
        .map(|l| {
            l.authors()
                .map(|a| Author { name: a.name().into(), first: a.firstname().into(), middle: a.middlename().map(Into::into), last: a.lastname().map(Into::into), email: a.email().map(Into::into) })
                .collect()
        })
        .unwrap_or_default();
    for (k, a) in authors.iter().enumerate() {
        ctx.check("an author is not as written", got.get(k) == Some(a), || format!("{line:?}\nmust be {a:?}\nbut is  {:?}", got.get(k)));
        let i = doc.header().author_line().and_then(|l| l.authors().nth(k)).map(|a| a.initials());
        ctx.check("an author's initials", i == Some(a.initials()), || format!("{a:?}: {i:?}"));
    }
    ctx.check("the number of authors", got.len() == authors.len(), || format!("{line:?}\n{got:?}"));
    // Nothing is set for authors that there are not.
}

pub fn check_revision(ctx: &mut Ctx, h: &Header, doc: &Document<'_>) {
    let Some(r) = &h.revision else { return };
    let Some(d) = doc.header().revision_line() else {
        ctx.fail("the revision line is missing", r.src.clone());
        return;
    };
    ctx.check("the revision number", r.number.as_deref() == d.revnumber(), || format!("{r:?}\nbut is {:?}", d.revnumber()));
    ctx.check("the revision date", r.date == d.revdate(), || format!("{r:?}\nbut is {:?}", d.revdate()));
    ctx.check("the revision remark", r.remark.as_deref() == d.revremark(), || format!("{r:?}\nbut is {:?}", d.revremark()));
}
