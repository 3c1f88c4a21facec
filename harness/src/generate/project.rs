//! Documents in several files: the files, and what is to become of them.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    rc::Rc,
};

use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    document::InterpretedValue,
    parser::IncludeFileHandler,
};

use super::config::context;
use crate::rng::Rng;

/// What the handler was asked.
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub from: Option<String>,
    pub target: String,
    pub named: Vec<(String, String)>,
    pub env: Vec<(String, Option<String>)>,
}

#[derive(Debug)]
pub struct Recorder {
    pub files: HashMap<String, String>,
    pub calls: Rc<RefCell<Vec<Call>>>,
}

pub const NAMES: &[&str] = &["dir", "ver", "x-y", "_p", "a1", "long_name"];

impl IncludeFileHandler for Recorder {
    fn resolve_target<'src>(&self, source: Option<&str>, target: &str, attrlist: &Attrlist<'src>, parser: &Parser) -> Option<String> {
        self.calls.borrow_mut().push(Call {
            from: source.map(String::from),
            target: target.into(),
            named: attrlist
                .attributes()
                .map(|a| (a.name().unwrap_or_default().to_string(), a.value().to_string()))
                .collect(),
            env: NAMES
                .iter()
                .map(|n| {
                    (
                        n.to_string(),
                        match parser.attribute_value(n) {
                            InterpretedValue::Value(v) => Some(v),
                            InterpretedValue::Set => Some(String::new()),
                            InterpretedValue::Unset => None,
                        },
                    )
                })
                .collect(),
        });
        self.files.get(target).cloned()
    }
}

#[derive(Clone, Debug)]
pub struct Line {
    pub text: String,
    pub file: Option<String>,
    pub line: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    /// Nothing but blank lines, comments and entries so far.
    Start,
    /// After the title.
    Header,
    /// At the start of a block.
    Blank,
    /// In the midst of a block.
    Para,
}

#[derive(Debug)]
pub struct Project {
    pub files: HashMap<String, String>,
    pub root: String,
    pub root_name: Option<String>,
    pub out: Vec<Line>,
    pub calls: Vec<Call>,
    pub intrinsic: Vec<(String, String, u8)>,
    pub handler: bool,
    pub kinds: BTreeMap<&'static str, u64>,
    pub depth: usize,
    env: HashMap<String, (Option<String>, u8)>,
    st: St,
    next: usize,
    author: u8,
    leaves: Vec<(String, Vec<String>)>,
    nl: &'static str,
}

impl Project {
    pub fn parser(&self, calls: &Rc<RefCell<Vec<Call>>>) -> Parser {
        let mut p = Parser::default();
        for (n, v, c) in &self.intrinsic {
            p = p.with_intrinsic_attribute(n, v.clone(), context(*c));
        }
        if let Some(f) = &self.root_name {
            p = p.with_primary_file_name(f);
        }
        if self.handler {
            p = p.with_include_file_handler(Recorder {
                files: self.files.clone(),
                calls: calls.clone(),
            });
        }
        p
    }

    /// All files, for the report.
    pub fn text(&self) -> String {
        let mut s = self.root.clone();
        let mut names: Vec<_> = self.files.iter().collect();
        names.sort();
        for (n, t) in names {
            s.push_str(&format!("\n<<<< {n}\n{t}"));
        }
        s
    }

    /// The lines of each file.
    pub fn source_lines(&self, file: Option<&str>) -> Vec<&str> {
        let s = if file == self.root_name.as_deref() { Some(&self.root) } else { self.files.get(file.unwrap_or_default()) };
        s.map(|s| s.lines().collect()).unwrap_or_default()
    }

    fn kind(&mut self, k: &'static str) {
        *self.kinds.entry(k).or_default() += 1;
    }

    fn snapshot(&self) -> Vec<(String, Option<String>)> {
        NAMES
            .iter()
            .map(|n| (n.to_string(), self.env.get(*n).and_then(|(v, _)| v.clone())))
            .collect()
    }

    fn word(&mut self, r: &mut Rng) -> String {
        self.next += 1;
        match r.below(6) {
            0 => format!("té{} 日本", self.next),
            1 => format!("if t{}", self.next),
            2 => format!("t{}  ", self.next),
            _ => format!("text t{}", self.next),
        }
    }

    fn known(&self, r: &mut Rng) -> Option<(String, String)> {
        let mut v: Vec<_> = self
            .env
            .iter()
            .filter_map(|(n, (v, _))| v.as_ref().filter(|v| !v.is_empty()).map(|v| (n.clone(), v.clone())))
            .collect();
        v.sort();
        if v.is_empty() { None } else { Some(r.choose(&v).clone()) }
    }

    fn reference(n: &str, r: &mut Rng) -> String {
        if r.one_in(4) { format!("{{{}}}", n.to_uppercase()) } else { format!("{{{n}}}") }
    }

    fn entry(&mut self, r: &mut Rng) -> Vec<String> {
        let n = r.pick(NAMES).to_string();
        let shown = if r.one_in(5) { n.to_uppercase() } else { n.clone() };
        let (lines, val): (Vec<String>, Option<String>) = match r.below(10) {
            9 => {
                self.kind("entries continued on a blank line");
                let a = r.pick(&["one", "é", "a b"]);
                (vec![format!(":{shown}: {a} \\"), r.pick(&["", "", "  "]).into()], Some(a.to_string()))
            }
            0 => (vec![format!(":{shown}:")], Some(String::new())),
            1 => (vec![format!(":!{shown}:")], None),
            2 => (vec![format!(":{shown}!:")], None),
            3 => {
                self.kind("entries over several lines");
                let (a, b) = (r.pick(&["one", "é", "a b"]), r.pick(&["two", "3", "日"]));
                let sp = r.pick(&["", "  "]);
                (vec![format!(":{shown}: {a} \\"), format!("{sp}{b}")], Some(format!("{a} {b}")))
            }
            4 if self.known(r).is_some() => {
                self.kind("entries with references");
                let (m, v) = self.known(r).unwrap_or_default();
                (vec![format!(":{shown}: x{}y", Self::reference(&m, r))], Some(format!("x{v}y")))
            }
            5 => (vec![format!(":{shown}:\tsub/{}", self.next)], Some(format!("sub/{}", self.next))),
            _ => {
                let v = r.pick(&["chapters", "a/b", "1.0", "é", "with space", "x"]);
                let t = r.pick(&["", "", "  "]);
                (vec![format!(":{shown}: {v}{t}")], Some(v.to_string()))
            }
        };
        let header = matches!(self.st, St::Start | St::Header);
        let allowed = match self.env.get(&n) {
            None => true,
            Some((_, 0)) => false,
            Some((_, 1)) => header,
            Some((_, 2)) => !header,
            Some(_) => true,
        };
        if allowed {
            let c = self.env.get(&n).map_or(3, |x| x.1);
            // A value of that size comes from doubling.
            if val.as_ref().is_none_or(|v| v.len() < 200) {
                self.env.insert(n, (val, c));
            } else {
                return self.entry(r);
            }
        } else {
            self.kind("entries that are refused");
        }
        self.kind(if header { "entries in the header" } else { "entries in the body" });
        lines
    }

    /// Directives that are none.
    fn other(r: &mut Rng) -> String {
        r.pick(&[
            "include::x",
            "include:: x[]",
            "include::[]",
            "include::x []",
            "include::x[] y",
            "include:x[]",
            "x include::x[]",
            "include::x[",
            " include::x[]",
            "include::\tx[]",
        ])
        .to_string()
    }

    fn attrs(r: &mut Rng) -> (String, Vec<(String, String)>) {
        let x = |s: &str, v: &[(&str, &str)]| (s.to_string(), v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect());
        match r.below(14) {
            0 => x("leveloffset=+1", &[("leveloffset", "+1")]),
            1 => x("lines=\"1..3;5,7\"", &[("lines", "1..3;5,7")]),
            2 => x("tag=a, indent=0", &[("tag", "a"), ("indent", "0")]),
            3 => x("tags=a;é", &[("tags", "a;é")]),
            4 => x("x", &[("", "x")]),
            5 => x("encoding='utf-8'", &[("encoding", "utf-8")]),
            6 => x("tag=\"a]b\"", &[("tag", "a]b")]),
            7 => x("tag=\"a[1]\",x=[y", &[("tag", "a[1]"), ("x", "[y")]),
            _ => x("", &[]),
        }
    }

    fn target(&mut self, r: &mut Rng, base: &str) -> (String, String) {
        let (mut written, mut target) = (String::new(), String::new());
        match r.below(8) {
            0 | 1 | 2 => {
                if let Some((n, v)) = self.known(r) {
                    self.kind("targets with references");
                    written = format!("{}/", Self::reference(&n, r));
                    target = format!("{v}/");
                }
            }
            3 => {
                self.kind("targets with unknown references");
                written = "{nope}/".into();
                target = written.clone();
            }
            4 => {
                if let Some((n, _)) = self.known(r) {
                    self.kind("targets with escaped references");
                    written = format!("\\{{{n}}}/");
                    target = format!("{{{n}}}/");
                }
            }
            5 => {
                let d = r.pick(&["sub dir/", "../up/", "/abs/", "https://h.example/", "é/", "a,b/", "./", "./", ".hid/", "a/./b/", "a//b/", "~/", "C:\\x\\", "#", "x-", "+a+/", "<x>/"]);
                written = d.to_string();
                target = d.to_string();
            }
            _ => (),
        }
        written.push_str(base);
        target.push_str(base);
        if r.one_in(6)
            && let Some((n, v)) = self.known(r)
        {
            self.kind("targets with references");
            written.push_str(&format!("-{}.adoc", Self::reference(&n, r)));
            target.push_str(&format!("-{v}.adoc"));
        }
        (written, target)
    }

    fn push(&mut self, src: &mut Vec<String>, name: &Option<String>, text: String) {
        src.push(text.clone());
        self.out.push(Line {
            text,
            file: name.clone(),
            line: src.len(),
        });
    }

    fn include(&mut self, r: &mut Rng, src: &mut Vec<String>, name: &Option<String>, depth: usize) {
        self.next += 1;
        let base = format!("f{}{}", self.next, r.pick(&[".adoc", ".adoc", ".txt", "", ".a é"]));
        let (written, target) = self.target(r, &base);
        let (mut list, mut named) = Self::attrs(r);
        if r.one_in(6)
            && let Some((n, v)) = self.known(r)
            && v.chars().all(|c| c.is_alphanumeric() || "./_-".contains(c))
        {
            self.kind("directive attributes with references");
            let x = r.pick(&["", "x"]);
            list = format!("tag={x}{},y=1", Self::reference(&n, r));
            named = vec![("tag".into(), format!("{x}{v}")), ("y".into(), "1".into())];
        }
        let trail = r.pick(&["", "", "", "", " ", " \t"]);
        if !self.leaves.is_empty() && r.one_in(6) {
            self.kind("files included again");
            let (t, lines) = r.choose(&self.leaves).clone();
            if self.handler {
                self.calls.push(Call {
                    from: name.clone(),
                    target: t.clone(),
                    named: vec![],
                    env: self.snapshot(),
                });
            }
            src.push(format!("include::{t}[]"));
            for (k, l) in lines.iter().enumerate() {
                self.out.push(Line {
                    text: l.clone(),
                    file: Some(t.clone()),
                    line: k + 1,
                });
            }
            if !lines.is_empty() {
                self.st = if lines.last().is_some_and(|l| l.is_empty()) { St::Blank } else { St::Para };
            }
            return;
        }
        let directive = format!("include::{written}[{list}]{trail}");
        if self.handler {
            self.calls.push(Call {
                from: name.clone(),
                target: target.clone(),
                named,
                env: self.snapshot(),
            });
        }
        if !self.handler || (self.st != St::Header && r.one_in(6)) {
            self.kind(if self.handler { "files not found" } else { "directives without a handler" });
            src.push(directive.clone());
            self.out.push(Line {
                text: format!("Unresolved directive in {} - {directive}", name.as_deref().unwrap_or("(root file)")),
                file: name.clone(),
                line: src.len(),
            });
            self.st = St::Para;
            return;
        }
        self.kind("files included");
        match self.st {
            St::Start | St::Header => self.kind("directives in the header"),
            St::Para => self.kind("directives in a paragraph"),
            St::Blank => (),
        }
        src.push(directive);
        let text = if matches!(self.st, St::Blank | St::Para) && r.one_in(4) {
            let mut lines = vec![];
            for _ in 0..r.below(4) {
                let t = if r.one_in(3) { String::new() } else { self.word(r) };
                lines.push(t);
            }
            if lines.is_empty() {
                self.kind("empty files");
            }
            for (k, l) in lines.iter().enumerate() {
                self.out.push(Line {
                    text: l.clone(),
                    file: Some(target.clone()),
                    line: k + 1,
                });
            }
            if let Some(l) = lines.last() {
                self.st = if l.is_empty() { St::Blank } else { St::Para };
            }
            let t = self.finish(r, &lines);
            // References in the target may mean something else later, and so might the rest.
            if written == target && !target.contains('{') && !target.contains('\\') {
                self.leaves.push((target.clone(), lines));
            }
            t
        } else {
            self.file(r, Some(target.clone()), depth + 1)
        };
        self.files.insert(target, text);
    }

    fn finish(&mut self, r: &mut Rng, lines: &[String]) -> String {
        let mut s = String::new();
        for (k, l) in lines.iter().enumerate() {
            if k > 0 {
                s.push_str(self.nl);
            }
            s.push_str(l);
        }
        if lines.last().is_some_and(|l| l.is_empty()) || (!lines.is_empty() && r.one_in(2)) {
            s.push_str(self.nl);
        }
        s
    }

    fn file(&mut self, r: &mut Rng, name: Option<String>, depth: usize) -> String {
        self.depth = self.depth.max(depth);
        let mut src: Vec<String> = vec![];
        let n = r.range(0, if depth == 0 { 14 } else { 7 });
        for _ in 0..n {
            match self.st {
                St::Start | St::Header => match r.below(10) {
                    0 | 1 => {
                        if self.st == St::Header {
                            self.st = St::Blank;
                        }
                        self.push(&mut src, &name, String::new());
                    }
                    2 => {
                        let c = r.pick(&["// comment", "//", "//comment", "// x ", "//:a: b"]);
                        self.push(&mut src, &name, c.into());
                    }
                    3..6 => {
                        for l in self.entry(r) {
                            self.push(&mut src, &name, l);
                        }
                    }
                    6 if self.st == St::Start => {
                        self.st = St::Header;
                        self.push(&mut src, &name, "= Title".into());
                    }
                    6 if self.author < 2 => {
                        self.author += 1;
                        let l = if self.author == 1 { "Ann Bell" } else { "v1.0" };
                        self.push(&mut src, &name, l.into());
                    }
                    7 if self.st == St::Start => {
                        self.st = St::Para;
                        let w = if r.one_in(4) { "///no comment".into() } else { self.word(r) };
                        self.push(&mut src, &name, w);
                    }
                    _ => {
                        if depth < 8 && self.next < 60 && (self.handler || self.st != St::Header) {
                            if r.one_in(6) || (self.handler && self.st == St::Start) || depth > 0 {
                                self.include_here(r, &mut src, &name, depth);
                            }
                        }
                    }
                },
                St::Blank | St::Para => match r.below(12) {
                    0..3 => {
                        let t = r.pick(&["", "", "", "  ", "\t"]).to_string();
                        self.st = St::Blank;
                        self.push(&mut src, &name, t);
                    }
                    3 if self.st == St::Blank => {
                        self.push(&mut src, &name, "== Section".into());
                        self.push(&mut src, &name, String::new());
                    }
                    3 => {
                        self.kind("entries in a paragraph");
                        let n = r.pick(NAMES);
                        let v = r.pick(&[": not", ":"]);
                        self.push(&mut src, &name, format!(":{n}{v}"));
                    }
                    4 | 5 if self.st == St::Blank => {
                        for l in self.entry(r) {
                            self.push(&mut src, &name, l);
                        }
                    }
                    6 => {
                        self.kind("lines like a directive");
                        self.st = St::Para;
                        let o = Self::other(r);
                        self.push(&mut src, &name, o);
                    }
                    7..10 if depth < 8 && self.next < 60 => self.include_here(r, &mut src, &name, depth),
                    _ => {
                        self.st = St::Para;
                        let w = self.word(r);
                        self.push(&mut src, &name, w);
                    }
                },
            }
        }
        self.finish(r, &src)
    }

    fn include_here(&mut self, r: &mut Rng, src: &mut Vec<String>, name: &Option<String>, depth: usize) {
        // An unresolved directive in the header would be an author line.
        if self.st == St::Header && !self.handler {
            return;
        }
        self.include(r, src, name, depth);
    }

    /// Whether the text is subject to preprocessing at all.
    pub fn active(&self) -> bool {
        self.root_name.is_some() || self.root.lines().any(|l| l.starts_with("include::") || l.starts_with("if"))
    }
}

pub fn project(r: &mut Rng) -> Project {
    let mut p = Project {
        files: HashMap::new(),
        root: String::new(),
        root_name: if r.bool() { Some(r.pick(&["main.adoc", "é.adoc", "d/m"]).to_string()) } else { None },
        out: vec![],
        calls: vec![],
        intrinsic: vec![],
        handler: !r.one_in(10),
        kinds: BTreeMap::new(),
        depth: 0,
        env: HashMap::new(),
        st: St::Start,
        next: 0,
        author: 0,
        leaves: vec![],
        nl: if r.one_in(5) { "\r\n" } else { "\n" },
    };
    for _ in 0..r.below(4) {
        let n = r.pick(NAMES).to_string();
        let v = r.pick(&["q", "", "in/side", "é"]).to_string();
        let c = r.below(4) as u8;
        if !p.env.contains_key(&n) {
            p.env.insert(n.clone(), (Some(v.clone()), c));
            p.intrinsic.push((n, v, c));
        }
    }
    if r.one_in(3) {
        p.st = St::Start;
    }
    let name = p.root_name.clone();
    p.root = p.file(r, name, 0);
    if p.nl == "\r\n" {
        p.kind("CRLF");
    }
    p
}

/// A chain of files, each of which includes the next, and itself if it is the last.
pub fn chain(r: &mut Rng) -> Project {
    let mut p = project(&mut Rng::new(0));
    p.files.clear();
    p.out.clear();
    p.calls.clear();
    p.kinds.clear();
    p.intrinsic.clear();
    p.env.clear();
    p.handler = true;
    p.nl = "\n";
    p.root_name = if r.bool() { Some("c0".into()) } else { None };
    let n = r.range(1, 70);
    let selfish = r.one_in(3);
    let limit = 64;
    let mut tail: Vec<Line> = vec![];
    let before: Vec<usize> = (0..=n).map(|_| r.below(3)).collect();
    let after: Vec<usize> = (0..=n).map(|_| r.below(3)).collect();
    for k in 0..=n {
        let mut s = String::new();
        for j in 0..before[k] {
            s.push_str(&format!("b{k}-{j}\n"));
        }
        if k < n {
            s.push_str(&format!("include::c{}[]\n", k + 1));
        } else if selfish && n > 0 {
            s.push_str(&format!("include::c{k}[]\n"));
        }
        for j in 0..after[k] {
            s.push_str(&format!("a{k}-{j}\n"));
        }
        if k == 0 {
            p.root = s;
        } else {
            p.files.insert(format!("c{k}"), s);
        }
    }
    let mut level = 0;
    loop {
        let k = level.min(n);
        let name = if level == 0 { p.root_name.clone() } else { Some(format!("c{k}")) };
        let mut line = 0;
        for j in 0..before[k] {
            line += 1;
            p.out.push(Line {
                text: format!("b{k}-{j}"),
                file: name.clone(),
                line,
            });
        }
        let next = if k < n {
            Some(k + 1)
        } else if selfish {
            Some(k)
        } else {
            None
        };
        if next.is_some() {
            line += 1;
        }
        let mut t = vec![];
        for j in 0..after[k] {
            t.push(Line {
                text: format!("a{k}-{j}"),
                file: name.clone(),
                line: line + 1 + j,
            });
        }
        t.extend(std::mem::take(&mut tail));
        tail = t;
        p.depth = level;
        match next {
            Some(c) if level < limit => {
                p.calls.push(Call {
                    from: name.clone(),
                    target: format!("c{c}"),
                    named: vec![],
                    env: p.snapshot(),
                });
                level += 1;
            }
            Some(c) => {
                p.kind("files nested too deeply");
                p.out.push(Line {
                    text: format!("Unresolved directive in {} - include::c{c}[]", name.as_deref().unwrap_or("(root file)")),
                    file: name.clone(),
                    line,
                });
                break;
            }
            None => break,
        }
    }
    p.out.extend(tail);
    // And all of that again: the second time is like the first.
    if r.one_in(3) {
        let again = p.out.clone();
        let lines = p.root.lines().count();
        for mut l in again {
            if l.file == p.root_name {
                l.line += lines;
            }
            p.out.push(l);
        }
        p.root = p.root.repeat(2);
        let again = p.calls.clone();
        p.calls.extend(again);
        p.kind("chains of files met again");
    }
    p
}

/// Very many files, one after the other, some of which include others in turn.
pub fn wide(r: &mut Rng) -> Project {
    let mut p = project(&mut Rng::new(0));
    p.files.clear();
    p.out.clear();
    p.calls.clear();
    p.kinds.clear();
    p.intrinsic.clear();
    p.env.clear();
    p.handler = true;
    p.nl = "\n";
    p.root_name = if r.bool() { Some("main".into()) } else { None };
    p.next = 0;
    let n = r.range(60, 160);
    let name = p.root_name.clone();
    let mut src: Vec<String> = vec![];
    for k in 0..n {
        if r.one_in(4) {
            p.push(&mut src, &name, format!("line {k}"));
        }
        if r.one_in(10) && k > 0 {
            let f = "nowhere".to_string();
            src.push(format!("include::{f}[]"));
            p.calls.push(Call { from: name.clone(), target: f.clone(), named: vec![], env: p.snapshot() });
            p.out.push(Line { text: format!("Unresolved directive in {} - include::{f}[]", name.as_deref().unwrap_or("(root file)")), file: name.clone(), line: src.len() });
            p.kind("files not found");
        }
        let d = r.range(1, 3);
        wide_file(&mut p, r, &mut src, &name, d);
    }
    p.kind("very many files in a row");
    p.root = p.finish(r, &src);
    p
}

fn wide_file(p: &mut Project, r: &mut Rng, src: &mut Vec<String>, name: &Option<String>, depth: usize) {
    p.next += 1;
    let f = format!("f{}", p.next);
    src.push(format!("include::{f}[]"));
    p.calls.push(Call { from: name.clone(), target: f.clone(), named: vec![], env: p.snapshot() });
    let own = Some(f.clone());
    let mut text: Vec<String> = vec![];
    for k in 0..r.range(1, 2) {
        p.push(&mut text, &own, format!("{f} {k}"));
    }
    if depth > 1 {
        wide_file(p, r, &mut text, &own, depth - 1);
        if r.bool() {
            p.push(&mut text, &own, format!("{f} z"));
        }
    }
    let t = p.finish(r, &text);
    p.files.insert(f, t);
}

/// A text cut into files at line ends. The expected text is the text itself.
pub fn cut(r: &mut Rng, text: &str) -> Project {
    let mut p = project(&mut Rng::new(0));
    p.files.clear();
    p.out.clear();
    p.calls.clear();
    p.kinds.clear();
    p.intrinsic.clear();
    p.env.clear();
    p.handler = true;
    p.nl = "\n";
    p.root_name = if r.bool() { Some("main".into()) } else { None };
    p.next = 0;
    let lines: Vec<String> = text.split('\n').map(String::from).collect();
    let name = p.root_name.clone();
    p.root = cut_into(&mut p, r, &lines, name, 0);
    p
}

fn cut_into(p: &mut Project, r: &mut Rng, lines: &[String], name: Option<String>, depth: usize) -> String {
    p.depth = p.depth.max(depth);
    let mut src: Vec<String> = vec![];
    let mut k = 0;
    while k < lines.len() {
        if depth < 6 && p.next < 40 && !(k > 0 && lines[k - 1].trim_end().ends_with('\\')) && r.one_in(if depth == 0 { 4 } else { 3 }) {
            let n = if r.one_in(8) { 0 } else { r.range(1, (lines.len() - k).min(20)) };
            p.next += 1;
            let f = format!("f{}", p.next);
            src.push(format!("include::{f}[]"));
            let t = cut_into(p, r, &lines[k..k + n], Some(f.clone()), depth + 1);
            p.files.insert(f, t);
            k += n;
        } else {
            p.push(&mut src, &name, lines[k].clone());
            k += 1;
        }
    }
    p.finish(r, &src)
}
