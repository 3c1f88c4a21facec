//! Attribute lists: what each list says, and nothing else.
use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    blocks::{Block, IsBlock},
};

use super::PropDef;
use crate::{ctx::Ctx, generate::config::context, rng::Rng, util};

pub const DEF: PropDef = PropDef {
    id: "C20",
    quick: 480_000,
    thorough: 4_000_000,
    run,
    needs: &[
        "block attribute lists",
        "macro attribute lists",
        "shorthand",
        "empty shorthand items",
        "text like shorthand in macros",
        "positional attributes",
        "named attributes",
        "double-quoted values",
        "single-quoted values",
        "escaped quotes",
        "values from references", "escaped references",
        "values without a closing quote",
        "text after a quoted value",
        "doubled commas",
        "roles from several sources",
        "options from several sources",
        "attributes removed by None",
        "lists of more than ten attributes",
    ],
    rule: "Attribute lists of up to 16 items above paragraphs and blocks and in block macros, built from shorthand, positional and named, unquoted and quoted values, references, white space and the four reported mistakes; every attribute in order, the ID, roles, options and style, and the warnings must be those of the list as built. Non-trivial: at least three attributes; distinct by list.",
};

#[derive(Default, Debug)]
struct L {
    src: String,
    /// Name, value, shorthand items.
    attrs: Vec<(Option<String>, String, Vec<String>)>,
    warnings: Vec<&'static str>,
}

const WORDS: &[&str] = &["a", "alt text", "é", "日本", "x1", "50%", "a-b", "x.y", "#5", "1.5", "a_b", "10", "Some text", "it", "/p/q", "http://x.org", "(x)", "😀", "%", "v;w", "a:b", "None"];

fn name(r: &mut Rng, used: &mut Vec<String>) -> String {
    loop {
        let n = match r.below(3) {
            0 => r.pick(&["cols", "width", "alt", "title", "lang", "x-y", "9x", "A1", "window", "a-b-c", "subst", "reftext"]).to_string(),
            _ => format!("n{}", r.below(60)),
        };
        // Of several attributes of one name the first counts.
        if !used.contains(&n) || r.one_in(4) {
            used.push(n.clone());
            return n;
        }
    }
}

fn ident(r: &mut Rng) -> String {
    format!("{}{}", r.pick(&["a", "role-", "日", "x_", "É", "B:"]), r.below(100))
}

struct B<'c> {
    r: Rng,
    ctx: &'c mut Ctx,
    block: bool,
    refs: Vec<(&'static str, &'static str)>,
}

impl B<'_> {
    fn unquoted(&mut self) -> (String, String) {
        let w = self.r.pick(WORDS).to_string();
        if self.r.one_in(6) && !self.refs.is_empty() {
            self.ctx.count("values from references");
            let (n, v) = *self.r.choose(&self.refs.clone());
            if self.r.one_in(4) {
                self.ctx.count("escaped references");
                return (format!("w\\{{{n}}}x"), format!("w{{{n}}}x"));
            }
            if v.is_empty() || v.contains(',') || v.starts_with(['"', '\'']) {
                return (format!("w{{{n}}}x"), format!("w{v}x"));
            }
            return (format!("{{{n}}}"), v.trim().to_string());
        }
        (w.clone(), w)
    }

    /// With the quotes; the value.
    fn quoted(&mut self) -> (String, String) {
        let q = if self.r.bool() { '"' } else { '\'' };
        self.ctx.count(if q == '"' { "double-quoted values" } else { "single-quoted values" });
        let (mut s, mut v) = (String::new(), String::new());
        let subs = q == '\'' && self.block;
        for k in 0..self.r.below(5) {
            if k > 0 {
                let w = self.r.pick(&[" ", ", ", " = ", "  "]);
                s.push_str(w);
                v.push_str(w);
            }
            match self.r.below(8) {
                0 if !subs && self.r.one_in(4) => {
                    // Of two backslashes, the second still escapes the quote.
                    self.ctx.count("escaped quotes after a backslash");
                    s.push_str(&format!("\\\\{q}z"));
                    v.push_str(&format!("\\{q}z"));
                }
                0 => {
                    self.ctx.count("escaped quotes");
                    s.push_str(&format!("\\{q}"));
                    v.push(q);
                }
                1 => {
                    let w = self.r.pick(&["<", "&", ">", "<b>"]);
                    s.push_str(w);
                    v.push_str(&if subs { util::html(w) } else { w.to_string() });
                }
                2 => {
                    let (a, b) = *self.r.choose(&[("*b*", "<strong>b</strong>"), ("_i_", "<em>i</em>"), ("(C)", "&#169;"), ("+*x*+", "*x*")]);
                    s.push_str(a);
                    v.push_str(if subs { b } else { a });
                }
                3 => {
                    let w = if q == '"' { "it's" } else { "say \"x\"" };
                    s.push_str(w);
                    v.push_str(w);
                }
                _ => {
                    let w = self.r.pick(&["w", "é", "日本", "x1", "#a", ".b", "%c", "a]b", "x[0]"]);
                    s.push_str(w);
                    v.push_str(w);
                }
            }
        }
        (format!("{q}{s}{q}"), v)
    }

    fn shorthand(&mut self, l: &mut L) -> (String, Vec<String>) {
        self.ctx.count("shorthand");
        let mut s = String::new();
        let mut items = vec![];
        if self.r.bool() {
            let w = self.r.pick(&["quote", "source", "abc", "é", "lead-in", "two words"]).to_string();
            s.push_str(&w);
            items.push(w);
        }
        for _ in 0..self.r.below(5) {
            let d = self.r.pick(&["#", ".", "%", "."]);
            if self.r.one_in(14) {
                self.ctx.count("empty shorthand items");
                l.warnings.push("EmptyShorthandItem");
                s.push_str(d);
                continue;
            }
            let w = ident(&mut self.r);
            items.push(format!("{d}{w}"));
            s.push_str(&format!("{d}{w}"));
            // White space after an item is not part of it.
            if self.r.one_in(20) {
                s.push_str(self.r.pick(&[" ", "\t", "  "]));
                self.ctx.count("white space between shorthand items");
            }
        }
        let n = s.trim_end().len();
        s.truncate(n);
        if s.is_empty() {
            s.push('w');
            items.push("w".into());
        }
        (s, items)
    }

    fn list(&mut self) -> L {
        let mut l = L::default();
        let mut n = self.r.range(1, 5);
        if self.r.one_in(12) {
            n = self.r.range(10, 16);
            self.ctx.count("lists of more than ten attributes");
        }
        let mut used: Vec<String> = vec!["id".into(), "role".into(), "opts".into(), "options".into(), "subs".into()];
        let mut special = vec!["id", "role", "opts", "options"];
        self.r.shuffle(&mut special);
        let mut first = true;
        let mut doubled = false;
        for k in 0..n {
            if k > 0 {
                let gap = self.r.pick(&[",", ", ", " ,", " , ", ",  ", ",\t"]);
                l.src.push_str(gap);
                // Only names say which attribute is which after this.
                if doubled || self.r.one_in(25) {
                    if !doubled {
                        self.ctx.count("doubled commas");
                    }
                    doubled = true;
                    if self.r.bool() {
                        l.src.push_str(self.r.pick(&[",", ", ", ",  "]));
                        l.warnings.push("EmptyAttributeValue");
                    }
                }
            } else if !self.block && self.r.one_in(5) {
                l.src.push_str(self.r.pick(&[" ", "  "]));
            }
            let w = if doubled { [0, 0, 0, 1, 1] } else { [if first { 3 } else { 0 }, 2, 1, 3, 2] };
            let w = if doubled { [0, 0, 0, 3, 2] } else { w };
            match self.r.weighted(&w) {
                0 => {
                    let w = l.warnings.len();
                    let (s, mut items) = self.shorthand(&mut l);
                    if !self.block && s.contains(['#', '.', '%']) {
                        // In a macro it is text.
                        self.ctx.count("text like shorthand in macros");
                        items.clear();
                        l.warnings.truncate(w);
                    }
                    l.src.push_str(&s);
                    l.attrs.push((None, s, items));
                    first = false;
                }
                1 => {
                    self.ctx.count("positional attributes");
                    let (s, v) = self.unquoted();
                    if v.contains('=') || (k == 0 && self.block && !v.starts_with(|c: char| c.is_alphabetic())) {
                        // Not what a list may begin with.
                        l.src.push('w');
                        l.attrs.push((None, "w".into(), if first { vec!["w".into()] } else { vec![] }));
                        first = false;
                        continue;
                    }
                    // Everything in the first one is shorthand.
                    let items = if first {
                        if v.contains(['#', '.', '%']) && !self.block {
                            l.src.push_str(&s);
                            l.attrs.push((None, v, vec![]));
                            first = false;
                            continue;
                        }
                        if v.contains(['#', '.', '%']) {
                            l.src.push_str("abc");
                            l.attrs.push((None, "abc".into(), vec!["abc".into()]));
                            first = false;
                            continue;
                        }
                        vec![v.clone()]
                    } else {
                        vec![]
                    };
                    l.src.push_str(&s);
                    l.attrs.push((None, v, items));
                    first = false;
                }
                2 => {
                    self.ctx.count("positional attributes");
                    let (s, v) = self.quoted();
                    l.src.push_str(&s);
                    l.attrs.push((None, v, vec![]));
                    first = false;
                }
                k => {
                    self.ctx.count("named attributes");
                    let (nm, s, v);
                    if !special.is_empty() && self.r.one_in(3) {
                        nm = special.pop().unwrap_or_default().to_string();
                        let q = self.r.pick(&["\"", "'"]);
                        let sep = if nm == "role" { " " } else { "," };
                        let m = if nm == "id" { 1 } else { self.r.range(1, 4) };
                        let mut x = vec![];
                        for _ in 0..m {
                            x.push(ident(&mut self.r));
                            if self.r.one_in(8) && nm != "id" {
                                x.push(String::new());
                            }
                        }
                        if self.r.one_in(12) && nm != "id" {
                            x.insert(0, String::new());
                        }
                        let t = x.join(sep);
                        if q == "'" && self.block && t.contains("_") {
                            s = format!("\"{t}\"");
                        } else {
                            s = if m == 1 && !t.contains([',', ' ']) && self.r.bool() { t.clone() } else { format!("{q}{t}{q}") };
                        }
                        v = t;
                    } else {
                        nm = name(&mut self.r, &mut used);
                        (s, v) = if k == 3 { self.unquoted() } else { self.quoted() };
                    }
                    let eq = self.r.pick(&["=", "=", "=", " = ", "= ", " ="]);
                    l.src.push_str(&format!("{nm}{eq}{s}"));
                    if v == "None" {
                        self.ctx.count("attributes removed by None");
                    } else {
                        l.attrs.push((Some(nm), v, vec![]));
                    }
                }
            }
        }
        // Mistakes that end the list, or last to the end of it.
        match self.r.below(14) {
            0 if !l.src.contains(['"']) => {
                self.ctx.count("values without a closing quote");
                l.src.push_str(",zz=\"open end");
                l.attrs.push((Some("zz".into()), "\"open end".into(), vec![]));
                l.warnings.push("AttributeValueMissingTerminatingQuote");
            }
            1 => {
                self.ctx.count("text after a quoted value");
                l.src.push_str(",zz=\"value\"more,lost=1");
                l.attrs.push((Some("zz".into()), "value".into(), vec![]));
                l.warnings.push("MissingCommaAfterQuotedAttributeValue");
            }
            _ => {}
        }
        if l.src.starts_with(['"', '\'']) && self.block && l.src.starts_with('\'') {
            // Such a line would not be a list.
            l.src.insert_str(0, "w,");
            l.attrs.insert(0, (None, "w".into(), vec!["w".into()]));
            for a in &mut l.attrs[1..] {
                a.2.clear();
            }
        }
        l
    }
}

fn observe<'a>(a: &'a Attrlist<'a>) -> Vec<(Option<String>, String, Vec<String>)> {
    a.attributes().map(|e| (e.name().map(Into::into), e.value().to_string(), e.shorthand_items().iter().map(|x| x.to_string()).collect())).collect()
}

fn compare<'a>(ctx: &mut Ctx, l: &L, a: &'a Attrlist<'a>) {
    let got = observe(a);
    if !ctx.check("the attributes of a list", got == l.attrs, || format!("[{}]\nmust be {:?}\nbut are {:?}", l.src, l.attrs, got)) {
        return;
    }
    let pos: Vec<_> = l.attrs.iter().filter(|x| x.0.is_none()).collect();
    let named = |n: &str| l.attrs.iter().find(|x| x.0.as_deref() == Some(n)).map(|x| x.1.clone());
    let items: Vec<String> = pos.first().map(|x| x.2.clone()).unwrap_or_default();
    let with = |c: char| -> Vec<String> { items.iter().filter_map(|i| i.strip_prefix(c)).map(|s| s.to_string()).collect() };
    let id = with('#').first().cloned().or(named("id"));
    let mut roles = with('.');
    let n = roles.len();
    roles.extend(named("role").unwrap_or_default().split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()));
    if n > 0 && roles.len() > n {
        ctx.count("roles from several sources");
    }
    let mut opts = with('%');
    let n = opts.len();
    for k in ["opts", "options"] {
        opts.extend(named(k).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()));
    }
    if n > 0 && opts.len() > n {
        ctx.count("options from several sources");
    }
    let style = items.first().filter(|i| !i.contains(['#', '.', '%'])).cloned();
    ctx.check("the ID that a list gives", a.id() == id.as_deref(), || format!("[{}] must be {id:?} but is {:?}", l.src, a.id()));
    ctx.check("the roles that a list gives", a.roles() == roles, || format!("[{}] must be {roles:?} but are {:?}", l.src, a.roles()));
    ctx.check("the options that a list gives", a.options() == opts, || format!("[{}] must be {opts:?} but are {:?}", l.src, a.options()));
    ctx.check("the style that a list gives", a.block_style() == style.as_deref(), || format!("[{}] must be {style:?} but is {:?}", l.src, a.block_style()));
    for o in &opts {
        ctx.check("an option that a list gives is not there", a.has_option(o), || format!("[{}] {o}", l.src));
    }
    for o in ["", "nope", "%", "a"] {
        ctx.check("an option that a list does not give is there", a.has_option(o) == opts.iter().any(|x| x == o), || format!("[{}] {o:?}", l.src));
    }
    for k in 0..=pos.len() + 1 {
        let e = if k == 0 { None } else { pos.get(k - 1).map(|x| x.1.as_str()) };
        ctx.check("a positional attribute", a.nth_attribute(k).map(|x| x.value()) == e, || format!("[{}] {k}: {e:?}", l.src));
        let e2 = named("alt").or(e.map(|x| x.to_string()));
        ctx.check("an attribute by name or position", a.named_or_positional_attribute("alt", k).map(|x| x.value().to_string()) == e2, || format!("[{}] {k}: {e2:?}", l.src));
    }
    for x in &l.attrs {
        if let Some(n) = &x.0 {
            ctx.check("a named attribute", a.named_attribute(n).map(|v| v.value().to_string()) == named(n), || format!("[{}] {n}", l.src));
        }
    }
    ctx.check("an attribute that is not in the list", a.named_attribute("nope").is_none(), || l.src.clone());
    ctx.check("an anchor that is not in the list", a.anchor().is_none(), || l.src.clone());
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let mut p = Parser::default();
    let mut refs = vec![];
    for (n, v) in [("a1", "value"), ("a2", "é 日"), ("a3", ""), ("a4", "x=y"), ("a5", "a/b")] {
        if r.bool() {
            p = p.with_intrinsic_attribute(n, v, context(3));
            refs.push((n, v));
        }
    }
    let mut s = String::new();
    let mut all: Vec<(bool, L)> = vec![];
    let mut b = B { r: Rng::new(r.next()), ctx, block: true, refs };
    for _ in 0..r.range(1, 4) {
        b.block = r.bool();
        let l = b.list();
        if b.block {
            b.ctx.count("block attribute lists");
            s.push_str(&format!("[{}]{}\n", l.src, r.pick(&["", "", " ", "\t"])));
            s.push_str(r.pick(&["Text.\n\n", "----\ntext\n----\n\n", "====\ntext\n====\n\n", "'''\n\n", "....\ntext\n....\n\n"]));
        } else {
            b.ctx.count("macro attribute lists");
            s.push_str(&format!("{}::{}[{}]\n\n", r.pick(&["image", "video", "audio"]), r.pick(&["x.png", "a b", "é"]), l.src));
        }
        all.push((b.block, l));
    }
    ctx.input(&s);
    let doc = p.parse(&s);
    ctx.eval();
    let mut k = 0;
    let mut bad = vec![];
    for bl in doc.nested_blocks() {
        let Some((block, l)) = all.get(k) else {
            bad.push(format!("an extra block {:?}", bl.raw_context()));
            break;
        };
        k += 1;
        if *block {
            match bl.attrlist() {
                Some(a) => {
                    compare(ctx, l, a);
                    ctx.check("the roles of a block", bl.roles() == a.roles(), || l.src.clone());
                    ctx.check("the options of a block", bl.options() == a.options(), || l.src.clone());
                    ctx.check("the ID of a block", bl.id() == a.id(), || l.src.clone());
                }
                None => bad.push(format!("[{}] is not a list", l.src)),
            }
        } else if let Block::Media(m) = bl {
            compare(ctx, l, m.macro_attrlist());
        } else {
            bad.push(format!("[{}] is not in a macro: {:?}", l.src, bl.raw_context()));
        }
    }
    ctx.check("the blocks", bad.is_empty() && k == all.len(), || format!("{bad:?} {k}"));
    let mut want: Vec<String> = vec![];
    for (_, l) in &all {
        want.extend(l.warnings.iter().map(|w| format!("WarningType::{w} {}", l.src)));
    }
    let mut got: Vec<String> = doc.warnings().map(|w| format!("{:?} {}", w.warning, w.source.data())).collect();
    // IDs may happen to repeat.
    got.retain(|w| !w.contains("DuplicateId"));
    want.sort();
    got.sort();
    ctx.expect_eq("the warnings about attribute lists", &want, &got);
    for (_, l) in &all {
        if l.attrs.len() > 2 {
            ctx.distinct(&l.src);
            ctx.sample(&l.src);
        }
    }
}
