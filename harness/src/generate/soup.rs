//! Hostile workloads: token soup biased to AsciiDoc markup, and mutations of a
//! corpus of real documents and snippets.

use std::sync::LazyLock;

use crate::rng::Rng;

static CORPUS: LazyLock<Vec<&'static str>> =
    LazyLock::new(|| include_str!("../../corpus/seeds.txt").split('\u{1e}').collect());

pub fn corpus() -> &'static [&'static str] {
    &CORPUS
}

pub const INLINE: &[&str] = &[
    "*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "+", "++", "+++", "$$", "pass:[", "pass:q,a[", "pass:c[",
    "\\", "\\\\", "'", "\"", "'`", "`'", "\"`", "`\"", "<", ">", "&", "&amp;", "&#167;", "<<", ">>", "<<a,b>>", "[[", "]]",
    "[[id]]", "[[id,ref]]", "[#id]", "[.role]", "[.a.b#c%d]", "[", "]", "[]", "[x]", "[x=y]", "[\"q\"]", "{", "}", "{empty}",
    "{sp}", "{foo}", "\\{foo}", "{nope}", "{Foo}", "{set:a:b}", "{counter:x}", "(", ")", "(C)", "(R)", "(TM)", "--", " -- ",
    "...", "->", "=>", "<-", "<=", "-&gt;", "\\(C)", "a--b", "a'b", "http://", "https://a.b/c", "https://x.org[", "https://x.org[t^]",
    "<https://x.org>", "link:", "link:a[b]", "link:a b[c]", "link:++a b++[c]", "mailto:", "mailto:a@b.c[d,e,f]", "link::[t]", "link:[t]", "a@b.co",
    "me.you+x@host.example", "image:", "image:a.png[", "image:a.png[alt,1,2]", "image:[x]", "image::a.png[]", "icon:", "icon:heart[]",
    "icon:heart[2x]", "xref:", "xref:a[b]", "anchor:a[b]", "stem:[x]", "kbd:[a]", "btn:[x]", "menu:a[b]", "footnote:[x]",
    " +", " +\n", "\n", "\n\n", "\r\n", "\r", "\t", " ", "  ", ",", ";", ":", "::", ".", "!", "?", "a", "b", "foo", "Bar baz", "0", "1",
    "é", "日本", "→", "\u{200b}", "\u{feff}", "\u{96}", "\u{97}", "\u{96}0\u{97}", "\u{0}", "\u{7f}", "\u{85}", "\u{2028}", "🎉", "İ", "ß", "ǅ",
    "\u{301}", "%20", "%", "?a=b", "#frag", "/", "//", "@", "^]", "window=_blank", "role=x", "opts=inline", "opts=\"a,b\"", "xx.svg",
    "image:f.svg[opts=inline]", "image:f.svg[opts=interactive]", "$", "&quot;", "&lt;", "|", "~x~", "^y^", "*b*", "_i_", "`m`", "#h#", "**u**",
];

pub const LINES: &[&str] = &[
    "", "", "", "----", "-----", "---", "--", "....", ".....", "====", "=====", "****", "*****", "____", "++++", "////", "//", "// c", "///",
    "```", "'''", "- - -", "* * *", "***", "<<<", "= T", "= T\nA B <a@b.c>\nv1.0, 2020: x", "== A", "=== B", "==== C", "===== D", "====== E",
    "======= F", "# T", "## A", "### B", "==A", "== ", "=", "==", ".Title", ". x", "..", "..x", "[source]", "[source,ruby]", "[literal]",
    "[listing]", "[verse]", "[quote,a,b]", "[#id]", "[[anc]]", "[[anc,ref text]]", "[[]]", "[[ a ]]", "[[1a]]", "[[a,]]", "[[,a]]", "[]", "[ x]",
    "[discrete]", "[float]", "[appendix]", "[subs=none]", "[subs=\"quotes,+attributes\"]", "[subs=\"-quotes\"]", "[subs=\"attributes+\"]",
    "[%hardbreaks]", "[%hardbreaks.r#i]", "[a,b,c=d]", "[\"a\",'b']", "[a=\"b,c\"]", "[normal]", "[comment]", "[pass]", "[stem]", "[example]",
    "[sidebar]", "[NOTE]", "NOTE: x", "image::a.png[]", "image::a.png[alt,10,20]", "image::[x]", "image::a", "image:: a[]", "video::v.mp4[]",
    "audio::a.mp3[]", "image::{foo}[]", "toc::[]", "include::x[]", "include::a.adoc[]", "include::b.adoc[tag=x]", "include::", "\\include::x[]",
    "ifdef::foo[]", "ifdef::foo[x]", "ifndef::foo[]", "ifeval::[1==1]", "endif::[]", "endif::foo[]", ":foo: bar", ":foo:", ":!foo:", ":foo!:", ":a-b: x \\\ny",
    ":a: x + \\\ny", ":Foo: B", ":foo : x", ": foo: x", ":sectnums:", ":!sectnums:", ":sectids!:", ":idprefix:", ":idseparator: -", ":idseparator: –", ":idseparator: é-", "== - A -", "== .A b.", "=== A–b é", ":sectnumlevels: 5",
    ":hardbreaks:", ":toc:", ":doctitle: X", ":author: A B C", ":email: a@b", ":revdate: x", ":imagesdir: i", ":iconsdir: q", ":icons: font", ":icons:", ":data-uri:",
    " indented", "\tindented", "* item", "- item", "1. item", "a:: b", "|===", "| a | b", "text", "some *bold* text", "> quote", "Author Name <a@b.c>",
    "v1.0", "v1.0, 2020-01-01", "1.0, d: r", "Line one +", "line {foo} two", "image::x.svg[opts=inline]", "\u{85}", "\u{feff}", " \t ", "\r", "[[a]]\n[[b]]",
    ":m0: \u{96}0\u{97}\n\npass:a[{m0}] +++{m0}+++", ":m1: \u{96}1\u{97}\n\npass:q,a[*{m1}*] pass:a[{m1}]", ".A\n.B", "[a]\n[b]", "[#x]\n.T\n[[y]]",
];

fn token_line(r: &mut Rng, out: &mut String, max: usize) {
    let n = r.range(1, max);
    for _ in 0..n {
        out.push_str(r.pick(INLINE));
        if r.one_in(5) {
            out.push(' ');
        }
    }
}

pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(4) {
        // One or a few lines of inline markup.
        0 => {
            for _ in 0..r.range(1, 2) {
                token_line(r, &mut s, 9);
                s.push('\n');
            }
        }
        // Block structure.
        1 => {
            for _ in 0..r.range(1, 22) {
                s.push_str(r.pick(LINES));
                s.push('\n');
            }
        }
        // Both.
        2 => {
            for _ in 0..r.range(1, 16) {
                if r.bool() {
                    s.push_str(r.pick(LINES));
                } else {
                    token_line(r, &mut s, 6);
                }
                s.push_str(if r.one_in(12) { "\r\n" } else { "\n" });
            }
        }
        // Short dense.
        _ => token_line(r, &mut s, 6),
    }
    if r.one_in(6) {
        while s.ends_with('\n') {
            s.pop();
        }
    }
    s
}

fn boundary(s: &str, mut k: usize) -> usize {
    while k > 0 && !s.is_char_boundary(k) {
        k -= 1;
    }
    k
}

pub fn mutated(r: &mut Rng) -> String {
    let c = corpus();
    let mut s = c[r.below(c.len())].to_string();
    for _ in 0..r.below(5) {
        let a = boundary(&s, r.below(s.len() + 1));
        match r.below(8) {
            0 => s.insert_str(a, r.pick(INLINE)),
            1 => {
                let b = boundary(&s, (a + r.below(8)).min(s.len()));
                if b >= a {
                    s.replace_range(a..b, "");
                }
            }
            2 => {
                let b = boundary(&s, (a + r.below(60)).min(s.len()));
                if b >= a {
                    let t = s[a..b].to_string();
                    let k = boundary(&s, r.below(s.len() + 1));
                    s.insert_str(k, &t);
                }
            }
            3 => {
                // Insert a line at a line start.
                let k = s[..a].rfind('\n').map(|x| x + 1).unwrap_or(0);
                let l = format!("{}\n", r.pick(LINES));
                s.insert_str(k, &l);
            }
            4 => {
                // Drop a line.
                let k = s[..a].rfind('\n').map(|x| x + 1).unwrap_or(0);
                let e = s[k..].find('\n').map(|x| k + x + 1).unwrap_or(s.len());
                s.replace_range(k..e, "");
            }
            5 => {
                let o = c[r.below(c.len())];
                let k = boundary(o, r.below(o.len() + 1));
                let cut = boundary(&s, a);
                s.truncate(cut);
                s.push_str(&o[k..]);
            }
            6 => s.insert_str(a, r.pick(INLINE)),
            _ => {
                let b = boundary(&s, (a + 1 + r.below(3)).min(s.len()));
                if b >= a {
                    s.replace_range(a..b, r.pick(INLINE));
                }
            }
        }
        if s.len() > 6000 {
            let k = boundary(&s, 6000);
            s.truncate(k);
        }
    }
    if r.one_in(12) {
        s = s.replace('\n', "\r\n");
    }
    s
}

pub fn any_text(r: &mut Rng) -> String {
    if r.pct(60) { soup(r) } else { mutated(r) }
}

/// Large documents made of repeated fragments.
pub fn large(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let parts: Vec<String> = (0..r.range(1, 4)).map(|_| any_text(r)).collect();
    let sep = r.pick(&["\n", "\n\n", "", " "]);
    let target = r.range(max / 8, max);
    let mut n = 0;
    while s.len() < target && n < 4000 {
        s.push_str(&parts[n % parts.len()]);
        s.push_str(sep);
        n += 1;
    }
    s
}

/// Nested delimited blocks, possibly unterminated, to a bounded depth.
pub fn nested(r: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    let mut stack: Vec<String> = vec![];
    for _ in 0..depth * 2 {
        if r.pct(60) && stack.len() < depth {
            let ch = r.pick(&["=", "*", "_"]);
            let mut n = 4;
            while stack.iter().any(|x: &String| x.len() == n && x.starts_with(ch)) {
                n += 1;
            }
            let d = ch.repeat(n);
            if r.one_in(4) {
                s.push_str(r.pick(LINES));
                s.push('\n');
            }
            s.push_str(&d);
            s.push('\n');
            stack.push(d);
        } else if let Some(d) = stack.pop() {
            if r.pct(80) {
                s.push_str(&d);
                s.push('\n');
            }
        } else {
            s.push_str(r.pick(LINES));
            s.push('\n');
        }
        if r.one_in(3) {
            token_line(r, &mut s, 4);
            s.push('\n');
        }
    }
    while let Some(d) = stack.pop() {
        if r.pct(70) {
            s.push_str(&d);
            s.push('\n');
        }
    }
    s
}

/// Marks close together, with little between them.
pub fn marks(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(2, 9) {
        s.push_str(r.pick(&[
            "`", "`", "*", "_", "#", "+", "+", "++", "``", "[a]", "[", "]", "[x-]", "a", "m", " ", ":", "\\", "'", "\"", "^", "~", "\n", "\u{2028}", "\u{a0}", "é", "(", "<", ">", "{", "}", "$$", "pass:[", "--", "...", "==", "== ", "::", "<<", ">>",
            ".", "&", ";", "/", "\u{96}", "1",
        ]));
    }
    s
}
