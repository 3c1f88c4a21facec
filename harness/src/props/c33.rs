//! Web paths.
use asciidoc_parser::{
    Parser,
    blocks::IsBlock,
    parser::{ModificationContext, PathResolver},
};

use super::PropDef;
use crate::{ctx::Ctx, rng::Rng};

pub const DEF: PropDef = PropDef {
    id: "C33",
    quick: 1_600_000,
    thorough: 10_000_000,
    run,
    needs: &[
        "parent references resolved",
        "parent references kept",
        "parent references above the root",
        "self references",
        "absolute targets",
        "absolute start paths",
        "start paths that are URIs",
        "start paths with a slash at the end",
        "no start path",
        "spaces",
        "backslashes as separators",
        "backslashes as characters",
        "paths of an image",
        "long paths",
    ],
    rule: "Targets and start paths of up to 12 segments each (names, self and parent references, empty segments, spaces, dots, other scripts) with every kind of root and scheme and both file separators, resolved directly and through the images directory of an image; the result must be that of rewriting the joined path one parent reference at a time, and resolving it again must change nothing. Non-trivial: at least one self or parent reference; distinct by target and start.",
};

const NAMES: &[&str] = &["a", "b", "img", "photo.jpg", "é", "日本", "my file", "...", ".hidden", "a..b", "x.", "1", "%20", "C", "a\\b", "..\\c", "~", "a b c", "a b c d e f g h i j k l m"];

fn segments(r: &mut Rng, hi: usize) -> Vec<String> {
    (0..r.range(0, hi))
        .map(|_| match r.below(10) {
            0..3 => "..".into(),
            3 | 4 => ".".into(),
            5 if r.one_in(4) => String::new(),
            _ => r.pick(NAMES).to_string(),
        })
        .collect()
}

fn path(r: &mut Rng, hi: usize) -> String {
    let root = r.pick(&["", "", "", "./", "/", "../"]);
    let s = segments(r, hi).join("/");
    let end = if r.one_in(6) { "/" } else if r.one_in(12) { "\\" } else { "" };
    format!("{root}{s}{end}")
}

/// The result, by rewriting the text.
fn model(target: &str, start: Option<&str>, backslash: bool) -> String {
    let slashes = |s: &str| if backslash { s.replace('\\', "/") } else { s.to_string() };
    let t = slashes(target);
    let mut scheme = String::new();
    let mut s = match start.map(slashes) {
        Some(st) if !t.starts_with('/') => {
            let j = if st.ends_with('/') { format!("{st}{t}") } else { format!("{st}/{t}") };
            let (a, b) = split_scheme(&j);
            scheme = a.into();
            b.to_string()
        }
        _ => t,
    };
    let mut root = "";
    if s.starts_with('/') {
        root = "/";
        s.remove(0);
    } else if s.starts_with("./") {
        root = "./";
        s.drain(..2);
    }
    let mut v: Vec<&str> = s.split('/').filter(|x| *x != ".").collect();
    // One parent reference at a time, the leftmost first.
    loop {
        if root == "/" && v.first() == Some(&"..") {
            v.remove(0);
            continue;
        }
        match (1..v.len()).find(|&k| v[k] == ".." && v[k - 1] != "..") {
            Some(k) => {
                v.remove(k);
                v.remove(k - 1);
            }
            None => break,
        }
    }
    format!("{scheme}{root}{}", v.join("/").replace(' ', "%20"))
}

fn split_scheme(s: &str) -> (&str, &str) {
    let Some(k) = s.find(':') else { return ("", s) };
    let name = &s[..k];
    let mut c = name.chars();
    let ok = c.next().is_some_and(|c| c.is_alphabetic()) && name.chars().count() > 1 && c.all(|c| c.is_alphanumeric() || matches!(c, '.' | '+' | '-'));
    if !ok {
        return ("", s);
    }
    let mut end = k + 1;
    for _ in 0..2 {
        if s[end..].starts_with('/') {
            end += 1;
        }
    }
    (&s[..end], &s[end..])
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let long = r.one_in(20);
    let hi = if long { 12 } else { 5 };
    let target = path(&mut r, hi);
    let start = match r.below(8) {
        0 | 1 => None,
        2 => Some(format!(
            "{}{}",
            r.pick(&["http://example.com/", "https://h.example:8080/", "file:///", "ftp://x/", "data:", "urn:x/", "c:/", "git+ssh://h/", "x²:", "xⅣ://h/", "a-1.b:/", "9x:/", "http:\\\\h\\", "é²:/"]),
            segments(&mut r, hi).join("/")
        )),
        _ => Some(path(&mut r, hi)),
    };
    let backslash = r.one_in(3);
    let pr = PathResolver {
        file_separator: if backslash { '\\' } else { '/' },
    };
    let shown = format!("{target:?} from {start:?}, separator {:?}", pr.file_separator);
    ctx.input(&shown);
    let got = pr.web_path(&target, start.as_deref());
    ctx.eval();
    let want = model(&target, start.as_deref(), backslash);
    ctx.check("a path", got == want, || format!("{shown}: expected {want:?}, got {got:?}"));
    ctx.check("the slashes of a path", pr.posixify(&target) == if backslash { target.replace('\\', "/") } else { target.clone() }, || shown.clone());
    ctx.check("whether a path is absolute", pr.is_web_root(&target) == target.starts_with('/'), || shown.clone());

    let uri = start.as_deref().is_some_and(|s| !split_scheme(&s.replace('\\', "/")).0.is_empty());
    if !uri {
        let again = pr.web_path(&got, None);
        ctx.check("a path resolved again", again == got, || format!("{shown}: {got:?}, then {again:?}"));
        if got.starts_with('/') {
            ctx.check("an absolute path above the root", !got.starts_with("/../") && got != "/..", || format!("{shown}: {got:?}"));
        }
        let mut named = false;
        for x in got.split('/').filter(|x| !x.is_empty() && *x != ".") {
            ctx.check("a parent reference after a name", !(named && x == ".."), || format!("{shown}: {got:?}"));
            named |= x != "..";
        }
    }
    ctx.check("a space in a path", !got.strip_prefix(split_scheme(&got).0).unwrap_or(&got).contains(' '), || format!("{shown}: {got:?}"));

    let mut interesting = false;
    let all = format!("{}/{}", start.as_deref().unwrap_or_default(), target);
    if all.split('/').any(|x| x == "..") {
        interesting = true;
        let kept = got.split('/').any(|x| x == "..");
        ctx.count(if kept { "parent references kept" } else { "parent references resolved" });
        if got.starts_with('/') && target.starts_with("/..") {
            ctx.count("parent references above the root");
        }
    }
    if all.split('/').any(|x| x == ".") {
        interesting = true;
        ctx.count("self references");
    }
    if all.contains(' ') {
        ctx.count("spaces");
    }
    if all.contains('\\') {
        ctx.count(if backslash { "backslashes as separators" } else { "backslashes as characters" });
    }
    if long {
        ctx.count("long paths");
    }
    match &start {
        None => ctx.count("no start path"),
        Some(_) if target.starts_with('/') => ctx.count("absolute targets"),
        Some(_) if uri => ctx.count("start paths that are URIs"),
        Some(s) => {
            if s.starts_with('/') {
                ctx.count("absolute start paths");
            }
            if s.ends_with('/') {
                ctx.count("start paths with a slash at the end");
            }
        }
    }
    if interesting {
        ctx.distinct(&shown);
        ctx.sample(&shown);
    }

    // The same through an image.
    if r.one_in(4) && !target.is_empty() && !target.contains("..\\") && !target.starts_with(' ') && !target.contains("...") && !target.contains('~') {
        let mut p = Parser::default();
        p.path_resolver = pr.clone();
        if let Some(s) = &start {
            p = p.with_intrinsic_attribute("imagesdir", s.as_str(), ModificationContext::ApiOnly);
        }
        let src = format!("x image:{target}[] y");
        // An empty directory is none.
        let want = model(&target, start.as_deref().filter(|s| !s.is_empty()), backslash);
        let want = format!("<img src=\"{want}\" ");
        let doc = p.parse(&src);
        let got = doc.nested_blocks().next().and_then(|b| b.rendered_content()).unwrap_or_default().to_string();
        ctx.count("paths of an image");
        ctx.check("the path of an image", got.contains(&want), || format!("{src:?} in {start:?}: expected {want:?} in {got:?}"));
    }
}
