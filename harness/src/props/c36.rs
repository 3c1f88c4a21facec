//! The tool that reports how much of the specification the tests cover.
use std::{fs, path::PathBuf, process::Command};

use super::PropDef;
use crate::{
    ctx::Ctx,
    json::{self, J},
    rng::Rng,
};

pub const DEF: PropDef = PropDef {
    id: "C36",
    quick: 15_000,
    thorough: 60_000,
    run,
    needs: &[
        "documents",
        "documents in subdirectories",
        "documents without tests",
        "documents quoted in part",
        "documents quoted as a whole",
        "quotes that differ",
        "verified lines",
        "non-normative lines",
        "blank lines",
        "hidden files",
        "files of other kinds",
        "test files without a document",
        "trees without a document",
        "empty documents",
        "CRLF",
    ],
    rule: "Trees of up to 12 documents (in subdirectories, hidden, of other kinds, empty, without tests) and the test files that quote them in up to 8 verified and non-normative pieces (complete, in part, with a line changed, added or missing); the tool runs in a scratch directory, and its report must be one JSON object of exactly the visible documents with exactly the covered and uncovered lines. Non-trivial: at least two documents; distinct by report.",
};

const LINES: &[&str] = &["", "", "= Title", "Some text.", "== Heading", "* item", "----", "é 日本", "[source]", "a \"quoted\" word", "  indented", "include::x[]", "// comment", "back\\slash", "r#x", "{x}", "tab\there", "  ", "\t", "  \"# indented", "    \"#);"];

fn run(ctx: &mut Ctx) {
    let Ok(exe) = std::env::var("VMON_SDD") else {
        ctx.fail("the tool is not built", "VMON_SDD is not set");
        return;
    };
    let mut r = Rng::new(ctx.rng.next());
    let root = std::env::temp_dir().join(format!("vmon-sdd-{}", std::process::id()));
    let _ = fs::remove_dir_all(&root);
    let docs = root.join("docs/modules");
    let tests = root.join("parser/src/tests");
    fs::create_dir_all(&docs).unwrap();
    fs::create_dir_all(&tests).unwrap();
    fs::create_dir_all(root.join("sdd")).unwrap();
    let mut all = String::new();
    let mut put = |p: PathBuf, t: &str| {
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        all.push_str(&format!("<<<< {}\n{t}", p.strip_prefix(&root).unwrap().display()));
        fs::write(p, t).unwrap();
    };
    let mut want: Vec<(String, Vec<(String, f64)>)> = vec![];
    let n = if r.one_in(12) { 0 } else { r.range(1, 12) };
    if n == 0 {
        ctx.count("trees without a document");
    }
    for k in 0..n {
        let (path, seen) = match r.below(8) {
            0 => (format!("sub/pages/d{k}.adoc"), true),
            1 => (format!("a b/é/d{k}.adoc"), true),
            2 => (format!(".hidden{k}/d{k}.adoc"), false),
            3 => (format!(".d{k}.adoc"), false),
            4 => (r.pick(&["d#.txt", "d#adoc", "d#.adoc.bak", "d#.ADOC~", "adoc"]).replace('#', &k.to_string()), false),
            _ => (format!("d{k}.adoc"), true),
        };
        ctx.count(match (seen, path.starts_with('.')) {
            (true, _) => "documents",
            (false, false) => "files of other kinds",
            _ => "hidden files",
        });
        if seen && path.contains('/') {
            ctx.count("documents in subdirectories");
        }
        let len = if r.one_in(8) { 0 } else { r.range(1, 25) };
        if len == 0 {
            ctx.count("empty documents");
        }
        let lines: Vec<String> = (0..len)
            .map(|_| {
                let l = r.pick(LINES);
                if r.bool() && !l.is_empty() { format!("{l} {}", r.below(9)) } else { l.to_string() }
            })
            .collect();
        let nl = if r.one_in(6) {
            ctx.count("CRLF");
            "\r\n"
        } else {
            "\n"
        };
        let mut text = lines.join(nl);
        if len > 0 && (r.bool() || lines[len - 1].is_empty()) {
            text.push_str(nl);
        }
        put(docs.join(&path), &text);

        // The quotes.
        let mut quoted: Vec<(String, bool)> = vec![];
        if r.one_in(4) {
            ctx.count("documents without tests");
        } else {
            let upto = if r.one_in(3) {
                ctx.count("documents quoted in part");
                r.below(len + 1)
            } else {
                ctx.count("documents quoted as a whole");
                len
            };
            for l in &lines[..upto] {
                quoted.push((l.clone(), true));
            }
            if !quoted.is_empty() && r.one_in(3) {
                ctx.count("quotes that differ");
                let i = r.below(quoted.len());
                match r.below(5) {
                    3 => quoted[i].0.push(' '),
                    4 => quoted[i].0.insert(0, ' '),
                    0 => quoted[i].0.push_str(" changed"),
                    1 => {
                        quoted.remove(i);
                    }
                    _ => quoted.insert(i, ("added".into(), true)),
                }
            }
            let mut src = String::from("use crate::tests::prelude::*;\n\n");
            let target = format!("track_file!(\"docs/modules/{path}\");\n\n");
            let track = r.one_in(10);
            if !track {
                src.push_str(&target);
            } else {
                ctx.count("test files without a document");
            }
            let mut i = 0;
            while i < quoted.len() {
                let m = r.range(1, quoted.len() - i);
                let normative = !r.one_in(3);
                ctx.add(if normative { "verified lines" } else { "non-normative lines" }, m as u64);
                let hash = if quoted[i..i + m].iter().any(|q| q.0.contains("\"#")) { "##" } else { r.pick(&["#", "##"]) };
                let ind = r.pick(&["", "    "]);
                let path = r.pick(&["", "", "crate::tests::"]);
                let gap = r.pick(&["\n", "\n", ""]);
                src.push_str(&format!("{ind}{path}{}!({gap}{}r{hash}\"\n", if normative { "verifies" } else { "non_normative" }, if gap.is_empty() { "" } else { ind }));
                for q in &mut quoted[i..i + m] {
                    q.1 = normative;
                    src.push_str(&q.0);
                    src.push('\n');
                }
                src.push_str(&format!("\"{hash}\n{ind});\n\n"));
                if r.bool() {
                    src.push_str("#[test]\nfn x() {\n    assert!(true);\n}\n\n");
                }
                i += m;
            }
            if track {
                quoted.clear();
            }
            let (dir, show) = match r.below(6) {
                0 => ("deep/er/", true),
                1 if quoted.is_empty() => (".x/", false),
                _ => ("", true),
            };
            let _ = show;
            put(tests.join(format!("{dir}t{k}.rs")), &src);
        }
        if seen {
            let mut v = vec![];
            for (i, l) in lines.iter().enumerate() {
                if l.is_empty() {
                    ctx.count("blank lines");
                    continue;
                }
                match quoted.get(i) {
                    Some((q, normative)) => {
                        if q == l && *normative {
                            v.push(((i + 1).to_string(), 1.0));
                        }
                    }
                    None => v.push(((i + 1).to_string(), 0.0)),
                }
            }
            want.push((format!("docs/modules/{path}"), v));
        }
    }
    put(tests.join("notes.txt"), "track_file!(\"docs/modules/d0.adoc\");\nverifies!(\nr#\"\nno\n\"#\n);\n");
    ctx.input(&all);
    let out = Command::new(&exe).current_dir(root.join("sdd")).output();
    let _ = fs::remove_dir_all(&root);
    ctx.eval();
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            ctx.fail("the tool cannot be started", e.to_string());
            return;
        }
    };
    if !ctx.check("the end of the tool", out.status.success(), || format!("{}: {}", out.status, String::from_utf8_lossy(&out.stderr))) {
        return;
    }
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let report = match json::parse(&text) {
        Ok(j) => j,
        Err(e) => {
            ctx.fail("the report is no JSON", format!("{e}: {text}"));
            return;
        }
    };
    let Some(J::Obj(files)) = report.get("coverage") else {
        ctx.fail("the report has no coverage", text);
        return;
    };
    let mut got: Vec<(String, Vec<(String, f64)>)> = vec![];
    for (f, v) in files {
        let J::Obj(v) = v else {
            ctx.fail("the lines of a document", format!("{f}: {v:?}"));
            return;
        };
        let mut l: Vec<(String, f64)> = v.iter().map(|(n, x)| (n.clone(), if let J::Num(x) = x { *x } else { -1.0 })).collect();
        l.sort_by_key(|x| x.0.parse::<usize>().unwrap_or(0));
        got.push((f.clone(), l));
    }
    want.sort_by(|a, b| a.0.cmp(&b.0));
    got.sort_by(|a, b| a.0.cmp(&b.0));
    let (a, b): (Vec<_>, Vec<_>) = (want.iter().map(|x| &x.0).collect(), got.iter().map(|x| &x.0).collect());
    if !ctx.check("the documents of the report", a == b, || format!("expected {a:?}, got {b:?}")) {
        return;
    }
    for (w, g) in want.iter().zip(&got) {
        ctx.check("the lines of a document", w == g, || format!("expected {w:?}, got {g:?}"));
    }
    if want.len() > 1 {
        ctx.distinct(&text);
        ctx.sample(&all);
    }
}
