//! Section numbers and section types.
use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock, SectionType},
    parser::ModificationContext,
};

use super::PropDef;
use crate::{ctx::Ctx, rng::Rng};

pub const DEF: PropDef = PropDef {
    id: "C13",
    quick: 72_000,
    thorough: 5_000_000,
    run,
    needs: &["numbered sections", "unnumbered sections", "appendix sections", "sections below an appendix", "discrete headings", "numbers switched off and on", "parsers used again", "numbers of two digits", "levels limited"],
    rule: "Random outlines without skipped levels (up to 60 sections, five levels), normal and appendix, discrete headings among them, with numbering on, off, or switched off for whole subtrees, sectnumlevels 0 to 6 from the header or the API, parsed one to three times by the same parser; every section's number and type must equal an independent count. Non-trivial: at least 4 numbered sections; distinct by text.",
};

struct Sec {
    level: usize,
    appendix_line: bool,
    discrete: bool,
    title: String,
    /// What is expected.
    number: Option<String>,
    kind: SectionType,
}

struct Gen {
    r: Rng,
    s: String,
    secs: Vec<Sec>,
    budget: usize,
    count: [usize; 6],
    in_appendix: bool,
    appendices: usize,
    normals: usize,
    levels: usize,
    numbering: bool,
    toggles: u64,
}

impl Gen {
    fn section(&mut self, level: usize, on: bool) {
        self.budget = self.budget.saturating_sub(1);
        let mut on = on;
        let off_here = on && self.numbering && self.r.one_in(9);
        if off_here {
            self.s.push_str(self.r.pick(&[":!sectnums:\n\n", ":sectnums!:\n\n"]));
            on = false;
            self.toggles += 1;
        }
        let appendix = level == 1 && self.r.one_in(4) && self.appendices < 26;
        if level == 1 {
            self.in_appendix = appendix;
        }
        if appendix {
            self.s.push_str(self.r.pick(&["[appendix]\n", "[appendix.role]\n", "[appendix#app{n}]\n", "[appendix,k=v]\n"]).replace("{n}", &self.secs.len().to_string()).as_str());
        } else if self.r.one_in(8) {
            // A style that has no effect here.
            self.s.push_str(if level > 1 { self.r.pick(&["[appendix]\n", "[preface]\n", "[.r]\n"]) } else { self.r.pick(&["[preface]\n", "[.appendix]\n", "[%appendix]\n", "[appendixes]\n", "[Appendix]\n", "[x,appendix]\n", "[style=appendix]\n"]) });
        }
        let number = if on && self.numbering && level <= self.levels {
            if level == 1 {
                if appendix {
                    self.appendices += 1;
                    self.count[1] = self.appendices;
                } else {
                    self.normals += 1;
                    self.count[1] = self.normals;
                }
            } else {
                self.count[level] += 1;
            }
            for k in level + 1..6 {
                self.count[k] = 0;
            }
            let mut t = if self.in_appendix {
                ((b'A' + (self.count[1] - 1) as u8) as char).to_string()
            } else {
                self.count[1].to_string()
            };
            for k in 2..=level {
                t.push_str(&format!(".{}", self.count[k]));
            }
            Some(t)
        } else {
            None
        };
        let title = format!("S{}", self.secs.len());
        self.s.push_str(&format!("{} {title}\n\n", if self.r.one_in(7) { "#" } else { "=" }.repeat(level + 1)));
        self.secs.push(Sec {
            level,
            appendix_line: appendix,
            discrete: false,
            title,
            number,
            kind: if self.in_appendix { SectionType::Appendix } else { SectionType::Normal },
        });
        if self.r.bool() {
            self.s.push_str(self.r.pick(&["text\n\n", "----\n== x\n----\n\n", "[[z]]\n\n"]));
        }
        if self.r.one_in(5) {
            let l = self.r.range(1, 5);
            let title = format!("S{}", self.secs.len());
            self.s.push_str(&format!("[{}]\n{} {title}\n\n", self.r.pick(&["discrete", "float"]), "=".repeat(l + 1)));
            self.secs.push(Sec { level: l, appendix_line: false, discrete: true, title, number: None, kind: SectionType::Discrete });
        }
        while level < 5 && self.budget > 0 && self.r.pct(55) {
            self.section(level + 1, on);
        }
        if off_here {
            self.s.push_str(":sectnums:\n\n");
        }
    }
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let api_levels = r.one_in(4);
    let api_level = r.range(0, 6);
    let mut p = Parser::default();
    if api_levels {
        p = p.with_intrinsic_attribute("sectnumlevels", api_level.to_string(), ModificationContext::ApiOnly);
    }
    let api_on = r.one_in(5);
    if api_on {
        p = p.with_intrinsic_attribute_bool("sectnums", true, ModificationContext::Anywhere);
    }
    let times = r.weighted(&[6, 3, 1]) + 1;
    let mut all = String::new();
    for turn in 0..times {
        if turn > 0 {
            ctx.count("parsers used again");
        }
        let numbering = r.pct(85);
        let mut head = String::new();
        if r.bool() {
            head.push_str("= Title\n");
        }
        if !(api_on && turn == 0 && numbering) {
            head.push_str(if numbering { r.pick(&[":sectnums:\n", ":sectnums: all\n"]) } else { r.pick(&[":!sectnums:\n", ":sectnums!:\n"]) });
        }
        let levels = if api_levels {
            api_level
        } else if turn > 0 || r.bool() {
            let l = if r.one_in(12) { *r.choose(&[9, 255, 256, 300, 100_000]) } else { r.range(0, 6) };
            head.push_str(&format!(":sectnumlevels: {l}\n"));
            l
        } else {
            3
        };
        if !head.is_empty() {
            head.push('\n');
        }
        let long = r.one_in(6);
        let mut g = Gen {
            budget: if long { 60 } else { r.range(1, 14) },
            r: Rng::new(r.next()),
            s: head,
            secs: vec![],
            count: [0; 6],
            in_appendix: false,
            appendices: 0,
            normals: 0,
            levels,
            numbering,
            toggles: 0,
        };
        let flat = r.one_in(10);
        while g.budget > 0 {
            if flat && g.budget > 2 {
                // Many top-level sections.
                let b = g.budget;
                g.budget = 1;
                g.section(1, true);
                g.budget = b - 1;
            } else {
                g.section(1, true);
            }
        }
        all.push_str(&g.s);
        all.push_str("\u{1e}");
        ctx.input(&all);
        let doc = p.parse(&g.s);
        ctx.eval();
        ctx.add("numbers switched off and on", g.toggles);
        let mut got: Vec<(usize, String, Option<String>, SectionType, Vec<usize>)> = vec![];
        crate::util::walk(&doc, &mut |b, _| {
            if let Block::Section(s) = b {
                got.push((
                    s.level(),
                    s.section_title().to_string(),
                    s.section_number().map(|n| n.to_string()),
                    s.section_type(),
                    s.section_number().map(|n| n.components().to_vec()).unwrap_or_default(),
                ));
                let _ = b.id();
            }
        });
        let want: Vec<_> = g.secs.iter().map(|s| (s.level, s.title.clone(), s.number.clone(), s.kind)).collect();
        let seen: Vec<_> = got.iter().map(|s| (s.0, s.1.clone(), s.2.clone(), s.3)).collect();
        let mut numbered = 0;
        for s in &g.secs {
            match &s.number {
                Some(n) => {
                    numbered += 1;
                    ctx.count("numbered sections");
                    if n.split('.').any(|x| x.len() > 1) {
                        ctx.count("numbers of two digits");
                    }
                    if s.kind == SectionType::Appendix && s.level > 1 {
                        ctx.count("sections below an appendix");
                    }
                }
                None if s.discrete => ctx.count("discrete headings"),
                None => {
                    ctx.count("unnumbered sections");
                    if numbering && s.level > levels {
                        ctx.count("levels limited");
                    }
                }
            }
            if s.appendix_line {
                ctx.count("appendix sections");
            }
        }
        if numbered >= 4 {
            ctx.distinct(&g.s);
            ctx.sample(&g.s);
        }
        if want != seen {
            let k = want.iter().zip(&seen).position(|(a, b)| a != b).unwrap_or(want.len().min(seen.len()));
            ctx.fail("a section's number or type differs from the count", format!("(level, title, number, type): expected {:?}, got {:?}", want.get(k), seen.get(k)));
            return;
        }
        for s in &got {
            if let Some(n) = &s.2 {
                let tail = |t: String| t.split('.').skip(1).map(|x| x.to_string()).collect::<Vec<_>>();
                let c: Vec<String> = s.4.iter().skip(1).map(|x| x.to_string()).collect();
                ctx.expect_eq("components of a section number", &tail(n.clone()), &c);
            }
        }
    }
}
