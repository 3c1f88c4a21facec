//! Random parser configurations.

use std::collections::HashMap;

use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    parser::{IncludeFileHandler, ModificationContext},
};

use crate::rng::Rng;

#[derive(Clone, Debug, Default)]
pub struct Files(pub HashMap<String, String>);

impl IncludeFileHandler for Files {
    fn resolve_target<'src>(&self, _source: Option<&str>, target: &str, _attrlist: &Attrlist<'src>, _parser: &Parser) -> Option<String> {
        self.0.get(target).cloned()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    pub attrs: Vec<(String, Option<String>, u8)>,
    pub bools: Vec<(String, bool, u8)>,
    pub primary: Option<String>,
    pub files: Option<HashMap<String, String>>,
}

pub fn context(k: u8) -> ModificationContext {
    match k {
        0 => ModificationContext::ApiOnly,
        1 => ModificationContext::ApiOrHeader,
        2 => ModificationContext::ApiOrDocumentBody,
        _ => ModificationContext::Anywhere,
    }
}

impl Config {
    pub fn build(&self) -> Parser {
        let mut p = Parser::default();
        for (n, v, c) in &self.attrs {
            p = p.with_intrinsic_attribute(n, v.clone().unwrap_or_default(), context(*c));
        }
        for (n, v, c) in &self.bools {
            p = p.with_intrinsic_attribute_bool(n, *v, context(*c));
        }
        if let Some(f) = &self.primary {
            p = p.with_primary_file_name(f);
        }
        if let Some(f) = &self.files {
            p = p.with_include_file_handler(Files(f.clone()));
        }
        p
    }
}

const NAMES: &[&str] = &["foo", "a", "icons", "imagesdir", "iconsdir", "icontype", "hide-uri-scheme", "idprefix", "idseparator", "sectnumlevels", "x-y"];
const VALUES: &[&str] = &["", "bar", "font", "img", "../up", "/abs", "https://h.example/p", "_", "-", "é", "2", "<b>&", "{foo}", "a b", "svg", "..", "*x*", "–", "日本"];
const BOOLS: &[&str] = &["sectnums", "sectids", "hardbreaks", "hide-uri-scheme", "icons", "toc", "foo"];

pub fn config(r: &mut Rng, fragment: &mut dyn FnMut(&mut Rng) -> String) -> Config {
    let mut c = Config::default();
    if r.one_in(3) {
        return c;
    }
    for _ in 0..r.below(4) {
        c.attrs.push((r.pick(NAMES).to_string(), Some(r.pick(VALUES).to_string()), r.below(4) as u8));
    }
    for _ in 0..r.below(3) {
        c.bools.push((r.pick(BOOLS).to_string(), r.bool(), r.below(4) as u8));
    }
    if r.one_in(3) {
        c.primary = Some("main.adoc".into());
    }
    if r.one_in(3) {
        let mut m = HashMap::new();
        for n in ["x", "a.adoc", "b.adoc"] {
            if r.pct(70) {
                // At most one include directive per file: files that include themselves more than
                // once describe a text that is exponential in the nesting limit.
                let f = fragment(r);
                let f = match f.find("include::") {
                    Some(k) => {
                        let (a, b) = f.split_at(k + 9);
                        format!("{a}{}", b.replace("include::", "include:"))
                    }
                    None => f,
                };
                m.insert(n.to_string(), f);
            }
        }
        c.files = Some(m);
    }
    c
}
