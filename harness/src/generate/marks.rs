//! A renderer that is not HTML: it writes what it is asked to render between private-use characters.
use std::{cell::RefCell, rc::Rc};

use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    parser::{CharacterReplacementType, IconRenderParams, ImageRenderParams, InlineSubstitutionRenderer, LinkRenderParams, LinkRenderType, QuoteScope, QuoteType, SpecialCharacter},
};

use super::inline::{Backend, Icon, Image, Link, Q, Rep};
use crate::util::html;

/// How often each request was made.
pub type Log = Rc<RefCell<std::collections::BTreeMap<&'static str, u64>>>;

#[derive(Debug, Default)]
pub struct Marks {
    pub log: Log,
}

fn quote(kind: &str, un: bool, id: Option<&str>, roles: &[String], body: &str) -> String {
    format!("\u{E000}{kind}{}{}{}\u{E001}{body}\u{E002}", if un { "\u{E003}u" } else { "\u{E003}c" }, id.map(|i| format!("\u{E004}{i}")).unwrap_or_default(), roles.iter().map(|r| format!("\u{E005}{r}")).collect::<String>())
}

fn kind(q: Q) -> &'static str {
    match q {
        Q::Strong => "strong",
        Q::Em => "em",
        Q::Mono => "mono",
        Q::Mark => "mark",
        Q::Sup => "sup",
        Q::Sub => "sub",
        Q::Double => "dq",
        Q::Single => "sq",
        Q::Plain => "plain",
    }
}

fn rep(r: &str) -> String {
    format!("\u{E006}{r}\u{E007}")
}

#[allow(clippy::too_many_arguments)]
fn link(target: &str, text: &str, bare: bool, id: Option<&str>, roles: &[String], window: Option<&str>, caret: bool, opts: &[String]) -> String {
    format!(
        "\u{E008}\"{target}\"{}{}{}{}{}{}>{text}<\u{E009}",
        if bare { "\u{E00A}bare" } else { "" },
        id.map(|i| format!("\u{E004}{i}")).unwrap_or_default(),
        roles.iter().map(|r| format!("\u{E005}{r}")).collect::<String>(),
        window.map(|w| format!("\u{E00B}{w}")).unwrap_or_default(),
        if caret { "\u{E00C}" } else { "" },
        opts.iter().map(|r| format!("\u{E00D}{r}")).collect::<String>(),
    )
}

struct Img<'a> {
    target: &'a str,
    src: &'a str,
    alt: &'a str,
    width: Option<&'a str>,
    height: Option<&'a str>,
    title: Option<&'a str>,
    link: Option<&'a str>,
    float: Option<&'a str>,
    window: Option<&'a str>,
    roles: &'a [String],
}

fn image(i: Img<'_>) -> String {
    let o = |c: char, v: Option<&str>| v.map(|v| format!("{c}\"{v}\"")).unwrap_or_default();
    format!(
        "\u{E00E}\"{}\"\u{E00F}\"{}\"\u{E010}\"{}\"{}{}{}{}{}{}{}\u{E017}",
        i.target,
        i.src,
        i.alt,
        o('\u{E011}', i.width),
        o('\u{E012}', i.height),
        o('\u{E013}', i.title),
        o('\u{E014}', i.link),
        o('\u{E015}', i.float),
        o('\u{E016}', i.window),
        i.roles.iter().map(|r| format!("\u{E005}{r}")).collect::<String>()
    )
}

fn anchor(id: &str, reftext: Option<&str>) -> String {
    format!("\u{E018}{id}\u{E019}{}\u{E01A}", reftext.map(|r| format!("\u{E01B}{r}")).unwrap_or_default())
}

impl Backend for Marks {
    fn special(&self, c: char) -> String {
        html(&c.to_string())
    }
    fn quote(&self, q: Q, un: bool, id: Option<&str>, roles: &[String], body: &str) -> String {
        quote(kind(q), un, id, roles, body)
    }
    fn rep(&self, r: Rep) -> String {
        match r {
            Rep::Copy => rep("copy"),
            Rep::Reg => rep("reg"),
            Rep::Tm => rep("tm"),
            Rep::Dash => rep("dash"),
            Rep::DashSpaced => rep("spaced"),
            Rep::Dots => rep("dots"),
            Rep::Apos => rep("apos"),
            Rep::Right => rep("right"),
            Rep::RightD => rep("rightd"),
            Rep::Left => rep("left"),
            Rep::LeftD => rep("leftd"),
            Rep::Entity(e) => rep(&format!("entity {e}")),
        }
    }
    fn line_break(&self) -> String {
        "\u{E01C}".into()
    }
    fn link(&self, l: &Link) -> String {
        link(&l.target, &l.text, l.bare, l.id.as_deref(), &l.roles, l.window.as_deref(), l.caret, &l.opts)
    }
    fn image(&self, i: &Image) -> String {
        image(Img {
            target: &i.target,
            src: &i.src,
            alt: &i.alt,
            width: i.width.as_deref(),
            height: i.height.as_deref(),
            title: i.title.as_deref(),
            link: i.link.as_deref(),
            float: i.float.as_deref(),
            window: i.window.as_deref(),
            roles: &i.roles,
        })
    }
    fn icon(&self, i: &Icon) -> String {
        format!("\u{E01D}{}\u{E01E}{}\u{E01F}{}\u{E020}", i.target, i.alt, i.size.as_deref().unwrap_or("-"))
    }
    fn anchor(&self, id: &str, reftext: Option<&str>) -> String {
        anchor(id, reftext)
    }
}

fn roles_of(a: &Attrlist<'_>) -> Vec<String> {
    a.roles().iter().map(|s| s.to_string()).collect()
}

impl Marks {
    fn count(&self, k: &'static str) {
        *self.log.borrow_mut().entry(k).or_insert(0) += 1;
    }
}

impl InlineSubstitutionRenderer for Marks {
    fn render_special_character(&self, t: SpecialCharacter, dest: &mut String) {
        self.count("special characters asked for");
        dest.push_str(match t {
            SpecialCharacter::Lt => "&lt;",
            SpecialCharacter::Gt => "&gt;",
            SpecialCharacter::Ampersand => "&amp;",
        });
    }

    fn render_quoted_substitition(&self, t: QuoteType, scope: QuoteScope, attrlist: Option<Attrlist<'_>>, id: Option<String>, body: &str, dest: &mut String) {
        self.count("formatted texts asked for");
        let k = match t {
            QuoteType::Strong => "strong",
            QuoteType::DoubleQuote => "dq",
            QuoteType::SingleQuote => "sq",
            QuoteType::Monospaced => "mono",
            QuoteType::Emphasis => "em",
            QuoteType::Mark => "mark",
            QuoteType::Superscript => "sup",
            QuoteType::Subscript => "sub",
            QuoteType::Unquoted => "plain",
        };
        let id = id.or_else(|| attrlist.as_ref().and_then(|a| a.id()).map(|s| s.to_string()));
        let mut roles: Vec<String> = vec![];
        if let Some(a) = &attrlist {
            if let Some(s) = a.nth_attribute(1).and_then(|x| x.block_style()) {
                roles.push(s.to_string());
            }
            roles.extend(roles_of(a));
        }
        dest.push_str(&quote(k, scope == QuoteScope::Unconstrained, id.as_deref(), &roles, body));
    }

    fn render_character_replacement(&self, t: CharacterReplacementType, dest: &mut String) {
        self.count("replacements asked for");
        use CharacterReplacementType::*;
        let s = match t {
            Copyright => "copy".to_string(),
            Registered => "reg".into(),
            Trademark => "tm".into(),
            EmDashSurroundedBySpaces => "spaced".into(),
            EmDashWithoutSpace => "dash".into(),
            Ellipsis => "dots".into(),
            SingleRightArrow => "right".into(),
            DoubleRightArrow => "rightd".into(),
            SingleLeftArrow => "left".into(),
            DoubleLeftArrow => "leftd".into(),
            TypographicApostrophe => "apos".into(),
            CharacterReference(n) => format!("entity {n}"),
        };
        dest.push_str(&rep(&s));
    }

    fn render_line_break(&self, dest: &mut String) {
        self.count("line breaks asked for");
        dest.push('\u{E01C}');
    }

    fn render_image(&self, p: &ImageRenderParams, dest: &mut String) {
        self.count("images asked for");
        let n = |k: &str| p.attrlist.named_attribute(k).map(|a| a.value());
        dest.push_str(&image(Img {
            target: p.target,
            src: &self.image_uri(p.target, p.parser, None),
            alt: &p.alt,
            width: p.width,
            height: p.height,
            title: n("title"),
            link: n("link"),
            float: n("float"),
            window: n("window"),
            roles: &roles_of(p.attrlist),
        }));
    }

    fn image_uri(&self, target: &str, parser: &Parser, key: Option<&str>) -> String {
        // As the default, for what the generator writes.
        let d = match parser.attribute_value(key.unwrap_or("imagesdir")) {
            asciidoc_parser::document::InterpretedValue::Value(v) => v,
            _ => String::new(),
        };
        let uri = target.find(':').is_some_and(|k| target[..k].chars().count() > 1 && target[..k].chars().all(|c| c.is_alphanumeric() || ".+-".contains(c)) && target.starts_with(char::is_alphabetic));
        if uri {
            return target.replace(' ', "%20");
        }
        if d.is_empty() { target.to_string() } else { format!("{}/{target}", d.trim_end_matches('/')) }
    }

    fn render_icon(&self, p: &IconRenderParams, dest: &mut String) {
        self.count("icons asked for");
        dest.push_str(&format!("\u{E01D}{}\u{E01E}{}\u{E01F}{}\u{E020}", p.target, p.alt, p.size.unwrap_or("-")));
    }

    fn render_link(&self, p: &LinkRenderParams, dest: &mut String) {
        self.count("links asked for");
        let LinkRenderType::Link = p.type_;
        let bare = p.extra_roles.contains(&"bare");
        let opts: Vec<String> = p.attrlist.options().iter().map(|s| s.to_string()).collect();
        dest.push_str(&link(
            &p.target,
            &p.link_text,
            bare,
            p.attrlist.id(),
            &roles_of(p.attrlist),
            p.attrlist.named_attribute("window").map(|a| a.value()),
            p.window == Some("_blank"),
            &opts,
        ));
    }

    fn render_anchor(&self, id: &str, reftext: Option<String>, dest: &mut String) {
        self.count("anchors asked for");
        dest.push_str(&anchor(id, reftext.as_deref()));
    }
}

/// Marks only: nothing of the text's attributes is written, so `<`, `>` and a lone `&` can only be text.
#[derive(Debug, Default)]
pub struct Tags;

impl InlineSubstitutionRenderer for Tags {
    fn render_special_character(&self, t: SpecialCharacter, dest: &mut String) {
        dest.push_str(match t {
            SpecialCharacter::Lt => "&lt;",
            SpecialCharacter::Gt => "&gt;",
            SpecialCharacter::Ampersand => "&amp;",
        });
    }
    fn render_quoted_substitition(&self, _t: QuoteType, _s: QuoteScope, _a: Option<Attrlist<'_>>, _id: Option<String>, body: &str, dest: &mut String) {
        dest.push('\u{E000}');
        dest.push_str(body);
        dest.push('\u{E001}');
    }
    fn render_character_replacement(&self, t: CharacterReplacementType, dest: &mut String) {
        match t {
            CharacterReplacementType::CharacterReference(n) => dest.push_str(&format!("&{n};")),
            _ => dest.push('\u{E006}'),
        }
    }
    fn render_line_break(&self, dest: &mut String) {
        dest.push('\u{E01C}');
    }
    fn render_image(&self, p: &ImageRenderParams, dest: &mut String) {
        dest.push_str(&format!("\u{E00E}{}\u{E017}", p.alt));
    }
    fn image_uri(&self, target: &str, _p: &Parser, _k: Option<&str>) -> String {
        target.to_string()
    }
    fn render_icon(&self, p: &IconRenderParams, dest: &mut String) {
        dest.push_str(&format!("\u{E01D}{}\u{E020}", p.alt));
    }
    fn render_link(&self, p: &LinkRenderParams, dest: &mut String) {
        dest.push_str(&format!("\u{E008}{}\u{E00A}{}\u{E009}", p.target, p.link_text));
    }
    fn render_anchor(&self, id: &str, _r: Option<String>, dest: &mut String) {
        dest.push_str(&format!("\u{E018}{id}\u{E01A}"));
    }
}
