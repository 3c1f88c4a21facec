//! The string type of the API.
use std::{
    borrow::Cow,
    collections::{HashMap, HashSet, hash_map::DefaultHasher},
    hash::{Hash, Hasher},
};

use asciidoc_parser::strings::{CowStr, InlineStr};

use super::PropDef;
use crate::{ctx::Ctx, rng::Rng};

pub const DEF: PropDef = PropDef {
    id: "C35",
    quick: 1_600_000,
    thorough: 10_000_000,
    run,
    needs: &["borrowed", "boxed", "inlined", "texts of 21 bytes", "texts of 22 bytes", "texts of 23 bytes", "texts too long to inline", "clones", "clones of clones", "conversions", "characters", "characters of four bytes", "empty texts", "lookups"],
    rule: "Texts of 0 to 40 bytes of all UTF-8 lengths (with a character across the limit of 22 bytes) and single characters, made into each form by each constructor and taken through up to 12 clones, conversions and moves; the text must stay what it was, and equality, hash and lookup must agree with those of the text in every pair of forms. Non-trivial: a text of at least 20 bytes; distinct by text and path.",
};

const CHARS: &[char] = &['a', 'b', ' ', '\0', '\n', 'é', 'ß', '日', '\u{7ff}', '\u{800}', '\u{ffff}', '😀', '\u{10ffff}', '\u{301}', '0'];

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn form(ctx: &mut Ctx, s: &CowStr<'_>) {
    ctx.count(match s {
        CowStr::Boxed(_) => "boxed",
        CowStr::Borrowed(_) => "borrowed",
        CowStr::Inlined(_) => "inlined",
    });
}

fn run(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.rng.next());
    let limit = 3 * std::mem::size_of::<isize>() - 2;
    let mut t = String::new();
    let target = match r.below(4) {
        0 => r.range(limit - 2, limit + 2),
        1 => r.below(6),
        _ => r.below(41),
    };
    while t.len() < target {
        t.push(if r.bool() { 'x' } else { *r.choose(CHARS) });
    }
    ctx.input(&t);
    ctx.eval();
    match t.len() {
        0 => ctx.count("empty texts"),
        21 => ctx.count("texts of 21 bytes"),
        22 => ctx.count("texts of 22 bytes"),
        23 => ctx.count("texts of 23 bytes"),
        _ => (),
    }
    let inline = InlineStr::try_from(t.as_str());
    ctx.check("whether a text fits", inline.is_ok() == (t.len() <= limit), || format!("{} bytes", t.len()));
    if inline.is_err() {
        ctx.count("texts too long to inline");
    }
    if let Ok(i) = &inline {
        ctx.check("an inlined text", &**i == t.as_str() && i.as_ref() == t && i.to_string() == t, || format!("{:?} is {:?}", t, &**i));
        ctx.check("the hash of an inlined text", hash(i) == hash(t.as_str()), || t.clone());
        let j = *i;
        ctx.check("equality of inlined texts", j == *i, || t.clone());
        // What was in the unused bytes before does not count.
        let mut other = t.clone();
        other.pop();
        if let Ok(o) = InlineStr::try_from(other.as_str()) {
            ctx.check("different inlined texts", (o == *i) == (other == t), || t.clone());
        }
    }
    let c = r.choose(CHARS);
    ctx.count("characters");
    if c.len_utf8() == 4 {
        ctx.count("characters of four bytes");
    }
    let cs = c.to_string();
    for s in [CowStr::from(*c), CowStr::Inlined(InlineStr::from(*c)), CowStr::from(Cow::Borrowed(c)), CowStr::from(Cow::<char>::Owned(*c))] {
        ctx.check("a character", *s == *cs && s.len() == c.len_utf8(), || format!("{c:?} is {s:?}"));
        ctx.check("the hash of a character", hash(&s) == hash(cs.as_str()), || format!("{c:?}"));
    }

    let make = |k: usize| -> CowStr<'_> {
        match k {
            0 => CowStr::from(t.as_str()),
            1 => CowStr::from(t.clone()),
            2 => CowStr::from(Cow::Borrowed(t.as_str())),
            3 => CowStr::from(Cow::<str>::Owned(t.clone())),
            4 => CowStr::Boxed(t.clone().into_boxed_str()),
            5 => match &inline {
                Ok(i) => CowStr::Inlined(*i),
                Err(_) => CowStr::Borrowed(&t),
            },
            _ => CowStr::from(t.clone()).clone(),
        }
    };
    let mut path = String::new();
    let mut s = make(r.below(7));
    form(ctx, &s);
    let mut was_clone = false;
    for _ in 0..r.below(13) {
        let op = r.below(7);
        path.push((b'a' + op as u8) as char);
        s = match op {
            0 | 1 => {
                ctx.count(if was_clone { "clones of clones" } else { "clones" });
                was_clone = true;
                let c = s.clone();
                ctx.check("a clone", c == s && *c == *s, || format!("{c:?} of {s:?}"));
                if op == 0 { c } else { s }
            }
            2 => CowStr::from(Cow::<str>::from(s)),
            3 => CowStr::from(s.into_string()),
            4 => {
                let b = Box::new(s);
                *b
            }
            5 => match s {
                CowStr::Boxed(b) => CowStr::Boxed(b),
                o => CowStr::Boxed(o.into_string().into_boxed_str()),
            },
            _ => match InlineStr::try_from(&*s) {
                Ok(i) => CowStr::Inlined(i),
                Err(_) => s,
            },
        };
        ctx.count("conversions");
        form(ctx, &s);
        if !ctx.check("the text after a conversion", *s == *t && s.as_ref() == t && s.to_string() == t && format!("{s:#?}") == format!("{t:?}"), || format!("{t:?} became {s:?} by {path}")) {
            return;
        }
    }
    let h = hash(t.as_str());
    let all: Vec<CowStr<'_>> = (0..7).map(make).collect();
    for a in &all {
        ctx.check("equality across forms", *a == s && s == *a, || format!("{a:?} and {s:?}"));
        ctx.check("the hash of a form", hash(a) == h, || format!("{a:?}"));
    }
    let mut set: HashSet<CowStr<'_>> = all.into_iter().collect();
    ctx.check("equal texts in a set", set.len() == 1, || format!("{set:?}"));
    ctx.count("lookups");
    ctx.check("a text in a set", set.contains(t.as_str()) && !set.contains(format!("{t}x").as_str()), || t.clone());
    set.insert(CowStr::from(format!("{t}y")));
    ctx.check("different texts in a set", set.len() == 2, || format!("{set:?}"));
    let mut m: HashMap<CowStr<'_>, u8> = HashMap::new();
    m.insert(s.clone(), 1);
    m.insert(s, 2);
    ctx.check("a text as a key", m.get(t.as_str()) == Some(&2) && m.len() == 1, || t.clone());
    if t.len() >= 20 {
        ctx.distinct(&format!("{t}{path}"));
        ctx.sample(&format!("{t} {path}"));
    }
}
