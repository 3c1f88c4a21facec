//! A small JSON reader.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    /// Members in order, repeated ones included.
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = value(&c, &mut i)?;
    ws(&c, &mut i);
    if i < c.len() { Err(format!("text after the value, at {i}")) } else { Ok(v) }
}

fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && matches!(c[*i], ' ' | '\n' | '\t' | '\r') {
        *i += 1;
    }
}

fn expect(c: &[char], i: &mut usize, x: char) -> Result<(), String> {
    if c.get(*i) == Some(&x) {
        *i += 1;
        Ok(())
    } else {
        Err(format!("{x:?} expected at {i}, found {:?}", c.get(*i)))
    }
}

fn value(c: &[char], i: &mut usize) -> Result<J, String> {
    ws(c, i);
    match c.get(*i) {
        Some('{') => {
            *i += 1;
            let mut v = vec![];
            ws(c, i);
            if c.get(*i) == Some(&'}') {
                *i += 1;
                return Ok(J::Obj(v));
            }
            loop {
                ws(c, i);
                let k = string(c, i)?;
                ws(c, i);
                expect(c, i, ':')?;
                v.push((k, value(c, i)?));
                ws(c, i);
                if c.get(*i) == Some(&',') {
                    *i += 1;
                } else {
                    expect(c, i, '}')?;
                    return Ok(J::Obj(v));
                }
            }
        }
        Some('[') => {
            *i += 1;
            let mut v = vec![];
            ws(c, i);
            if c.get(*i) == Some(&']') {
                *i += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(value(c, i)?);
                ws(c, i);
                if c.get(*i) == Some(&',') {
                    *i += 1;
                } else {
                    expect(c, i, ']')?;
                    return Ok(J::Arr(v));
                }
            }
        }
        Some('"') => string(c, i).map(J::Str),
        Some(x) if x.is_ascii_digit() || *x == '-' => {
            let s = *i;
            while *i < c.len() && matches!(c[*i], '0'..='9' | '-' | '+' | '.' | 'e' | 'E') {
                *i += 1;
            }
            let t: String = c[s..*i].iter().collect();
            t.parse().map(J::Num).map_err(|e| format!("{t:?}: {e}"))
        }
        _ => {
            for (w, v) in [("null", J::Null), ("true", J::Bool(true)), ("false", J::Bool(false))] {
                if c[*i..].iter().take(w.len()).collect::<String>() == w {
                    *i += w.len();
                    return Ok(v);
                }
            }
            Err(format!("a value expected at {i}, found {:?}", c.get(*i)))
        }
    }
}

fn string(c: &[char], i: &mut usize) -> Result<String, String> {
    expect(c, i, '"')?;
    let mut s = String::new();
    loop {
        match c.get(*i) {
            Some('"') => {
                *i += 1;
                return Ok(s);
            }
            Some('\\') => {
                *i += 2;
                match c.get(*i - 1) {
                    Some('n') => s.push('\n'),
                    Some('t') => s.push('\t'),
                    Some('r') => s.push('\r'),
                    Some('u') => {
                        let h: String = c.iter().skip(*i).take(4).collect();
                        *i += 4;
                        s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('\u{fffd}'));
                    }
                    Some(x @ ('"' | '\\' | '/')) => s.push(*x),
                    x => return Err(format!("escape {x:?} at {i}")),
                }
            }
            Some(x) if (*x as u32) < 32 => return Err(format!("control character in a string at {i}")),
            Some(x) => {
                s.push(*x);
                *i += 1;
            }
            None => return Err("a string without an end".into()),
        }
    }
}
