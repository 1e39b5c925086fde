//! Just enough JSON for replay and evidence files.

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}

fn quote(x: &str) -> String {
    let mut o = String::from("\"");
    for ch in x.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl J {
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 0);
        o.push('\n');
        o
    }
    fn write(&self, o: &mut String, d: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(&b.to_string()),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Num(f) => o.push_str(&if f.is_finite() { format!("{f:.3}") } else { "null".into() }),
            J::Str(x) => o.push_str(&quote(x)),
            J::Arr(v) if v.iter().all(|x| matches!(x, J::Int(_))) => {
                let t: Vec<String> = v.iter().map(|x| if let J::Int(i) = x { i.to_string() } else { String::new() }).collect();
                o.push_str(&format!("[{}]", t.join(",")));
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    o.push_str(if i == 0 { "\n" } else { ",\n" });
                    o.push_str(&" ".repeat(d + 1));
                    x.write(o, d + 1);
                }
                o.push_str(&format!("\n{}]", " ".repeat(d)));
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    o.push_str(if i == 0 { "\n" } else { ",\n" });
                    o.push_str(&" ".repeat(d + 1));
                    o.push_str(&format!("{}: ", quote(k)));
                    x.write(o, d + 1);
                }
                o.push_str(&format!("\n{}}}", " ".repeat(d)));
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x),
            _ => None,
        }
    }
    pub fn str(&self) -> String {
        match self {
            J::Str(x) => x.clone(),
            _ => String::new(),
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            _ => 0,
        }
    }
    pub fn arr(&self) -> Vec<J> {
        match self {
            J::Arr(v) => v.clone(),
            _ => vec![],
        }
    }
}

pub fn parse(t: &str) -> Option<J> {
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    value(&b, &mut i)
}

fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}

fn value(b: &[char], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    '}' => {
                        *i += 1;
                        return Some(J::Obj(v));
                    }
                    ',' => *i += 1,
                    _ => {
                        let k = value(b, i)?.str();
                        ws(b, i);
                        if *b.get(*i)? != ':' {
                            return None;
                        }
                        *i += 1;
                        v.push((k, value(b, i)?));
                    }
                }
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    ']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    }
                    ',' => *i += 1,
                    _ => v.push(value(b, i)?),
                }
            }
        }
        '"' => {
            *i += 1;
            let mut o = String::new();
            loop {
                let ch = *b.get(*i)?;
                *i += 1;
                match ch {
                    '"' => return Some(J::Str(o)),
                    '\\' => {
                        let e = *b.get(*i)?;
                        *i += 1;
                        match e {
                            'n' => o.push('\n'),
                            'u' => {
                                let h: String = b.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            x => o.push(x),
                        }
                    }
                    x => o.push(x),
                }
            }
        }
        't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && "+-0123456789.eE".contains(b[*i]) {
                *i += 1;
            }
            let t: String = b[st..*i].iter().collect();
            if let Ok(n) = t.parse::<i128>() {
                Some(J::Int(n))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
