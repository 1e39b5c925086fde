//! The wrapped element types implement the library's `Complex` trait by hand.
//! Should the trait gain a required method, a delegating one is generated here.

use std::fs;
use std::path::{Path, PathBuf};

const KNOWN: &[&str] = &[
    "new", "newe", "usize_to_complex", "unit", "iunit", "re", "im", "norm", "norm_sq", "phase", "conj", "gen", "gen_he", "gen_xa",
    "gen_xagu", "gen_xagn", "gen_pred", "activate", "d_activate", "d_conj_activate", "activate_mut", "d_activate_mut",
    "d_conj_activate_mut", "loss", "d_loss",
];

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
    out.sort();
}

/// Source text without comments.
fn bare(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    while let Some(at) = rest.find("/*") {
        o.push_str(&rest[..at]);
        rest = rest[at..].split_once("*/").map_or("", |(_, r)| r);
    }
    o.push_str(rest);
    o.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n")
}

/// Splits at `sep` outside brackets.
fn split(s: &str, sep: char) -> Vec<String> {
    let (mut depth, mut cur, mut out, mut prev) = (0, String::new(), vec![], ' ');
    for c in s.chars() {
        match c {
            '(' | '[' | '<' | '{' => depth += 1,
            '>' if prev == '-' => {}
            ')' | ']' | '>' | '}' => depth -= 1,
            _ => {}
        }
        if c == sep && depth == 0 {
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
        prev = c;
    }
    out.push(cur);
    out.into_iter().map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect()
}

/// `fn name(args) -> ret` without a body, as a delegating method.
fn method(sig: &str) -> Option<(String, String)> {
    let at = sig.find("fn ")?;
    let rest = sig[at + 3..].trim();
    let open = rest.find('(')?;
    let name = rest[..open].trim().to_string();
    if name.contains('<') {
        return None;
    }
    let mut depth = 0;
    let close = rest.char_indices().skip(open).find(|(_, c)| {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            _ => {}
        }
        depth == 0
    })?.0;
    let ret = rest[close + 1..].split("where").next()?.trim().strip_prefix("->").unwrap_or("()").trim().to_string();
    let (mut args, mut call) = (vec![], vec![]);
    for (k, a) in split(&rest[open + 1..close], ',').into_iter().enumerate() {
        if a.split_whitespace().collect::<String>().trim_start_matches("&").trim_start_matches("mut") == "self" {
            args.push(a.clone());
            let ty = match a.split_whitespace().collect::<String>().as_str() {
                "&self" => "&Self",
                "&mutself" => "&mut Self",
                _ => "Self",
            };
            call.push(format!("conv::<{ty}, _>(self)"));
        } else {
            let (_, ty) = a.split_once(':')?;
            args.push(format!("a{k}: {}", ty.trim()));
            call.push(format!("conv::<{}, _>(a{k})", ty.trim()));
        }
    }
    let text = format!(
        "fn {name}({}) -> {ret} {{ point(Pt::Op); unsafe {{ conv::<_, {ret}>(<$t as Complex>::{name}({})) }} }}\n",
        args.join(", "),
        call.join(", ")
    );
    Some((name, text))
}

fn extra(repo: &Path) -> Option<String> {
    let mut files = vec![];
    sources(&repo.join("src"), &mut files);
    let text = files.iter().find_map(|f| {
        let t = bare(&fs::read_to_string(f).ok()?);
        let at = t.find("pub trait Complex")?;
        let next = t[at + 17..].chars().next()?;
        if next.is_alphanumeric() || next == '_' {
            return None;
        }
        Some(t[at..].to_string())
    })?;
    let open = text.find('{')?;
    let (mut depth, mut cur, mut out) = (0, String::new(), String::new());
    for c in text[open..].chars() {
        match c {
            '{' => {
                depth += 1;
                if depth == 2 {
                    cur.push('{');
                }
                continue;
            }
            '}' => {
                depth -= 1;
                if depth == 0 {
                    break;
                }
                if depth == 1 {
                    // a provided method
                    cur.clear();
                }
                continue;
            }
            ';' if depth == 1 => {
                if let Some((name, m)) = method(&cur) {
                    if !KNOWN.contains(&name.as_str()) {
                        out.push_str(&m);
                    }
                }
                cur.clear();
                continue;
            }
            _ => {}
        }
        if depth == 1 {
            cur.push(c);
        }
    }
    Some(out)
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let toml = fs::read_to_string("Cargo.toml").unwrap();
    let repo = toml.lines().find_map(|l| l.strip_prefix("renplex = { path = \"")?.split('"').next()).unwrap_or("/repo");
    println!("cargo:rerun-if-changed={repo}/src");
    let body = extra(Path::new(repo)).unwrap_or_default();
    let dst = Path::new(&std::env::var("OUT_DIR").unwrap()).join("extra.rs");
    fs::write(dst, format!("macro_rules! extra {{ ($t:ident) => {{\n{body}}} }}\n")).unwrap();
}
