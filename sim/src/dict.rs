//! Words and numbers that the library's source mentions: arguments, environments, files and sizes are
//! drawn from them now and then. They steer the search, they decide nothing.
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub nums: Vec<f64>,
    pub counts: Vec<u64>,
    /// larger ones, which only long histories come to
    pub big: Vec<u64>,
    pub words: Vec<String>,
}
static DICT: OnceLock<Dict> = OnceLock::new();
pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}
pub fn load(root: &Path) {
    let toml = std::fs::read_to_string(root.join("sim/ops/Cargo.toml")).unwrap_or_default();
    let Some(path) = toml.lines().find(|l| l.trim_start().starts_with("mazth")).and_then(|l| l.split('"').nth(1)) else { return };
    let mut files = vec![];
    for d in ["lib", "src"] {
        walk(&Path::new(path).join(d), &mut files);
    }
    files.sort();
    let mut d = Dict::default();
    for f in files {
        scan(&std::fs::read_to_string(f).unwrap_or_default(), &mut d);
    }
    d.nums.retain(|x| x.is_finite() && ![0.0, 1.0, 2.0, 3.0, 4.0, 0.5].contains(x));
    dedup(&mut d.nums);
    d.big = d.counts.iter().copied().filter(|&x| x > 4096 && x <= 4_000_000).collect();
    dedup(&mut d.big);
    d.counts.retain(|&x| x > 4 && x <= 4096);
    dedup(&mut d.counts);
    dedup(&mut d.words);
    d.nums.truncate(400);
    d.words.truncate(200);
    unsafe {
        for w in &d.words {
            mzrt::WORDS.push(format!("{w}\0").into_bytes());
            for s in [format!("{w}\n"), format!("{w}=1\n"), format!("{w} = 0.5\n"), format!("{w}: 1\n"), format!("{w} 2\n"), format!("[{w}]\n1\n")] {
                mzrt::TEXTS.push(s.into_bytes());
            }
        }
    }
    // settings: each word with each other one, together and alone
    let w: Vec<&String> = d.words.iter().take(24).collect();
    for sep in ["=", " = ", ": ", " "] {
        for rev in [false, true] {
            let mut all = vec![];
            for a in &w {
                for b in &w {
                    if a != b {
                        all.push(format!("{a}{sep}{b}\n"));
                    }
                }
            }
            if rev {
                all.reverse();
            }
            unsafe {
                if w.len() <= 8 && !rev {
                    mzrt::TEXTS.extend(all.iter().map(|s| s.clone().into_bytes()));
                }
                if !all.is_empty() {
                    mzrt::TEXTS.push(all.concat().into_bytes());
                }
            }
        }
    }
    for a in w.iter().take(8) {
        for b in w.iter().take(8) {
            if a != b {
                unsafe { mzrt::WORDS.push(format!("{a}={b}\0").into_bytes()) }
            }
        }
    }
    let _ = DICT.set(d);
}
fn dedup<T: PartialEq + Clone>(v: &mut Vec<T>) {
    let mut o: Vec<T> = vec![];
    for x in v.iter() {
        if !o.contains(x) {
            o.push(x.clone());
        }
    }
    *v = o;
}
fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            if !["test", "tests", "target"].contains(&p.file_name().and_then(|n| n.to_str()).unwrap_or("")) {
                walk(&p, out);
            }
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}
/// `1 << 20`, `64 * 1024`: the value, if the text goes on like that
fn goes_on(c: &[char], mut i: usize, n: u64) -> Option<u64> {
    while c.get(i) == Some(&' ') {
        i += 1;
    }
    let op = *c.get(i)?;
    i += match op {
        '*' => 1,
        '<' if c.get(i + 1) == Some(&'<') => 2,
        _ => return None,
    };
    while c.get(i) == Some(&' ') {
        i += 1;
    }
    let s: String = c[i..].iter().take_while(|c| c.is_ascii_digit() || **c == '_').filter(|c| **c != '_').collect();
    let m = s.parse::<u64>().ok()?;
    match op {
        '*' => n.checked_mul(m),
        _ if m < 40 => n.checked_shl(m as u32),
        _ => None,
    }
}
fn scan(t: &str, d: &mut Dict) {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            let mut depth = 1;
            i += 2;
            while i < c.len() && depth > 0 {
                if c[i] == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 1;
                } else if c[i] == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 1;
                }
                i += 1;
            }
        } else if x == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                }
                s.push(at(i));
                i += 1;
            }
            i += 1;
            let s = s.trim_end_matches('\0');
            if !s.is_empty() && s.len() <= 24 && s.chars().all(|c| c.is_ascii_graphic()) && !s.contains('{') {
                d.words.push(s.to_string());
            }
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' {
                i += 3;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else if at(i + 2) == '\'' {
                i += 3;
            } else {
                i += 1;
            }
        } else if x.is_ascii_alphabetic() || x == '_' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else if x.is_ascii_digit() {
            if x == '0' && at(i + 1) == 'x' {
                let mut s = String::new();
                i += 2;
                while c.get(i).map_or(false, |c| c.is_ascii_hexdigit() || *c == '_') {
                    if c[i] != '_' {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                if let Ok(n) = u64::from_str_radix(&s, 16) {
                    d.counts.push(n);
                    d.counts.push(n.saturating_add(1));
                }
                continue;
            }
            let mut s = String::new();
            let mut int = true;
            while c.get(i).map_or(false, |c| c.is_ascii_digit() || *c == '_') {
                if c[i] != '_' {
                    s.push(c[i]);
                }
                i += 1;
            }
            if at(i) == '.' && at(i + 1).is_ascii_digit() {
                int = false;
                s.push('.');
                i += 1;
                while at(i).is_ascii_digit() || at(i) == '_' {
                    if c[i] != '_' {
                        s.push(c[i]);
                    }
                    i += 1;
                }
            }
            if at(i) == 'e' && (at(i + 1).is_ascii_digit() || ((at(i + 1) == '-' || at(i + 1) == '+') && at(i + 2).is_ascii_digit())) {
                int = false;
                s.push('e');
                i += 1;
                while at(i).is_ascii_digit() || at(i) == '-' || at(i) == '+' {
                    s.push(c[i]);
                    i += 1;
                }
            }
            let mut suf = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                suf.push(c[i]);
                i += 1;
            }
            if int {
                if let Ok(n) = s.parse::<u64>() {
                    d.counts.push(n);
                    d.counts.push(n.saturating_add(1));
                    if let Some(m) = goes_on(&c, i, n) {
                        d.counts.push(m);
                        d.counts.push(m.saturating_add(1));
                    }
                }
            }
            if let Ok(f) = s.parse::<f64>() {
                if !int || suf.contains('f') || f > 16.0 {
                    d.nums.push(f);
                }
            }
        } else {
            i += 1;
        }
    }
}
