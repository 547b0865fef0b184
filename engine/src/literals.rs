//! Numbers written in the sources under test, as fuzzers take a dictionary from a program: thresholds, block sizes and
//! special values are worth generating whatever they are.  Comments and test modules are left out.
use std::path::Path;
use std::sync::OnceLock;

pub struct Literals {
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
}

/// The files and directories named in VERIF_LITERALS, separated by colons.
pub fn literals() -> &'static Literals {
    static L: OnceLock<Literals> = OnceLock::new();
    L.get_or_init(|| {
        if let Ok(t) = std::env::var("VERIF_LITERALS_SCANNED") {
            return scanned(&t);
        }
        let mut text = String::new();
        for p in std::env::var("VERIF_LITERALS").unwrap_or_default().split(':').filter(|p| !p.is_empty()) {
            read(Path::new(p), &mut text);
        }
        scan(&text)
    })
}
/// What `literals` found, for processes too slow to look themselves (VERIF_LITERALS_SCANNED).
pub fn pass_on() -> String {
    let l = literals();
    let list = |v: Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    format!("{};{}", list(l.ints.clone()), list(l.floats.iter().map(|x| x.to_bits()).collect()))
}
fn scanned(t: &str) -> Literals {
    let list = |s: Option<&str>| s.unwrap_or("").split(',').filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<_>>();
    let mut p = t.split(';');
    let ints = list(p.next());
    Literals { ints, floats: list(p.next()).into_iter().map(f64::from_bits).collect() }
}
fn read(p: &Path, out: &mut String) {
    if p.is_dir() {
        let mut v: Vec<_> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        v.sort();
        for q in v {
            read(&q, out);
        }
    } else if p.extension().map_or(false, |e| e == "rs") {
        let t = std::fs::read_to_string(p).unwrap_or_default();
        for l in t.lines() {
            if l.trim_start().starts_with("#[cfg(test)]") {
                break;
            }
            let l = l.split("//").next().unwrap_or("");
            out.push_str(l);
            out.push('\n');
        }
    }
}
pub fn scan(t: &str) -> Literals {
    let b: Vec<char> = t.chars().collect();
    // tokens: numbers, and what stands between them
    let mut nums: Vec<(f64, Option<u64>, usize, usize)> = vec![];
    let mut i = 0;
    let word = |c: char| c.is_alphanumeric() || c == '_';
    while i < b.len() {
        if b[i] == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
        } else if b[i].is_ascii_digit() {
            let s = i;
            if b[i] == '0' && i + 1 < b.len() && "xob".contains(b[i + 1]) {
                let radix = match b[i + 1] { 'x' => 16, 'o' => 8, _ => 2 };
                i += 2;
                let mut v = Some(0u64);
                while i < b.len() && (b[i] == '_' || b[i].is_digit(radix)) {
                    if b[i] != '_' {
                        v = v.and_then(|v| v.checked_mul(radix as u64)).and_then(|v| v.checked_add(b[i].to_digit(radix).unwrap() as u64));
                    }
                    i += 1;
                }
                if let Some(v) = v {
                    nums.push((v as f64, Some(v), s, i));
                }
            } else {
                let mut w = String::new();
                let mut float = false;
                while i < b.len() && (b[i] == '_' || b[i].is_ascii_digit()) {
                    w.push(b[i]);
                    i += 1;
                }
                // a point that is not a range or a method
                if i < b.len() && b[i] == '.' && !(i + 1 < b.len() && (b[i + 1] == '.' || word(b[i + 1]) && !b[i + 1].is_ascii_digit())) {
                    float = true;
                    w.push('.');
                    i += 1;
                    while i < b.len() && (b[i] == '_' || b[i].is_ascii_digit()) {
                        w.push(b[i]);
                        i += 1;
                    }
                }
                if i < b.len() && (b[i] == 'e' || b[i] == 'E') {
                    let mut j = i + 1;
                    if j < b.len() && (b[j] == '-' || b[j] == '+') {
                        j += 1;
                    }
                    if j < b.len() && b[j].is_ascii_digit() {
                        float = true;
                        while j < b.len() && (b[j] == '_' || b[j].is_ascii_digit()) {
                            j += 1;
                        }
                        w.extend(&b[i..j]);
                        i = j;
                    }
                }
                let w = w.replace('_', "");
                if let Ok(v) = w.parse::<f64>() {
                    nums.push((v, if float { None } else { w.parse().ok() }, s, i));
                }
            }
            // the suffix
            while i < b.len() && word(b[i]) {
                i += 1;
            }
        } else if word(b[i]) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    let mut l = Literals { ints: vec![], floats: vec![] };
    for (v, n, _, _) in &nums {
        l.floats.push(*v);
        if let Some(n) = n {
            l.ints.push(*n);
        }
    }
    // 1 << 20, 64 * 1024
    for p in nums.windows(2) {
        if let (Some(x), Some(y)) = (p[0].1, p[1].1) {
            let between: String = b[p[0].3..p[1].2].iter().collect();
            let op: String = between.chars().filter(|c| !c.is_whitespace()).collect();
            let v = if op.ends_with("<<") && y < 64 { x.checked_shl(y as u32) } else if op.ends_with('*') { x.checked_mul(y) } else { None };
            if let Some(v) = v {
                l.ints.push(v);
                l.floats.push(v as f64);
            }
        }
    }
    l.ints.sort();
    l.ints.dedup();
    l.floats.retain(|v| v.is_finite());
    l.floats.sort_by(|a, b| a.partial_cmp(b).unwrap());
    l.floats.dedup();
    l
}

#[cfg(test)]
mod tests {
    #[test]
    fn scanning() {
        let l = super::scan("if x.0 > 1_000.5e-3f64 && n < 0x10 { v[7..9]; 1usize << 20; 64 * 1024; 2.max(3); \"5\" a6 }");
        assert_eq!(l.ints, [0, 1, 2, 3, 7, 9, 16, 20, 64, 1024, 65536, 1 << 20]);
        assert!(l.floats.contains(&1.0005));
    }
}
