//! Values the surroundings may hold: a fixed list, and the short string literals of the code under
//! test (a variable or a file matters to it most when it holds a value it looks for).
const FIXED: &[&str] = &["1", "0", "true", "", "UTC", "Pacific/Kiritimati", "<-12>12", "2", "off", "C.UTF-8", "EST5EDT", "1000000", "main", "ja_JP.UTF-8", "-1", "false", "3", "365"];
static mut WORDS: (Vec<String>, Vec<String>) = (vec![], vec![]);

fn literals(s: &str, out: &mut Vec<String>) {
    let mut rest = s;
    while let Some(a) = rest.find('"') {
        let t = &rest[a + 1..];
        let Some(b) = t.find('"') else { break };
        let v = &t[..b];
        if v.len() <= 40 && !v.contains(['{', '\\', '\n', '\0']) {
            for x in [v, v.trim_end_matches('='), v.rsplit('=').next().unwrap_or("")] {
                out.push(x.to_string());
            }
        }
        rest = &t[b + 1..];
    }
}
fn walk(d: &std::path::Path, near: &mut Vec<String>, far: &mut Vec<String>) {
    let Ok(it) = std::fs::read_dir(d) else { return };
    let mut fs: Vec<_> = it.flatten().map(|e| e.path()).collect();
    fs.sort();
    for f in fs {
        if f.is_dir() {
            let n = f.file_name().map_or(String::new(), |x| x.to_string_lossy().to_string());
            if n != "target" && n != "tests" && !n.starts_with('.') {
                walk(&f, near, far);
            }
        } else if f.extension().is_some_and(|e| e == "rs") {
            let Ok(s) = std::fs::read_to_string(&f) else { continue };
            for l in s.lines().filter(|l| l.contains('"') && !l.trim_start().starts_with("//")) {
                let outside = ["std::env", "env::var", "std::fs", "File::", "read_to_string", "thread", "process"].iter().any(|w| s.contains(w));
                literals(l, if outside { &mut *near } else { &mut *far });
            }
        }
    }
}
pub fn init() {
    let (mut near, mut far) = (vec![], vec![]);
    for d in ["/repo/crates", "/repo/third-parties"] {
        walk(std::path::Path::new(d), &mut near, &mut far);
    }
    for v in [&mut near, &mut far] {
        v.sort();
        v.dedup();
        v.retain(|x| !x.is_empty());
    }
    unsafe { WORDS = (near, far) };
}
/// The value chosen by `h`; None: there is none.
pub fn value(h: u64) -> Option<String> {
    let (near, far) = unsafe { &*(&raw const WORDS) };
    let k = (h / 16) as usize;
    Some(match h % 16 {
        0 => return None,
        1..=7 if !near.is_empty() => near[k % near.len()].clone(),
        8 if !far.is_empty() => far[k % far.len()].clone(),
        9 => (k % 100).to_string(),
        _ => FIXED[k % FIXED.len()].to_string(),
    })
}
