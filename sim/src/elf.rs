//! Function symbols of this executable, to name the edges that were reached.
pub struct Syms {
    v: Vec<(u64, u64, String)>,
}
fn u(b: &[u8], at: usize, n: usize) -> u64 {
    let mut x = 0u64;
    for i in (0..n).rev() {
        x = x << 8 | u64::from(*b.get(at + i).unwrap_or(&0));
    }
    x
}
impl Syms {
    pub fn load() -> Syms {
        let mut out = Syms { v: vec![] };
        let Ok(b) = std::fs::read("/proc/self/exe") else { return out };
        // position dependent executables need no relocation; for others find where we were loaded
        let mut base = 0u64;
        if u(&b, 16, 2) == 3 {
            if let Ok(m) = std::fs::read_to_string("/proc/self/maps") {
                if let Some(a) = m.lines().next().and_then(|l| l.split('-').next()) {
                    base = u64::from_str_radix(a, 16).unwrap_or(0);
                }
            }
        }
        let (shoff, shentsize, shnum) = (u(&b, 0x28, 8) as usize, u(&b, 0x3a, 2) as usize, u(&b, 0x3c, 2) as usize);
        for i in 0..shnum {
            let sh = shoff + i * shentsize;
            if u(&b, sh + 4, 4) != 2 {
                continue;
            }
            let (off, size, link) = (u(&b, sh + 0x18, 8) as usize, u(&b, sh + 0x20, 8) as usize, u(&b, sh + 0x28, 4) as usize);
            let stroff = u(&b, shoff + link * shentsize + 0x18, 8) as usize;
            for k in 0..size / 24 {
                let e = off + k * 24;
                if b[e + 4] & 15 != 2 {
                    continue;
                }
                let n = stroff + u(&b, e, 4) as usize;
                let end = b[n..].iter().position(|c| *c == 0).map_or(n, |p| n + p);
                out.v.push((base + u(&b, e + 8, 8), u(&b, e + 16, 8), String::from_utf8_lossy(&b[n..end]).into_owned()));
            }
        }
        out.v.sort_unstable();
        out
    }
    pub fn at(&self, pc: u64) -> &str {
        let i = self.v.partition_point(|s| s.0 <= pc);
        if i == 0 {
            return "";
        }
        let s = &self.v[i - 1];
        if pc < s.0 + s.1.max(1) {
            &s.2
        } else {
            ""
        }
    }
}
pub fn hot(name: &str) -> bool {
    ["4sync6atomic", "5mutex", "5Mutex", "6rwlock", "6RwLock", "9once_lock", "9lazy_lock", "4cell", "8LocalKey", "7condvar", "4mpsc"].iter().any(|p| name.contains(p))
}
pub const LIBS: [&str; 6] = ["10qlab_error", "9qlab_math", "9qlab_time", "18qlab_termstructure", "15qlab_instrument", "8calendar"];
/// code of the library itself (not of the harness, not of the standard library unless instantiated for a library type's own method)
pub fn library(name: &str) -> Option<usize> {
    if name.contains("4qsim") && !name.starts_with("_RNvX") && !name.starts_with("_RNvM") {
        // generic library code instantiated for simulated plug-ins still counts
        let p = LIBS.iter().position(|l| name.contains(l));
        let q = name.find("4qsim").unwrap_or(0);
        return p.filter(|i| name.find(LIBS[*i]).unwrap_or(usize::MAX) < q);
    }
    let mut best: Option<(usize, usize)> = None;
    for (i, l) in LIBS.iter().enumerate() {
        if let Some(at) = name.find(l) {
            if best.is_none_or(|b| at < b.0) {
                best = Some((at, i));
            }
        }
    }
    best.map(|b| b.1)
}
