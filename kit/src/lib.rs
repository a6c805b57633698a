//! What every harness shares: choices, shrinking, crash slots, and a small driver.
pub mod chars;
pub mod choices;
#[cfg(feature = "log")]
pub mod logger;
pub mod mini;
use std::fmt::Write as _;

/// A place to note the case a thread is about to run, readable after the process has died.
#[derive(Clone, Copy)]
pub struct Slots(pub *mut u32, pub usize);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const SLOT: usize = 4096;
impl Slots {
    pub fn note(self, t: usize, g: u32, c: &[(u32, u32)]) {
        if self.0.is_null() {
            return;
        }
        unsafe {
            let p = self.0.add(t * SLOT);
            *p = 0;
            *p.add(1) = g;
            let n = c.len().min(SLOT - 4);
            for (i, x) in c.iter().take(n).enumerate() {
                *p.add(3 + i) = x.0;
            }
            *p.add(2) = n as u32;
            *p = 1;
        }
    }
    pub fn done(self, t: usize) {
        if !self.0.is_null() {
            unsafe { *self.0.add(t * SLOT) = 0 }
        }
    }
}

/// Shrinks a choice sequence while `bad` holds: shorter first, then smaller choices.
pub fn shrink(start: &[u32], budget: usize, mut bad: impl FnMut(&[u32]) -> bool) -> Vec<u32> {
    let mut best = start.to_vec();
    let mut left = budget;
    let mut try_it = |v: Vec<u32>, best: &mut Vec<u32>, left: &mut usize| -> bool {
        if *left == 0 || v == *best {
            return false;
        }
        *left -= 1;
        if bad(&v) {
            *best = v;
            return true;
        }
        false
    };
    loop {
        let before = best.clone();
        // drop chunks
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let a = i.saturating_sub(size);
                if i <= best.len() {
                    let mut v = best[..a].to_vec();
                    v.extend_from_slice(&best[i..]);
                    try_it(v, &mut best, &mut left);
                }
                i = a;
            }
            size /= 2;
        }
        // drop a chunk and lower the choice before it (a count)
        for i in 0..best.len() {
            for k in [1usize, 2, 3, 4, 5, 8] {
                if i + 1 + k <= best.len() && best[i] > 0 {
                    let mut v = best.clone();
                    v[i] -= 1;
                    v.drain(i + 1..i + 1 + k);
                    try_it(v, &mut best, &mut left);
                }
            }
        }
        // smaller choices
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut v = best.clone();
            v[i] = 0;
            if try_it(v, &mut best, &mut left) {
                continue;
            }
            let (mut lo, mut hi) = (0u32, best[i]);
            while lo + 1 < hi {
                let mid = lo + (hi - lo) / 2;
                let mut v = best.clone();
                v[i] = mid;
                if try_it(v, &mut best, &mut left) {
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
            if best[i] > 0 {
                let mut v = best.clone();
                v[i] -= 1;
                try_it(v, &mut best, &mut left);
            }
        }
        // trailing zeros are implied
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || left == 0 {
            return best;
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(", "))
}
pub fn nums(v: &[u32]) -> String {
    list(v, |x| x.to_string())
}
pub fn short(s: &str) -> String {
    if s.chars().count() <= 600 {
        s.to_owned()
    } else {
        format!("{}... ({} chars)", s.chars().take(560).collect::<String>(), s.chars().count())
    }
}
pub fn map_slots(file: &str, threads: usize) -> Slots {
    let bytes = threads * SLOT * 4;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(file).expect("slots file");
    f.set_len(bytes as u64).expect("slots file");
    use std::os::fd::AsRawFd;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED, "cannot map the slots file");
    Slots(p as *mut u32, threads)
}
