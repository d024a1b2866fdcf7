//! Shared machinery of the drivers: sessions are recorded as one JSON line
//! each, `{"k": kind, "p": params, "ev": [events]}`. A driver only records
//! what the library did; deciding whether that is right is the job of the
//! TLA+ specifications.

pub mod geom;
pub mod terrain;

use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

/* Random numbers (splitmix64) *************************************************/

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    /// True with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
}

/* Numbers of any width: [sign, [limbs in base 10000, least significant first]] */

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Big {
    pub neg: bool,
    pub mag: u128,
}

impl Big {
    pub fn json(&self) -> String {
        let mut limbs = Vec::new();
        let mut m = self.mag;
        while m > 0 {
            limbs.push((m % 10000).to_string());
            m /= 10000;
        }
        let sign = if self.mag == 0 {
            0
        } else if self.neg {
            -1
        } else {
            1
        };
        format!("[{},[{}]]", sign, limbs.join(","))
    }
}

pub trait ToBig {
    fn big(self) -> Big;
}
macro_rules! tobig_u {
    ($($t:ty),*) => { $(impl ToBig for $t {
        fn big(self) -> Big { Big { neg: false, mag: self as u128 } }
    })* };
}
macro_rules! tobig_i {
    ($($t:ty),*) => { $(impl ToBig for $t {
        fn big(self) -> Big { Big { neg: self < 0, mag: (self as i128).unsigned_abs() } }
    })* };
}
tobig_u!(u8, u16, u32, u64, u128, usize);
tobig_i!(i8, i16, i32, i64, i128, isize);

pub fn bigj<T: ToBig>(v: T) -> String {
    v.big().json()
}

/* JSON helpers ****************************************************************/

pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    r.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn jarr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

pub fn jints<T: std::fmt::Display, I: IntoIterator<Item = T>>(it: I) -> String {
    jarr(it.into_iter().map(|v| v.to_string()))
}

/// Outcome of a call that may panic, already converted to JSON
pub fn guarded<F: FnOnce() -> String>(f: F) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(_) => "[\"panic\"]".to_string(),
    }
}

/// Run something that may panic, `None` if it did
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn err_name<E: std::fmt::Debug>(e: E) -> String {
    format!("[\"err\",{}]", jstr(&format!("{:?}", e)))
}

/* Sources of values ***********************************************************/

/// An iterator whose size hints are right, but say little: `kind` chooses
/// them. `about` is what the receiver may expect. Items that come after the
/// end don't belong to the sequence.
pub struct Feed<T> {
    items: std::vec::IntoIter<T>,
    again: Option<T>,
    ended: bool,
    kind: usize,
    about: usize,
    slack: usize,
}
pub const FEEDS: usize = 8;
pub fn feed<T>(items: Vec<T>, kind: usize, about: usize) -> Feed<T> {
    let slack = about.saturating_sub(items.len());
    Feed { items: items.into_iter(), again: None, ended: false, kind, about, slack }
}
/// One that goes on after its end
pub fn feed_again<T: Clone>(items: Vec<T>, kind: usize, about: usize) -> Feed<T> {
    let again = items.last().cloned();
    Feed { again, ..feed(items, kind, about) }
}
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.items.next() {
            Some(t) => Some(t),
            None if self.ended => self.again.take(),
            None => {
                self.ended = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.kind % FEEDS {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n + self.slack)),
            3 => (n.min(self.about), None),
            4 => (0, Some(usize::MAX)),
            5 => (n, None),
            6 => (0, Some(n)),
            _ => (n / 2, Some(n + self.slack + 1)),
        }
    }
}

/* Recorder ********************************************************************/

static TICK: AtomicU64 = AtomicU64::new(0);

pub struct Rec {
    out: BufWriter<File>,
    cur: Option<String>,
    cur_path: String,
    flush: bool,
    kind: String,
    params: String,
    events: Vec<String>,
    pub sessions: usize,
    pub seed: u64,
    pub thorough: bool,
    pub prop: String,
    pub rng: Rng,
}

impl Rec {
    /// Command line: PROPERTY OUT; environment: VERIF_SEED, VERIF_TIER
    pub fn from_args() -> Rec {
        let args: Vec<String> = std::env::args().collect();
        if args.len() != 3 {
            eprintln!("usage: {} PROPERTY OUT", args[0]);
            std::process::exit(2);
        }
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough") == Ok(true);
        std::panic::set_hook(Box::new(|_| {}));
        // A session normally takes milliseconds; one that takes minutes hangs.
        std::thread::spawn(|| {
            let mut last = 0;
            let mut age = 0;
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let now = TICK.load(Ordering::Relaxed);
                age = if now == last { age + 1 } else { 0 };
                last = now;
                if age > 120 {
                    eprintln!("HANG");
                    std::process::exit(86);
                }
            }
        });
        Rec {
            out: BufWriter::new(File::create(&args[2]).expect("create the trace file")),
            cur: None,
            cur_path: format!("{}.cur", args[2]),
            flush: std::env::var("HARNESS_FLUSH").is_ok(),
            kind: String::new(),
            params: String::new(),
            events: Vec::new(),
            sessions: 0,
            seed,
            thorough,
            prop: args[1].clone(),
            rng: Rng::new(seed),
        }
    }

    /// Start a session
    pub fn begin(&mut self, kind: &str, params: &[(&str, String)]) {
        TICK.fetch_add(1, Ordering::Relaxed);
        self.kind = kind.to_string();
        self.params = obj(params);
        self.events.clear();
        if self.flush {
            let line = format!("{{\"k\":{},\"p\":{}}}\n", jstr(&self.kind), self.params);
            std::fs::write(&self.cur_path, &line).expect("write the .cur file");
            self.cur = Some(line);
        }
    }

    /// Announce what is about to be called, for the case it never returns
    pub fn about(&mut self, fields: &[(&str, String)]) {
        if self.flush {
            let cur = self.cur.as_mut().unwrap();
            cur.push_str("about ");
            cur.push_str(&obj(fields));
            cur.push('\n');
            std::fs::write(&self.cur_path, &*cur).expect("write the .cur file");
        }
    }

    /// Record an event
    pub fn ev(&mut self, fields: &[(&str, String)]) {
        let line = obj(fields);
        if self.flush {
            let cur = self.cur.as_mut().unwrap();
            cur.push_str(&line);
            cur.push('\n');
            std::fs::write(&self.cur_path, &*cur).expect("write the .cur file");
        }
        self.events.push(line);
    }

    pub fn len(&self) -> usize {
        self.events.len()
    }
    pub fn is_empty(&self) -> bool {
        self.events.is_empty()
    }

    /// End a session
    pub fn end(&mut self) {
        TICK.fetch_add(1, Ordering::Relaxed);
        let r = writeln!(
            self.out,
            "{{\"k\":{},\"p\":{},\"ev\":[{}]}}",
            jstr(&self.kind),
            self.params,
            self.events.join(",")
        );
        r.expect("write the trace");
        self.events.clear();
        self.sessions += 1;
    }

    pub fn finish(mut self) {
        self.out.flush().expect("flush the trace");
        let _ = std::fs::remove_file(&self.cur_path);
        println!("sessions={}", self.sessions);
    }
}

pub fn obj(fields: &[(&str, String)]) -> String {
    let v: Vec<String> = fields
        .iter()
        .map(|(k, v)| format!("{}:{}", jstr(k), v))
        .collect();
    format!("{{{}}}", v.join(","))
}

/* Conversions between numbers *************************************************/

pub trait Fit: Sized + Copy {
    /// The number as this type, if it is one
    fn fit(b: Big) -> Option<Self>;
}
macro_rules! fit_impl {
    ($($t:ty),*) => { $(impl Fit for $t {
        fn fit(b: Big) -> Option<Self> {
            if b.neg {
                if b.mag == 1u128 << 127 {
                    return <$t>::try_from(i128::MIN).ok();
                }
                let m = i128::try_from(b.mag).ok()?;
                <$t>::try_from(-m).ok()
            } else {
                <$t>::try_from(b.mag).ok()
            }
        }
    })* };
}
fit_impl!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl Big {
    pub fn norm(self) -> Big {
        Big { neg: self.neg && self.mag != 0, mag: self.mag }
    }
    /// self + d, if that is representable
    pub fn plus(self, d: i128) -> Option<Big> {
        let dneg = d < 0;
        let dm = d.unsigned_abs();
        if self.neg == dneg || self.mag == 0 {
            Some(Big { neg: dneg || (self.neg && self.mag > 0), mag: self.mag.checked_add(dm)? }.norm())
        } else if self.mag >= dm {
            Some(Big { neg: self.neg, mag: self.mag - dm }.norm())
        } else {
            Some(Big { neg: dneg, mag: dm - self.mag }.norm())
        }
    }
    pub fn le(self, o: Big) -> bool {
        match (self.neg, o.neg) {
            (true, false) => true,
            (false, true) => false,
            (false, false) => self.mag <= o.mag,
            (true, true) => self.mag >= o.mag,
        }
    }
    /// |self - o|, saturating
    pub fn dist(self, o: Big) -> u128 {
        if self.neg == o.neg {
            self.mag.abs_diff(o.mag)
        } else {
            self.mag.saturating_add(o.mag)
        }
    }
    /// Random number in lo..=hi
    pub fn random(lo: Big, hi: Big, rng: &mut Rng) -> Big {
        let span = lo.dist(hi);
        let r = if span == u128::MAX { rng.u128() } else { rng.u128() % (span + 1) };
        if !lo.neg {
            Big { neg: false, mag: lo.mag + r }
        } else if r <= lo.mag {
            Big { neg: true, mag: lo.mag - r }.norm()
        } else {
            Big { neg: false, mag: r - lo.mag }
        }
    }
}

pub fn small(n: i128) -> Big {
    n.big()
}
