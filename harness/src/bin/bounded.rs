//! Driver for the bounded integers: C01 (values), C02 (iteration) and their
//! part of C27 (size hints).

use harness::*;
use sqrid::boundedint::*;
use std::convert::TryFrom;
use std::fmt::Debug;

/// What the driver needs from an integer type; implemented for the builtin
/// integers and for the bounded ones by macros, so that each method goes
/// through the public interface of that type.
trait Cell: BoundedInt + Debug {
    type Raw: ToBig + Copy + PartialEq + Debug;
    const NAME: &'static str;
    const BOUNDED: bool;
    fn limits() -> (Big, Big);
    fn raw(self) -> Self::Raw;
    fn of(raw: Self::Raw) -> Self;
    fn fit(b: Big) -> Option<Self::Raw>;
    fn create(raw: Self::Raw) -> Result<Self, String>;
    fn unwrap_(raw: Self::Raw) -> Self;
    fn raw_limits() -> (Big, Big);
    /// Other ways to get the value out
    fn readings(self) -> Vec<Big>;
    fn frombool(b: bool) -> Self {
        b.into()
    }
}

macro_rules! cell_builtin {
    ($($t:ty),*) => { $(impl Cell for $t {
        type Raw = $t;
        const NAME: &'static str = stringify!($t);
        const BOUNDED: bool = false;
        fn limits() -> (Big, Big) { (<$t>::MIN.big(), <$t>::MAX.big()) }
        fn raw_limits() -> (Big, Big) { Self::limits() }
        fn raw(self) -> $t { self }
        fn of(raw: $t) -> Self { raw }
        fn fit(b: Big) -> Option<$t> { Fit::fit(b) }
        fn create(raw: $t) -> Result<Self, String> { Ok(raw) }
        fn unwrap_(raw: $t) -> Self { raw }
        fn readings(self) -> Vec<Big> {
            vec![BoundedInt::into_inner(self).big(), (*BoundedInt::as_ref(&self)).big()]
        }
    })* };
}
cell_builtin!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! cell_bounded {
    ($($name:ident $t:ty),*) => { $(impl<const MIN: $t, const MAX: $t> Cell for $name<MIN, MAX> {
        type Raw = $t;
        const NAME: &'static str = stringify!($name);
        const BOUNDED: bool = true;
        fn limits() -> (Big, Big) { (MIN.big(), MAX.big()) }
        fn raw_limits() -> (Big, Big) { (<$t>::MIN.big(), <$t>::MAX.big()) }
        fn raw(self) -> $t { self.0 }
        fn of(raw: $t) -> Self { $name::<MIN, MAX>::new(raw).unwrap() }
        fn fit(b: Big) -> Option<$t> { Fit::fit(b) }
        fn create(raw: $t) -> Result<Self, String> {
            $name::<MIN, MAX>::new(raw).map_err(|e| format!("{:?}", e))
        }
        fn unwrap_(raw: $t) -> Self { $name::<MIN, MAX>::new_unwrap(raw) }
        fn readings(self) -> Vec<Big> {
            let shown = format!("{}", self);
            let debug = format!("{:?}", self);
            vec![
                $name::<MIN, MAX>::into_inner(self).big(),
                BoundedInt::into_inner(self).big(),
                (*BoundedInt::as_ref(&self)).big(),
                <$t>::from(self).big(),
                shown.parse::<$t>().expect("a displayed number").big(),
                debug.parse::<$t>().expect("a displayed number").big(),
                self.0.big(),
            ]
        }
    })* };
}
cell_bounded!(BoundedU8 u8, BoundedU16 u16, BoundedU32 u32, BoundedU64 u64, BoundedU128 u128,
    BoundedI8 i8, BoundedI16 i16, BoundedI32 i32, BoundedI64 i64, BoundedI128 i128,
    BoundedIsize isize);

/* Numbers of interest *********************************************************/

fn add(b: Big, d: i128) -> Option<Big> {
    // b + d without overflow
    let dneg = d < 0;
    let dm = d.unsigned_abs();
    if b.neg == dneg || b.mag == 0 {
        Some(Big { neg: dneg || (b.neg && b.mag > 0), mag: b.mag.checked_add(dm)? }.norm())
    } else if b.mag >= dm {
        Some(Big { neg: b.neg, mag: b.mag - dm }.norm())
    } else {
        Some(Big { neg: dneg, mag: dm - b.mag }.norm())
    }
}

/// b + sign * 2^bits
fn shift(b: Big, bits: u32, neg: bool) -> Option<Big> {
    let m = if bits == 128 { None } else { Some(1u128 << bits) };
    match m {
        Some(m) if m <= i128::MAX as u128 => add(b, if neg { -(m as i128) } else { m as i128 }),
        Some(m) if b.neg == neg || b.mag == 0 => {
            Some(Big { neg, mag: b.mag.checked_add(m)? })
        }
        Some(m) if b.mag >= m => Some(Big { neg: b.neg, mag: b.mag - m }.norm()),
        Some(m) => Some(Big { neg, mag: m - b.mag }.norm()),
        None => None,
    }
}

fn interesting<T: Cell>(rng: &mut Rng) -> Vec<Big> {
    let (lo, hi) = T::limits();
    let (rlo, rhi) = T::raw_limits();
    let mut v = Vec::new();
    for b in [lo, hi, rlo, rhi, 0u8.big(), u64::MAX.big(), i64::MAX.big(), i64::MIN.big(),
              u128::MAX.big(), i128::MAX.big(), i128::MIN.big(), u32::MAX.big(), i32::MIN.big(),
              u16::MAX.big(), i16::MIN.big(), u8::MAX.big(), i8::MIN.big()] {
        for d in -2..=2 {
            v.extend(add(b, d));
        }
    }
    // A few values of the range and their images modulo powers of two
    let mut inside = vec![lo, hi];
    for _ in 0..3 {
        if let Some(b) = random_in(lo, hi, rng) {
            inside.push(b);
        }
    }
    for b in inside {
        v.push(b);
        for bits in [7, 8, 15, 16, 31, 32, 63, 64, 126, 127] {
            v.extend(shift(b, bits, false));
            v.extend(shift(b, bits, true));
        }
        v.extend(Some(Big { neg: !b.neg, mag: b.mag }.norm()));
    }
    for _ in 0..8 {
        let sh = rng.below(128) as u32;
        v.push(Big { neg: rng.chance(1, 2), mag: rng.u128() >> sh }.norm());
    }
    v.sort_by_key(|b| (b.neg, b.mag));
    v.dedup();
    v
}

/// Random number in lo..=hi
fn random_in(lo: Big, hi: Big, rng: &mut Rng) -> Option<Big> {
    let span: u128 = match (lo.neg, hi.neg) {
        (false, false) => hi.mag - lo.mag,
        (true, true) => lo.mag - hi.mag,
        _ => lo.mag.checked_add(hi.mag)?,
    };
    let r = if span == u128::MAX { rng.u128() } else { rng.u128() % (span + 1) };
    if lo.neg {
        if r <= lo.mag {
            Some(Big { neg: true, mag: lo.mag - r }.norm())
        } else {
            Some(Big { neg: false, mag: r - lo.mag })
        }
    } else {
        Some(Big { neg: false, mag: lo.mag + r })
    }
}

fn values_inside<T: Cell>(rng: &mut Rng) -> Vec<Big> {
    let (lo, hi) = T::limits();
    let mut v = vec![];
    for d in 0..3 {
        v.extend(add(lo, d));
        v.extend(add(hi, -d));
    }
    for d in -2..=2 {
        v.extend(add(0u8.big(), d));
    }
    for _ in 0..4 {
        v.extend(random_in(lo, hi, rng));
    }
    v.retain(|b| T::fit(*b).is_some_and(|r| T::create(r).is_ok() && le(lo, *b) && le(*b, hi)));
    v.sort_by_key(|b| (b.neg, b.mag));
    v.dedup();
    v
}

fn le(a: Big, b: Big) -> bool {
    match (a.neg, b.neg) {
        (true, false) => true,
        (false, true) => false,
        (false, false) => a.mag <= b.mag,
        (true, true) => a.mag >= b.mag,
    }
}

/* C01: histories of a register ************************************************/

fn res<T: Cell>(r: Result<T, String>) -> String {
    match r {
        Ok(v) => format!("[\"ok\",{}]", bigj(v.raw())),
        Err(e) => format!("[\"err\",{}]", jstr(&e)),
    }
}
fn opt<T: Cell>(r: Option<T>) -> String {
    match r {
        Some(v) => format!("[\"some\",{}]", bigj(v.raw())),
        None => "[\"none\"]".to_string(),
    }
}

struct Walk<'a, T: Cell> {
    rec: &'a mut Rec,
    cur: T,
}

impl<T: Cell> Walk<'_, T> {
    fn note(&mut self, op: &str, via: &str, a: Option<Big>, r: String, new: Option<T>) {
        let mut f = vec![("op", jstr(op)), ("via", jstr(via))];
        if let Some(a) = a {
            f.push(("a", a.json()));
        }
        f.push(("r", r));
        self.rec.ev(&f);
        if let Some(v) = new {
            self.cur = v;
        }
    }
    /// Put a value in the register
    fn put(&mut self, b: Big) {
        let Some(raw) = T::fit(b) else { return };
        let x = T::create(raw);
        let new = x.as_ref().ok().copied();
        self.note("create", "new", Some(b), res(x), new);
    }
    fn create_from<S: Fit + ToBig>(&mut self, b: Big, name: &str)
    where
        T: TryFrom<S>,
        <T as TryFrom<S>>::Error: Debug,
    {
        let Some(s) = <S as Fit>::fit(b) else { return };
        let mut new = None;
        let r = guarded(|| match T::try_from(s) {
            Ok(v) => {
                new = Some(v);
                res::<T>(Ok(v))
            }
            Err(e) => {
                // Builtin types have their own error
                let name = if T::BOUNDED { format!("{:?}", e) } else { "OutOfBounds".into() };
                res::<T>(Err(name))
            }
        });
        self.note("create", name, Some(b), r, new);
    }
}

fn register<T>(rec: &mut Rec, heavy: bool)
where
    T: Cell
        + TryFrom<u8, Error: Debug>
        + TryFrom<u16, Error: Debug>
        + TryFrom<u32, Error: Debug>
        + TryFrom<u64, Error: Debug>
        + TryFrom<u128, Error: Debug>
        + TryFrom<usize, Error: Debug>
        + TryFrom<i8, Error: Debug>
        + TryFrom<i16, Error: Debug>
        + TryFrom<i32, Error: Debug>
        + TryFrom<i64, Error: Debug>
        + TryFrom<i128, Error: Debug>
        + TryFrom<isize, Error: Debug>,
{
    let (lo, hi) = T::limits();
    let params = [("ty", jstr(T::NAME)), ("lo", lo.json()), ("hi", hi.json())];
    let all = interesting::<T>(&mut rec.rng);
    let inside = values_inside::<T>(&mut rec.rng);
    let first = T::of(T::fit(lo).unwrap());

    // Constructors and conversions
    rec.begin("BoundedCell", &params);
    let mut w = Walk { rec, cur: first };
    let (min, max) = (T::MIN, T::MAX);
    w.note("bounds", "MIN/MAX", None,
           format!("[\"ok\",{},{}]", bigj(min.raw()), bigj(max.raw())), None);
    let d = T::default();
    w.note("default", "default", None, res(Ok(d)), Some(d));
    for b in &all {
        let b = *b;
        if let Some(raw) = T::fit(b) {
            let r = T::create(raw);
            if T::BOUNDED || r.is_ok() {
                w.note("create", "new", Some(b), res(r.clone()), r.ok());
            }
            let mut new = None;
            let r = guarded(|| {
                let v = T::unwrap_(raw);
                new = Some(v);
                res::<T>(Ok(v))
            });
            w.note("unwrap", "new_unwrap", Some(b), r, new);
        }
        w.create_from::<u8>(b, "u8");
        w.create_from::<u16>(b, "u16");
        w.create_from::<u32>(b, "u32");
        w.create_from::<u64>(b, "u64");
        w.create_from::<u128>(b, "u128");
        w.create_from::<usize>(b, "usize");
        w.create_from::<i8>(b, "i8");
        w.create_from::<i16>(b, "i16");
        w.create_from::<i32>(b, "i32");
        w.create_from::<i64>(b, "i64");
        w.create_from::<i128>(b, "i128");
        w.create_from::<isize>(b, "isize");
    }
    w.rec.end();

    // Arithmetic, on all pairs of the chosen values; each outcome stays in
    // the register for the operations that follow
    let chosen: Vec<Big> = if heavy { inside.clone() } else { inside.iter().copied().take(9).collect() };
    rec.begin("BoundedCell", &params);
    let mut w = Walk { rec, cur: first };
    for a in &chosen {
        for b in &chosen {
            let y = T::of(T::fit(*b).unwrap());
            for sub in [false, true] {
                w.put(*a);
                let x = w.cur;
                let mut new = None;
                let r = guarded(|| {
                    let v = if sub {
                        <T as BoundedInt>::checked_sub(x, y)
                    } else {
                        <T as BoundedInt>::checked_add(x, y)
                    };
                    new = v;
                    opt(v)
                });
                w.note(if sub { "sub" } else { "add" }, "checked", Some(*b), r, new);
            }
            w.put(*a);
            let x = w.cur;
            use std::cmp::Ordering::*;
            let c = match x.cmp(&y) {
                Less => -1,
                Equal => 0,
                Greater => 1,
            };
            w.note("cmp", "cmp", Some(*b), format!("[\"ok\",{}]", c), None);
            let c = match (x < y, x == y, x > y) {
                (true, false, false) => "-1",
                (false, true, false) => "0",
                (false, false, true) => "1",
                _ => "99",
            };
            w.note("cmp", "operators", Some(*b), format!("[\"ok\",{}]", c), None);
        }
    }
    for a in &inside {
        for dec in [false, true] {
            w.put(*a);
            for _ in 0..3 {
                let x = w.cur;
                let mut new = None;
                let r = guarded(|| {
                    let v = if dec { x.dec() } else { x.inc() };
                    new = v;
                    opt(v)
                });
                w.note(if dec { "dec" } else { "inc" }, "", None, r, new);
            }
        }
        w.put(*a);
        for b in w.cur.readings() {
            w.note("read", "", None, format!("[\"ok\",{}]", b.json()), None);
        }
        let x = w.cur;
        let r: Result<usize, _> = x.try_into();
        let r = match r {
            Ok(v) => format!("[\"ok\",{}]", bigj(v)),
            Err(_) => "[\"err\"]".to_string(),
        };
        w.note("toindex", "usize", None, r, None);
    }
    w.rec.end();

    // A random history
    rec.begin("BoundedCell", &params);
    let n = if rec.thorough { 400 } else { 60 };
    let mut w = Walk { rec, cur: first };
    for _ in 0..n {
        let x = w.cur;
        match w.rec.rng.below(6) {
            0 => {
                let b = *w.rec.rng.pick(&all);
                w.create_from::<i128>(b, "i128");
            }
            1 | 2 => {
                let b = *w.rec.rng.pick(&inside);
                let y = T::of(T::fit(b).unwrap());
                let r = guarded(|| opt(<T as BoundedInt>::checked_add(x, y)));
                let new = <T as BoundedInt>::checked_add(x, y);
                w.note("add", "checked", Some(b), r, new);
            }
            3 => {
                let b = *w.rec.rng.pick(&inside);
                let y = T::of(T::fit(b).unwrap());
                let new = <T as BoundedInt>::checked_sub(x, y);
                w.note("sub", "checked", Some(b), opt(new), new);
            }
            4 => w.note("inc", "", None, opt(x.inc()), x.inc()),
            _ => w.note("dec", "", None, opt(x.dec()), x.dec()),
        }
    }
    w.rec.end();

    // Booleans, in sessions of their own because of a known finding (of
    // which two instances are enough)
    for b in [false, true] {
        let b_in = le(lo, (b as u8).big()) && le((b as u8).big(), hi);
        if !b_in && (T::NAME, lo.mag, hi.mag) != ("BoundedU8", 5, 9) {
            continue;
        }
        rec.begin("BoundedCell", &params);
        let v = T::frombool(b);
        let mut w = Walk { rec, cur: first };
        w.rec.ev(&[
            ("op", jstr("frombool")),
            ("a", b.to_string()),
            ("r", format!("[\"ok\",{}]", bigj(v.raw()))),
        ]);
        w.cur = v;
        w.rec.end();
    }
}

/* C02: iteration ***************************************************************/

fn take<T: Cell>(r: Option<T>) -> String {
    match r {
        Some(v) => format!("[{}]", bigj(v.raw())),
        None => "[]".to_string(),
    }
}

/// Iterate from `start` to `end`, `pattern` choosing the end to take from
fn iterate<T: Cell>(rec: &mut Rec, start: T, end: T, whole: bool, mut pattern: impl FnMut(usize) -> bool, limit: usize) {
    rec.begin("DeIter", &[
        ("ty", jstr(T::NAME)),
        ("lo", bigj(start.raw())),
        ("hi", bigj(end.raw())),
        ("whole", whole.to_string()),
    ]);
    let mut it = if whole { T::iter() } else { BoundedIntIterator::new(start, end) };
    let mut nones = 0;
    for i in 0..limit {
        if rec.prop == "C27" {
            let hint = it.size_hint();
            rec.ev(&[("op", jstr("hint")), ("lo", bigj(hint.0)), ("hi", jarr(hint.1.map(bigj)))]);
        }
        let back = pattern(i);
        let mut none = false;
        let r = guarded(|| {
            let v = if back { it.next_back() } else { it.next() };
            none = v.is_none();
            take(v)
        });
        rec.ev(&[("op", jstr(if back { "back" } else { "front" })), ("r", r)]);
        if none {
            nones += 1;
            if nones == 4 {
                break;
            }
        }
    }
    rec.end();
}

fn ask_hint<T: Cell>(rec: &mut Rec, it: &BoundedIntIterator<T>) {
    if rec.prop == "C27" {
        let hint = it.size_hint();
        rec.ev(&[("op", jstr("hint")), ("lo", bigj(hint.0)), ("hi", jarr(hint.1.map(bigj)))]);
    }
}

/// Skips, and the whole rest at once.  Skipping may take a step for each value
/// that is skipped, hence the limit when there are many.
fn skips<T: Cell>(rec: &mut Rec, start: T, end: T, whole: bool, len: Option<usize>) {
    let params = [
        ("ty", jstr(T::NAME)),
        ("lo", bigj(start.raw())),
        ("hi", bigj(end.raw())),
        ("whole", whole.to_string()),
    ];
    let make = || if whole { T::iter() } else { BoundedIntIterator::new(start, end) };
    let far = len.unwrap_or(70_000).min(70_000);
    let some = |rng: &mut Rng| match rng.below(9) {
        0 | 1 => rng.below(4),
        2 => rng.below(far + 1),
        3 => *rng.pick(&[127, 128, 129, 255, 256, 257]),
        4 => *rng.pick(&[far, far.saturating_sub(1), far + 1]),
        5 if len.is_some() => *rng.pick(&[usize::MAX, 1 << 32, (1 << 32) + 1, 1 << 63, 65536, 65535]),
        6 if len.is_some() => far + rng.below(20),
        _ => rng.below(20),
    };
    for round in 0..if rec.thorough { 8 } else { 3 } {
        rec.begin("DeIter", &params);
        let mut it = make();
        ask_hint(rec, &it);
        let mut nones = 0;
        for i in 0..12 {
            let n = some(&mut rec.rng);
            let n = if round == 0 && i == 0 && far > 130 { 130 } else { n };
            let kind = rec.rng.below(6);
            let mut none = false;
            let r = guarded(|| {
                let v = match kind {
                    0 => it.next(),
                    1 => it.next_back(),
                    2 => it.nth_back(n),
                    3 => it.by_ref().skip(n).next(),
                    _ => it.nth(n),
                };
                none = v.is_none();
                take(v)
            });
            match kind {
                0 => rec.ev(&[("op", jstr("front")), ("r", r)]),
                1 => rec.ev(&[("op", jstr("back")), ("r", r)]),
                2 => rec.ev(&[("op", jstr("nthback")), ("n", bigj(n)), ("r", r)]),
                _ => rec.ev(&[("op", jstr("nth")), ("n", bigj(n)), ("r", r)]),
            }
            ask_hint(rec, &it);
            nones += none as u32;
            if nones == 3 {
                break;
            }
        }
        rec.end();
    }
    // In regular steps
    for step in [2usize, 3, 128, 256, 300] {
        if step > far + 1 {
            continue;
        }
        rec.begin("DeIter", &params);
        let mut it = make();
        let mut steps = it.by_ref().step_by(step);
        for i in 0..5 {
            let r = guarded(|| take(steps.next()));
            let n = if i == 0 { 0 } else { step - 1 };
            rec.ev(&[("op", jstr("nth")), ("n", bigj(n)), ("r", r)]);
        }
        ask_hint(rec, &it);
        rec.end();
    }
    // Everything at once
    if len.is_some_and(|n| n <= 300) {
        for how in 0..9 {
            rec.begin("DeIter", &params);
            let mut it = make();
            if how == 0 || rec.rng.chance(1, 2) {
                rec.ev(&[("op", jstr("front")), ("r", take(it.next()))]);
            }
            if rec.rng.chance(1, 2) {
                rec.ev(&[("op", jstr("back")), ("r", take(it.next_back()))]);
            }
            let many = |v: Vec<T>| jarr(v.iter().map(|x| bigj(x.raw())));
            let (op, r) = match how {
                0 => ("all", guarded(|| many(it.collect()))),
                1 => ("allback", guarded(|| many(it.rev().collect()))),
                2 => ("count", guarded(|| bigj(it.count()))),
                3 => ("last", guarded(|| take(it.last()))),
                4 => ("all", guarded(|| {
                    let mut v = vec![];
                    for x in it {
                        v.push(x);
                    }
                    many(v)
                })),
                5 => ("all", guarded(|| many(it.fold(vec![], |mut v, x| {
                    v.push(x);
                    v
                })))),
                6 => ("allback", guarded(|| many(it.rfold(vec![], |mut v, x| {
                    v.push(x);
                    v
                })))),
                7 => ("last", guarded(|| take(it.max()))),
                _ => ("all", guarded(|| many(it.by_ref().take(1000).collect()))),
            };
            rec.ev(&[("op", jstr(op)), ("via", how.to_string()), ("r", r)]);
            rec.end();
        }
    }
}

fn iterations<T: Cell>(rec: &mut Rec) {
    let (lo, hi) = T::limits();
    let of = |b: Big| T::of(T::fit(b).unwrap());
    // Whole type: from both extremes inwards (completely, if it is small)
    let span = add(hi, 0).and_then(|h| {
        if lo.neg != h.neg && lo.mag > 0 { lo.mag.checked_add(h.mag) } else { Some(lo.mag.abs_diff(h.mag)) }
    });
    let limit = match span {
        Some(s) if s <= 300 => s as usize + 8,
        _ => 20,
    };
    iterate::<T>(rec, of(lo), of(hi), true, |_| false, limit);
    iterate::<T>(rec, of(lo), of(hi), true, |_| true, limit);
    let mut bits = rec.rng.next();
    iterate::<T>(rec, of(lo), of(hi), true, |_| { bits = bits.rotate_left(1); bits & 1 == 1 }, limit);
    let len = span.filter(|s| *s < 70_000).map(|s| s as usize + 1);
    skips::<T>(rec, of(lo), of(hi), true, len);
    if let Some(s) = random_in(lo, hi, &mut rec.rng) {
        if let Some(e) = add(s, 150).filter(|e| le(*e, hi)) {
            skips::<T>(rec, of(s), of(e), false, Some(151));
        }
        skips::<T>(rec, of(s), of(s), false, Some(1));
    }
    // Small intervals in all places, with every interleaving of the ends
    let max_len = if rec.thorough { 6 } else { 4 };
    for place in 0..4 {
        for len in 0..max_len {
            let s = match place {
                0 => Some(lo),
                1 => add(hi, -(len as i128)),
                2 => add(0u8.big(), -(len as i128) / 2),
                _ => random_in(lo, hi, &mut rec.rng),
            };
            let Some(s) = s else { continue };
            let Some(e) = add(s, len as i128) else { continue };
            if !le(lo, s) || !le(e, hi) {
                continue;
            }
            let n = len + 1;
            for pat in 0..(1usize << n) {
                iterate::<T>(rec, of(s), of(e), false,
                             |i| if i < n { pat >> i & 1 == 1 } else { (pat + i) & 1 == 1 }, n + 4);
            }
        }
    }
    // A longer one
    let len = 40;
    if let Some(s) = random_in(lo, hi, &mut rec.rng) {
        if let Some(e) = add(s, len) {
            if le(e, hi) {
                let mut bits = rec.rng.next();
                iterate::<T>(rec, of(s), of(e), false, |_| { bits = bits.rotate_left(1); bits & 1 == 1 }, 50);
            }
        }
    }
}

macro_rules! for_types {
    ($f:ident, $rec:expr, $($t:ty),* $(,)?) => { $( $f::<$t>($rec); )* };
}
macro_rules! for_types_reg {
    ($rec:expr, $heavy:expr, $($t:ty),* $(,)?) => { $( register::<$t>($rec, $heavy); )* };
}

fn main() {
    let mut rec = Rec::from_args();
    let r = &mut rec;
    let prop = r.prop.clone();
    if prop == "C01" {
        for_types_reg!(r, true,
            u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize,
            BoundedU8<0, 255>, BoundedU8<0, 0>, BoundedU8<3, 17>, BoundedU8<200, 255>, BoundedU8<5, 9>, BoundedU8<0, 127>, BoundedU8<255, 255>,
            BoundedI8<-128, 127>, BoundedI8<-7, 6>, BoundedI8<-128, -100>, BoundedI8<100, 127>, BoundedI8<-1, 0>, BoundedI8<-5, 120>,
            BoundedU16<0, 65535>, BoundedU16<0, 9>, BoundedU16<250, 260>, BoundedU16<65530, 65535>, BoundedU16<0, 255>,
            BoundedI16<-32768, 32767>, BoundedI16<-300, 300>, BoundedI16<-3, 4>,  BoundedI16<32000, 32767>,
            BoundedU32<0, 4294967295>, BoundedU32<0, 70000>, BoundedU32<4294967290, 4294967295>, BoundedU32<1, 2>,
            BoundedI32<-2147483648, 2147483647>, BoundedI32<-10, 10>, BoundedI32<-70000, -60000>, BoundedI32<2147483640, 2147483647>,
            BoundedU64<0, 18446744073709551615>, BoundedU64<0, 4294967296>, BoundedU64<18446744073709551610, 18446744073709551615>, BoundedU64<7, 8>,
            BoundedI64<-9223372036854775808, 9223372036854775807>, BoundedI64<-5, 5>, BoundedI64<-9223372036854775808, -9223372036854775800>, BoundedI64<9223372036854775800, 9223372036854775807>,
            BoundedU128<0, 340282366920938463463374607431768211455>, BoundedU128<0, 5>, BoundedU128<18446744073709551610, 18446744073709551620>, BoundedU128<340282366920938463463374607431768211450, 340282366920938463463374607431768211455>,
            BoundedI128<-170141183460469231731687303715884105728, 170141183460469231731687303715884105727>, BoundedI128<-2, 3>, BoundedI128<-18446744073709551620, 18446744073709551620>,
            BoundedIsize<-9223372036854775808, 9223372036854775807>, BoundedIsize<-4, 8>, BoundedIsize<0, 1>, BoundedIsize<-20, -10>);
    }
    if prop == "C02" || prop == "C27" {
        for_types!(iterations, r,
            u8, u64, u128, usize, i8, i32, i128, isize,
            BoundedU8<0, 255>, BoundedU8<0, 0>, BoundedU8<3, 17>, BoundedU8<200, 255>, BoundedU8<255, 255>,
            BoundedI8<-128, 127>, BoundedI8<-7, 6>, BoundedI8<-128, -100>, BoundedI8<100, 127>,
            BoundedU16<0, 9>, BoundedU16<65530, 65535>, BoundedU16<0, 65535>,
            BoundedI16<-32768, 32767>, BoundedI16<-3, 4>);
        if prop == "C02" {
            for_types!(iterations, r, u16, u32, i16, i64,
            BoundedU32<0, 4294967295>, BoundedU32<4294967290, 4294967295>, BoundedU32<0, 1>,
            BoundedI32<-2147483648, 2147483647>, BoundedI32<-10, 10>,
            BoundedU64<18446744073709551610, 18446744073709551615>, BoundedU64<0, 18446744073709551615>,
            BoundedI64<-9223372036854775808, -9223372036854775800>, BoundedI64<-9223372036854775808, 9223372036854775807>,
            BoundedU128<340282366920938463463374607431768211450, 340282366920938463463374607431768211455>,
            BoundedU128<0, 340282366920938463463374607431768211455>,
            BoundedI128<-170141183460469231731687303715884105728, 170141183460469231731687303715884105727>,
            BoundedIsize<-9223372036854775808, 9223372036854775807>, BoundedIsize<-4, 8>);
        }
    }
    rec.finish();
}
