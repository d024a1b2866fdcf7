//! Driver for directions: C08 (turning, enumeration), C09 (conversions).

use harness::geom::*;
use harness::*;
use sqrid::*;
use std::str::FromStr;

fn codes(s: &str) -> String {
    jints(s.chars().map(|c| c as u32))
}
fn dj(d: Dir) -> String {
    dnum(d).to_string()
}
fn dopt(d: Option<Dir>) -> String {
    jarr(d.map(dj))
}
fn dres(r: Result<Dir, Error>) -> String {
    match r {
        Ok(d) => format!("[\"ok\",{}]", dnum(d)),
        Err(e) => err_name(e),
    }
}

struct S<'a> {
    rec: &'a mut Rec,
}
impl S<'_> {
    fn ev(&mut self, op: &str, via: &str, args: &[(&str, String)]) {
        let mut f = vec![("op", jstr(op)), ("via", jstr(via))];
        f.extend(args.iter().cloned());
        self.rec.ev(&f);
    }
    fn face(&mut self, d: Dir) {
        self.ev("face", "", &[("d", dj(d))]);
    }
}

fn turning(rec: &mut Rec) {
    rec.begin("Compass", &[]);
    let mut s = S { rec };
    s.ev("default", "", &[("r", dj(Dir::default()))]);
    s.ev("enumerate", "ALL8", &[("diag", "true".into()), ("r", jarr(Dir::ALL8.iter().map(|d| dj(*d))))]);
    s.ev("enumerate", "ALL4", &[("diag", "false".into()), ("r", jarr(Dir::ALL4.iter().map(|d| dj(*d))))]);
    s.ev("enumerate", "iter", &[("diag", "true".into()), ("r", jarr(Dir::iter::<true>().map(dj)))]);
    s.ev("enumerate", "iter", &[("diag", "false".into()), ("r", jarr(Dir::iter::<false>().map(dj)))]);
    s.ev("enumerate", "DirIter", &[("diag", "true".into()), ("r", jarr(DirIter::<true>::default().map(dj)))]);
    s.ev("enumerate", "DirIter", &[("diag", "false".into()), ("r", jarr(DirIter::<false>::default().map(dj)))]);
    // After the end
    let mut it = Dir::iter::<true>();
    let mut v = vec![];
    for _ in 0..12 {
        v.extend(it.next().map(dj));
    }
    s.ev("enumerate", "iter and further", &[("diag", "true".into()), ("r", jarr(v))]);
    let mut it = Dir::iter::<false>();
    let mut v = vec![];
    for _ in 0..12 {
        v.extend(it.next().map(dj));
    }
    s.ev("enumerate", "iter and further", &[("diag", "false".into()), ("r", jarr(v))]);
    for d in dirs() {
        s.face(d);
        s.ev("diagonal", "", &[("r", d.is_diagonal().to_string())]);
        s.ev("flip", "flip", &[("r", dj(d.flip()))]);
        s.face(d);
        s.ev("flip", "neg", &[("r", dj(-d))]);
        for diag in [true, false] {
            s.face(d);
            let r = guarded(|| dopt(if diag { d.next::<true>() } else { d.next::<false>() }));
            s.ev("next", "", &[("diag", diag.to_string()), ("r", r)]);
        }
        for e in dirs() {
            s.face(d);
            s.ev("rotate", "rotate", &[("d", dj(e)), ("r", dj(d.rotate(&e)))]);
            s.face(d);
            s.ev("rotate", "+", &[("d", dj(e)), ("r", dj(d + e))]);
            s.face(d);
            let mut f = d;
            f += e;
            s.ev("rotate", "+=", &[("d", dj(e)), ("r", dj(f))]);
            s.ev("rotate", "back", &[("d", dj(-e + Dir::S)), ("r", dj(f + (-e + Dir::S)))]);
        }
        // Vectors of opposites
        s.face(d);
        let v: (i32, i32) = d.into();
        s.ev("vector", "i32", &[("r", format!("[{},{}]", bigj(v.0), bigj(v.1)))]);
        s.ev("flip", "neg", &[("r", dj(-d))]);
        s.ev("vector", "of negative", &[("r", format!("[{},{}]", bigj(-v.0), bigj(-v.1)))]);
    }
    // Random histories
    s.face(Dir::N);
    let mut cur = Dir::N;
    for _ in 0..if s.rec.thorough { 2000 } else { 200 } {
        let d = dirs()[s.rec.rng.below(8)];
        match s.rec.rng.below(4) {
            0 => {
                cur = -cur;
                s.ev("flip", "neg", &[("r", dj(cur))]);
            }
            1 => {
                let n = cur.next::<true>();
                s.ev("next", "", &[("diag", "true".into()), ("r", dopt(n))]);
                cur = n.unwrap_or(cur);
            }
            2 => {
                cur += d;
                s.ev("rotate", "+=", &[("d", dj(d)), ("r", dj(cur))]);
            }
            _ => {
                cur = cur.rotate(&d);
                s.ev("rotate", "rotate", &[("d", dj(d)), ("r", dj(cur))]);
            }
        }
    }
    s.rec.end();
}

/// Enumerations, by all the methods of iterators
fn enumerations<const D: bool>(rec: &mut Rec) {
    rec.begin("Compass", &[("diag", D.to_string())]);
    let mut s = S { rec };
    let start = |s: &mut S, i: usize| {
        s.ev("start", "", &[("diag", D.to_string())]);
        if i % 2 == 0 { Dir::iter::<D>() } else { DirIter::<D>::default() }
    };
    let take = |s: &mut S, it: &mut DirIter<D>| {
        let r = guarded(|| dopt(it.next()));
        s.ev("take", "next", &[("r", r)]);
    };
    let far = [usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1, 1 << 16, 1 << 8, 255, 257, 1 << 63];
    // Skip as many after as many, then go on
    for k in 0..10 {
        for n in (0..20).chain(far) {
            let mut it = start(&mut s, k + n % 3);
            for _ in 0..k {
                take(&mut s, &mut it);
            }
            let r = guarded(|| dopt(match n % 2 {
                0 => it.nth(n),
                _ => it.by_ref().skip(n).next(),
            }));
            // The numbers of the specification are small; so are the enumerations
            s.ev("nth", "", &[("n", n.min(1000).to_string()), ("r", r)]);
            take(&mut s, &mut it);
            take(&mut s, &mut it);
        }
        for step in 1..10 {
            let mut it = start(&mut s, k + step);
            for _ in 0..k {
                take(&mut s, &mut it);
            }
            let mut steps = it.by_ref().step_by(step);
            for i in 0..4 {
                let r = guarded(|| dopt(steps.next()));
                let n = if i == 0 { 0 } else { step - 1 };
                s.ev("nth", "step_by", &[("n", n.to_string()), ("r", r)]);
            }
            take(&mut s, &mut it);
        }
        for how in 0..10 {
            let mut it = start(&mut s, k + how);
            for _ in 0..k {
                take(&mut s, &mut it);
            }
            let many = |v: Vec<Dir>| jarr(v.into_iter().map(dj));
            let (op, r) = match how {
                0 => ("all", guarded(|| many(it.collect()))),
                1 => ("count", guarded(|| it.count().to_string())),
                2 => ("last", guarded(|| dopt(it.last()))),
                3 => ("last", guarded(|| dopt(it.max_by_key(|d| dnum(*d))))),
                4 => ("all", guarded(|| many(it.fold(vec![], |mut v, d| {
                    v.push(d);
                    v
                })))),
                5 => ("all", guarded(|| {
                    let mut v = vec![];
                    it.for_each(|d| v.push(d));
                    many(v)
                })),
                6 => ("all", guarded(|| {
                    let mut v = vec![];
                    for d in it {
                        v.push(d);
                    }
                    many(v)
                })),
                7 => ("all", guarded(|| many(it.by_ref().take(20).collect()))),
                8 => ("all", guarded(|| many(it.zip(0..).map(|(d, _)| d).collect()))),
                _ => ("all", guarded(|| many(it.chain(None).collect()))),
            };
            s.ev(op, &how.to_string(), &[("r", r)]);
        }
    }
    // Copies are on their own
    for i in 0..if s.rec.thorough { 400 } else { 40 } {
        let mut it = start(&mut s, i);
        let mut saved: Option<DirIter<D>> = None;
        for _ in 0..14 {
            match s.rec.rng.below(6) {
                0 => {
                    #[allow(clippy::clone_on_copy)]
                    let copy = if i % 2 == 0 { it } else { it.clone() };
                    saved = Some(copy);
                    s.ev("save", "", &[]);
                }
                1 => {
                    if let Some(other) = &mut saved {
                        std::mem::swap(other, &mut it);
                        s.ev("swap", "", &[]);
                    }
                }
                2 => {
                    let n = s.rec.rng.below(4);
                    let r = guarded(|| dopt(it.nth(n)));
                    s.ev("nth", "", &[("n", n.to_string()), ("r", r)]);
                }
                _ => take(&mut s, &mut it),
            }
        }
    }
    s.rec.end();
}

macro_rules! vectors {
    ($rec:expr, $($t:ty),*) => { $( {
        $rec.begin("Compass", &[("ty", jstr(stringify!($t)))]);
        let mut values: Vec<$t> = vec![-3, -2, -1, 0, 1, 2, 3, <$t>::MIN, <$t>::MIN + 1, <$t>::MAX, <$t>::MAX - 1];
        // Small numbers when truncated to narrower types
        for bits in [8, 16, 32, 64] {
            for d in -1i128..=1 {
                values.extend(<$t>::try_from((1i128 << bits) + d).ok());
                values.extend(<$t>::try_from(-(1i128 << bits) + d).ok());
            }
        }
        if $rec.thorough || <$t>::BITS == 8 {
            values.extend(-20..20);
        }
        values.sort();
        values.dedup();
        let mut s = S { rec: $rec };
        for d in dirs() {
            s.face(d);
            let v: ($t, $t) = d.into();
            s.ev("vector", stringify!($t), &[("r", format!("[{},{}]", bigj(v.0), bigj(v.1)))]);
            let v = <($t, $t)>::from(d);
            s.ev("frompair", "round trip", &[("x", bigj(v.0)), ("y", bigj(v.1)), ("r", guarded(|| dres(Dir::try_from(v))))]);
            s.ev("vector", stringify!($t), &[("r", format!("[{},{}]", bigj(v.0), bigj(v.1)))]);
        }
        for x in &values {
            for y in &values {
                let args = |r| [("x", bigj(*x)), ("y", bigj(*y)), ("r", r)];
                s.ev("frompair", "TryFrom", &args(guarded(|| dres(Dir::try_from((*x, *y))))));
                s.ev("frompair", "TryFrom &", &args(guarded(|| dres(Dir::try_from(&(*x, *y))))));
            }
        }
        s.rec.end();
    } )* };
}

fn text(s: &mut S, t: &str) {
    let r = guarded(|| dres(Dir::from_str(t)));
    s.ev("fromtext", "from_str", &[("s", codes(t)), ("r", r)]);
    let r = guarded(|| dres(t.parse::<Dir>()));
    s.ev("fromtext", "parse", &[("s", codes(t)), ("r", r)]);
}

fn texts(rec: &mut Rec) {
    rec.begin("Compass", &[("what", jstr("all characters"))]);
    let mut s = S { rec };
    // Every character there is, and every one-character string
    for via in ["char", "str"] {
        let mut accepted = vec![];
        let mut rejected = 0;
        for c in '\0'..=char::MAX {
            let r = if via == "char" { Dir::try_from(c) } else { Dir::from_str(c.to_string().as_str()) };
            match r {
                Ok(d) => accepted.push(format!("[{},{}]", c as u32, dnum(d))),
                Err(Error::DirParseError) => rejected += 1,
                Err(_) => (),
            }
        }
        s.ev("fromany", via, &[("accepted", jarr(accepted)), ("rejected", rejected.to_string())]);
    }
    s.rec.end();

    s.rec.begin("Compass", &[("what", jstr("names"))]);
    for d in dirs() {
        s.face(d);
        let (u, uc, a, ac) = (d.name_utf8(), d.name_utf8_char(), d.name_ascii(), d.name_ascii_char());
        s.ev("names", "", &[
            ("cardinal", jstr(d.name_cardinal())), ("shown", jstr(&d.to_string())),
            ("arrow", codes(u)), ("arrowchar", (uc as u32).to_string()),
            ("ascii", codes(a)), ("asciichar", (ac as u32).to_string()),
        ]);
        let i = dnum(d) as usize;
        s.ev("names", "tables", &[
            ("cardinal", jstr(Dir::NAMES_CARDINAL[i])), ("shown", jstr(&format!("{}", d))),
            ("arrow", codes(Dir::NAMES_UTF8[i])), ("arrowchar", (Dir::NAMES_UTF8_CHAR[i] as u32).to_string()),
            ("ascii", codes(Dir::NAMES_ASCII[i])), ("asciichar", (Dir::NAMES_ASCII_CHAR[i] as u32).to_string()),
        ]);
        text(&mut s, u);
        text(&mut s, a);
    }
    s.rec.end();

    s.rec.begin("Compass", &[("what", jstr("strings"))]);
    let alphabet: Vec<char> = Dir::NAMES_UTF8_CHAR.iter().chain(Dir::NAMES_ASCII_CHAR.iter()).copied()
        .chain("NESWneswlVxX 0\n\u{301}\u{2196}".chars()).collect();
    text(&mut s, "");
    for a in &alphabet {
        text(&mut s, &format!("{a}"));
        for b in &alphabet {
            text(&mut s, &format!("{a}{b}"));
        }
    }
    for _ in 0..if s.rec.thorough { 5000 } else { 300 } {
        let n = 3 + s.rec.rng.below(4);
        let t: String = (0..n).map(|_| *s.rec.rng.pick(&alphabet)).collect();
        text(&mut s, &t);
    }
    for t in ["NE", "ne", "SW", "north", "North", " N", "N ", "N\n", "\u{2191}\u{fe0f}", "N\0", "NN"] {
        text(&mut s, t);
    }
    s.rec.end();
}

fn main() {
    let mut rec = Rec::from_args();
    let r = &mut rec;
    match r.prop.as_str() {
        "C08" => {
            turning(r);
            enumerations::<true>(r);
            enumerations::<false>(r);
        }
        "C09" => {
            vectors!(r, i8, i16, i32, i64, i128, isize);
            texts(r);
        }
        p => {
            eprintln!("no sessions for {p}");
            std::process::exit(2);
        }
    }
    rec.finish();
}
