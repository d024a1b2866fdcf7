//! Driver for the iterators over positions: C05, C06, and their part of C27.

use harness::geom::*;
use harness::*;
use sqrid::*;

fn hint(rec: &mut Rec, h: (usize, Option<usize>)) {
    if rec.prop == "C27" {
        rec.ev(&[("op", jstr("hint")), ("lo", bigj(h.0)), ("hi", jarr(h.1.map(bigj)))]);
    }
}

/// An answer of an iterator, noting whether it was nothing
fn answer<P: Place>(f: impl FnOnce() -> Option<P>) -> (String, bool) {
    let mut none = false;
    let r = guarded(|| {
        let v = f();
        none = v.is_none();
        popt(v)
    });
    (r, none)
}

fn begin<P: Place>(rec: &mut Rec, across: bool) {
    let mut p = P::params();
    p.push(("across", across.to_string()));
    rec.begin("CursorIter", &p);
}

type It<const X: bool, P> = PosTIter<X, P>;

#[derive(Clone, Copy)]
enum Op {
    Front,
    Back,
    Nth(usize),
    NthBack(usize),
    Save,
    Swap,
}

/// A session: operations chosen by `plan`, until the plan ends
fn session<const X: bool, P: Place>(rec: &mut Rec, mk: fn() -> It<X, P>, plan: &mut dyn FnMut(&mut Rng, usize) -> Option<Op>) {
    begin::<P>(rec, X);
    let mut it = mk();
    let mut saved: Option<It<X, P>> = None;
    hint(rec, it.size_hint());
    let mut nones = 0;
    for i in 0.. {
        let Some(op) = plan(&mut rec.rng, i) else { break };
        let none = match op {
            Op::Front => {
                let (r, none) = answer(|| it.next());
                rec.ev(&[("op", jstr("front")), ("r", r)]);
                none
            }
            Op::Back => {
                let (r, none) = answer(|| it.next_back());
                rec.ev(&[("op", jstr("back")), ("r", r)]);
                none
            }
            Op::Nth(n) => {
                let (r, none) = answer(|| it.nth(n));
                rec.ev(&[("op", jstr("nth")), ("n", bigj(n)), ("r", r)]);
                none
            }
            Op::NthBack(n) => {
                let (r, none) = answer(|| it.nth_back(n));
                rec.ev(&[("op", jstr("nthback")), ("n", bigj(n)), ("r", r)]);
                none
            }
            Op::Save => {
                // A copy, which then is on its own
                #[allow(clippy::clone_on_copy)]
                let copy = if i % 2 == 0 { it } else { it.clone() };
                saved = Some(copy);
                rec.ev(&[("op", jstr("save"))]);
                false
            }
            Op::Swap => {
                if let Some(s) = &mut saved {
                    std::mem::swap(s, &mut it);
                    rec.ev(&[("op", jstr("swap"))]);
                }
                false
            }
        };
        hint(rec, it.size_hint());
        nones += none as u32;
        if nones >= 5 {
            break;
        }
    }
    rec.end();
}

/// Consume the iterator at once, after a few items from either end
fn wholesale<const X: bool, P: Place>(rec: &mut Rec, mk: fn() -> It<X, P>) {
    for (f, b) in [(0, 0), (1, 0), (0, 1), (2, 3)] {
        for how in 0..8 {
            begin::<P>(rec, X);
            let mut it = mk();
            for _ in 0..f {
                rec.ev(&[("op", jstr("front")), ("r", popt(it.next()))]);
            }
            for _ in 0..b {
                rec.ev(&[("op", jstr("back")), ("r", popt(it.next_back()))]);
            }
            hint(rec, it.size_hint());
            let many = |v: Vec<P>| jarr(v.iter().map(|p| p.json()));
            let (op, r) = match how {
                0 => ("all", many(it.collect())),
                1 => ("allback", many(it.rev().collect())),
                2 => ("count", bigj(it.count())),
                3 => ("last", popt(it.last())),
                4 => {
                    let mut v = vec![];
                    it.for_each(|p| v.push(p));
                    ("all", many(v))
                }
                5 => {
                    let mut v = vec![];
                    for p in it {
                        v.push(p);
                    }
                    ("all", many(v))
                }
                6 => ("all", many(it.fold(vec![], |mut v, p| {
                    v.push(p);
                    v
                }))),
                _ => ("allback", many(it.rfold(vec![], |mut v, p| {
                    v.push(p);
                    v
                }))),
            };
            rec.ev(&[("op", jstr(op)), ("via", how.to_string()), ("r", r)]);
            rec.end();
        }
    }
}

fn orientation<const X: bool, P: Place>(rec: &mut Rec, makers: &[fn() -> It<X, P>]) {
    let cells = P::cells();
    let small_grid = cells <= 90;
    let limit = if small_grid { cells as usize + 4 } else { 60 };
    for mk in makers {
        session::<X, P>(rec, *mk, &mut |_, i| (i < limit).then_some(Op::Front));
    }
    let mk = makers[0];
    session::<X, P>(rec, mk, &mut |_, i| (i < limit).then_some(Op::Back));
    // From both ends
    for _ in 0..if rec.thorough { 8 } else { 2 } {
        session::<X, P>(rec, mk, &mut |r, i| (i < limit).then(|| if r.chance(1, 2) { Op::Front } else { Op::Back }));
    }
    if cells <= 6 || (rec.thorough && cells <= 9) {
        for pat in 0..1usize << cells {
            session::<X, P>(rec, mk, &mut |_, i| {
                let b = if i < cells as usize { pat >> i & 1 == 1 } else { (pat + i) & 1 == 1 };
                (i < cells as usize + 3).then_some(if b { Op::Front } else { Op::Back })
            });
        }
    }
    // Skips and copies
    let w = (P::xlim().0.dist(P::xlim().1).min(70000) + 1) as usize;
    let h = (P::ylim().0.dist(P::ylim().1).min(70000) + 1) as usize;
    for _ in 0..if rec.thorough { 10 } else { 3 } {
        session::<X, P>(rec, mk, &mut |r, i| {
            let n = match r.below(6) {
                0 => w,
                1 => w - 1,
                2 => h,
                3 => h - 1,
                4 => r.below(w.min(70000)),
                _ => r.below(4),
            };
            (i < 25).then(|| match r.below(7) {
                0 => Op::Back,
                1 => Op::Nth(n),
                2 => Op::NthBack(n),
                3 => Op::Save,
                4 => Op::Swap,
                _ => Op::Front,
            })
        });
    }
    if cells <= 400 {
        wholesale::<X, P>(rec, mk);
    }
    // To the very end of the grid, if it isn't too far
    if !small_grid && cells <= 1 << 21 {
        for back in [false, true] {
            for off in [1usize, 2, 4] {
                session::<X, P>(rec, mk, &mut |_, i| match i {
                    0 if back => Some(Op::NthBack(cells as usize - off)),
                    0 => Some(Op::Nth(cells as usize - off)),
                    i if i < 7 => Some(if back { Op::Back } else { Op::Front }),
                    _ => None,
                });
            }
        }
    }
}

fn steps<P: Place>(rec: &mut Rec) {
    let ps = P::some(if rec.thorough { 200 } else { 64 }, &mut rec.rng);
    begin::<P>(rec, true);
    for p in ps {
        for order in ["next", "prev", "next_y", "prev_y"] {
            let r = guarded(|| popt(match order {
                "next" => p.next(),
                "prev" => p.prev(),
                "next_y" => p.next_y(),
                _ => p.prev_y(),
            }));
            rec.ev(&[("op", jstr("step")), ("order", jstr(order)), ("p", p.json()), ("r", r)]);
        }
    }
    rec.end();
}

fn rectangle<P: Place, I: Iterator<Item = P> + Clone>(rec: &mut Rec, via: &str, rect: (Big, Big, Big, Big), it0: I) {
    let (l, t, r, b) = rect;
    let begin = |rec: &mut Rec| {
        rec.begin("RangeIter", &[
            ("ty", jstr(&P::name())), ("via", jstr(via)),
            ("left", l.json()), ("top", t.json()), ("right", r.json()), ("bottom", b.json()),
        ]);
    };
    let cells = l.dist(r).saturating_add(1).saturating_mul(t.dist(b).saturating_add(1));
    begin(rec);
    let mut it = it0.clone();
    hint(rec, it.size_hint());
    let mut nones = 0;
    for _ in 0..cells.min(120) + 3 {
        let (r, none) = answer(|| it.next());
        rec.ev(&[("op", jstr("front")), ("r", r)]);
        hint(rec, it.size_hint());
        nones += none as u32;
        if nones == 4 {
            break;
        }
    }
    rec.end();
    if cells <= 200 {
        for k in [0usize, 1, 3] {
            for count in [false, true] {
                if rec.rng.chance(1, 2) {
                    continue;
                }
                begin(rec);
                let mut it = it0.clone();
                for _ in 0..k {
                    rec.ev(&[("op", jstr("front")), ("r", popt(it.next()))]);
                }
                let many = |v: Vec<P>| jarr(v.iter().map(|p| p.json()));
                let (op, r) = match (count, rec.rng.below(4)) {
                    (true, 0 | 1) => ("count", bigj(it.count())),
                    (true, _) => ("last", popt(it.last())),
                    (_, 0) => ("all", many(it.collect())),
                    (_, 1) => ("all", many(it.by_ref().take(1000).collect())),
                    (_, 2) => {
                        let mut v = vec![];
                        for p in it {
                            v.push(p);
                        }
                        ("all", many(v))
                    }
                    _ => ("all", many(it.fold(vec![], |mut v, p| {
                        v.push(p);
                        v
                    }))),
                };
                rec.ev(&[("op", jstr(op)), ("r", r)]);
                rec.end();
            }
        }
    }
    // Skips and copies
    if cells <= 1 << 20 && rec.rng.chance(1, if rec.thorough { 1 } else { 3 }) {
        begin(rec);
        let mut it = it0.clone();
        let mut saved = None;
        let (w, h) = (l.dist(r) as usize + 1, t.dist(b) as usize + 1);
        for _ in 0..14 {
            let n = match rec.rng.below(8) {
                0 => w,
                1 => w - 1,
                2 => h,
                3 => w + 1,
                4 => rec.rng.below(cells as usize + 2),
                5 => *rec.rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 65536, 256, cells as usize]),
                _ => rec.rng.below(4),
            };
            match rec.rng.below(8) {
                0 => {
                    saved = Some(it.clone());
                    rec.ev(&[("op", jstr("save"))]);
                }
                1 => {
                    if let Some(s) = &mut saved {
                        std::mem::swap(s, &mut it);
                        rec.ev(&[("op", jstr("swap"))]);
                    }
                }
                2 | 3 => {
                    let (r, _) = answer(|| it.next());
                    rec.ev(&[("op", jstr("front")), ("r", r)]);
                }
                4 => {
                    let (r, _) = answer(|| it.by_ref().skip(n).next());
                    rec.ev(&[("op", jstr("nth")), ("n", bigj(n)), ("r", r)]);
                }
                _ => {
                    let (r, _) = answer(|| it.nth(n));
                    rec.ev(&[("op", jstr("nth")), ("n", bigj(n)), ("r", r)]);
                }
            }
            hint(rec, it.size_hint());
        }
        rec.end();
    }
    // With skips, to the very end
    if cells > 100 && cells <= 1 << 20 {
        for n in [cells as usize - 1, cells as usize - 2, cells as usize - 5, cells as usize, cells as usize / 2] {
            begin(rec);
            let mut it = it0.clone();
            let (r, _) = answer(|| it.nth(n));
            rec.ev(&[("op", jstr("nth")), ("n", bigj(n)), ("r", r)]);
            hint(rec, it.size_hint());
            for _ in 0..7 {
                let (r, _) = answer(|| it.next());
                rec.ev(&[("op", jstr("front")), ("r", r)]);
                hint(rec, it.size_hint());
            }
            rec.end();
        }
    }
}

fn lines<P: Place>(rec: &mut Rec) {
    for p in P::some(30, &mut rec.rng) {
        let (a, b) = p.xy();
        let (xl, yl) = (P::xlim(), P::ylim());
        let (x, y) = PosT::tuple(&p);
        if rec.rng.chance(1, 2) || P::cells() < 30 {
            rectangle::<P, _>(rec, "iter_in_x", (a, yl.0, a, yl.1), P::iter_in_x(x));
            rectangle::<P, _>(rec, "iter_in_y", (xl.0, b, xl.1, b), P::iter_in_y(y));
        }
    }
}

/// The coordinates themselves
fn coords<P: Place>(rec: &mut Rec) {
    for vertical in [false, true] {
        let (lo, hi) = if vertical { P::ylim() } else { P::xlim() };
        rec.begin("DeIter", &[("ty", jstr(&P::name())), ("lo", lo.json()), ("hi", hi.json()), ("whole", "true".into())]);
        let n = lo.dist(hi).min(40) as usize + 3;
        let items: Vec<Option<Big>> = if vertical {
            let mut it = P::iter_y();
            (0..n).map(|_| it.next().map(rawof)).collect()
        } else {
            let mut it = P::iter_x();
            (0..n).map(|_| it.next().map(rawof)).collect()
        };
        for i in items {
            rec.ev(&[("op", jstr("front")), ("r", jarr(i.map(|b| b.json())))]);
        }
        rec.end();
    }
}

fn iterators<P: Place>(rec: &mut Rec) {
    orientation::<true, P>(rec, &[P::iter, P::iter_horizontal, P::iter_orientation::<true>, PosTIter::<true, P>::default]);
    orientation::<false, P>(rec, &[P::iter_vertical, P::iter_orientation::<false>, PosTIter::<false, P>::default]);
    if rec.prop == "C05" {
        steps::<P>(rec);
        coords::<P>(rec);
    }
    lines::<P>(rec);
}

fn ranges<P: Place>(rec: &mut Rec) {
    let few = if rec.thorough { 64 } else { 16 };
    let every = P::cells() <= few as u128;
    let ps = P::some(if rec.thorough { 150 } else { 60 }, &mut rec.rng);
    let mut rects = vec![];
    for p in &ps {
        for q in &ps {
            let ((a, b), (c, d)) = (p.xy(), q.xy());
            if a.le(c) && b.le(d) {
                rects.push((*p, *q, (a, b, c, d)));
            }
        }
    }
    let most = if rec.thorough { 400 } else { 60 };
    while !every && rects.len() > most {
        let i = rec.rng.below(rects.len());
        rects.swap_remove(i);
    }
    rects.push((P::first(), P::last(), (P::xlim().0, P::ylim().0, P::xlim().1, P::ylim().1)));
    for (p, q, rect) in rects {
        if rec.rng.chance(1, 2) {
            rectangle::<P, _>(rec, "iter_range", rect, P::iter_range(p, q));
        } else {
            rectangle::<P, _>(rec, "PosTIterRange::new", rect, PosTIterRange::new(p, q));
        }
    }
}

macro_rules! each {
    ($f:ident, $rec:expr, $($t:ty),* $(,)?) => {{ $( $f::<$t>($rec); )* }};
}

fn main() {
    let mut rec = Rec::from_args();
    let r = &mut rec;
    match r.prop.as_str() {
        "C05" => each!(iterators, r, Pos<0, 0>, Pos<0, 1>, Pos<1, 0>, Pos<0, 4>, Pos<4, 0>, Pos<1, 1>, Pos<2, 1>, Pos<1, 2>, Pos<3, 2>, Pos<2, 4>, Pos<7, 7>,
                       Pos<255, 1>, Pos<1, 256>, Pos<299, 299>, Pos<65535, 65535>,
                       (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), (i8, i8), (i16, i16), (i32, i32), ByTuple, ByCoords, Around, Square8),
        "C06" => each!(ranges, r, Pos<0, 0>, Pos<0, 1>, Pos<1, 0>, Pos<0, 4>, Pos<4, 0>, Pos<1, 1>, Pos<2, 2>, Pos<3, 2>, Pos<2, 4>, Pos<7, 7>,
                       Pos<255, 1>, Pos<1, 256>, Pos<65535, 65535>,
                       (u8, u8), (u16, u16), (u64, u64), (u128, u128), (i8, i8), (i32, i32), ByTuple, ByCoords, Around, Square8),
        "C27" => {
            each!(iterators, r, Pos<0, 0>, Pos<0, 4>, Pos<4, 0>, Pos<1, 1>, Pos<3, 2>, Pos<2, 4>, Pos<255, 1>, Pos<65535, 65535>,
                  (u8, u8), (u16, u16), (u64, u64), (i8, i8), (i32, i32), ByTuple, ByCoords, Around);
            each!(ranges, r, Pos<0, 0>, Pos<4, 0>, Pos<1, 1>, Pos<3, 2>, Pos<255, 1>, Pos<65535, 65535>, (u8, u8), (u64, u64), (i8, i8), ByCoords, Around);
        }
        p => {
            eprintln!("no sessions for {p}");
            std::process::exit(2);
        }
    }
    rec.finish();
}
