//! Driver for comparisons: C31.

use harness::geom::*;
use harness::*;
use sqrid::*;
use std::collections::{BTreeSet, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};

/// Compare all the values with each other; `items` come with what they hold
fn rank<T: Ord + Hash + Clone>(rec: &mut Rec, name: &str, numeric: bool, items: &[(T, String)]) {
    let v: Vec<&T> = items.iter().map(|i| &i.0).collect();
    rec.begin(
        "Ranking",
        &[("ty", jstr(name)), ("numeric", numeric.to_string()), ("items", jarr(items.iter().map(|i| i.1.clone())))],
    );
    rec.about(&[("op", jstr("compare"))]);
    let pairs = |f: &dyn Fn(&T, &T) -> String| guarded(|| jarr(v.iter().map(|a| jarr(v.iter().map(|b| f(a, b))))));
    let eq = pairs(&|a, b| {
        let e = a == b;
        // Anything that is neither is not an answer
        if e == (a != b) || e != b.eq(a) || e != (a.clone() == b.clone()) {
            jstr("both")
        } else {
            e.to_string()
        }
    });
    let order = pairs(&|a, b| {
        let o = a.cmp(b);
        let clear = a.partial_cmp(b) == Some(o) && (a < b) == o.is_lt() && (a <= b) == o.is_le() && (a > b) == o.is_gt() && (a >= b) == o.is_ge();
        if clear {
            (o as i8).to_string()
        } else {
            jstr("unclear")
        }
    });
    let hash = guarded(|| {
        let hashes: Vec<u64> = v
            .iter()
            .map(|a| {
                let mut h = DefaultHasher::new();
                a.hash(&mut h);
                h.finish()
            })
            .collect();
        jints(hashes.iter().map(|h| hashes.iter().position(|g| g == h).unwrap()))
    });
    rec.ev(&[("op", jstr("compare")), ("eq", eq), ("order", order), ("hash", hash)]);
    // What is built upon comparisons
    for stable in [false, true] {
        rec.about(&[("op", jstr("sorted"))]);
        let r = guarded(|| {
            let mut s: Vec<usize> = (0..v.len()).collect();
            if stable {
                s.sort_by(|a, b| v[*a].cmp(v[*b]));
            } else {
                s.sort_unstable_by_key(|a| v[*a]);
            }
            jints(s.iter().map(|i| i + 1))
        });
        rec.ev(&[("op", jstr("sorted")), ("r", r)]);
    }
    for _ in 0..6 {
        let (i, j) = (rec.rng.below(v.len()), rec.rng.below(v.len()));
        rec.about(&[("op", jstr("extremes"))]);
        let which = |x: &T| v.iter().position(|y| *y == x).filter(|k| [i, j].contains(k) || v[*k] == v[i] || v[*k] == v[j]);
        let name = |x: Option<usize>| match x {
            Some(k) if v[k] == v[i] => (i + 1).to_string(),
            Some(k) if v[k] == v[j] => (j + 1).to_string(),
            _ => "-1".to_string(),
        };
        let least = guarded(|| name(which(&v[i].clone().min(v[j].clone()))));
        let greatest = guarded(|| name(which(&v[i].clone().max(v[j].clone()))));
        rec.ev(&[
            ("op", jstr("extremes")),
            ("i", (i + 1).to_string()),
            ("j", (j + 1).to_string()),
            ("least", least),
            ("greatest", greatest),
        ]);
    }
    for tree in [false, true] {
        rec.about(&[("op", jstr("distinct"))]);
        let n = guarded(|| {
            if tree {
                v.iter().collect::<BTreeSet<_>>().len()
            } else {
                v.iter().collect::<HashSet<_>>().len()
            }
            .to_string()
        });
        rec.ev(&[("op", jstr("distinct")), ("n", n)]);
    }
    rec.end();
}

fn places<P: Place + Ord + Hash + Copy>(rec: &mut Rec) {
    for _ in 0..if rec.thorough { 8 } else { 3 } {
        let mut v = P::some(12, &mut rec.rng);
        // Some of them again
        for _ in 0..3 {
            let p = *rec.rng.pick(&v);
            // made in another way
            let (a, b) = p.xy();
            v.push(P::at(a, b).unwrap());
        }
        let items: Vec<(P, String)> = v.into_iter().map(|p| (p, p.json())).collect();
        rank(rec, &P::name(), false, &items);
    }
}

/// Positions of a small grid: all of them, made in several ways
fn every<const X: u16, const Y: u16>(rec: &mut Rec) {
    let mut v: Vec<Pos<X, Y>> = vec![];
    for p in Pos::<X, Y>::iter_vertical() {
        v.push(p);
    }
    for i in 0..v.len().min(4) {
        v.push(Pos::try_from(i).unwrap());
    }
    v.push(Pos::LAST);
    v.push(Pos::default());
    v.push(Pos::TOP_RIGHT);
    let items: Vec<_> = v.into_iter().map(|p| (p, p.json())).collect();
    rank(rec, &Pos::<X, Y>::name(), false, &items);
}

fn numbers<B: BoundedInt<Inner: ToBig> + Ord + Hash + Copy>(rec: &mut Rec, name: &str) {
    let (lo, hi) = (rawof(B::MIN), rawof(B::MAX));
    for _ in 0..if rec.thorough { 8 } else { 3 } {
        let mut v = axis((lo, hi), &mut rec.rng);
        v.retain(|b| coord::<B>(*b).is_some());
        v.extend(coord::<B>(small(0)).map(rawof));
        v.push(hi);
        let i = rec.rng.below(v.len());
        let b = v[i];
        v.push(b);
        let items: Vec<(B, String)> = v.into_iter().filter_map(|b| Some((coord(b)?, b.json()))).collect();
        rank(rec, name, true, &items);
    }
}

fn grids<const X: u16, const Y: u16, const S: usize>(rec: &mut Rec) {
    type G<const X: u16, const Y: u16, const S: usize> = Grid<i8, Pos<X, Y>, S>;
    for _ in 0..if rec.thorough { 40 } else { 12 } {
        let mut v: Vec<G<X, Y, S>> = vec![Grid::repeat(0), Grid::default()];
        while v.len() < 10 {
            let mut g = *rec.rng.pick(&v);
            if rec.rng.chance(1, 6) {
                g.flip_h();
            }
            if rec.rng.chance(1, 6) {
                g.flip_v();
            }
            for _ in 0..rec.rng.below(3) {
                let i = match rec.rng.below(4) {
                    0 => S - 1 - rec.rng.below(S.min(5)),
                    1 => rec.rng.below(S.min(5)),
                    _ => rec.rng.below(S),
                };
                g[Pos::try_from(i).unwrap()] = *rec.rng.pick(&[-1, 0, 1, 127, -128]);
            }
            v.push(g);
        }
        let items: Vec<_> = v.into_iter().map(|g| (g, jints(g.iter()))).collect();
        rank(rec, &format!("Grid of {}x{}", X as u32 + 1, Y as u32 + 1), false, &items);
    }
}

/// Grids of booleans
fn bits<const X: u16, const Y: u16, const W: usize>(rec: &mut Rec) {
    let size = (X as usize + 1) * (Y as usize + 1);
    for _ in 0..if rec.thorough { 40 } else { 12 } {
        let mut v: Vec<Gridbool<Pos<X, Y>, W>> = vec![Gridbool::default(), Gridbool::repeat(true), Gridbool::ALL_FALSE];
        while v.len() < 11 {
            let mut g = *rec.rng.pick(&v);
            match rec.rng.below(12) {
                0 => g.flip_h(),
                1 => g.flip_v(),
                // The same, made again
                2 => g = g.iter().collect(),
                3 => g = g.iter_t().collect(),
                _ => (),
            }
            for _ in 0..rec.rng.below(4) {
                let i = match rec.rng.below(4) {
                    0 => size - 1 - rec.rng.below(size.min(5)),
                    1 => rec.rng.below(size.min(5)),
                    // about the words
                    2 => (rec.rng.below(W + 1) * 32 + rec.rng.below(2)).saturating_sub(1).min(size - 1),
                    _ => rec.rng.below(size),
                };
                let value = rec.rng.chance(1, 2);
                g.set(&Pos::try_from(i).unwrap(), value);
            }
            v.push(g);
        }
        let items: Vec<_> = v.into_iter().map(|g| (g, jints(Pos::<X, Y>::iter().map(|p| g.get(&p) as u8)))).collect();
        rank(rec, &format!("Gridbool of {}x{}", X as u32 + 1, Y as u32 + 1), false, &items);
    }
}

/// Values that are the same by their first part
#[derive(Debug, Clone, Copy, Default)]
struct Half(i8, u8);
impl PartialEq for Half {
    fn eq(&self, o: &Half) -> bool {
        self.0 == o.0
    }
}
impl Eq for Half {}
impl PartialOrd for Half {
    fn partial_cmp(&self, o: &Half) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Half {
    fn cmp(&self, o: &Half) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl Hash for Half {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}

fn halves<const X: u16, const Y: u16, const S: usize>(rec: &mut Rec) {
    for k in 0..if rec.thorough { 20 } else { 6 } {
        let mut v: Vec<Grid<Half, Pos<X, Y>, S>> = vec![Grid::default()];
        while v.len() < 9 {
            let mut g = rec.rng.pick(&v).clone();
            for c in g.iter_mut() {
                c.1 = rec.rng.below(3) as u8;
            }
            for _ in 0..rec.rng.below(2) {
                let i = rec.rng.below(S);
                g[Pos::try_from(i).unwrap()].0 = *rec.rng.pick(&[-1, 0, 1, 127, -128]);
            }
            v.push(g);
        }
        let items: Vec<_> = v.into_iter().map(|g| { let j = jints(g.iter().map(|h| h.0)); (g, j) }).collect();
        rank(rec, &format!("Grid of {}x{} halves", X as u32 + 1, Y as u32 + 1), false, &items);
        // Owned values
        if k < 3 {
            let items: Vec<_> = items
                .iter()
                .map(|(g, j)| (g.iter().map(|h| "x".repeat((h.0 as i32 + 128) as usize)).collect::<Grid<String, Pos<X, Y>, S>>(), j.clone()))
                .collect();
            rank(rec, &format!("Grid of {}x{} strings", X as u32 + 1, Y as u32 + 1), false, &items);
        }
    }
}

/// Values that can't always be compared; `ODD` stands for those
const ODD: i64 = 1000;
fn loosely<T: PartialOrd>(rec: &mut Rec, name: &str, items: &[(T, String)]) {
    let v: Vec<&T> = items.iter().map(|i| &i.0).collect();
    rec.begin("Ranking", &[("ty", jstr(name)), ("numeric", "false".into()), ("items", jarr(items.iter().map(|i| i.1.clone())))]);
    rec.about(&[("op", jstr("loosely"))]);
    let pairs = |f: &dyn Fn(&T, &T) -> String| guarded(|| jarr(v.iter().map(|a| jarr(v.iter().map(|b| f(a, b))))));
    let eq = pairs(&|a, b| {
        let e = a == b;
        if e == (a != b) {
            jstr("both")
        } else {
            e.to_string()
        }
    });
    let order = pairs(&|a, b| {
        let o = a.partial_cmp(b);
        let n = o.map_or(2, |o| o as i8);
        let clear = (a < b) == (n == -1) && (a <= b) == (n == -1 || n == 0) && (a > b) == (n == 1) && (a >= b) == (n == 1 || n == 0);
        if clear {
            n.to_string()
        } else {
            jstr("unclear")
        }
    });
    rec.ev(&[("op", jstr("loosely")), ("eq", eq), ("order", order)]);
    rec.end();
}
fn floats<const X: u16, const Y: u16, const S: usize>(rec: &mut Rec) {
    let code = |f: &f64| if f.is_nan() { ODD } else { *f as i64 };
    for _ in 0..if rec.thorough { 20 } else { 6 } {
        let mut v: Vec<Grid<f64, Pos<X, Y>, S>> = vec![Grid::default()];
        while v.len() < 9 {
            let mut g = *rec.rng.pick(&v);
            for _ in 0..rec.rng.below(3) {
                let i = rec.rng.below(S);
                g[Pos::try_from(i).unwrap()] = *rec.rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, 3.0, -f64::NAN]);
            }
            v.push(g);
        }
        let items: Vec<_> = v.into_iter().map(|g| { let j = jints(g.iter().map(code)); (g, j) }).collect();
        loosely(rec, &format!("Grid of {}x{} floats", X as u32 + 1, Y as u32 + 1), &items);
    }
}

macro_rules! each {
    ($f:ident, $rec:expr, $($t:ty),* $(,)?) => {{ $( $f::<$t>($rec); )* }};
}
macro_rules! each_number {
    ($rec:expr, $($t:ty),* $(,)?) => {{ $( numbers::<$t>($rec, stringify!($t)); )* }};
}

fn main() {
    let mut rec = Rec::from_args();
    let r = &mut rec;
    every::<0, 0>(r);
    every::<3, 0>(r);
    every::<0, 3>(r);
    every::<2, 2>(r);
    every::<3, 2>(r);
    every::<1, 5>(r);
    each!(places, r, Pos<0, 0>, Pos<0, 65535>, Pos<65535, 0>, Pos<300, 7>, Pos<7, 300>, Pos<255, 256>, Pos<65535, 65535>,
          (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), (i8, i8), (i16, i16), (i32, i32));
    each_number!(r, BoundedU8<0, 255>, BoundedU8<5, 9>, BoundedU16<0, 65535>, BoundedU16<250, 260>, BoundedU32<0, 4294967295>,
        BoundedU64<0, 18446744073709551615>, BoundedU128<0, 340282366920938463463374607431768211455>,
        BoundedI8<-128, 127>, BoundedI8<-7, 6>, BoundedI16<-32768, 32767>, BoundedI32<-2147483648, 2147483647>,
        BoundedI64<-9223372036854775808, 9223372036854775807>, BoundedI128<-170141183460469231731687303715884105728, 170141183460469231731687303715884105727>,
        BoundedIsize<-9223372036854775808, 9223372036854775807>, BoundedIsize<-4, 8>);
    let items: Vec<_> = Dir::ALL8.iter().chain(&Dir::ALL4).map(|d| (*d, dnum(*d).to_string())).collect();
    rank(r, "Dir", false, &items);
    let items: Vec<_> = (0..8).map(|i| (-Dir::ALL8[i], ((i + 4) % 8).to_string())).chain(Dir::iter::<true>().zip((0..8).map(|i| i.to_string()))).collect();
    rank(r, "Dir", false, &items);
    grids::<0, 0, 1>(r);
    grids::<1, 0, 2>(r);
    grids::<0, 2, 3>(r);
    grids::<2, 2, 9>(r);
    grids::<2, 4, 15>(r);
    grids::<32, 0, 33>(r);
    grids::<14, 8, 135>(r);
    grids::<8, 16, 153>(r);
    grids::<23, 16, 408>(r);
    grids::<299, 0, 300>(r);
    grids::<1, 129, 260>(r);
    bits::<0, 0, 1>(r);
    bits::<2, 1, 1>(r);
    bits::<31, 0, 1>(r);
    bits::<0, 32, 2>(r);
    bits::<7, 7, 2>(r);
    bits::<12, 4, 3>(r);
    bits::<9, 9, 4>(r);
    bits::<13, 10, 5>(r);
    bits::<199, 0, 7>(r);
    bits::<15, 15, 8>(r);
    halves::<0, 0, 1>(r);
    halves::<2, 1, 6>(r);
    halves::<8, 10, 99>(r);
    floats::<0, 0, 1>(r);
    floats::<1, 2, 6>(r);
    floats::<20, 6, 147>(r);
    rec.finish();
}
