//! Driver for the size hints of the iterators that the other drivers don't
//! look at: C27.

use harness::geom::*;
use harness::terrain::Terrain;
use harness::*;
use sqrid::*;
use std::collections::{BTreeMap, HashMap, HashSet};

fn hint(rec: &mut Rec, h: (usize, Option<usize>)) {
    rec.ev(&[("op", jstr("hint")), ("lo", bigj(h.0)), ("hi", jarr(h.1.map(bigj)))]);
}

/// Number of items, by taking them all
fn count<I: Iterator>(mut it: I) -> Option<usize> {
    let mut n = 0;
    while it.next().is_some() {
        n += 1;
        if n > 300_000 {
            return None;
        }
    }
    Some(n)
}

fn begin(rec: &mut Rec, name: &str, how: &str, n: usize) {
    rec.begin("HintedSource", &[("name", jstr(name)), ("how", jstr(how)), ("n", n.to_string())]);
}

/// Is the hint after i of n items to be looked at?
fn sampled(i: usize, n: usize) -> bool {
    n < 150 || i < 20 || i + 20 > n || i % (n / 50) == 0
}

/// Take the items from the front
fn front<I: Iterator>(rec: &mut Rec, name: &str, mk: &mut dyn FnMut() -> I) {
    let Some(n) = count(mk()) else {
        begin(rec, name, "next", 0);
        rec.ev(&[("op", jstr("endless"))]);
        rec.end();
        return;
    };
    begin(rec, name, "next", n);
    let mut it = mk();
    hint(rec, it.size_hint());
    let mut i = 0;
    let mut pending = 0;
    while i <= n && it.next().is_some() {
        i += 1;
        pending += 1;
        if sampled(i, n) {
            rec.ev(&[("op", jstr("take")), ("k", pending.to_string())]);
            pending = 0;
            hint(rec, it.size_hint());
        }
    }
    rec.ev(&[("op", jstr("take")), ("k", pending.to_string())]);
    for _ in 0..2 {
        rec.ev(&[("op", jstr("end"))]);
        hint(rec, it.size_hint());
        if it.next().is_some() {
            rec.ev(&[("op", jstr("take")), ("k", "1".into())]);
        }
    }
    rec.end();
    // Skip items
    for round in 0..3 {
        begin(rec, name, "nth", n);
        let mut it = mk();
        let mut left = n;
        let mut pending = 0;
        loop {
            if sampled(left, n) {
                taken(rec, &mut pending);
                hint(rec, it.size_hint());
            }
            let k = if round == 0 { 0 } else { rec.rng.below(3 + left / 3) };
            if sampled(left, n) {
                // What the adapters say is about the same items
                let mut it2 = it.by_ref().skip(k);
                hint_part(rec, k, it2.size_hint());
                if it2.next().is_none() {
                    break;
                }
            } else if it.nth(k).is_none() {
                break;
            }
            pending += k + 1;
            left = left.saturating_sub(k + 1);
        }
        taken(rec, &mut pending);
        rec.ev(&[("op", jstr("rest"))]);
        hint(rec, it.size_hint());
        rec.end();
    }
}

/// The items taken since the last hint
fn taken(rec: &mut Rec, pending: &mut usize) {
    if *pending > 0 {
        rec.ev(&[("op", jstr("take")), ("k", pending.to_string())]);
        *pending = 0;
    }
}

/// The hint for all but the first k items
fn hint_part(rec: &mut Rec, k: usize, h: (usize, Option<usize>)) {
    rec.ev(&[("op", jstr("hintpart")), ("k", k.to_string()), ("lo", bigj(h.0)), ("hi", jarr(h.1.map(bigj)))]);
}

/// Take the items from both ends
fn ends<I: DoubleEndedIterator>(rec: &mut Rec, name: &str, mk: &mut dyn FnMut() -> I) {
    front(rec, name, mk);
    let Some(n) = count(mk()) else { return };
    for round in 0..3 {
        begin(rec, name, "ends", n);
        let mut it = mk();
        let mut i = 0;
        let mut pending = 0;
        loop {
            if sampled(i, n) {
                taken(rec, &mut pending);
                hint(rec, it.size_hint());
            }
            let back = round == 0 || rec.rng.chance(1, 2);
            if (if back { it.next_back() } else { it.next() }).is_none() {
                break;
            }
            pending += 1;
            i += 1;
        }
        taken(rec, &mut pending);
        rec.ev(&[("op", jstr("end"))]);
        hint(rec, it.size_hint());
        rec.end();
    }
}

fn directions<const D: bool>(rec: &mut Rec) {
    let name = format!("Dir::iter::<{}>", D);
    let n = count(Dir::iter::<D>()).unwrap_or(0);
    // Each number of items on its own
    for k in 0..=n + 1 {
        begin(rec, &name, &format!("after {}", k), n);
        let mut it = Dir::iter::<D>();
        for i in 0..k {
            if it.next().is_some() {
                rec.ev(&[("op", jstr("take")), ("k", "1".into())]);
            } else {
                assert!(i == n);
                rec.ev(&[("op", jstr("end"))]);
            }
        }
        hint(rec, it.size_hint());
        rec.end();
    }
}

fn contents<P: Place + Copy, const W: usize, const S: usize>(rec: &mut Rec) {
    let ty = P::name();
    let name = |s: &str| format!("{} {}", ty, s);
    let g = Grid::<i32, P, S>::default();
    let mut g2 = Grid::<i32, P, S>::default();
    ends(rec, &name("Grid::iter"), &mut || g.iter());
    ends(rec, &name("&Grid::into_iter"), &mut || (&g).into_iter());
    ends(rec, &name("Grid::into_iter"), &mut || Grid::<i32, P, S>::default().into_iter());
    front(rec, &name("Grid::iter_pos"), &mut || g.iter_pos());
    // The iterators over mutable references can't be made again and again by
    // the same closure
    for back in [false, true] {
        begin(rec, &name("Grid::iter_mut"), if back { "next_back" } else { "next" }, S);
        let mut it = g2.iter_mut();
        let mut pending = 0;
        for i in 0..S {
            if sampled(i, S) {
                taken(rec, &mut pending);
                hint(rec, it.size_hint());
            }
            if (if back { it.next_back() } else { it.next() }).is_some() {
                pending += 1;
            }
        }
        taken(rec, &mut pending);
        rec.ev(&[("op", jstr("rest"))]);
        hint(rec, it.size_hint());
        rec.end();
    }
    let mut bits = vec![Gridbool::<P, W>::ALL_FALSE, Gridbool::<P, W>::ALL_TRUE];
    for _ in 0..if rec.thorough { 6 } else { 2 } {
        let mut b = Gridbool::<P, W>::ALL_FALSE;
        for p in P::iter() {
            b.set(&p, rec.rng.chance(1, 2));
        }
        bits.push(b);
    }
    for b in &bits {
        front(rec, &name("Gridbool::iter"), &mut || b.iter());
        front(rec, &name("Gridbool::iter_pos"), &mut || b.iter_pos());
        front(rec, &name("Gridbool::iter_t"), &mut || b.iter_t());
        front(rec, &name("Gridbool::iter_f"), &mut || b.iter_f());
    }
    front(rec, &name("iter_x"), &mut || P::iter_x());
    front(rec, &name("iter_y"), &mut || P::iter_y());
}

type M<P, T> = (HashMap<P, T>, T);
type B<P, T> = (BTreeMap<P, T>, T);

fn searches<const X: u16, const Y: u16, const D: bool, const W: usize, const S: usize>(rec: &mut Rec) {
    let name = |s: &str| format!("Pos<{},{}> {}", X, Y, s);
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let open = || Terrain::open(w, h, D);
    let rng = &mut rec.rng;
    let mut terrains = vec![open(), open().serpent(), open().maze(rng), open().snake(false), open().trap(1, rng)];
    for k in [10, 25, 40] {
        terrains.push(open().blocked(k, rng));
        terrains.push(open().oneway(k, rng));
    }
    if rec.thorough {
        for _ in 0..10 {
            terrains.push(open().maze(&mut rec.rng));
            terrains.push(open().oneway(30, &mut rec.rng));
            terrains.push(open().blocked(20, &mut rec.rng));
        }
    }
    for t in terrains {
        // Costs of each movement on its own, which make for detours and for
        // entries of the frontier that are outdated
        let t = match rec.rng.below(3) {
            0 => t.costs(&mut |_, _| 1),
            1 => t.costs(&mut |_, _| rec.rng.below(3)),
            _ => t.costs(&mut |_, _| 1 + rec.rng.below(1000)),
        };
        let t = &t;
        let go = |p: P<X, Y>, d: Dir| t.step(p, d);
        let gocost = |p: P<X, Y>, d: Dir| t.stepcost(p, d);
        for o in [P::<X, Y>::FIRST, P::<X, Y>::CENTER] {
            let dest = if rec.rng.chance(1, 2) { P::<X, Y>::LAST } else { t.at(t.farthest(t.num(o) as usize)) };
            front(rec, &name("bf_iter_grid"), &mut || bf::bf_iter_grid::<_, _, D, W, S>(go, &o));
            front(rec, &name("bf_iter_hash"), &mut || bf::bf_iter_hash::<_, _, D, W, S>(go, &o));
            front(rec, &name("bf_iter_btree"), &mut || bf::bf_iter_btree::<_, _, D, W, S>(go, &o));
            front(rec, &name("BfIterator"), &mut || bf::BfIterator::<_, HashSet<P<X, Y>>, _, D, W, S>::new(go, &o));
            front(rec, &name("bf flatten"), &mut || bf::bf_iter_grid::<_, _, D, W, S>(go, &o).flatten());
            front(rec, &name("UcsIterator grid"), &mut || ucs::UcsIterator::<_, Grid<usize, P<X, Y>, S>, _, D, W, S>::new(gocost, &o));
            front(rec, &name("UcsIterator hash"), &mut || ucs::UcsIterator::<_, M<P<X, Y>, usize>, _, D, W, S>::new(gocost, &o));
            front(rec, &name("UcsIterator btree"), &mut || ucs::UcsIterator::<_, B<P<X, Y>, usize>, _, D, W, S>::new(gocost, &o));
            front(rec, &name("AstarIterator grid"), &mut || astar::AstarIterator::<_, Grid<usize, P<X, Y>, S>, _, D, W, S>::new(go, &o, &dest));
            front(rec, &name("AstarIterator hash"), &mut || astar::AstarIterator::<_, M<P<X, Y>, usize>, _, D, W, S>::new(go, &o, &dest));
        }
    }
}

fn main() {
    // Grids are values: large ones need a large stack
    let t = std::thread::Builder::new().stack_size(1 << 28).spawn(sessions).expect("a thread");
    if t.join().is_err() {
        std::process::exit(101);
    }
}

fn sessions() {
    let mut recorder = Rec::from_args();
    let rec = &mut recorder;
    directions::<true>(rec);
    directions::<false>(rec);
    contents::<Pos<0, 0>, 1, 1>(rec);
    contents::<Pos<1, 0>, 1, 2>(rec);
    contents::<Pos<0, 4>, 1, 5>(rec);
    contents::<Pos<5, 6>, 2, 42>(rec);
    contents::<Pos<7, 3>, 1, 32>(rec);
    contents::<Pos<7, 3>, 2, 32>(rec);
    contents::<Pos<32, 0>, 2, 33>(rec);
    contents::<ByCoords, 1, 27>(rec);
    contents::<ByTuple, 2, 35>(rec);
    contents::<Pos<99, 29>, 94, 3000>(rec);
    contents::<Pos<299, 299>, 2813, 90000>(rec);
    searches::<0, 0, false, 1, 1>(rec);
    searches::<4, 3, false, 1, 20>(rec);
    searches::<3, 6, true, 1, 28>(rec);
    searches::<8, 8, false, 3, 81>(rec);
    searches::<7, 7, true, 3, 64>(rec);
    searches::<39, 0, false, 2, 40>(rec);
    recorder.finish();
}
