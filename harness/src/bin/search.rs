//! Driver for the searches: C20 to C26, and their part of C27.

use harness::geom::*;
use harness::terrain::*;
use harness::*;
use sqrid::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::ops::Add;

type HMap<P, T> = (HashMap<P, T>, T);
type BMap<P, T> = (BTreeMap<P, T>, T);
type Path = Result<Vec<Dir>, Error>;

trait Ground: Place + Ord + Hash + Copy + Add<Dir, Output = Result<Self, Error>> {}
impl<P: Place + Ord + Hash + Copy + Add<Dir, Output = Result<P, Error>>> Ground for P {}

/// The ways of calling the searches for a kind of position
trait Searches {
    type P: Ground;
    fn bf_ways() -> usize;
    fn bf(way: usize, t: &Terrain, o: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = Vec<(Self::P, Dir)>>));
    fn uc_ways() -> usize;
    fn uc(way: usize, t: &Terrain, o: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = (Self::P, Dir)>));
    fn as_ways() -> usize;
    fn ast(way: usize, t: &Terrain, o: usize, dest: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = (Self::P, Dir)>));
    fn bfs_ways() -> usize;
    fn bfs(way: usize, t: &Terrain, o: usize, goals: &[usize]) -> Result<(Self::P, Vec<Dir>), Error>;
    fn astar_ways() -> usize;
    fn astar(way: usize, t: &Terrain, o: usize, dest: usize) -> Path;
    fn ucs_ways() -> usize;
    fn ucs(way: usize, t: &Terrain, o: usize, dest: usize) -> Path;
    fn trace_ways() -> usize;
    fn trace(way: usize, way_back: &[Option<Dir>], t: &Terrain, o: usize, dest: usize) -> Path;
    fn limit() -> (usize, usize);
    fn diag() -> bool;
}

fn fill<M, P: Ground, const W: usize, const S: usize>(mut m: M, t: &Terrain, way: &[Option<Dir>]) -> M
where
    M: MapPos<Option<Dir>, P, W, S>,
{
    for (i, d) in way.iter().enumerate() {
        if d.is_some() {
            m.set(t.at::<P>(i), *d);
        }
    }
    m
}

/// Map and set of a user of the library, that know positions by their
/// coordinates only and keep everything that was ever stored
#[derive(Clone, Debug, Default)]
struct Ledger<T> {
    initial: T,
    entries: BTreeMap<(bool, u128, bool, u128), Vec<T>>,
}
fn key<P: Place>(p: &P) -> (bool, u128, bool, u128) {
    let (x, y) = p.xy();
    (x.neg, x.mag, y.neg, y.mag)
}
impl<T, P: Place, const W: usize, const S: usize> MapPos<T, P, W, S> for Ledger<T> {
    fn new(initial: T) -> Ledger<T> {
        Ledger { initial, entries: Default::default() }
    }
    fn get(&self, p: &P) -> &T {
        self.entries.get(&key(p)).and_then(|v| v.last()).unwrap_or(&self.initial)
    }
    fn set(&mut self, p: P, item: T) {
        self.entries.entry(key(&p)).or_default().push(item);
    }
}
impl<P: Place, const W: usize, const S: usize> SetPos<P, W, S> for Ledger<bool> {
    fn contains(&self, p: &P) -> bool {
        *MapPos::<bool, P, W, S>::get(self, p)
    }
    fn insert(&mut self, p: P) {
        MapPos::<bool, P, W, S>::set(self, p, true)
    }
    fn remove(&mut self, p: &P) {
        MapPos::<bool, P, W, S>::set(self, *p, false)
    }
}

fn ledger<T>() -> Ledger<Option<T>> {
    Ledger { initial: None, entries: Default::default() }
}

/// All positions of the grid are cells: all ways can be used
struct Full<P, const XM: u16, const YM: u16, const D: bool, const W: usize, const S: usize>(std::marker::PhantomData<P>);

impl<P: Ground, const XM: u16, const YM: u16, const D: bool, const W: usize, const S: usize> Searches for Full<P, XM, YM, D, W, S> {
    type P = P;
    fn bf_ways() -> usize {
        13
    }
    fn bf(way: usize, t: &Terrain, o: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = Vec<(P, Dir)>>)) {
        let go = |p, d| t.step(p, d);
        let o: P = t.at(o);
        match way {
            0 => f(&mut Sqrid::<XM, YM, D, W, S>::bf_iter::<P, _>(go, &o)),
            1 => f(&mut Sqrid::<XM, YM, D, W, S>::bf_iter_grid::<P, _>(go, &o)),
            2 => f(&mut Sqrid::<XM, YM, D, W, S>::bf_iter_hash::<P, _>(go, &o)),
            3 => f(&mut Sqrid::<XM, YM, D, W, S>::bf_iter_btree::<P, _>(go, &o)),
            4 => f(&mut bf::bf_iter_grid::<_, P, D, W, S>(go, &o)),
            5 => f(&mut bf::bf_iter_hash::<_, P, D, W, S>(go, &o)),
            6 => f(&mut bf::bf_iter_btree::<_, P, D, W, S>(go, &o)),
            7 => f(&mut bf::bf_iter::<_, Gridbool<P, W>, P, D, W, S>(go, &o)),
            8 => f(&mut bf::bf_iter::<_, HashSet<P>, P, D, W, S>(go, &o)),
            9 => f(&mut bf::BfIterator::<_, BTreeSet<P>, P, D, W, S>::new(go, &o)),
            10 => f(&mut bf::bf_iter::<_, Ledger<bool>, P, D, W, S>(go, &o)),
            11 => {
                // Continue with a copy after a step
                let mut it = bf::bf_iter_grid::<_, P, D, W, S>(go, &o);
                let first = it.next();
                f(&mut first.into_iter().chain(it.clone()));
            }
            _ => {
                // The copy doesn't disturb the original
                let it = bf::BfIterator::<_, Gridbool<P, W>, P, D, W, S>::new(go, &o);
                let _ = it.clone().count();
                f(&mut it.into_iter());
            }
        }
    }
    fn uc_ways() -> usize {
        5
    }
    fn uc(way: usize, t: &Terrain, o: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = (P, Dir)>)) {
        let go = |p, d| t.stepcost(p, d);
        let o: P = t.at(o);
        match way {
            0 => f(&mut ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, &o)),
            1 => f(&mut ucs::UcsIterator::<_, HMap<P, usize>, P, D, W, S>::new(go, &o)),
            2 => f(&mut ucs::UcsIterator::<_, BMap<P, usize>, P, D, W, S>::new(go, &o)),
            3 => f(&mut ucs::UcsIterator::<_, Ledger<usize>, P, D, W, S>::new(go, &o)),
            _ => {
                let it = ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, &o);
                let _ = it.clone().count();
                f(&mut it.into_iter());
            }
        }
    }
    fn as_ways() -> usize {
        6
    }
    fn ast(way: usize, t: &Terrain, o: usize, dest: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = (P, Dir)>)) {
        let go = |p, d| t.step(p, d);
        let (o, dest): (P, P) = (t.at(o), t.at(dest));
        match way {
            0 => f(&mut astar::AstarIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, &o, &dest)),
            1 => f(&mut astar::AstarIterator::<_, HMap<P, usize>, P, D, W, S>::new(go, &o, &dest)),
            2 => f(&mut astar::AstarIterator::<_, BMap<P, usize>, P, D, W, S>::new(go, &o, &dest)),
            3 => f(&mut astar::AstarIterator::<_, Ledger<usize>, P, D, W, S>::new(go, &o, &dest)),
            4 => {
                // Continue with a copy after a step
                let mut it = astar::AstarIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, &o, &dest);
                let first = it.next();
                f(&mut first.into_iter().chain(it.clone()));
            }
            _ => {
                let it = astar::AstarIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, &o, &dest);
                let _ = it.clone().count();
                f(&mut it.into_iter());
            }
        }
    }
    fn bfs_ways() -> usize {
        14
    }
    fn bfs(way: usize, t: &Terrain, o: usize, goals: &[usize]) -> Result<(P, Vec<Dir>), Error> {
        let go = |p, d| t.step(p, d);
        let found = |p: P| t.judge(p, goals);
        let o: P = t.at(o);
        match way {
            0 => Sqrid::<XM, YM, D, W, S>::bfs_path::<P, _, _>(go, &o, found),
            1 => Sqrid::<XM, YM, D, W, S>::bfs_path_grid::<P, _, _>(go, &o, found),
            2 => Sqrid::<XM, YM, D, W, S>::bfs_path_hash::<P, _, _>(go, &o, found),
            3 => Sqrid::<XM, YM, D, W, S>::bfs_path_btree::<P, _, _>(go, &o, found),
            4 => bf::search_path_grid::<_, _, P, D, W, S>(go, &o, found),
            5 => bf::search_path_hash::<_, _, P, D, W, S>(go, &o, found),
            6 => bf::search_path_btree::<_, _, P, D, W, S>(go, &o, found),
            7 => bf::search_path::<_, _, Grid<Option<Dir>, P, S>, HashSet<P>, P, D, W, S>(go, &o, found),
            8 => bf::search_path::<_, _, BMap<P, Option<Dir>>, Gridbool<P, W>, P, D, W, S>(go, &o, found),
            12 => bf::search_path::<_, _, Ledger<Option<Dir>>, Ledger<bool>, P, D, W, S>(go, &o, found),
            13 => {
                let (p, m) = bf::search_mapmov::<_, _, Ledger<Option<Dir>>, Gridbool<P, W>, P, D, W, S>(go, &o, found)?;
                Ok((p, camefrom_into_path::<_, P, W, S>(m, &o, &p)?))
            }
            9 => {
                let (p, m) = bf::search_mapmov::<_, _, Grid<Option<Dir>, P, S>, Gridbool<P, W>, P, D, W, S>(go, &o, found)?;
                Ok((p, camefrom_into_path::<_, P, W, S>(m, &o, &p)?))
            }
            10 => {
                let (p, m) = bf::search_mapmov::<_, _, HMap<P, Option<Dir>>, HashSet<P>, P, D, W, S>(go, &o, found)?;
                Ok((p, camefrom_into_path::<_, P, W, S>(m, &o, &p)?))
            }
            _ => {
                let (p, m) = bf::search_mapmov::<_, _, BMap<P, Option<Dir>>, BTreeSet<P>, P, D, W, S>(go, &o, found)?;
                Ok((p, Sqrid::<XM, YM, D, W, S>::camefrom_into_path(m, &o, &p)?))
            }
        }
    }
    fn astar_ways() -> usize {
        13
    }
    fn astar(way: usize, t: &Terrain, o: usize, dest: usize) -> Path {
        let go = |p, d| t.step(p, d);
        let (o, dest): (P, P) = (t.at(o), t.at(dest));
        match way {
            0 => Sqrid::<XM, YM, D, W, S>::astar_path::<_, P>(go, &o, &dest),
            1 => Sqrid::<XM, YM, D, W, S>::astar_path_grid::<_, P>(go, &o, &dest),
            2 => Sqrid::<XM, YM, D, W, S>::astar_path_hash::<_, P>(go, &o, &dest),
            3 => Sqrid::<XM, YM, D, W, S>::astar_path_btree::<_, P>(go, &o, &dest),
            4 => astar::search_path_grid::<_, P, D, W, S>(go, &o, &dest),
            5 => astar::search_path_hash::<_, P, D, W, S>(go, &o, &dest),
            6 => astar::search_path_btree::<_, P, D, W, S>(go, &o, &dest),
            7 => astar::search_path::<_, Grid<Option<Dir>, P, S>, HMap<P, usize>, P, D, W, S>(go, &o, &dest),
            8 => astar::search_path::<_, BMap<P, Option<Dir>>, Grid<usize, P, S>, P, D, W, S>(go, &o, &dest),
            11 => astar::search_path::<_, Ledger<Option<Dir>>, Ledger<usize>, P, D, W, S>(go, &o, &dest),
            12 => {
                let m = astar::search_mapmov::<_, Ledger<Option<Dir>>, Grid<usize, P, S>, P, D, W, S>(go, &o, &dest)?;
                camefrom_into_path::<_, P, W, S>(m, &o, &dest)
            }
            9 => {
                let m = astar::search_mapmov::<_, Grid<Option<Dir>, P, S>, Grid<usize, P, S>, P, D, W, S>(go, &o, &dest)?;
                camefrom_into_path::<_, P, W, S>(m, &o, &dest)
            }
            _ => {
                let m = astar::search_mapmov::<_, HMap<P, Option<Dir>>, BMap<P, usize>, P, D, W, S>(go, &o, &dest)?;
                camefrom_into_path::<_, P, W, S>(m, &o, &dest)
            }
        }
    }
    fn ucs_ways() -> usize {
        13
    }
    fn ucs(way: usize, t: &Terrain, o: usize, dest: usize) -> Path {
        let go = |p, d| t.stepcost(p, d);
        let (o, dest): (P, P) = (t.at(o), t.at(dest));
        match way {
            0 => Sqrid::<XM, YM, D, W, S>::ucs_path::<_, P>(go, &o, &dest),
            1 => Sqrid::<XM, YM, D, W, S>::ucs_path_grid::<_, P>(go, &o, &dest),
            2 => Sqrid::<XM, YM, D, W, S>::ucs_path_hash::<_, P>(go, &o, &dest),
            3 => Sqrid::<XM, YM, D, W, S>::ucs_path_btree::<_, P>(go, &o, &dest),
            4 => ucs::search_path_grid::<_, P, D, W, S>(go, &o, &dest),
            5 => ucs::search_path_hash::<_, P, D, W, S>(go, &o, &dest),
            6 => ucs::search_path_btree::<_, P, D, W, S>(go, &o, &dest),
            7 => ucs::search_path::<_, Grid<Option<Dir>, P, S>, HMap<P, usize>, P, D, W, S>(go, &o, &dest),
            8 => ucs::search_path::<_, BMap<P, Option<Dir>>, Grid<usize, P, S>, P, D, W, S>(go, &o, &dest),
            11 => ucs::search_path::<_, Ledger<Option<Dir>>, Ledger<usize>, P, D, W, S>(go, &o, &dest),
            12 => {
                let m = ucs::search_mapmov::<_, Ledger<Option<Dir>>, Grid<usize, P, S>, P, D, W, S>(go, &o, &dest)?;
                camefrom_into_path::<_, P, W, S>(m, &o, &dest)
            }
            9 => {
                let m = ucs::search_mapmov::<_, Grid<Option<Dir>, P, S>, Grid<usize, P, S>, P, D, W, S>(go, &o, &dest)?;
                camefrom_into_path::<_, P, W, S>(m, &o, &dest)
            }
            _ => {
                let m = ucs::search_mapmov::<_, HMap<P, Option<Dir>>, BMap<P, usize>, P, D, W, S>(go, &o, &dest)?;
                camefrom_into_path::<_, P, W, S>(m, &o, &dest)
            }
        }
    }
    fn trace_ways() -> usize {
        5
    }
    fn trace(way: usize, back: &[Option<Dir>], t: &Terrain, o: usize, dest: usize) -> Path {
        let (o, dest): (P, P) = (t.at(o), t.at(dest));
        match way {
            0 => camefrom_into_path::<_, P, W, S>(fill::<_, P, W, S>(Grid::<Option<Dir>, P, S>::repeat(None), t, back), &o, &dest),
            1 => camefrom_into_path::<_, P, W, S>(fill::<HMap<P, Option<Dir>>, P, W, S>(Default::default(), t, back), &o, &dest),
            2 => camefrom_into_path::<_, P, W, S>(fill::<BMap<P, Option<Dir>>, P, W, S>(Default::default(), t, back), &o, &dest),
            3 => camefrom_into_path::<_, P, W, S>(fill::<Ledger<Option<Dir>>, P, W, S>(ledger(), t, back), &o, &dest),
            _ => Sqrid::<XM, YM, D, W, S>::camefrom_into_path(fill::<_, P, W, S>(Grid::<Option<Dir>, P, S>::repeat(None), t, back), &o, &dest),
        }
    }
    fn limit() -> (usize, usize) {
        (P::WIDTH, P::HEIGHT)
    }
    fn diag() -> bool {
        D
    }
}

/// The cells are a part of a large grid: only the maps and sets of the
/// standard library can be used
struct Part<P, const D: bool>(std::marker::PhantomData<P>);

impl<P: Ground, const D: bool> Searches for Part<P, D> {
    type P = P;
    fn bf_ways() -> usize {
        3
    }
    fn bf(way: usize, t: &Terrain, o: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = Vec<(P, Dir)>>)) {
        let go = |p, d| t.step(p, d);
        let o: P = t.at(o);
        match way {
            0 => f(&mut bf::bf_iter_hash::<_, P, D, 0, 0>(go, &o)),
            1 => f(&mut bf::bf_iter::<_, Ledger<bool>, P, D, 0, 0>(go, &o)),
            _ => f(&mut bf::bf_iter_btree::<_, P, D, 0, 0>(go, &o)),
        }
    }
    fn uc_ways() -> usize {
        3
    }
    fn uc(way: usize, t: &Terrain, o: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = (P, Dir)>)) {
        let go = |p, d| t.stepcost(p, d);
        let o: P = t.at(o);
        match way {
            0 => f(&mut ucs::UcsIterator::<_, HMap<P, usize>, P, D, 0, 0>::new(go, &o)),
            1 => f(&mut ucs::UcsIterator::<_, Ledger<usize>, P, D, 0, 0>::new(go, &o)),
            _ => f(&mut ucs::UcsIterator::<_, BMap<P, usize>, P, D, 0, 0>::new(go, &o)),
        }
    }
    fn as_ways() -> usize {
        3
    }
    fn ast(way: usize, t: &Terrain, o: usize, dest: usize, f: &mut dyn FnMut(&mut dyn Iterator<Item = (P, Dir)>)) {
        let go = |p, d| t.step(p, d);
        let (o, dest): (P, P) = (t.at(o), t.at(dest));
        match way {
            0 => f(&mut astar::AstarIterator::<_, HMap<P, usize>, P, D, 0, 0>::new(go, &o, &dest)),
            1 => f(&mut astar::AstarIterator::<_, Ledger<usize>, P, D, 0, 0>::new(go, &o, &dest)),
            _ => f(&mut astar::AstarIterator::<_, BMap<P, usize>, P, D, 0, 0>::new(go, &o, &dest)),
        }
    }
    fn bfs_ways() -> usize {
        3
    }
    fn bfs(way: usize, t: &Terrain, o: usize, goals: &[usize]) -> Result<(P, Vec<Dir>), Error> {
        let go = |p, d| t.step(p, d);
        let found = |p: P| t.judge(p, goals);
        let o: P = t.at(o);
        match way {
            0 => bf::search_path_hash::<_, _, P, D, 0, 0>(go, &o, found),
            1 => bf::search_path::<_, _, Ledger<Option<Dir>>, Ledger<bool>, P, D, 0, 0>(go, &o, found),
            _ => bf::search_path_btree::<_, _, P, D, 0, 0>(go, &o, found),
        }
    }
    fn astar_ways() -> usize {
        3
    }
    fn astar(way: usize, t: &Terrain, o: usize, dest: usize) -> Path {
        let go = |p, d| t.step(p, d);
        let (o, dest): (P, P) = (t.at(o), t.at(dest));
        match way {
            0 => astar::search_path_hash::<_, P, D, 0, 0>(go, &o, &dest),
            1 => astar::search_path::<_, Ledger<Option<Dir>>, Ledger<usize>, P, D, 0, 0>(go, &o, &dest),
            _ => astar::search_path_btree::<_, P, D, 0, 0>(go, &o, &dest),
        }
    }
    fn ucs_ways() -> usize {
        3
    }
    fn ucs(way: usize, t: &Terrain, o: usize, dest: usize) -> Path {
        let go = |p, d| t.stepcost(p, d);
        let (o, dest): (P, P) = (t.at(o), t.at(dest));
        match way {
            0 => ucs::search_path_hash::<_, P, D, 0, 0>(go, &o, &dest),
            1 => ucs::search_path::<_, Ledger<Option<Dir>>, Ledger<usize>, P, D, 0, 0>(go, &o, &dest),
            _ => ucs::search_path_btree::<_, P, D, 0, 0>(go, &o, &dest),
        }
    }
    fn trace_ways() -> usize {
        3
    }
    fn trace(way: usize, back: &[Option<Dir>], t: &Terrain, o: usize, dest: usize) -> Path {
        let (o, dest): (P, P) = (t.at(o), t.at(dest));
        match way {
            0 => camefrom_into_path::<_, P, 0, 0>(fill::<HMap<P, Option<Dir>>, P, 0, 0>(Default::default(), t, back), &o, &dest),
            1 => camefrom_into_path::<_, P, 0, 0>(fill::<Ledger<Option<Dir>>, P, 0, 0>(ledger(), t, back), &o, &dest),
            _ => camefrom_into_path::<_, P, 0, 0>(fill::<BMap<P, Option<Dir>>, P, 0, 0>(Default::default(), t, back), &o, &dest),
        }
    }
    fn limit() -> (usize, usize) {
        (usize::MAX, usize::MAX)
    }
    fn diag() -> bool {
        D
    }
}

/* Terrains *******************************************************************/

/// Another search, from anywhere to anywhere, that may not be finished
fn other<S: Searches>(rng: &mut Rng) {
    let (mw, mh) = S::limit();
    let (w, h) = if mw == usize::MAX { (3, 3) } else { (mw, mh) };
    let t = Terrain::open(w, h, S::diag()).oneway(20, rng);
    let (o, dest) = (rng.below(t.cells()), rng.below(t.cells()));
    let n = rng.below(4);
    match rng.below(6) {
        0 => S::bf(rng.below(S::bf_ways()), &t, o, &mut |it| drop(it.take(n).count())),
        1 => S::uc(rng.below(S::uc_ways()), &t, o, &mut |it| drop(it.take(n).count())),
        2 => S::ast(rng.below(S::as_ways()), &t, o, dest, &mut |it| drop(it.take(n).count())),
        3 => drop(S::bfs(rng.below(S::bfs_ways()), &t, o, &[dest])),
        4 => drop(S::astar(rng.below(S::astar_ways()), &t, o, dest)),
        _ => drop(S::ucs(rng.below(S::ucs_ways()), &t, o, dest)),
    }
}

/// Some searches are interrupted by other ones: while they ask, in another
/// thread meanwhile, or by one that breaks off
fn disturb<S: Searches>(rec: &mut Rec) {
    let mut rng = Rng::new(rec.rng.next());
    interrupt(rng.chance(1, 3).then(|| -> Box<dyn FnMut(usize)> {
        Box::new(move |k| match k % 3 {
            0 => burning(1 + rng.below(20), || other::<S>(&mut rng)),
            1 => drop(attempt(|| other::<S>(&mut rng))),
            _ => std::thread::scope(|s| drop(s.spawn(|| other::<S>(&mut rng)).join())),
        })
    }));
}

/// A terrain whose movements lead to neighbours
fn local<S: Searches>(rec: &mut Rec, i: usize) -> Terrain {
    disturb::<S>(rec);
    let (mw, mh) = S::limit();
    let part = mw == usize::MAX;
    let rng = &mut rec.rng;
    let (w, h) = if part { (1 + rng.below(7), 1 + rng.below(7)) } else { (mw, mh) };
    let mut t = Terrain::open(w, h, S::diag());
    if part {
        // In a corner of the grid, about zero or anywhere
        let mut start = |(lo, hi): (Big, Big), n: usize| {
            let last = hi.plus(1 - n as i128).unwrap();
            let around = small(0).plus(-(rng.below(n) as i128)).unwrap();
            match rng.below(4) {
                0 => lo,
                1 => last,
                2 if lo.le(around) && around.le(last) => around,
                _ => Big::random(lo, last, rng),
            }
        };
        t.x0 = start(S::P::xlim(), w);
        t.y0 = start(S::P::ylim(), h);
        let mut anywhere = |(lo, hi): (Big, Big)| match rng.below(4) {
            0 => lo,
            1 => hi,
            _ => Big::random(lo, hi, rng),
        };
        let (x, y) = (anywhere(S::P::xlim()), anywhere(S::P::ylim()));
        if t.cell(S::P::at(x, y).unwrap()).is_none() {
            t.away = Some((x, y));
        }
    }
    match i % 12 {
        0 => t,
        1 => t.snake(i % 24 == 1),
        2 => t.trap(rng.below(4), rng),
        3 | 4 => t.blocked(15, rng),
        5 | 6 => t.blocked(35, rng),
        7 => t.oneway(25, rng),
        8 => t.oneway(60, rng),
        10 => t.maze(rng),
        11 => t.serpent(),
        _ => t.trap(rng.below(4), rng).oneway(15, rng),
    }
}

/// Any movement function
fn anyhow<S: Searches>(rec: &mut Rec, i: usize) -> Terrain {
    if i % 3 != 2 {
        return local::<S>(rec, i / 3 * 2 + i % 3);
    }
    let t = local::<S>(rec, 0);
    let n = t.cells();
    match (i / 3) % 4 {
        0 => t.torus(),
        1 => t.torus().oneway(30, &mut rec.rng),
        2 => t.portals(1 + n / 4, &mut rec.rng),
        _ => t.blocked(20, &mut rec.rng).portals(1 + n, &mut rec.rng),
    }
}

const COSTS: usize = 10;
fn costly(rec: &mut Rec, t: Terrain, orig: usize, i: usize) -> Terrain {
    let rng = &mut rec.rng;
    match i {
        // About a power of two: a little more or less makes the difference
        7 | 8 => {
            let bits = *rng.pick(&[7, 8, 15, 16, 23, 24, 31, 32, 33, 40, 47, 48, 52, 53, 54]);
            let base = (1usize << bits) - rng.below(2) * 3;
            let span = 1 + rng.below(7);
            t.costs(&mut |_, _| base + rng.below(span))
        }
        // Small and large ones together
        9 => {
            let bits = *rng.pick(&[8, 16, 24, 31, 32, 48, 52, 53]);
            t.costs(&mut |_, _| rng.below(4) + (rng.below(3) << bits))
        }
        0 => t.costs(&mut |_, _| 1),
        1 => t.costs(&mut |_, _| rng.below(2)),
        2 | 3 => t.costs(&mut |_, _| 1 + rng.below(9)),
        4 => t.costs(&mut |_, _| if rng.chance(1, 3) { 0 } else { rng.below(100) }),
        5 => t.huge(orig, rng),
        // Costs that depend on the cell that is entered, cheap detours
        _ => {
            let u = t.clone();
            t.costs(&mut |p, d| match u.beside(p, d) {
                Some(q) if (q / u.w + q % u.w) % 2 == 0 => 1,
                Some(_) => 5,
                None => 3,
            })
        }
    }
}

fn origins(t: &Terrain, most: usize, rng: &mut Rng) -> Vec<usize> {
    let n = t.cells();
    let mut v = vec![0, n - 1];
    v.extend((0..most).map(|_| rng.below(n)));
    v.sort();
    v.dedup();
    while v.len() > most {
        let i = rng.below(v.len());
        v.remove(i);
    }
    v
}

fn jdirs(v: &[Dir]) -> String {
    jints(v.iter().map(|d| dnum(*d)))
}

fn jpath(f: impl FnOnce() -> Path) -> String {
    guarded(|| match f() {
        Ok(v) => format!("[\"ok\",{}]", jdirs(&v)),
        Err(e) => err_name(e),
    })
}

/* Sessions *******************************************************************/

/// How many terrains
fn rounds(rec: &Rec, cells: usize) -> usize {
    let n = if cells > 200 { 3 } else if cells > 30 { 7 } else if cells > 4 { 10 } else { 3 };
    n * if rec.thorough { 6 } else { 1 }
}
fn rounds_of<S: Searches>(rec: &Rec) -> usize {
    let (w, h) = S::limit();
    rounds(rec, w.saturating_mul(h).min(25))
}

fn breadth_first<S: Searches>(rec: &mut Rec) {
    let mut way = 0;
    for i in 0..rounds_of::<S>(rec) * 2 {
        let t = anyhow::<S>(rec, i);
        for o in origins(&t, 3, &mut rec.rng) {
            way += 1;
            let way = way % S::bf_ways();
            let mut p = t.orig_params(o);
            p.push(("via", way.to_string()));
            rec.begin("BreadthFirst", &p);
            rec.about(&[("op", jstr("layer"))]);
            let o2 = t.cells() - 1 - o;
            let done = attempt(|| {
                S::bf(if i % 4 == 2 { way } else { 0 }, &t, o2, &mut |beside| {
                S::bf(way, &t, o, &mut |it| {
                    let mut ends = 0;
                    for _ in 0..t.cells() + 3 {
                        match it.next() {
                            Some(l) => rec.ev(&[
                                ("op", jstr("layer")),
                                ("r", jarr(l.iter().map(|(p, d)| format!("[{},{}]", t.num(*p), dnum(*d))))),
                            ]),
                            None => {
                                rec.ev(&[("op", jstr("end"))]);
                                ends += 1;
                            }
                        }
                        // One that goes on at the same time
                        if i % 4 == 2 {
                            beside.next();
                        }
                        if ends == 3 {
                            break;
                        }
                    }
                })
                })
            });
            if done.is_none() {
                rec.ev(&[("op", jstr("panic"))]);
            }
            rec.end();
        }
    }
}

fn uniform_cost<S: Searches>(rec: &mut Rec) {
    let mut way = 0;
    for i in 0..rounds_of::<S>(rec) * 2 {
        let t = anyhow::<S>(rec, i);
        for o in origins(&t, 2, &mut rec.rng) {
            let k = rec.rng.below(COSTS);
            let t = costly(rec, t.clone(), o, k);
            way += 1;
            let way = way % S::uc_ways();
            let mut p = t.orig_params(o);
            p.push(("via", way.to_string()));
            rec.begin("UniformCost", &p);
            rec.about(&[("op", jstr("next"))]);
            let o2 = t.cells() - 1 - o;
            let done = attempt(|| {
                S::uc(if i % 4 == 2 { way } else { 0 }, &t, o2, &mut |beside| {
                S::uc(way, &t, o, &mut |it| {
                    let mut ends = 0;
                    for _ in 0..t.cells() + 5 {
                        match it.next() {
                            Some((p, d)) => rec.ev(&[("op", jstr("next")), ("p", t.num(p).to_string()), ("d", dnum(d).to_string())]),
                            None => {
                                rec.ev(&[("op", jstr("end"))]);
                                ends += 1;
                            }
                        }
                        // One that goes on at the same time
                        if i % 4 == 2 {
                            beside.next();
                        }
                        if ends == 3 {
                            break;
                        }
                    }
                })
                })
            });
            if done.is_none() {
                rec.ev(&[("op", jstr("panic"))]);
            }
            rec.end();
        }
    }
}

fn astar_order<S: Searches>(rec: &mut Rec) {
    let mut way = 0;
    for i in 0..rounds_of::<S>(rec) * 2 {
        let t = local::<S>(rec, i);
        for o in origins(&t, 2, &mut rec.rng) {
            let dest = rec.rng.below(t.cells());
            let dest = if t.away.is_some() && rec.rng.chance(1, 4) { AWAY } else { dest };
            way += 1;
            let way = way % S::as_ways();
            let mut p = t.orig_params(o);
            p.push(("via", way.to_string()));
            p.push(("dest", jcell(dest)));
            rec.begin("AstarOrder", &p);
            rec.about(&[("op", jstr("next"))]);
            let o2 = t.cells() - 1 - o;
            let done = attempt(|| {
                S::ast(if i % 4 == 2 { way } else { 0 }, &t, o2, dest, &mut |beside| {
                S::ast(way, &t, o, dest, &mut |it| {
                    let mut ends = 0;
                    for _ in 0..t.cells() + 5 {
                        match it.next() {
                            Some((p, d)) => rec.ev(&[("op", jstr("next")), ("p", t.num(p).to_string()), ("d", dnum(d).to_string())]),
                            None => {
                                rec.ev(&[("op", jstr("end"))]);
                                ends += 1;
                            }
                        }
                        // One that goes on at the same time
                        if i % 4 == 2 {
                            beside.next();
                        }
                        if ends == 3 {
                            break;
                        }
                    }
                })
                })
            });
            if done.is_none() {
                rec.ev(&[("op", jstr("panic"))]);
            }
            rec.end();
        }
    }
}

/// What the searches ask for
fn questions<S: Searches>(rec: &mut Rec) {
    for i in 0..rounds_of::<S>(rec) * 2 {
        let t = local::<S>(rec, i);
        if t.cells() > 300 {
            continue;
        }
        for o in origins(&t, 2, &mut rec.rng) {
            let rng = &mut rec.rng;
            let kind = rng.below(6);
            let dest = rng.below(t.cells());
            let dest = if t.away.is_some() && rng.chance(1, 4) { AWAY } else { dest };
            let goals = goalset(&t, o, rng);
            let k = rng.below(COSTS);
            let (name, ways): (&str, usize) = match kind {
                0 => ("bf", S::bf_ways()),
                1 => ("bfs", S::bfs_ways()),
                2 => ("astar iteration", S::as_ways()),
                3 => ("astar", S::astar_ways()),
                4 => ("uc", S::uc_ways()),
                _ => ("ucs", S::ucs_ways()),
            };
            let way = rng.below(ways);
            let c = if kind > 3 { costly(rec, t.clone(), o, k) } else { t.clone() };
            let mut p = t.orig_params(o);
            p.push(("search", jstr(name)));
            p.push(("via", way.to_string()));
            rec.begin("Explorer", &p);
            rec.about(&[("op", jstr("ask"))]);
            let most = t.cells() + 3;
            let (done, asked) = calls(|| match kind {
                0 => S::bf(way, &t, o, &mut |it| drop(it.take(most).count())),
                1 => drop(S::bfs(way, &t, o, &goals)),
                2 => S::ast(way, &t, o, dest, &mut |it| drop(it.take(most).count())),
                3 => drop(S::astar(way, &t, o, dest)),
                4 => S::uc(way, &c, o, &mut |it| drop(it.take(most).count())),
                _ => drop(S::ucs(way, &c, o, dest)),
            });
            for a in asked {
                match a {
                    Call::Ask(p, d, q) => rec.ev(&[("op", jstr("ask")), ("p", p.to_string()), ("d", d.to_string()), ("q", q.to_string())]),
                    Call::Judge(p) => rec.ev(&[("op", jstr("judge")), ("p", p.to_string())]),
                }
            }
            if !done {
                rec.ev(&[("op", jstr("panic"))]);
            }
            rec.end();
        }
    }
}

fn goalset(t: &Terrain, o: usize, rng: &mut Rng) -> Vec<usize> {
    let n = t.cells();
    match rng.below(8) {
        0 => vec![],
        1 => vec![o],
        2 => (0..n).collect(),
        3 | 4 => vec![rng.below(n)],
        5 => vec![rng.below(n), o, n - 1],
        _ => {
            let k = 1 + rng.below(4);
            (0..k).map(|_| rng.below(n)).collect()
        }
    }
}

fn paths<S: Searches>(rec: &mut Rec) {
    let prop = rec.prop.clone();
    for i in 0..rounds_of::<S>(rec) * 2 {
        let t = local::<S>(rec, i);
        for o in origins(&t, 2, &mut rec.rng) {
            let t = if prop == "C24" {
                let k = rec.rng.below(COSTS);
                costly(rec, t.clone(), o, k)
            } else {
                t.clone()
            };
            rec.begin("PathSearch", &t.orig_params(o));
            for k in 0..if t.cells() > 100 { 6 } else { 12 } {
                let dest = match k {
                    0 => t.cells() - 1,
                    1 => o,
                    2 => 0,
                    3 => t.farthest(o),
                    4 if t.away.is_some() && prop != "C21" => AWAY,
                    _ => rec.rng.below(t.cells()),
                };
                match prop.as_str() {
                    "C21" => {
                        let goals = if k == 0 { vec![dest] } else { goalset(&t, o, &mut rec.rng) };
                        let way = rec.rng.below(S::bfs_ways());
                        let call = [("op", jstr("bfs")), ("via", way.to_string()), ("goals", jints(&goals))];
                        rec.about(&call);
                        let r = guarded(|| match S::bfs(way, &t, o, &goals) {
                            Ok((p, v)) => format!("[\"ok\",{},{}]", t.num(p), jdirs(&v)),
                            Err(e) => err_name(e),
                        });
                        let [a, b, c] = call;
                        rec.ev(&[a, b, c, ("r", r)]);
                    }
                    "C22" => {
                        let way = rec.rng.below(S::astar_ways());
                        let call = [("op", jstr("astar")), ("via", way.to_string()), ("dest", jcell(dest))];
                        rec.about(&call);
                        let r = jpath(|| S::astar(way, &t, o, dest));
                        let [a, b, c] = call;
                        rec.ev(&[a, b, c, ("r", r)]);
                    }
                    _ => {
                        let way = rec.rng.below(S::ucs_ways());
                        let call = [("op", jstr("ucs")), ("via", way.to_string()), ("dest", jcell(dest))];
                        rec.about(&call);
                        let r = jpath(|| S::ucs(way, &t, o, dest));
                        let [a, b, c] = call;
                        rec.ev(&[a, b, c, ("r", r)]);
                    }
                }
            }
            rec.end();
        }
    }
}

/// Lines with costs around the largest possible total
fn extremes<S: Searches>(rec: &mut Rec) {
    let (w, h) = S::limit();
    let (w, h) = if w == usize::MAX { (5, 1) } else { (w, h) };
    if w < 3 && h < 3 {
        return;
    }
    let m = usize::MAX;
    for costs in [[m - 1, 0], [m - 2, 1], [m / 2, m / 2], [m / 2, m / 2 + 1], [m, 0], [m - 1, 1], [m, m], [m - 1, m - 1], [1, m - 2], [1, m - 1], [1, m]] {
        let t = Terrain::open(w, h, S::diag()).costs(&mut |p, _| if p == 0 { costs[0] } else { costs[1] });
        rec.begin("PathSearch", &t.orig_params(0));
        for dest in [1.min(t.cells() - 1), t.cells() - 1, 0, if w >= 3 { 2 } else { 2 * w }] {
            let way = rec.rng.below(S::ucs_ways());
            rec.about(&[("op", jstr("ucs")), ("dest", dest.to_string())]);
            let r = jpath(|| S::ucs(way, &t, 0, dest));
            rec.ev(&[("op", jstr("ucs")), ("via", way.to_string()), ("dest", dest.to_string()), ("r", r)]);
        }
        rec.end();
    }
}

fn agreement<S: Searches>(rec: &mut Rec) {
    for i in 0..rounds_of::<S>(rec) * 2 {
        let t = local::<S>(rec, i);
        for o in origins(&t, 1, &mut rec.rng) {
            let dest = if i % 3 == 1 { t.farthest(o) } else { rec.rng.below(t.cells()) };
            let weighted = i % 4 == 3;
            let t = if weighted {
                let k = rec.rng.below(COSTS);
                costly(rec, t.clone(), o, k)
            } else {
                t.clone()
            };
            let mut params = t.orig_params(o);
            params.push(("dest", dest.to_string()));
            rec.begin("Agreement", &params);
            let found = |rec: &mut Rec, how: String, f: &mut dyn FnMut() -> Path| {
                rec.about(&[("op", jstr("found")), ("via", jstr(&how))]);
                let r = jpath(f);
                rec.ev(&[("op", jstr("found")), ("via", jstr(&how)), ("r", r)]);
            };
            for way in 0..S::ucs_ways() {
                found(rec, format!("ucs{way}"), &mut || S::ucs(way, &t, o, dest));
            }
            if !weighted {
                for way in 0..S::astar_ways() {
                    found(rec, format!("astar{way}"), &mut || S::astar(way, &t, o, dest));
                }
                // The origin is no goal of a breadth-first search
                if o != dest {
                    for way in 0..S::bfs_ways() {
                        found(rec, format!("bfs{way}"), &mut || S::bfs(way, &t, o, &[dest]).map(|r| r.1));
                    }
                    for way in 0..S::bf_ways() {
                        let mut step = -1;
                        rec.about(&[("op", jstr("layered"))]);
                        let done = attempt(|| {
                            S::bf(way, &t, o, &mut |it| {
                                for k in 1..=t.cells() as i64 {
                                    let Some(l) = it.next() else { break };
                                    if l.iter().any(|(p, _)| t.cell(*p) == Some(dest)) {
                                        step = k;
                                        break;
                                    }
                                }
                            })
                        });
                        if done.is_none() {
                            step = -9;
                        }
                        rec.ev(&[("op", jstr("layered")), ("via", way.to_string()), ("step", step.to_string())]);
                    }
                }
            }
            rec.end();
            // Several goals: all breadth-first searches go equally far
            if i % 2 == 0 {
                let t = Terrain { cost: None, ..t };
                let goals = goalset(&t, o, &mut rec.rng);
                let mut params = t.orig_params(o);
                params.push(("goals", jints(&goals)));
                rec.begin("Agreement", &params);
                for way in 0..S::bfs_ways() {
                    rec.about(&[("op", jstr("found"))]);
                    let r = jpath(|| S::bfs(way, &t, o, &goals).map(|r| r.1));
                    rec.ev(&[("op", jstr("found")), ("via", jstr(&format!("bfs{way}"))), ("r", r)]);
                }
                rec.end();
            }
        }
    }
}

/// Came-from maps: what searches produce, and damaged and random ones
fn camefrom<S: Searches>(rec: &mut Rec) {
    for i in 0..rounds_of::<S>(rec) * 3 {
        let t = local::<S>(rec, i);
        let n = t.cells();
        let o = rec.rng.below(n);
        let mut back: Vec<Option<Dir>> = vec![None; n];
        // A random spanning tree, deep or shallow, or anything
        let shape = i % 6;
        if shape < 5 {
            let mut seen = vec![false; n];
            seen[o] = true;
            let mut todo = vec![o];
            while !todo.is_empty() {
                let k = match shape {
                    0 | 1 => todo.len() - 1,
                    2 => 0,
                    _ => rec.rng.below(todo.len()),
                };
                let p = todo.remove(k);
                for d in 0..8 {
                    if let Some(q) = t.go[p][d] {
                        if !seen[q] {
                            seen[q] = true;
                            back[q] = Some(dirs()[opposite(d)]);
                            todo.push(q);
                        }
                    }
                }
            }
            // Damages
            let damages = if shape >= 3 { 1 + rec.rng.below(3) } else { 0 };
            for _ in 0..damages {
                let p = rec.rng.below(n);
                back[p] = if rec.rng.chance(1, 3) { None } else { Some(*rec.rng.pick(&dirs())) };
            }
        } else {
            for b in back.iter_mut() {
                *b = if rec.rng.chance(1, 8) { None } else { Some(*rec.rng.pick(&dirs())) };
            }
        }
        if i % 4 == 1 {
            // The longest trail there can be: through all cells
            long_trail(&t, &mut back);
        }
        let whole = i % 4 == 1;
        let o = if whole { 0 } else { o };
        if rec.rng.chance(1, 2) {
            back[o] = Some(Dir::default());
        }
        let o = if t.away.is_some() && rec.rng.chance(1, 5) { AWAY } else { o };
        let mut p = vec![("w", t.w.to_string()), ("h", t.h.to_string()), ("orig", jcell(o))];
        p.push(("way", jints(back.iter().map(|d| d.map_or(-1, |d| dnum(d) as i64)))));
        rec.begin("CameFrom", &p);
        for k in 0..if n > 300 { 2 } else { 10 } {
            let dest = match k {
                0 if whole => end_of_trail(&t),
                1 => o,
                2 if t.away.is_some() => AWAY,
                _ => rec.rng.below(n),
            };
            let way = rec.rng.below(S::trace_ways());
            rec.ev(&[("op", jstr("ask")), ("dest", jcell(dest))]);
            rec.about(&[("op", jstr("outcome")), ("via", way.to_string())]);
            let r = jpath(|| S::trace(way, &back, &t, o, dest));
            rec.ev(&[("op", jstr("outcome")), ("via", way.to_string()), ("r", r)]);
        }
        rec.end();
    }
}

/// Back and forth through all lines, starting in cell 0
fn long_trail(t: &Terrain, back: &mut [Option<Dir>]) {
    for y in 0..t.h {
        for x in 0..t.w {
            let east = y % 2 == 0;
            let first = if east { 0 } else { t.w - 1 };
            back[y * t.w + x] = if x == first {
                (y > 0).then_some(Dir::N)
            } else if east {
                Some(Dir::W)
            } else {
                Some(Dir::E)
            };
        }
    }
}
fn end_of_trail(t: &Terrain) -> usize {
    if t.h % 2 == 1 {
        t.w * t.h - 1
    } else {
        t.w * (t.h - 1)
    }
}

fn run<S: Searches>(rec: &mut Rec) {
    match rec.prop.as_str() {
        "C20" => breadth_first::<S>(rec),
        "C21" | "C22" => paths::<S>(rec),
        "C23" => uniform_cost::<S>(rec),
        "C32" => questions::<S>(rec),
        "C30" => astar_order::<S>(rec),
        "C24" => {
            paths::<S>(rec);
            extremes::<S>(rec);
        }
        "C25" => agreement::<S>(rec),
        "C26" => camefrom::<S>(rec),
        p => {
            eprintln!("no sessions for {p}");
            std::process::exit(2);
        }
    }
}

macro_rules! full {
    ($rec:expr, $($xm:literal $ym:literal $p:ty),* $(,)?) => {{ $(
        run::<Full<$p, $xm, $ym, true, { ($xm + 1) * ($ym + 1) / 32 + 1 }, { ($xm + 1) * ($ym + 1) }>>($rec);
        run::<Full<$p, $xm, $ym, false, { ($xm + 1) * ($ym + 1) / 32 + 1 }, { ($xm + 1) * ($ym + 1) }>>($rec);
    )* }};
}

fn main() {
    let mut rec = Rec::from_args();
    let r = &mut rec;
    full!(r, 0 0 Pos<0, 0>, 4 0 Pos<4, 0>, 0 6 Pos<0, 6>, 2 2 Pos<2, 2>, 1 3 Pos<1, 3>, 4 4 Pos<4, 4>, 5 3 Pos<5, 3>, 2 10 Pos<2, 10>,
          7 7 Pos<7, 7>, 8 8 Square8, 2 8 ByCoords);
    // Distances of more than 255
    full!(r, 299 0 Pos<299, 0>, 0 299 Pos<0, 299>);
    if r.prop == "C23" || r.prop == "C24" || r.prop == "C30" {
        full!(r, 16 16 Pos<16, 16>);
    } else {
        full!(r, 39 39 Pos<39, 39>);
    }
    run::<Part<(u8, u8), true>>(r);
    run::<Part<(u16, u16), false>>(r);
    run::<Part<Pos<65535, 65535>, true>>(r);
    // Also where positions have no index
    run::<Part<(i8, i8), false>>(r);
    run::<Part<(i16, i16), true>>(r);
    run::<Part<(i32, i32), false>>(r);
    run::<Part<(u32, u32), true>>(r);
    run::<Part<(u64, u64), false>>(r);
    run::<Part<(u128, u128), true>>(r);
    rec.finish();
}
