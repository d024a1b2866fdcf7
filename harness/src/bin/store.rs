//! Driver for grids, bit grids, maps and sets: C13 to C19.

use harness::geom::*;
use harness::*;
use sqrid::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

/* Cells and their numbers, by coordinates only ********************************/

fn w<P: Place>() -> usize {
    P::xlim().1.mag as usize + 1
}
fn h<P: Place>() -> usize {
    P::ylim().1.mag as usize + 1
}
fn at<P: Place>(i: usize) -> P {
    P::at((i % w::<P>()).big(), (i / w::<P>()).big()).unwrap()
}
fn num<P: Place>(p: &P) -> usize {
    let (a, b) = p.xy();
    b.mag as usize * w::<P>() + a.mag as usize
}
fn pairs_json(v: &[(usize, i32)]) -> String {
    jarr(v.iter().map(|(p, v)| format!("[{},{}]", p, v)))
}

/* Values **********************************************************************/

type Turns<G> = Option<(fn(&mut G), fn(&mut G))>;

trait Val: Default + Clone + PartialEq + PartialOrd + Eq + Ord + Hash {
    const NAME: &'static str;
    fn of(v: i32) -> Self;
    fn num(&self) -> i32;
    // What only copyable values have
    fn repeat<P: Place, const S: usize>(_v: i32) -> Option<Grid<Self, P, S>> {
        None
    }
    fn neg<P: Place, const S: usize>(_g: &Grid<Self, P, S>) -> Option<Grid<Self, P, S>> {
        None
    }
    fn collect_refs<P: Place, const S: usize>(_v: &[Self]) -> Option<Grid<Self, P, S>> {
        None
    }
    /// The same by references
    fn feed_refs<P: Place, const S: usize>(_v: &[Self], _kind: usize) -> Option<Grid<Self, P, S>> {
        None
    }
    fn extend_refs<P: Place + Copy, const S: usize>(_g: &mut Grid<Self, P, S>, _v: &[(P, Self)], _how: usize) -> bool {
        false
    }
}
impl Val for i32 {
    const NAME: &'static str = "i32";
    fn of(v: i32) -> i32 {
        v
    }
    fn num(&self) -> i32 {
        *self
    }
    fn repeat<P: Place, const S: usize>(v: i32) -> Option<Grid<i32, P, S>> {
        Some(Grid::repeat(v))
    }
    fn neg<P: Place, const S: usize>(g: &Grid<i32, P, S>) -> Option<Grid<i32, P, S>> {
        Some(-g.clone())
    }
    fn collect_refs<P: Place, const S: usize>(v: &[i32]) -> Option<Grid<i32, P, S>> {
        Some(v.iter().collect())
    }
    fn feed_refs<P: Place, const S: usize>(v: &[i32], kind: usize) -> Option<Grid<i32, P, S>> {
        Some(feed_again(v.iter().collect(), kind, S).collect())
    }
    fn extend_refs<P: Place + Copy, const S: usize>(g: &mut Grid<i32, P, S>, v: &[(P, i32)], how: usize) -> bool {
        match how {
            0 => g.extend(v.iter().map(|(p, v)| (*p, v))),
            1 => g.extend(v.iter()),
            k => g.extend(feed_again(v.iter().collect(), k, S)),
        }
        true
    }
}
impl Val for i8 {
    const NAME: &'static str = "i8";
    fn of(v: i32) -> i8 {
        (v % 100) as i8
    }
    fn num(&self) -> i32 {
        *self as i32
    }
    fn repeat<P: Place, const S: usize>(v: i32) -> Option<Grid<i8, P, S>> {
        Some(Grid::repeat(Self::of(v)))
    }
    fn neg<P: Place, const S: usize>(g: &Grid<i8, P, S>) -> Option<Grid<i8, P, S>> {
        Some(-g.clone())
    }
}
/// A value on the heap
impl Val for String {
    const NAME: &'static str = "String";
    fn of(v: i32) -> String {
        if v == 0 {
            String::new()
        } else {
            v.to_string()
        }
    }
    fn num(&self) -> i32 {
        if self.is_empty() {
            0
        } else {
            self.parse().unwrap()
        }
    }
}

fn nums<'a, V: Val + 'a>(it: impl IntoIterator<Item = &'a V>) -> String {
    jints(it.into_iter().map(|v| v.num()))
}

/* Iterators *******************************************************************/

fn some_number(rng: &mut Rng, n: usize) -> usize {
    match rng.below(12) {
        0..=3 => 0,
        4 | 5 => rng.below(4),
        6 => rng.below(n + 1),
        7 => *rng.pick(&[30, 31, 32, 33, 63, 64, 65]),
        8 => n,
        9 => n.saturating_sub(1),
        10 => rng.below(n / 2 + 1),
        _ => *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + 1, 1 << 16]),
    }
}
/// Numbers of the specification are small
fn jn(n: usize) -> String {
    n.min(1_000_000).to_string()
}

/// An iterator over n items (or less): any of its methods
fn scan<I: Iterator>(rec: &mut Rec, tag: Vec<(&str, String)>, n: usize, mut it: I, json: &dyn Fn(I::Item) -> String) {
    let mut f = vec![("op", jstr("scan"))];
    f.extend(tag);
    rec.ev(&f);
    for _ in 0..rec.rng.below(6) {
        let k = some_number(&mut rec.rng, n);
        let how = rec.rng.below(3);
        let r = guarded(|| jarr(match how {
            0 => it.nth(k),
            1 => it.by_ref().skip(k).next(),
            _ => (0..=k.min(n + 1)).map(|_| it.next()).last().flatten(),
        }.map(json)));
        rec.ev(&[("op", jstr("scannth")), ("n", jn(k)), ("r", r)]);
    }
    consume(rec, it, json);
}
fn consume<I: Iterator>(rec: &mut Rec, mut it: I, json: &dyn Fn(I::Item) -> String) {
    let how = rec.rng.below(8);
    let (op, r) = match how {
        0 => ("scanall", guarded(|| jarr(it.map(json)))),
        1 => ("scancount", guarded(|| it.count().to_string())),
        2 => ("scanlast", guarded(|| jarr(it.last().map(json)))),
        3 => ("scanall", guarded(|| jarr(it.fold(vec![], |mut v, i| {
            v.push(json(i));
            v
        })))),
        4 => ("scanall", guarded(|| {
            let mut v = vec![];
            it.for_each(|i| v.push(json(i)));
            jarr(v)
        })),
        5 => ("scanall", guarded(|| {
            let mut v = vec![];
            while let Some(i) = it.next() {
                v.push(json(i));
            }
            jarr(v)
        })),
        6 => ("scanall", guarded(|| {
            // Collections ask for the size
            let v: Vec<I::Item> = it.collect();
            jarr(v.into_iter().map(json))
        })),
        _ => ("scancount", guarded(|| it.zip(0usize..).map(|(_, k)| k + 1).max().unwrap_or(0).to_string())),
    };
    rec.ev(&[("op", jstr(op)), ("how", how.to_string()), ("r", r)]);
}
fn scan_ends<I: DoubleEndedIterator>(rec: &mut Rec, tag: Vec<(&str, String)>, n: usize, mut it: I, json: &dyn Fn(I::Item) -> String) {
    let mut f = vec![("op", jstr("scan"))];
    f.extend(tag);
    rec.ev(&f);
    for _ in 0..rec.rng.below(6) {
        let k = some_number(&mut rec.rng, n);
        let back = rec.rng.chance(1, 2);
        let r = guarded(|| jarr(if back { it.nth_back(k) } else { it.nth(k) }.map(json)));
        rec.ev(&[("op", jstr(if back { "scannthback" } else { "scannth" })), ("n", jn(k)), ("r", r)]);
    }
    if rec.rng.chance(1, 2) {
        let r = guarded(|| jarr(it.rev().map(json)));
        rec.ev(&[("op", jstr("scanallback")), ("r", r)]);
    } else {
        consume(rec, it, json);
    }
}

/* Grids ***********************************************************************/

struct Gs<'a, V: Val, P: Place + Copy + Hash + Ord, const S: usize> {
    rec: &'a mut Rec,
    g: Grid<V, P, S>,
    saved: Option<Grid<V, P, S>>,
    fresh: i32,
}

fn ygrid<P: Place>(y: usize) -> P::Ytype {
    coord(y.big()).unwrap()
}

const WRITES: usize = 9;
const READS: usize = 15;
const DUMPS: usize = 12;
const SCANS: usize = 7;

impl<'a, V: Val, P: Place + Copy + Hash + Ord, const S: usize> Gs<'a, V, P, S> {
    fn begin(rec: &'a mut Rec) -> Self {
        let params = vec![
            ("ty", jstr(&P::name())),
            ("val", jstr(V::NAME)),
            ("w", w::<P>().to_string()),
            ("h", h::<P>().to_string()),
        ];
        rec.begin("GridStore", &params);
        Gs { rec, g: Grid::default(), saved: None, fresh: 0 }
    }
    /// A value that is not in the grid yet, unless there are too many
    fn value(&mut self) -> i32 {
        self.fresh += 1;
        let v = if self.fresh % 7 == 3 { -self.fresh } else { self.fresh };
        V::of(v).num()
    }
    fn write(&mut self, p: P, how: usize) {
        let v = self.value();
        let i = num(&p);
        let (x, y) = (i % w::<P>(), ygrid::<P>(i / w::<P>()));
        let val = V::of(v);
        let g = &mut self.g;
        let ok = attempt(|| match how {
            0 => g[p] = val,
            1 => g[&p] = val,
            2 => *g.get_mut(&p) = val,
            3 => g.line_mut(y)[x] = val,
            4 => g.as_array_mut()[i] = val,
            5 => g.as_mut()[i] = val,
            6 => *g.iter_mut().nth(i).unwrap() = val,
            7 => *(&mut *g).into_iter().nth(i).unwrap() = val,
            _ => g.extend([(p, val)]),
        });
        let op = if ok.is_some() { "write" } else { "write panicked" };
        self.rec.ev(&[("op", jstr(op)), ("how", how.to_string()), ("p", i.to_string()), ("v", v.to_string())]);
    }
    fn read(&mut self, p: P, how: usize) {
        let i = num(&p);
        let (x, y) = (i % w::<P>(), ygrid::<P>(i / w::<P>()));
        let g = &mut self.g;
        let r = guarded(|| {
            match how {
                0 => g[p].num(),
                1 => g[&p].num(),
                2 => g.get(&p).num(),
                3 => g.line(y)[x].num(),
                4 => g.as_array()[i].num(),
                5 => g.as_ref()[i].num(),
                6 => g.iter().nth(i).unwrap().num(),
                7 => g.clone().into_inner()[i].num(),
                8 => (&*g).into_iter().nth(i).unwrap().num(),
                9 => g.clone().into_iter().nth(i).unwrap().num(),
                10 => g.iter_pos().find(|(q, _)| num(q) == i).unwrap().1.num(),
                11 => g.get_mut(&p).num(),
                12 => g.line_mut(y)[x].num(),
                13 => g.iter_mut().nth(i).unwrap().num(),
                _ => g[&mut p.clone() as &P].num(),
            }
            .to_string()
        });
        self.rec.ev(&[("op", jstr("read")), ("how", how.to_string()), ("p", i.to_string()), ("r", r)]);
    }
    fn line(&mut self, y: usize) {
        let g = &mut self.g;
        let r = guarded(|| nums(g.line(ygrid::<P>(y))));
        self.rec.ev(&[("op", jstr("line")), ("y", y.to_string()), ("r", r)]);
        let r = guarded(|| nums(g.line_mut(ygrid::<P>(y)).iter()));
        self.rec.ev(&[("op", jstr("line")), ("y", y.to_string()), ("r", r)]);
    }
    fn dump(&mut self, how: usize) {
        let g = &mut self.g;
        let r = guarded(|| match how {
            0 => nums(g.iter()),
            1 => nums(&*g),
            2 => jints(g.clone().into_iter().map(|v| v.num())),
            3 => nums(g.as_array()),
            4 => nums(g.as_ref()),
            5 => nums(&g.clone().into_inner()),
            6 => jints((0..h::<P>()).flat_map(|y| g.line(ygrid::<P>(y)).iter().map(|v| v.num()))),
            7 => jints((0..S).map(|i| g[at::<P>(i)].num())),
            8 => {
                let mut v: Vec<i32> = g.iter().rev().map(|v| v.num()).collect();
                v.reverse();
                jints(v)
            }
            9 => jints(P::iter().map(|p| g[&p].num())),
            10 => jints(g.iter_mut().map(|v| v.num())),
            _ => nums(g.as_array_mut().iter()),
        });
        self.rec.ev(&[("op", jstr("dump")), ("how", how.to_string()), ("r", r)]);
    }
    fn dumppos(&mut self) {
        let g = &self.g;
        let r = guarded(|| jarr(g.iter_pos().map(|(p, v)| format!("[{},{}]", num(&p), v.num()))));
        self.rec.ev(&[("op", jstr("dumppos")), ("r", r)]);
    }
    fn scan(&mut self, how: usize) {
        let (g, rec) = (&mut self.g, &mut *self.rec);
        let tag = |what: &str| vec![("what", jstr(what)), ("how", how.to_string())];
        match how {
            0 => scan_ends(rec, tag("values"), S, g.iter(), &|v: &V| v.num().to_string()),
            1 => scan_ends(rec, tag("values"), S, (&*g).into_iter(), &|v: &V| v.num().to_string()),
            2 => scan_ends(rec, tag("values"), S, g.iter_mut(), &|v: &mut V| v.num().to_string()),
            3 => scan_ends(rec, tag("values"), S, (&mut *g).into_iter(), &|v: &mut V| v.num().to_string()),
            4 => scan_ends(rec, tag("values"), S, g.clone().into_iter(), &|v: V| v.num().to_string()),
            5 => scan(rec, tag("values"), S, g.iter(), &|v: &V| v.num().to_string()),
            _ => scan(rec, tag("pos"), S, g.iter_pos(), &|(p, v): (P, &V)| format!("[{},{}]", num(&p), v.num())),
        }
    }
    fn dump_any(&mut self) {
        let how = self.rec.rng.below(DUMPS + 1);
        if how == DUMPS {
            self.dumppos();
        } else {
            self.dump(how);
        }
    }
    fn repeat(&mut self) {
        let v = self.value();
        if let Some(g) = V::repeat(v) {
            self.g = g;
            self.rec.ev(&[("op", jstr("repeat")), ("v", v.to_string())]);
        }
    }
    fn reset(&mut self) {
        self.g = Grid::default();
        self.rec.ev(&[("op", jstr("repeat")), ("v", "0".into())]);
    }
    fn neg(&mut self) {
        if let Some(g) = V::neg(&self.g) {
            self.g = g;
            self.rec.ev(&[("op", jstr("neg"))]);
        }
    }
    fn extend(&mut self, n: usize, how: usize) {
        let pairs: Vec<(usize, i32)> = (0..n).map(|_| (self.rec.rng.below(S), self.value())).collect();
        self.extend_by(&pairs, how);
    }
    /// More pairs than there are positions, the last for one that was not among the others
    fn extend_over(&mut self, n: usize, how: usize) {
        let late = self.rec.rng.below(S);
        let mut pairs: Vec<(usize, i32)> =
            (0..n - 1).map(|i| ((i + late + usize::from(i % S == 0 && S > 1)) % S, self.value())).collect();
        pairs.retain(|(i, _)| *i != late || S == 1);
        while pairs.len() < n - 1 {
            let again = pairs[self.rec.rng.below(pairs.len())].0;
            pairs.push((again, self.value()));
        }
        pairs.push((late, self.value()));
        self.extend_by(&pairs, how);
    }
    fn extend_by(&mut self, pairs: &[(usize, i32)], how: usize) {
        let ps: Vec<(P, V)> = pairs.iter().map(|(i, v)| (at(*i), V::of(*v))).collect();
        let g = &mut self.g;
        let ok = attempt(|| {
            if how > 3 && how % 2 == 0 {
                g.extend(feed_again(ps.clone(), how, S));
            } else if how == 0 || !V::extend_refs(g, &ps, how - 1) {
                g.extend(ps.iter().cloned());
            }
        });
        let op = if ok.is_some() { "extend" } else { "extend panicked" };
        self.rec.ev(&[("op", jstr(op)), ("how", how.to_string()), ("pairs", pairs_json(pairs))]);
    }
    fn save(&mut self) {
        self.saved = Some(self.g.clone());
        self.rec.ev(&[("op", jstr("save"))]);
    }
    fn swap(&mut self) {
        if let Some(s) = &mut self.saved {
            std::mem::swap(s, &mut self.g);
            self.rec.ev(&[("op", jstr("swap"))]);
        }
    }
    fn compare(&mut self) {
        if let Some(s) = &self.saved {
            let g = &self.g;
            let hash = |g: &Grid<V, P, S>| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                g.hash(&mut h);
                h.finish()
            };
            for how in 0..4 {
                let r = guarded(|| {
                    match how {
                        0 => g == s,
                        1 => !(s != g),
                        2 => g.cmp(s) == std::cmp::Ordering::Equal,
                        // Equal grids have equal hashes; others are not asked
                        _ => g.iter().eq(s.iter()) && hash(g) == hash(s),
                    }
                    .to_string()
                });
                self.rec.ev(&[("op", jstr("compare")), ("how", how.to_string()), ("r", r)]);
            }
        }
    }
    /// Values for all cells written at once through an existing grid
    fn overwrite(&mut self, how: usize) {
        let v: Vec<i32> = (0..S).map(|_| self.value()).collect();
        let g = &mut self.g;
        let ok = attempt(|| match how {
            0 => {
                for (c, v) in g.iter_mut().zip(&v) {
                    *c = V::of(*v);
                }
            }
            1 => {
                for (c, v) in (&mut *g).into_iter().zip(&v) {
                    *c = V::of(*v);
                }
            }
            2 => {
                for (y, vs) in v.chunks(w::<P>()).enumerate() {
                    let vs: Vec<V> = vs.iter().map(|v| V::of(*v)).collect();
                    g.line_mut(ygrid::<P>(y)).clone_from_slice(&vs);
                }
            }
            3 => g.extend(P::iter_vertical().map(|p| (p, V::of(v[num(&p)])))),
            _ => {
                for i in (0..S).rev() {
                    g[at::<P>(i)] = V::of(v[i]);
                }
            }
        });
        let r = if ok.is_some() { "[\"ok\"]" } else { "[\"panic\"]" };
        self.rec.ev(&[("op", jstr("collect")), ("how", jstr(&format!("over {}", how))), ("values", jints(v)), ("r", r.into())]);
    }
    /// A new grid from a sequence of n values
    fn collect(&mut self, n: usize, how: usize) {
        let v: Vec<i32> = (0..n).map(|_| self.value()).collect();
        let vals: Vec<V> = v.iter().map(|v| V::of(*v)).collect();
        let mut new = None;
        let r = guarded(|| {
            let g: Grid<V, P, S> = match how {
                0 => vals.iter().cloned().collect(),
                1 => V::collect_refs(&vals).unwrap_or_else(|| vals.clone().into_iter().collect()),
                // No useful hints about the number of values
                2 => {
                    let mut i = 0;
                    std::iter::from_fn(|| {
                        i += 1;
                        vals.get(i - 1).cloned()
                    })
                    .collect()
                }
                3 => vals.iter().cloned().filter(|_| true).collect(),
                k => match V::feed_refs(&vals, k) {
                    Some(g) if k % 2 == 0 => g,
                    _ => feed_again(vals.clone(), k, S).collect(),
                },
            };
            new = Some(g);
            "[\"ok\"]".to_string()
        });
        if let Some(g) = new {
            self.g = g;
        }
        self.rec.ev(&[("op", jstr("collect")), ("how", how.to_string()), ("values", jints(v)), ("r", r)]);
    }
    fn lists(&mut self, lens: &[usize]) -> (Vec<Vec<V>>, String) {
        let mut js = vec![];
        let mut vs = vec![];
        for (y, n) in lens.iter().enumerate() {
            let l: Vec<i32> = (0..*n).map(|_| self.value()).collect();
            if *n > 0 {
                js.push(format!("[{},{}]", y, jints(l.clone())));
            }
            vs.push(l.iter().map(|v| V::of(*v)).collect());
        }
        (vs, format!("[{}]", js.join(",")))
    }
    fn fromlists(&mut self, lens: &[usize]) {
        let (v, js) = self.lists(lens);
        let mut new = None;
        let r = guarded(|| match Grid::<V, P, S>::try_from(v) {
            Ok(g) => {
                new = Some(g);
                "[\"ok\"]".into()
            }
            Err(e) => err_name(e),
        });
        if let Some(g) = new {
            self.g = g;
        }
        self.rec.ev(&[("op", jstr("fromlists")), ("n", lens.len().to_string()), ("lists", js), ("r", r)]);
    }
    fn extendlists(&mut self, lens: &[usize]) {
        let (v, js) = self.lists(lens);
        let g = &mut self.g;
        let r = guarded(|| match g.extend_from_vecvec(v) {
            Ok(()) => "[\"ok\"]".into(),
            Err(e) => err_name(e),
        });
        self.rec.ev(&[("op", jstr("extendlists")), ("n", lens.len().to_string()), ("lists", js), ("r", r)]);
    }
    fn transform(&mut self, sym: usize, turns: Turns<Grid<V, P, S>>) {
        let g = &mut self.g;
        let ok = match (sym, turns) {
            (0, _) => attempt(|| g.flip_h()),
            (1, _) => attempt(|| g.flip_v()),
            (2, Some(t)) => attempt(|| t.0(g)),
            (_, Some(t)) => attempt(|| t.1(g)),
            _ => return,
        };
        let op = if ok.is_some() { "transform" } else { "transform panicked" };
        self.rec.ev(&[("op", jstr(op)), ("sym", jstr(SYMS[sym]))]);
    }
    fn some_cells(&mut self, most: usize) -> Vec<usize> {
        some_cells(S, w::<P>(), most, &mut self.rec.rng)
    }
}

const SYMS: [&str; 4] = ["fliph", "flipv", "cw", "cc"];

/// All cells, or the corners and some others
fn some_cells(n: usize, w: usize, most: usize, rng: &mut Rng) -> Vec<usize> {
    if n <= most {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, w - 1, w, n - w, n - 1, n / 2];
    while v.len() < most {
        v.push(rng.below(n));
    }
    v.retain(|i| *i < n);
    v
}

fn grid_access<V: Val, P: Place + Copy + Hash + Ord, const S: usize>(rec: &mut Rec, _t: Turns<Grid<V, P, S>>) {
    let small = S <= 120;
    let most = if small { 24 } else { 3 };
    // Every way to write and to read
    for how in 0..WRITES {
        if !small && how > 4 {
            continue;
        }
        let mut s = Gs::<V, P, S>::begin(rec);
        if how % 2 == 0 {
            s.dump(how);
        }
        for (k, i) in s.some_cells(most).into_iter().enumerate() {
            s.write(at(i), how);
            s.read(at(i), (k + how) % READS);
            if small || k == 1 {
                s.dump_any();
            }
        }
        s.dumppos();
        for y in [0, h::<P>() / 2, h::<P>() - 1] {
            s.line(y);
        }
        s.rec.end();
    }
    for how in 0..READS {
        if !small && how > 5 {
            continue;
        }
        let mut s = Gs::<V, P, S>::begin(rec);
        s.overwrite(how % 5);
        for i in s.some_cells(most) {
            s.read(at(i), how);
        }
        s.dump(how % DUMPS);
        s.rec.end();
    }
    // Iterators
    if small {
        let mut s = Gs::<V, P, S>::begin(rec);
        s.overwrite(0);
        for k in 0..if s.rec.thorough { 100 } else { 25 } {
            s.scan(k % SCANS);
        }
        s.rec.end();
    }
    // Histories
    let n = match (small, s_thorough(rec)) {
        (true, false) => 12,
        (true, true) => 60,
        (false, false) => 1,
        (false, true) => 4,
    };
    for _ in 0..n {
        let mut s = Gs::<V, P, S>::begin(rec);
        let len = if small { 40 + s.rec.rng.below(40) } else { 12 };
        for _ in 0..len {
            let p = at(s.rec.rng.below(S));
            match s.rec.rng.below(20) {
                0..=5 => {
                    let how = s.rec.rng.below(WRITES);
                    s.write(p, how)
                }
                6..=8 => {
                    let how = s.rec.rng.below(READS);
                    s.read(p, how)
                }
                9 | 10 => {
                    let (n, how) = (s.rec.rng.below(6), s.rec.rng.below(4 + FEEDS));
                    s.extend(n, how)
                }
                11 => s.neg(),
                12 => s.repeat(),
                13 => {
                    let how = s.rec.rng.below(5);
                    s.overwrite(how)
                }
                14 => {
                    let y = s.rec.rng.below(h::<P>());
                    s.line(y)
                }
                15 => s.save(),
                16 => s.swap(),
                17 => s.compare(),
                18 if small => s.reset(),
                _ => s.dump_any(),
            }
        }
        s.dump(7);
        s.rec.end();
    }
    // More than there is room for
    if small {
        let mut s = Gs::<V, P, S>::begin(rec);
        for how in 0..4 + FEEDS {
            for n in [S + 1, 2 * S + 1, 3 * S + 2] {
                s.extend_over(n, how);
                s.dump(how);
            }
        }
        if S == 9 {
            for (how, n) in [(0, 257), (1, 300), (2, 65537), (3, 70001)] {
                s.extend_over(n, how);
                s.dump(how);
            }
        }
        s.rec.end();
    }
    // Copies that differ in one cell or in none
    let mut s = Gs::<V, P, S>::begin(rec);
    s.overwrite(0);
    s.save();
    s.compare();
    for i in s.some_cells(most) {
        s.save();
        s.write(at(i), i % WRITES);
        s.compare();
        s.swap();
        s.read(at(i), 0);
        s.compare();
    }
    s.rec.end();
}

fn s_thorough(rec: &Rec) -> bool {
    rec.thorough
}

fn grid_load<V: Val, P: Place + Copy + Hash + Ord, const S: usize>(rec: &mut Rec, _t: Turns<Grid<V, P, S>>) {
    let (wi, he) = (w::<P>(), h::<P>());
    let small = S <= 120;
    // Sequences
    let mut lens: Vec<usize> = vec![S, S - 1, S + 1, 0, S / 2, S + wi, 2 * S, S - wi.min(S), 1];
    if !small {
        lens.truncate(3);
    }
    let mut s = Gs::<V, P, S>::begin(rec);
    for (k, n) in lens.into_iter().enumerate() {
        for how in 0..4 + FEEDS {
            if !small && how != k {
                continue;
            }
            s.collect(n, how);
            if how % 2 == 0 {
                s.dump_any();
            }
        }
    }
    s.rec.end();
    // Lists: systematic misfits, by one and by a lot
    let mut shapes: Vec<Vec<usize>> = vec![
        vec![wi; he],
        vec![],
        vec![0],
        vec![0; he],
        vec![0; he + 1],
        vec![0; he + 2],
        vec![wi; he + 1],
        vec![wi; he.saturating_sub(1)],
        vec![1; he],
        vec![wi + 1],
        vec![wi + 1; he],
        vec![2 * wi; he],
    ];
    for y in 0..he.min(12) {
        for n in [0, 1, wi - 1, wi + 1, wi + 2] {
            let mut l = vec![wi; he];
            l[y] = n;
            shapes.push(l);
        }
        let mut l = vec![0; y];
        l.push(wi);
        shapes.push(l);
        let mut l = vec![0; he + y + 1];
        l[he + y] = 1;
        shapes.push(l);
    }
    if !small {
        shapes.truncate(7);
        shapes.retain(|s| s.len() != he + 2);
    }
    for lens in &shapes {
        let mut s = Gs::<V, P, S>::begin(rec);
        s.overwrite(0);
        s.extendlists(lens);
        s.dump_any();
        s.fromlists(lens);
        s.dump_any();
        s.rec.end();
    }
    // Ragged
    let n = match (small, rec.thorough) {
        (true, false) => 25,
        (true, true) => 120,
        (false, _) => 2,
    };
    for k in 0..n {
        let mut s = Gs::<V, P, S>::begin(rec);
        s.overwrite(4);
        for _ in 0..3 {
            let over = (k % 3 == 0) as usize;
            let ny = s.rec.rng.below(he + 1 + over);
            let lens: Vec<usize> = (0..ny).map(|_| s.rec.rng.below(wi + 1 + over)).collect();
            if s.rec.rng.chance(1, 2) {
                s.extendlists(&lens);
            } else {
                s.fromlists(&lens);
            }
            s.dump_any();
        }
        s.rec.end();
    }
    // Longer than a counter of some width
    if S <= 12 {
        for wrap in [256usize, 65536] {
            let mut shapes: Vec<Vec<usize>> = vec![vec![wrap + 1], vec![wrap + wi], vec![wrap], vec![0; wrap]];
            let mut l = vec![0; wrap + he];
            shapes.push(l.clone());
            l[wrap] = 1;
            shapes.push(l.clone());
            l[wrap] = 0;
            l[wrap + he - 1] = wi;
            shapes.push(l);
            for l in shapes {
                if wrap > 256 && l.iter().sum::<usize>() > 20 && V::NAME != "i32" {
                    continue;
                }
                let mut s = Gs::<V, P, S>::begin(rec);
                s.overwrite(0);
                s.extendlists(&l);
                s.dump(0);
                s.fromlists(&l);
                s.dump(0);
                s.rec.end();
            }
        }
    }
}

fn grid_turn<V: Val, P: Place + Copy + Hash + Ord, const S: usize>(rec: &mut Rec, t: Turns<Grid<V, P, S>>) {
    let syms = if t.is_some() { 4 } else { 2 };
    let small = S <= 120;
    // All short sequences
    let depth = match (small, rec.thorough, S <= 36) {
        (true, false, true) => 3,
        (true, true, _) => 4,
        (true, false, _) => 2,
        _ => 1,
    };
    let mut words: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        words = words
            .into_iter()
            .flat_map(|wd| {
                (0..syms).map(move |s| {
                    let mut x = wd.clone();
                    x.push(s);
                    x
                })
            })
            .collect();
    }
    for wd in &words {
        let mut s = Gs::<V, P, S>::begin(rec);
        s.overwrite(4);
        for sym in wd {
            s.transform(*sym, t);
            s.dump(7);
        }
        s.rec.end();
    }
    // There and back again
    let n = if small { 6 } else { 1 };
    for k in 0..n {
        let mut s = Gs::<V, P, S>::begin(rec);
        s.overwrite(k % 5);
        s.save();
        let first = s.rec.rng.below(syms);
        let times = if first < 2 { 2 } else { 4 };
        for _ in 0..times {
            s.transform(first, t);
        }
        s.compare();
        s.dump_any();
        for _ in 0..if small { 8 } else { 2 } {
            let sym = s.rec.rng.below(syms);
            s.transform(sym, t);
            if small && s.rec.rng.chance(1, 3) {
                let p = at(s.rec.rng.below(S));
                s.write(p, 0);
            }
            s.dump_any();
        }
        s.rec.end();
    }
}

/* Bit grids *******************************************************************/

struct Bs<'a, P: Place + Copy, const W: usize> {
    rec: &'a mut Rec,
    g: Vec<Gridbool<P, W>>,
}

fn cells<P: Place>() -> usize {
    w::<P>() * h::<P>()
}

impl<'a, P: Place + Copy + Hash + Ord, const W: usize> Bs<'a, P, W> {
    fn begin(rec: &'a mut Rec, slots: usize) -> Self {
        let params = vec![
            ("ty", jstr(&P::name())),
            ("words", W.to_string()),
            ("w", w::<P>().to_string()),
            ("h", h::<P>().to_string()),
            ("slots", slots.to_string()),
        ];
        rec.begin("BitStore", &params);
        Bs { rec, g: vec![Gridbool::default(); slots] }
    }
    fn random_cells(&mut self) -> Vec<usize> {
        let n = cells::<P>();
        let k = self.rec.rng.below(n.min(40) + 1);
        (0..k).map(|_| self.rec.rng.below(n)).collect()
    }
    /// `n` cells again and again, the last one not among the others
    fn cells_over(&mut self, n: usize) -> Vec<usize> {
        let s = cells::<P>();
        let mut all: Vec<usize> = (0..s).collect();
        let late = all.swap_remove(self.rec.rng.below(s));
        let few = self.rec.rng.chance(1, 2).then(|| 1 + self.rec.rng.below(4));
        if let Some(few) = few {
            all.truncate(few);
        }
        let mut v: Vec<usize> = if all.is_empty() { vec![late] } else { all.into_iter().cycle().take(n - 1).collect() };
        v.push(late);
        v
    }
    fn fill(&mut self, s: usize, v: bool, how: usize) {
        self.g[s] = match (how, v) {
            (0, _) => Gridbool::repeat(v),
            (_, true) => Gridbool::ALL_TRUE,
            (1, false) => Gridbool::ALL_FALSE,
            (_, false) => Gridbool::default(),
        };
        self.rec.ev(&[("op", jstr("fill")), ("s", (s + 1).to_string()), ("v", v.to_string())]);
    }
    fn write(&mut self, s: usize, i: usize, v: bool, how: usize) {
        let p: P = at(i);
        let g = &mut self.g[s];
        let ok = attempt(|| match (how, v) {
            (0, _) => g.set(&p, v),
            (1, true) => g.set_t(&p),
            (1, false) => g.set_f(&p),
            (_, true) => g.set_iter_t(std::iter::once(p)),
            (_, false) => g.set_iter_f(std::iter::once(p)),
        });
        let op = if ok.is_some() { "write" } else { "write panicked" };
        self.rec.ev(&[
            ("op", jstr(op)),
            ("how", how.to_string()),
            ("s", (s + 1).to_string()),
            ("p", i.to_string()),
            ("v", v.to_string()),
        ]);
    }
    fn bulk(&mut self, s: usize, ps: &[usize], v: bool) {
        let how = self.rec.rng.below(1 + FEEDS);
        self.bulk_by(s, ps, v, how);
    }
    fn bulk_by(&mut self, s: usize, ps: &[usize], v: bool, how: usize) {
        let g = &mut self.g[s];
        let ok = attempt(|| {
            let it = ps.iter().map(|i| at::<P>(*i));
            match (how, v) {
                (0, true) => g.set_iter_t(it),
                (0, false) => g.set_iter_f(it),
                (k, true) => g.set_iter_t(feed_again(it.collect(), k, w::<P>() * h::<P>())),
                (k, false) => g.set_iter_f(feed_again(it.collect(), k, w::<P>() * h::<P>())),
            }
        });
        let op = if ok.is_some() { "bulk" } else { "bulk panicked" };
        self.rec.ev(&[("op", jstr(op)), ("s", (s + 1).to_string()), ("ps", jints(ps)), ("v", v.to_string())]);
    }
    fn fromcells(&mut self, s: usize, ps: &[usize]) {
        let how = self.rec.rng.below(3 + FEEDS);
        self.fromcells_by(s, ps, how);
    }
    fn fromcells_by(&mut self, s: usize, ps: &[usize], how: usize) {
        let g = attempt(|| match how {
            0 => ps.iter().map(|i| at::<P>(*i)).collect::<Gridbool<P, W>>(),
            1 => ps.iter().map(|i| at::<P>(*i)).filter(|_| true).collect(),
            2 => ps.iter().map(|i| at::<P>(*i)).chain(std::iter::from_fn(|| None)).collect(),
            k => feed_again(ps.iter().map(|i| at::<P>(*i)).collect(), k, w::<P>() * h::<P>()).collect(),
        });
        match g {
            Some(g) => {
                self.g[s] = g;
                self.rec.ev(&[("op", jstr("fromcells")), ("s", (s + 1).to_string()), ("ps", jints(ps))]);
            }
            None => self.rec.ev(&[("op", jstr("fromcells panicked")), ("ps", jints(ps))]),
        }
    }
    fn frombools(&mut self, s: usize, v: &[bool]) {
        let how = self.rec.rng.below(4 + FEEDS);
        let mut new = None;
        let r = guarded(|| {
            let mut i = 0;
            new = Some(match how {
                0 => v.iter().copied().collect::<Gridbool<P, W>>(),
                1 => v.iter().copied().filter(|_| true).collect(),
                2 => v.to_vec().into_iter().collect(),
                // Nothing is known about how many there are
                3 => std::iter::from_fn(|| {
                    i += 1;
                    v.get(i - 1).copied()
                })
                .collect(),
                k => feed_again(v.to_vec(), k, w::<P>() * h::<P>()).collect(),
            });
            "[\"ok\"]".into()
        });
        if let Some(g) = new {
            self.g[s] = g;
        }
        self.rec.ev(&[("op", jstr("frombools")), ("s", (s + 1).to_string()), ("values", jarr(v.iter().map(|b| b.to_string()))), ("r", r)]);
    }
    fn copy(&mut self, s: usize, t: usize) {
        let how = self.rec.rng.below(4);
        match how {
            0 => self.g[t] = self.g[s],
            1 => self.g[t] = self.g[s].clone(),
            // By the underlying words
            2 => *self.g[t].as_inner_mut() = *self.g[s].as_inner(),
            _ => {
                let words = self.g[s].into_inner();
                self.g[t].as_inner_mut().copy_from_slice(&words);
            }
        }
        self.rec.ev(&[("op", jstr("copy")), ("how", how.to_string()), ("s", (s + 1).to_string()), ("t", (t + 1).to_string())]);
    }
    fn transform(&mut self, s: usize, sym: usize, turns: Turns<Gridbool<P, W>>) {
        let g = &mut self.g[s];
        let ok = match (sym, turns) {
            (0, _) => attempt(|| g.flip_h()),
            (1, _) => attempt(|| g.flip_v()),
            (2, Some(t)) => attempt(|| t.0(g)),
            (_, Some(t)) => attempt(|| t.1(g)),
            _ => return,
        };
        let op = if ok.is_some() { "transform" } else { "transform panicked" };
        self.rec.ev(&[("op", jstr(op)), ("s", (s + 1).to_string()), ("sym", jstr(SYMS[sym]))]);
    }
    fn read(&mut self, s: usize, i: usize, how: usize) {
        let p: P = at(i);
        let g = &self.g[s];
        let r = guarded(|| {
            match how {
                0 => g.get(&p),
                1 => g[p],
                2 => g[&p],
                3 => g.iter().nth(i).unwrap(),
                4 => g.iter_pos().find(|(q, _)| num(q) == i).unwrap().1,
                5 => g.iter_t().any(|q| num(&q) == i),
                _ => !g.iter_f().any(|q| num(&q) == i),
            }
            .to_string()
        });
        self.rec.ev(&[("op", jstr("read")), ("how", how.to_string()), ("s", (s + 1).to_string()), ("p", i.to_string()), ("r", r)]);
    }
    fn dump(&mut self, s: usize, how: usize) {
        let g = &self.g[s];
        let (op, r) = match how {
            0 => ("dump", guarded(|| jarr(g.iter().map(|b| b.to_string())))),
            1 => ("dump", guarded(|| jarr((0..cells::<P>()).map(|i| g.get(&at(i)).to_string())))),
            2 => ("dump", guarded(|| jarr((0..cells::<P>()).map(|i| g[at::<P>(i)].to_string())))),
            3 => ("dump", guarded(|| jarr((0..cells::<P>()).map(|i| g[&at::<P>(i)].to_string())))),
            4 => ("dumppos", guarded(|| jarr(g.iter_pos().map(|(p, b)| format!("[{},{}]", num(&p), b))))),
            5 => ("dumptrue", guarded(|| jints(g.iter_t().map(|p| num(&p))))),
            _ => ("dumpfalse", guarded(|| jints(g.iter_f().map(|p| num(&p))))),
        };
        self.rec.ev(&[("op", jstr(op)), ("how", how.to_string()), ("s", (s + 1).to_string()), ("r", r)]);
    }
    fn scan(&mut self, s: usize, how: usize) {
        let (g, rec) = (&self.g[s], &mut *self.rec);
        let tag = |what: &str| vec![("what", jstr(what)), ("s", (s + 1).to_string())];
        let n = cells::<P>();
        match how {
            0 => scan(rec, tag("values"), n, g.iter(), &|b| b.to_string()),
            1 => scan(rec, tag("pos"), n, g.iter_pos(), &|(p, b)| format!("[{},{}]", num(&p), b)),
            2 => scan(rec, tag("true"), n, g.iter_t(), &|p| num(&p).to_string()),
            _ => scan(rec, tag("false"), n, g.iter_f(), &|p| num(&p).to_string()),
        }
    }
    fn compare(&mut self) {
        let g = &self.g;
        let eq = guarded(|| {
            jarr(g.iter().map(|a| {
                jarr(g.iter().map(|b| {
                    let e = a == b;
                    // Anything that is neither is not an answer
                    if e == (a != b) || e != a.eq(b) {
                        jstr("both")
                    } else {
                        e.to_string()
                    }
                }))
            }))
        });
        let order = guarded(|| {
            jarr(g.iter().map(|a| {
                jarr(g.iter().map(|b| {
                    let o = a.cmp(b);
                    if a.partial_cmp(b) != Some(o) || (a < b) != o.is_lt() || (a <= b) != o.is_le() {
                        jstr("unclear")
                    } else {
                        (o as i8).to_string()
                    }
                }))
            }))
        });
        let mut seen: Vec<u64> = vec![];
        let hash = jints(g.iter().map(|a| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            a.hash(&mut h);
            let v = h.finish();
            seen.iter().position(|s| *s == v).unwrap_or_else(|| {
                seen.push(v);
                seen.len() - 1
            })
        }));
        self.rec.ev(&[("op", jstr("compare")), ("eq", eq), ("order", order), ("hash", hash)]);
    }
}

const BITDUMPS: usize = 7;

fn bits_access<P: Place + Copy + Hash + Ord, const W: usize>(rec: &mut Rec, _t: Turns<Gridbool<P, W>>) {
    let n = cells::<P>();
    let small = n <= 300;
    let most = if small { 40 } else { 3 };
    for how in 0..3 {
        for v in [true, false] {
            let mut s = Bs::<P, W>::begin(rec, 1);
            s.fill(0, !v, how);
            s.dump(0, 1);
            // Cells around the borders of words too
            let mut cs = some_cells(n, w::<P>(), most, &mut s.rec.rng);
            if small {
                for b in (0..n).step_by(32) {
                    cs.extend([b, b + 31, b.saturating_sub(1), b + 1].into_iter().filter(|c| *c < n));
                }
            }
            for (k, i) in cs.into_iter().enumerate() {
                s.write(0, i, v, how);
                s.read(0, i, k % 7);
                if (small && n < 70) || k % 9 == 1 {
                    s.dump(0, k % BITDUMPS);
                }
                if k % 3 == 1 {
                    s.write(0, i, !v, how);
                    s.read(0, i, (k + 3) % 7);
                    s.dump(0, (k + 2) % BITDUMPS);
                    s.write(0, i, v, how);
                }
            }
            for d in 0..if small { BITDUMPS } else { 1 } {
                s.dump(0, d);
            }
            s.rec.end();
        }
    }
    // More cells than there are
    let mut s = Bs::<P, W>::begin(rec, 1);
    let mut over: Vec<usize> = match n {
        0..=300 => vec![n + 1, 2 * n + 1, W * 32 + 1, W * 32 + 2, W * 64 + 1],
        _ => vec![n + 1],
    };
    if n == 9 {
        over.extend([257, 1025, 65537, 70001]);
    }
    for (k, len) in over.into_iter().enumerate() {
        for v in [false, true] {
            for how in 0..if small && len < 1000 { 1 + FEEDS } else { 1 } {
                s.fill(0, !v, 0);
                let ps = s.cells_over(len);
                s.bulk_by(0, &ps, v, how);
                s.dump(0, (k + how) % BITDUMPS);
            }
        }
        for how in 0..if small && len < 1000 { 3 + FEEDS } else { 1 } {
            let ps = s.cells_over(len);
            s.fromcells_by(0, &ps, how);
            s.dump(0, (k + how) % BITDUMPS);
        }
    }
    s.rec.end();
    // From booleans
    let mut s = Bs::<P, W>::begin(rec, 1);
    let mut lens = vec![n, n + 1, n - 1, 0, n / 2, W * 32, W * 32 + 1, n + w::<P>(), 2 * n];
    if !small {
        lens.truncate(3);
    }
    for len in lens {
        let v: Vec<bool> = (0..len).map(|_| s.rec.rng.chance(1, 2)).collect();
        s.frombools(0, &v);
        s.dump(0, 1);
    }
    for pos in some_cells(n, w::<P>(), if n < 70 { 10 } else { 2 }, &mut Rng::new(1)) {
        let v: Vec<bool> = (0..n).map(|i| i == pos).collect();
        s.frombools(0, &v);
        s.dump(0, 5);
        s.fromcells(0, &[pos]);
        s.dump(0, 0);
    }
    s.rec.end();
    // Iterators
    if small {
        let mut s = Bs::<P, W>::begin(rec, 1);
        for k in 0..if s.rec.thorough { 100 } else { 32 } {
            match k % 8 {
                0 => s.fill(0, k % 16 == 0, 0),
                4 => {
                    let c = s.random_cells();
                    s.fromcells(0, &c);
                }
                _ => {
                    let v: Vec<bool> = (0..n).map(|_| s.rec.rng.chance(k as u64 % 8, 8)).collect();
                    s.frombools(0, &v);
                }
            }
            for how in 0..4 {
                s.scan(0, how);
            }
        }
        s.rec.end();
    }
    // Histories
    let m = match (small, rec.thorough) {
        (true, false) => 8,
        (true, true) => 60,
        (false, false) => 1,
        (false, true) => 3,
    };
    for _ in 0..m {
        let mut s = Bs::<P, W>::begin(rec, 2);
        for _ in 0..if small { 40 } else { 8 } {
            let t = s.rec.rng.below(2);
            let i = s.rec.rng.below(n);
            match s.rec.rng.below(20) {
                0 => {
                    let (v, how) = (s.rec.rng.chance(1, 2), s.rec.rng.below(3));
                    s.fill(t, v, how)
                }
                1..=6 => {
                    let (v, how) = (s.rec.rng.chance(1, 2), s.rec.rng.below(3));
                    s.write(t, i, v, how)
                }
                7 | 8 => {
                    let (v, ps) = (s.rec.rng.chance(1, 2), s.random_cells());
                    s.bulk(t, &ps, v)
                }
                9 => {
                    let ps = s.random_cells();
                    s.fromcells(t, &ps)
                }
                10 => {
                    let v: Vec<bool> = (0..n).map(|_| s.rec.rng.chance(1, 2)).collect();
                    s.frombools(t, &v)
                }
                11 => s.copy(t, 1 - t),
                12..=14 => {
                    let how = s.rec.rng.below(7);
                    s.read(t, i, how)
                }
                _ => {
                    let how = s.rec.rng.below(BITDUMPS);
                    s.dump(t, how)
                }
            }
        }
        s.dump(0, 1);
        s.dump(1, 1);
        s.rec.end();
    }
}

fn bits_turn<P: Place + Copy + Hash + Ord, const W: usize>(rec: &mut Rec, t: Turns<Gridbool<P, W>>) {
    let n = cells::<P>();
    let small = n <= 300;
    let syms = if t.is_some() { 4 } else { 2 };
    // Each cell alone, and each cell missing
    let mut cs = some_cells(n, w::<P>(), if small { if rec.thorough { 300 } else { 40 } } else { 3 }, &mut rec.rng);
    cs.dedup();
    for sym in 0..syms {
        let mut s = Bs::<P, W>::begin(rec, 1);
        for i in &cs {
            s.fromcells(0, &[*i]);
            s.transform(0, sym, t);
            s.dump(0, 5);
            if n < 70 {
                s.fill(0, true, 0);
                s.write(0, *i, false, 0);
                s.transform(0, sym, t);
                s.dump(0, 6);
            }
        }
        s.fill(0, true, 0);
        s.transform(0, sym, t);
        s.dump(0, 1);
        s.fill(0, false, 0);
        s.transform(0, sym, t);
        s.dump(0, 1);
        s.rec.end();
    }
    // Sequences
    let m = match (small, rec.thorough) {
        (true, false) => 10,
        (true, true) => 60,
        (false, _) => 1,
    };
    for _ in 0..m {
        let mut s = Bs::<P, W>::begin(rec, 2);
        let v: Vec<bool> = (0..n).map(|_| s.rec.rng.chance(1, 2)).collect();
        s.frombools(0, &v);
        s.copy(0, 1);
        let first = s.rec.rng.below(syms);
        for _ in 0..if first < 2 { 2 } else { 4 } {
            s.transform(0, first, t);
        }
        s.compare();
        for _ in 0..if small { 10 } else { 3 } {
            let sym = s.rec.rng.below(syms);
            s.transform(0, sym, t);
            if s.rec.rng.chance(1, 3) {
                let (i, v) = (s.rec.rng.below(n), s.rec.rng.chance(1, 2));
                s.write(0, i, v, 0);
            }
            let how = s.rec.rng.below(BITDUMPS);
            s.dump(0, how);
        }
        s.rec.end();
    }
}

fn bits_same<P: Place + Copy + Hash + Ord, const W: usize>(rec: &mut Rec, t: Turns<Gridbool<P, W>>) {
    let n = cells::<P>();
    let small = n <= 300;
    let syms = if t.is_some() { 4 } else { 2 };
    let all: Vec<usize> = (0..n).collect();
    // The same sets by different histories
    let sets: Vec<Vec<usize>> = {
        let mut v = vec![vec![], all.clone(), vec![n - 1], (0..n - 1).collect(), vec![0]];
        for _ in 0..if rec.thorough { 12 } else { 3 } {
            v.push(all.iter().copied().filter(|_| rec.rng.chance(1, 2)).collect());
        }
        v
    };
    for set in sets {
        let mut bools = vec![false; n];
        for i in &set {
            bools[*i] = true;
        }
        let rest: Vec<usize> = all.iter().copied().filter(|i| !bools[*i]).collect();
        let mut s = Bs::<P, W>::begin(rec, 7);
        s.fromcells(0, &set);
        s.fill(1, true, 0);
        s.bulk(1, &rest, false);
        s.frombools(2, &bools);
        s.copy(2, 3);
        let sym = s.rec.rng.below(syms);
        for _ in 0..if sym < 2 { 2 } else { 4 } {
            s.transform(3, sym, t);
        }
        s.fill(4, true, 1);
        s.fill(4, false, 1);
        s.bulk(4, &all, true);
        s.bulk(4, &rest, false);
        // One that differs in a single cell, and one that is empty
        s.copy(0, 5);
        let i = s.rec.rng.below(n);
        let was = bools[i];
        s.compare();
        s.write(5, i, !was, 1);
        s.compare();
        s.write(5, i, was, 0);
        s.fill(6, false, 2);
        s.compare();
        for k in 0..5 {
            s.write(k, i, !was, k % 3);
        }
        s.compare();
        s.rec.end();
    }
    // Histories
    let m = match (small, rec.thorough) {
        (true, false) => 10,
        (true, true) => 60,
        (false, _) => 1,
    };
    for _ in 0..m {
        let slots = 4;
        let mut s = Bs::<P, W>::begin(rec, slots);
        for _ in 0..if small { 25 } else { 6 } {
            let a = s.rec.rng.below(slots);
            let b = s.rec.rng.below(slots);
            // Few cells, for equal sets to be frequent
            let i = if s.rec.rng.chance(1, 2) { n - 1 } else { s.rec.rng.below(3.min(n)) };
            match s.rec.rng.below(9) {
                0 => {
                    let (v, how) = (s.rec.rng.chance(1, 2), s.rec.rng.below(3));
                    s.fill(a, v, how)
                }
                1..=3 => {
                    let (v, how) = (s.rec.rng.chance(1, 2), s.rec.rng.below(3));
                    s.write(a, i, v, how)
                }
                4 => s.copy(a, b),
                5 => {
                    let sym = s.rec.rng.below(syms);
                    s.transform(a, sym, t);
                    s.transform(b, sym, t)
                }
                6 => s.fromcells(a, &[i]),
                7 => s.bulk(a, &all, i % 2 == 0),
                _ => (),
            }
            if small || s.rec.rng.chance(1, 3) {
                s.compare();
            }
        }
        s.compare();
        s.rec.end();
    }
}

/* Maps and sets ***************************************************************/

/// The operations of a backend, whatever its type
trait Maps<P> {
    fn put(&mut self, p: P, v: i32);
    fn get(&self, p: &P) -> i32;
}
struct M<T, const W: usize, const S: usize>(T);
impl<P: PosT, T: MapPos<i32, P, W, S>, const W: usize, const S: usize> Maps<P> for M<T, W, S> {
    fn put(&mut self, p: P, v: i32) {
        self.0.set(p, v)
    }
    fn get(&self, p: &P) -> i32 {
        *self.0.get(p)
    }
}
trait Sets<P> {
    fn insert(&mut self, p: P);
    fn remove(&mut self, p: &P);
    fn set_to(&mut self, p: P, v: bool);
    fn has(&self, p: &P) -> bool;
}
struct T<X, const W: usize, const S: usize>(X);
impl<P: PosT, X: SetPos<P, W, S>, const W: usize, const S: usize> Sets<P> for T<X, W, S> {
    fn insert(&mut self, p: P) {
        SetPos::<P, W, S>::insert(&mut self.0, p)
    }
    fn remove(&mut self, p: &P) {
        SetPos::<P, W, S>::remove(&mut self.0, p)
    }
    fn set_to(&mut self, p: P, v: bool) {
        SetPos::<P, W, S>::set(&mut self.0, p, v)
    }
    fn has(&self, p: &P) -> bool {
        SetPos::<P, W, S>::contains(&self.0, p)
    }
}

type Made<P> = (fn(i32) -> Vec<Box<dyn Maps<P>>>, fn() -> Vec<Box<dyn Maps<P>>>, fn() -> Vec<Box<dyn Sets<P>>>);

fn new_maps<P: Place + Copy + Hash + Ord + 'static, const W: usize, const S: usize>(v: i32) -> Vec<Box<dyn Maps<P>>> {
    let mut all = sparse_maps::<P, W, S>(v);
    all.push(Box::new(M::<Grid<i32, P, S>, W, S>(<Grid<i32, P, S> as MapPos<i32, P, W, S>>::new(v))));
    all
}
fn sparse_maps<P: Place + Copy + Hash + Ord + 'static, const W: usize, const S: usize>(v: i32) -> Vec<Box<dyn Maps<P>>> {
    vec![
        Box::new(M::<(HashMap<P, i32>, i32), W, S>(<(HashMap<P, i32>, i32) as MapPos<i32, P, W, S>>::new(v))),
        Box::new(M::<(BTreeMap<P, i32>, i32), W, S>(<(BTreeMap<P, i32>, i32) as MapPos<i32, P, W, S>>::new(v))),
    ]
}
/// Default-constructed maps have the default value
fn default_maps<P: Place + Copy + Hash + Ord + 'static, const W: usize, const S: usize>() -> Vec<Box<dyn Maps<P>>> {
    let mut all = default_sparse_maps::<P, W, S>();
    all.push(Box::new(M::<Grid<i32, P, S>, W, S>(Default::default())));
    all
}
fn default_sparse_maps<P: Place + Copy + Hash + Ord + 'static, const W: usize, const S: usize>() -> Vec<Box<dyn Maps<P>>> {
    vec![
        Box::new(M::<(HashMap<P, i32>, i32), W, S>(Default::default())),
        Box::new(M::<(BTreeMap<P, i32>, i32), W, S>(Default::default())),
    ]
}
fn new_sets<P: Place + Copy + Hash + Ord + 'static, const W: usize, const S: usize>() -> Vec<Box<dyn Sets<P>>> {
    let mut all = sparse_sets::<P, W, S>();
    all.push(Box::new(T::<Gridbool<P, W>, W, S>(Default::default())));
    all
}
fn sparse_sets<P: Place + Copy + Hash + Ord + 'static, const W: usize, const S: usize>() -> Vec<Box<dyn Sets<P>>> {
    vec![Box::new(T::<HashSet<P>, W, S>(Default::default())), Box::new(T::<BTreeSet<P>, W, S>(Default::default()))]
}

/// All the backends
fn backends<P: Place + Copy + Hash + Ord + 'static, const W: usize, const S: usize>(rec: &mut Rec) {
    let m = match (S <= 300, rec.thorough) {
        (true, false) => 12,
        (true, true) => 80,
        (false, false) => 2,
        (false, true) => 6,
    };
    for k in 0..m {
        // Few positions in some of the sessions, all of them in others
        let focus: Vec<usize> = if S > 70000 {
            let mut v = far_cells(S, &mut rec.rng);
            for i in v.clone() {
                v.push(i % 65536);
            }
            v
        } else if k % 3 == 0 {
            some_cells(S, w::<P>(), 5, &mut rec.rng).into_iter().take(5).collect()
        } else {
            some_cells(S, w::<P>(), 300, &mut rec.rng)
        };
        let focus: Vec<(usize, P)> = focus.into_iter().map(|i| (i, at(i))).collect();
        let made: Made<P> = (new_maps::<P, W, S>, default_maps::<P, W, S>, new_sets::<P, W, S>);
        rec.begin("PosMaps", &[("ty", jstr(&P::name())), ("words", W.to_string()), ("n", S.to_string())]);
        stored(rec, &focus, k % 2 == 0, made);
    }
}

/// The backends for positions without indexes; cells are places in a list
fn sparse_backends<P: Place + Copy + Hash + Ord + 'static>(rec: &mut Rec) {
    for k in 0..if rec.thorough { 60 } else { 12 } {
        let (xl, yl) = (P::xlim(), P::ylim());
        let some = |l: (Big, Big), rec: &mut Rec| {
            let d = 1i128 << rec.rng.below(127);
            let near = if rec.rng.chance(1, 2) { rec.rng.below(4) as i128 } else { d - rec.rng.below(2) as i128 };
            let c = match rec.rng.below(4) {
                0 => l.0.plus(near).unwrap_or(l.0),
                1 => l.1.plus(-near).unwrap_or(l.1),
                2 => near.big(),
                _ => (-near).big(),
            };
            if l.0.le(c) && c.le(l.1) { c } else { l.1 }
        };
        let mut focus: Vec<P> = vec![];
        for _ in 0..if k % 3 == 0 { 5 } else { 40 } {
            let p = P::at(some(xl, rec), some(yl, rec)).unwrap();
            // What differs in one coordinate only, or has them swapped
            for q in [Some(p), P::at(p.xy().0, some(yl, rec)), P::at(some(xl, rec), p.xy().1), P::at(p.xy().1, p.xy().0)].into_iter().flatten() {
                if !focus.iter().any(|f| f.xy() == q.xy()) {
                    focus.push(q);
                }
            }
        }
        let focus: Vec<(usize, P)> = focus.into_iter().enumerate().collect();
        let made: Made<P> = (sparse_maps::<P, 1, 1>, default_sparse_maps::<P, 1, 1>, sparse_sets::<P, 1, 1>);
        let list = jarr(focus.iter().map(|(_, p)| p.json()));
        rec.begin("PosMaps", &[("ty", jstr(&P::name())), ("n", focus.len().to_string()), ("cells", list)]);
        stored(rec, &focus, k % 2 == 0, made);
    }
}

fn stored<P: Place + Copy + Hash + Ord + 'static>(rec: &mut Rec, focus: &[(usize, P)], default: bool, made: Made<P>) {
    let mut fresh = 0;
    let mut maps = if default { made.1() } else { made.0(0) };
    let mut sets = made.2();
    for step in 0..60 {
        let (i, p) = if step < 2 { focus[0] } else { *rec.rng.pick(focus) };
        let ps = i.to_string();
        fresh += 1;
        match rec.rng.below(40) {
            0 => {
                maps = made.0(fresh);
                rec.ev(&[("op", jstr("new")), ("v", fresh.to_string())]);
            }
            1 => {
                sets = made.2();
                rec.ev(&[("op", jstr("newset"))]);
            }
            2..=10 => {
                // Sometimes what is already there, or the initial value
                let v = if rec.rng.chance(1, 4) { 0 } else { fresh };
                for m in &mut maps {
                    m.put(p, v);
                }
                rec.ev(&[("op", jstr("put")), ("p", ps), ("v", v.to_string())]);
            }
            11..=19 => {
                let r = jarr(maps.iter().map(|m| guarded(|| m.get(&p).to_string())));
                rec.ev(&[("op", jstr("get")), ("p", ps), ("r", r)]);
            }
            20..=23 => {
                for s in &mut sets {
                    s.insert(p);
                }
                rec.ev(&[("op", jstr("insert")), ("p", ps)]);
            }
            24..=26 => {
                for s in &mut sets {
                    s.remove(&p);
                }
                rec.ev(&[("op", jstr("remove")), ("p", ps)]);
            }
            27..=30 => {
                let v = rec.rng.chance(1, 2);
                for s in &mut sets {
                    s.set_to(p, v);
                }
                rec.ev(&[("op", jstr("setto")), ("p", ps), ("v", v.to_string())]);
            }
            _ => {
                let r = jarr(sets.iter().map(|s| guarded(|| s.has(&p).to_string())));
                rec.ev(&[("op", jstr("contains")), ("p", ps), ("r", r)]);
            }
        }
    }
    // Everything
    for (i, p) in focus {
        let r = jarr(maps.iter().map(|m| guarded(|| m.get(p).to_string())));
        rec.ev(&[("op", jstr("get")), ("p", i.to_string()), ("r", r)]);
        let r = jarr(sets.iter().map(|s| guarded(|| s.has(p).to_string())));
        rec.ev(&[("op", jstr("contains")), ("p", i.to_string()), ("r", r)]);
    }
    rec.end();
}

/* Types ***********************************************************************/

macro_rules! places {
    ($m:ident) => {
        $m!(Pos<0, 0>, 1);
        $m!(Pos<1, 0>, 2);
        $m!(Pos<0, 1>, 2);
        $m!(Pos<6, 0>, 7);
        $m!(Pos<0, 7>, 8);
        $m!(Pos<2, 1>, 6);
        $m!(Pos<1, 3>, 8);
        $m!(Pos<3, 4>, 20);
        $m!(Pos<5, 2>, 18);
        $m!(Pos<30, 0>, 31);
        $m!(Pos<31, 0>, 32);
        $m!(Pos<0, 32>, 33);
        $m!(Pos<7, 3>, 32);
        $m!(Pos<4, 12>, 65);
        $m!(Pos<6, 8>, 63);
        $m!(Pos<11, 7>, 96);
        $m!(Pos<255, 0>, 256);
        $m!(Pos<0, 256>, 257);
        $m!(ByTuple, 35);
        $m!(ByCoords, 27);
    };
}
macro_rules! squares {
    ($m:ident) => {
        $m!(0, 1);
        $m!(1, 4);
        $m!(2, 9);
        $m!(3, 16);
        $m!(4, 25);
        $m!(5, 36);
        $m!(6, 49);
        $m!(7, 64);
        $m!(8, 81);
        $m!(9, 100);
    };
}
macro_rules! big {
    ($m:ident) => {
        $m!((u8, u8), 65536);
        $m!(Pos<300, 70>, 21371);
        $m!(Square8, 81);
    };
}

/// Cells where something too narrow may wrap around
fn far_cells(n: usize, rng: &mut Rng) -> Vec<usize> {
    let mut v = vec![n - 1, 0, 65535, 65536, 65537, n - 65536, n - 32, n - 33, n / 2, n / 2 + 1];
    v.extend([1 << 17, 1 << 18, 1 << 20, 1 << 21, (1 << 21) + 1, (1 << 21) + (1 << 16)]);
    for _ in 0..4 {
        v.push(rng.below(n));
    }
    v.retain(|i| *i < n);
    v
}

/// Grids with more positions than 16 bits can count
fn huge<P: Place + Copy + Hash + Ord, const S: usize>(rec: &mut Rec, t: Turns<Grid<i32, P, S>>) {
    let (wi, he) = (w::<P>(), h::<P>());
    let far = far_cells(S, &mut rec.rng);
    match rec.prop.as_str() {
        "C13" => {
            let mut s = Gs::<i32, P, S>::begin(rec);
            let from = s.rec.rng.below(DUMPS);
            for (k, i) in far.iter().enumerate() {
                s.write(at(*i), (k + from) % WRITES);
                s.read(at(*i % 65536), (k + from) % READS);
                s.read(at(*i), (k + from + 1) % READS);
            }
            for y in [0, he / 2, he - 1] {
                s.line(y);
            }
            s.dump(from);
            s.save();
            s.write(at(far[1]), 0);
            s.compare();
            s.overwrite(from % 5);
            s.dumppos();
            for (k, i) in far.iter().enumerate() {
                s.read(at(*i), k % READS);
            }
            s.neg();
            s.dump((from + 1) % DUMPS);
            s.repeat();
            s.read(at(far[0]), 0);
            s.rec.end();
            let mut s = Gs::<i32, P, S>::begin(rec);
            s.overwrite(0);
            s.scan(from % SCANS);
            s.rec.end();
        }
        "C14" => {
            let mut s = Gs::<i32, P, S>::begin(rec);
            for (n, how) in [(S, 0), (S, 1 + S % 3), (S - 65536, 0), (S + 1, 1), (S - 1, 2), (S + 65536, 0)] {
                s.collect(n, how);
                if n == S {
                    s.dump_any();
                }
            }
            let mut last = vec![0; he];
            last[he - 1] = wi;
            last[he / 2] = wi;
            let mut over = last.clone();
            over[he - 1] = wi + 1;
            let mut late = last.clone();
            late.push(1);
            let mut all = vec![last, over, late];
            if he < 1000 {
                all.push(vec![wi; he]);
            }
            for lens in all {
                s.extendlists(&lens);
                s.dump(0);
                s.fromlists(&lens);
                s.dump(1);
            }
            s.rec.end();
        }
        _ => {
            for sym in 0..if t.is_some() { 4 } else { 2 } {
                let mut s = Gs::<i32, P, S>::begin(rec);
                s.overwrite(4);
                s.transform(sym, t);
                s.dump(7);
                s.rec.end();
            }
        }
    }
}

/// Bit grids with more positions or words than 16 bits can count, where few are true
fn bits_huge<P: Place + Copy + Hash + Ord, const W: usize>(rec: &mut Rec, t: Turns<Gridbool<P, W>>) {
    let n = cells::<P>();
    let far = far_cells(n, &mut rec.rng);
    match rec.prop.as_str() {
        "C16" => {
            let mut s = Bs::<P, W>::begin(rec, 1);
            for (k, i) in far.iter().enumerate() {
                s.write(0, *i, true, k % 5);
                s.read(0, *i % 65536, k % 3);
                s.read(0, *i, (k + 1) % 3);
                s.dump(0, 5);
            }
            for (k, i) in far.iter().enumerate().skip(1) {
                s.write(0, *i, false, k % 5);
                s.read(0, *i, k % 3);
                if k % 4 == 0 {
                    s.dump(0, 5);
                }
            }
            s.bulk(0, &far, true);
            s.dump(0, 5);
            s.read(0, far[3], 5);
            s.bulk(0, &far[2..6], false);
            s.dump(0, 5);
            s.fromcells(0, &far);
            s.dump(0, 5);
            let row = far[0] / w::<P>() * w::<P>();
            let row: Vec<usize> = (row..row + w::<P>()).collect();
            s.fromcells(0, &row);
            s.dump(0, 5);
            if n < 100000 {
                s.dump(0, 0);
                s.dump(0, 6);
                s.fill(0, true, 1);
                s.write(0, far[0], false, 0);
                s.dump(0, 6);
                let v: Vec<bool> = (0..n).map(|_| s.rec.rng.chance(1, 30)).collect();
                s.frombools(0, &v);
                s.dump(0, 5);
                s.frombools(0, &v[..n - 65536]);
                s.frombools(0, &v[1..]);
                s.dump(0, 4);
            }
            s.rec.end();
        }
        "C17" => {
            for sym in 0..if t.is_some() { 4 } else { 2 } {
                let mut s = Bs::<P, W>::begin(rec, 1);
                let mut set = far.clone();
                for _ in 0..300 {
                    set.push(s.rec.rng.below(n));
                }
                s.fromcells(0, &set);
                s.transform(0, sym, t);
                s.dump(0, 5);
                s.rec.end();
            }
        }
        _ => {
            let mut s = Bs::<P, W>::begin(rec, 5);
            for i in &far {
                s.write(0, *i, true, 0);
            }
            s.fromcells(1, &far);
            s.copy(1, 2);
            s.compare();
            for i in far.iter().take(6) {
                s.write(2, *i, false, 0);
                s.write(3, *i, true, 1);
                s.compare();
                s.write(2, *i, true, 0);
                s.write(3, *i, false, 2);
            }
            s.compare();
            s.rec.end();
        }
    }
}

type GridFn<V, P, const S: usize> = fn(&mut Rec, Turns<Grid<V, P, S>>);

fn main() {
    // Grids are values: large ones need a large stack
    let t = std::thread::Builder::new().stack_size(1 << 28).spawn(sessions).expect("a thread");
    if t.join().is_err() {
        std::process::exit(101);
    }
}

fn sessions() {
    let mut recorder = Rec::from_args();
    let rec = &mut recorder;
    let prop = rec.prop.clone();
    match prop.as_str() {
        "C13" | "C14" | "C15" => {
            fn run<V: Val, P: Place + Copy + Hash + Ord, const S: usize>(rec: &mut Rec, t: Turns<Grid<V, P, S>>) {
                let f: GridFn<V, P, S> = match rec.prop.as_str() {
                    "C13" => grid_access,
                    "C14" => grid_load,
                    _ => grid_turn,
                };
                f(rec, t)
            }
            macro_rules! one {
                ($p:ty, $s:expr) => {
                    run::<i32, $p, { $s }>(rec, None);
                };
            }
            macro_rules! heap {
                ($p:ty, $s:expr) => {
                    run::<String, $p, { $s }>(rec, None);
                };
            }
            macro_rules! square {
                ($m:expr, $s:expr) => {
                    run::<i32, Pos<$m, $m>, { $s }>(
                        rec,
                        Some((Grid::<i32, Pos<$m, $m>, { $s }>::rotate_cw, Grid::<i32, Pos<$m, $m>, { $s }>::rotate_cc)),
                    );
                };
            }
            places!(one);
            big!(one);
            squares!(square);
            heap!(Pos<0, 0>, 1);
            heap!(Pos<3, 4>, 20);
            heap!(ByCoords, 27);
            run::<i8, Pos<4, 2>, 15>(rec, None);
            run::<String, Pos<4, 4>, 25>(rec, Some((Grid::<String, Pos<4, 4>, 25>::rotate_cw, Grid::<String, Pos<4, 4>, 25>::rotate_cc)));
            run::<i32, Pos<70, 70>, 5041>(rec, Some((Grid::<i32, Pos<70, 70>, 5041>::rotate_cw, Grid::<i32, Pos<70, 70>, 5041>::rotate_cc)));
            huge::<Pos<2, 29999>, 90000>(rec, None);
            huge::<Pos<299, 299>, 90000>(rec, Some((Grid::<i32, Pos<299, 299>, 90000>::rotate_cw, Grid::<i32, Pos<299, 299>, 90000>::rotate_cc)));
            run::<i32, Pos<99, 99>, 10000>(rec, Some((Grid::<i32, Pos<99, 99>, 10000>::rotate_cw, Grid::<i32, Pos<99, 99>, 10000>::rotate_cc)));
        }
        "C16" | "C17" | "C18" => {
            fn run<P: Place + Copy + Hash + Ord, const W: usize>(rec: &mut Rec, t: Turns<Gridbool<P, W>>) {
                match rec.prop.as_str() {
                    "C16" => bits_access(rec, t),
                    "C17" => bits_turn(rec, t),
                    _ => bits_same(rec, t),
                }
            }
            // As few words as possible, and as many as possible
            macro_rules! one {
                ($p:ty, $s:expr) => {
                    run::<$p, { ($s + 31) / 32 }>(rec, None);
                    if ($s + 31) / 32 != $s / 32 + 1 {
                        run::<$p, { $s / 32 + 1 }>(rec, None);
                    }
                };
            }
            macro_rules! square {
                ($m:expr, $s:expr) => {
                    run::<Pos<$m, $m>, { ($s + 31) / 32 }>(
                        rec,
                        Some((
                            Gridbool::<Pos<$m, $m>, { ($s + 31) / 32 }>::rotate_cw,
                            Gridbool::<Pos<$m, $m>, { ($s + 31) / 32 }>::rotate_cc,
                        )),
                    );
                };
            }
            places!(one);
            big!(one);
            squares!(square);
            run::<Pos<7, 7>, 3>(rec, Some((Gridbool::<Pos<7, 7>, 3>::rotate_cw, Gridbool::<Pos<7, 7>, 3>::rotate_cc)));
            run::<Pos<15, 15>, 8>(rec, Some((Gridbool::<Pos<15, 15>, 8>::rotate_cw, Gridbool::<Pos<15, 15>, 8>::rotate_cc)));
            bits_huge::<Pos<2, 29999>, 2813>(rec, None);
            bits_huge::<Pos<1999, 1299>, 81251>(rec, None);
            bits_huge::<Pos<65535, 31>, 65536>(rec, None);
            bits_huge::<Pos<299, 299>, 2813>(rec, Some((Gridbool::<Pos<299, 299>, 2813>::rotate_cw, Gridbool::<Pos<299, 299>, 2813>::rotate_cc)));
            run::<Pos<70, 70>, 158>(rec, Some((Gridbool::<Pos<70, 70>, 158>::rotate_cw, Gridbool::<Pos<70, 70>, 158>::rotate_cc)));
        }
        "C19" => {
            macro_rules! one {
                ($p:ty, $s:expr) => {
                    backends::<$p, { ($s + 31) / 32 }, { $s }>(rec);
                    if ($s + 31) / 32 != $s / 32 + 1 {
                        backends::<$p, { $s / 32 + 1 }, { $s }>(rec);
                    }
                };
            }
            macro_rules! square {
                ($m:expr, $s:expr) => {
                    backends::<Pos<$m, $m>, { ($s + 31) / 32 }, { $s }>(rec);
                };
            }
            places!(one);
            big!(one);
            squares!(square);
            backends::<Pos<299, 299>, 2813, 90000>(rec);
            sparse_backends::<Around>(rec);
            sparse_backends::<Pos<65535, 65535>>(rec);
            sparse_backends::<(u8, u8)>(rec);
            sparse_backends::<(i8, i8)>(rec);
            sparse_backends::<(u16, u16)>(rec);
            sparse_backends::<(i16, i16)>(rec);
            sparse_backends::<(i32, i32)>(rec);
            sparse_backends::<(u32, u32)>(rec);
            sparse_backends::<(u64, u64)>(rec);
            sparse_backends::<(u128, u128)>(rec);
        }
        _ => {
            eprintln!("no sessions for {}", prop);
            std::process::exit(2);
        }
    }
    recorder.finish();
}
