//! Driver for corridors that are as long as can be: C20 to C24, C26 and C30.

use harness::geom::*;
use harness::*;
use sqrid::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use std::ops::Add;

type HMap<P, T> = (HashMap<P, T>, T);
type BMap<P, T> = (BTreeMap<P, T>, T);

trait Ground: Place + Ord + Hash + Copy + Add<Dir, Output = Result<Self, Error>> {}
impl<P: Place + Ord + Hash + Copy + Add<Dir, Output = Result<P, Error>>> Ground for P {}

#[derive(Clone, Copy)]
struct Corridor {
    len: usize,
    count: usize,
    down: bool,
    reach: usize,
    cost: usize,
}

impl Corridor {
    fn size(&self) -> usize {
        self.len * self.count
    }
    fn xy(&self, k: usize) -> (usize, usize) {
        let (line, along) = (k / self.len, k % self.len);
        let across = if line % 2 == 0 { along } else { self.len - 1 - along };
        if self.down {
            (line, across)
        } else {
            (across, line)
        }
    }
    fn at<P: Place>(&self, k: usize) -> P {
        let (x, y) = self.xy(k);
        let (xl, yl) = (P::xlim().0, P::ylim().0);
        P::at(xl.plus(x as i128).unwrap(), yl.plus(y as i128).unwrap()).expect("a position of the corridor")
    }
    fn k<P: Place>(&self, p: P) -> Option<usize> {
        let (x, y) = p.xy();
        let (x, y) = (P::xlim().0.dist(x) as usize, P::ylim().0.dist(y) as usize);
        let (line, across) = if self.down { (x, y) } else { (y, x) };
        let along = if line % 2 == 0 { across } else { self.len.checked_sub(1 + across)? };
        (line < self.count && along < self.len).then_some(line * self.len + along)
    }
    /// Number of the direction from k to k + 1
    fn towards(&self, k: usize) -> u8 {
        let line = k / self.len;
        match (k % self.len == self.len - 1, line % 2 == 0, self.down) {
            (true, _, false) => 4,
            (true, _, true) => 2,
            (false, true, false) => 2,
            (false, true, true) => 4,
            (false, false, false) => 6,
            (false, false, true) => 0,
        }
    }
    fn step<P: Ground>(&self, p: P, d: Dir) -> Option<P> {
        let k = self.k(p)?;
        let n = dnum(d) as u8;
        let ahead = k < self.reach && self.towards(k) == n;
        let back = k > 0 && k <= self.reach && (self.towards(k - 1) + 4) % 8 == n;
        if ahead || back {
            (p + d).ok()
        } else {
            None
        }
    }
    fn begin(&self, rec: &mut Rec, at: i64, via: &str) {
        rec.begin(
            "Meander",
            &[
                ("len", self.len.to_string()),
                ("count", self.count.to_string()),
                ("down", self.down.to_string()),
                ("reach", self.reach.to_string()),
                ("at", at.to_string()),
                ("via", jstr(via)),
            ],
        );
    }
}

fn runs(path: &[Dir]) -> String {
    let mut v: Vec<(usize, u8)> = vec![];
    for d in path {
        let d = dnum(*d) as u8;
        match v.last_mut() {
            Some(l) if l.1 == d => l.0 += 1,
            _ => v.push((1, d)),
        }
    }
    // A path that is this crooked is wrong anyway
    v.truncate(5000);
    jarr(v.iter().map(|(n, d)| format!("[{n},{d}]")))
}

/// Record an iteration as runs of positions that are one step ahead each
fn iteration<P: Ground>(rec: &mut Rec, c: &Corridor, begins: bool, items: &mut dyn Iterator<Item = Vec<(P, Dir)>>) {
    rec.about(&[("op", jstr("run"))]);
    let mut last: Option<P> = (!begins).then(|| c.at(0));
    let mut run: Option<(usize, u8, u8)> = None;
    let mut steps = 0;
    let done = attempt(|| loop {
        let item = items.next();
        steps += 1;
        let mut odd = steps > c.size() + 3;
        let mut begin = false;
        let mut next = None;
        match item.as_deref() {
            Some([(p, d)]) => {
                let step = last.and_then(|l| dirs().into_iter().find(|d| l + *d == Ok(*p)));
                match (last, step) {
                    (None, _) if *p == c.at(0) => begin = true,
                    (_, Some(s)) => next = Some((dnum(s) as u8, dnum(*d) as u8)),
                    _ => odd = true,
                }
                last = Some(*p);
            }
            Some(_) => odd = true,
            None => {}
        }
        match (&mut run, next) {
            (Some((n, a, b)), Some((x, y))) if (*a, *b) == (x, y) => *n += 1,
            _ => {
                if let Some((n, d, back)) = run.take() {
                    rec.ev(&[("op", jstr("run")), ("n", n.to_string()), ("d", d.to_string()), ("back", back.to_string())]);
                }
                run = next.map(|(d, back)| (1, d, back));
            }
        }
        if begin {
            rec.ev(&[("op", jstr("begin"))]);
        }
        if odd {
            rec.ev(&[("op", jstr("odd")), ("n", item.map_or(0, |l| l.len()).to_string()), ("step", steps.to_string())]);
            break;
        }
        if item.is_none() {
            rec.ev(&[("op", jstr("end"))]);
            break;
        }
    });
    if done.is_none() {
        rec.ev(&[("op", jstr("panic"))]);
    }
}

fn one<P: Ground>(it: impl Iterator<Item = (P, Dir)>) -> impl Iterator<Item = Vec<(P, Dir)>> {
    it.map(|i| vec![i])
}

fn jpath(f: impl FnOnce() -> Result<Vec<Dir>, Error>) -> String {
    guarded(|| match f() {
        Ok(v) => format!("[\"ok\",{}]", runs(&v)),
        Err(e) => err_name(e),
    })
}

/// The backends that can be used for grids of any size
fn sparse<P: Ground, const XM: u16, const YM: u16, const D: bool, const W: usize, const S: usize>(rec: &mut Rec, c: &Corridor) {
    let c = *c;
    let go = move |p: P, d: Dir| c.step(p, d);
    let cgo = move |p: P, d: Dir| c.step(p, d).map(|p| (p, c.cost));
    let o: P = c.at(0);
    let mut asked = vec![c.reach, c.reach + 1, c.reach / 2, c.size() - 1, 0];
    // Lengths at which something small may overflow
    for b in [7, 8, 9, 10, 12, 15, 16] {
        if b < 10 || rec.thorough && c.size() < 70000 || rec.rng.chance(1, 3) {
            asked.extend([(1 << b) - 1, 1 << b, (1 << b) + 1]);
        }
    }
    match rec.prop.as_str() {
        "C20" => {
            c.begin(rec, 0, "hash");
            iteration(rec, &c, false, &mut Sqrid::<XM, YM, D, W, S>::bf_iter_hash::<P, _>(go, &o));
            rec.end();
            c.begin(rec, 0, "btree");
            iteration(rec, &c, false, &mut Sqrid::<XM, YM, D, W, S>::bf_iter_btree::<P, _>(go, &o));
            rec.end();
        }
        "C23" => {
            c.begin(rec, -1, "hash");
            iteration(rec, &c, true, &mut one(ucs::UcsIterator::<_, HMap<P, usize>, P, D, W, S>::new(cgo, &o)));
            rec.end();
            c.begin(rec, -1, "btree");
            iteration(rec, &c, true, &mut one(ucs::UcsIterator::<_, BMap<P, usize>, P, D, W, S>::new(cgo, &o)));
            rec.end();
        }
        "C30" => {
            for (k, via) in [(c.size() - 1, "hash"), (c.reach / 2, "btree")] {
                c.begin(rec, -1, via);
                let dest = c.at(k);
                if via == "hash" {
                    iteration(rec, &c, true, &mut one(astar::AstarIterator::<_, HMap<P, usize>, P, D, W, S>::new(go, &o, &dest)));
                } else {
                    iteration(rec, &c, true, &mut one(astar::AstarIterator::<_, BMap<P, usize>, P, D, W, S>::new(go, &o, &dest)));
                }
                rec.end();
            }
        }
        "C21" | "C22" | "C24" => {
            let prop = rec.prop.clone();
            c.begin(rec, -1, "hash, btree");
            for (i, k) in asked.into_iter().enumerate().filter(|a| a.1 < c.size()) {
                let dest: P = c.at(k);
                let hash = if i < 5 { (i % 2 == 0) == c.down } else { rec.rng.chance(1, 2) };
                let op = match prop.as_str() {
                    "C21" => "bfs",
                    "C22" => "astar",
                    _ => "ucs",
                };
                rec.about(&[("op", jstr(op)), ("k", k.to_string())]);
                let r = match prop.as_str() {
                    "C21" => guarded(|| {
                        let r = if hash {
                            Sqrid::<XM, YM, D, W, S>::bfs_path_hash::<P, _, _>(go, &o, |p| p == dest)
                        } else {
                            Sqrid::<XM, YM, D, W, S>::bfs_path_btree::<P, _, _>(go, &o, |p| p == dest)
                        };
                        match r {
                            Ok((p, v)) => format!("[\"ok\",{},{}]", c.k(p).map_or(-1, |k| k as i64), runs(&v)),
                            Err(e) => err_name(e),
                        }
                    }),
                    "C22" if hash => jpath(|| Sqrid::<XM, YM, D, W, S>::astar_path_hash::<_, P>(go, &o, &dest)),
                    "C22" => jpath(|| Sqrid::<XM, YM, D, W, S>::astar_path_btree::<_, P>(go, &o, &dest)),
                    _ if hash => jpath(|| Sqrid::<XM, YM, D, W, S>::ucs_path_hash::<_, P>(cgo, &o, &dest)),
                    _ => jpath(|| Sqrid::<XM, YM, D, W, S>::ucs_path_btree::<_, P>(cgo, &o, &dest)),
                };
                rec.ev(&[("op", jstr(op)), ("k", k.to_string()), ("r", r)]);
            }
            rec.end();
        }
        "C26" => {
            let back = |m: &mut dyn FnMut(P, Dir)| {
                for k in 1..=c.reach {
                    m(c.at(k), dirs()[(c.towards(k - 1) as usize + 4) % 8]);
                }
            };
            let all = c.reach;
            c.begin(rec, -1, "hash, btree");
            for k in asked.into_iter().skip(5).filter(|k| *k <= c.reach) {
                rec.about(&[("op", jstr("traced")), ("k", k.to_string())]);
                let r = jpath(|| {
                    let mut m: HMap<P, Option<Dir>> = (HashMap::new(), None);
                    back(&mut |p, d| {
                        m.0.insert(p, Some(d));
                    });
                    Sqrid::<XM, YM, D, W, S>::camefrom_into_path(m, &o, &c.at(k))
                });
                rec.ev(&[("op", jstr("traced")), ("k", k.to_string()), ("r", r)]);
            }
            for (op, first) in [("traced", None), ("circled", Some(c.towards(0))), ("left", Some(6 - c.towards(0)))] {
                if op != "traced" && c.reach + 1 == c.size() {
                    continue;
                }
                // What is at position 0 matters if the trail goes on from there
                let first = match op {
                    "left" => Some(if c.down { 6 } else { 0 }),
                    _ => first,
                };
                let target: P = if op == "traced" { o } else { c.at(c.reach + 1) };
                rec.about(&[("op", jstr(op))]);
                let r = jpath(|| {
                    let mut m: HMap<P, Option<Dir>> = (HashMap::new(), None);
                    back(&mut |p, d| {
                        m.0.insert(p, Some(d));
                    });
                    if let Some(f) = first {
                        m.0.insert(o, Some(dirs()[f as usize]));
                    }
                    Sqrid::<XM, YM, D, W, S>::camefrom_into_path(m, &target, &c.at(all))
                });
                rec.ev(&[("op", jstr(op)), ("k", all.to_string()), ("r", r)]);
                rec.about(&[("op", jstr(op))]);
                let r = jpath(|| {
                    let mut m: BMap<P, Option<Dir>> = (BTreeMap::new(), None);
                    back(&mut |p, d| {
                        m.0.insert(p, Some(d));
                    });
                    if let Some(f) = first {
                        m.0.insert(o, Some(dirs()[f as usize]));
                    }
                    camefrom_into_path::<_, P, W, S>(m, &target, &c.at(all))
                });
                rec.ev(&[("op", jstr(op)), ("k", all.to_string()), ("r", r)]);
            }
            // From a position straight to the next line, round and round
            let mut shorts = vec![0, c.reach, c.len - 1, c.len / 2, c.reach / 2];
            shorts.extend((0..if rec.thorough && c.size() < 70000 { 20 } else { 4 }).map(|_| rec.rng.below(c.reach + 1)));
            for (i, j) in shorts.into_iter().enumerate() {
                if j > c.reach || j / c.len + 1 >= c.count || c.reach + 1 == c.size() {
                    continue;
                }
                let target: P = c.at(c.reach + 1);
                let k = [c.reach, j + (c.reach - j) / 2, j][i % 3];
                let across = dirs()[if c.down { 2 } else { 4 }];
                rec.about(&[("op", jstr("shortcut")), ("k", k.to_string()), ("j", j.to_string())]);
                let r = if i % 2 == 0 {
                    let mut m: HMap<P, Option<Dir>> = (HashMap::new(), None);
                    back(&mut |p, d| {
                        m.0.insert(p, Some(d));
                    });
                    m.0.insert(c.at(j), Some(across));
                    jpath(|| Sqrid::<XM, YM, D, W, S>::camefrom_into_path(m, &target, &c.at(k)))
                } else {
                    let mut m: BMap<P, Option<Dir>> = (BTreeMap::new(), None);
                    back(&mut |p, d| {
                        m.0.insert(p, Some(d));
                    });
                    m.0.insert(c.at(j), Some(across));
                    jpath(|| camefrom_into_path::<_, P, W, S>(m, &target, &c.at(k)))
                };
                rec.ev(&[("op", jstr("shortcut")), ("k", k.to_string()), ("j", j.to_string()), ("r", r)]);
            }
            rec.end();
        }
        p => {
            eprintln!("no sessions for {p}");
            std::process::exit(2);
        }
    }
}

/// Those that have a place for each position
fn dense<P: Ground, const XM: u16, const YM: u16, const D: bool, const W: usize, const S: usize>(rec: &mut Rec, c: &Corridor) {
    let c = *c;
    let go = move |p: P, d: Dir| c.step(p, d);
    let cgo = move |p: P, d: Dir| c.step(p, d).map(|p| (p, c.cost));
    let o: P = c.at(0);
    let last: P = c.at(c.reach);
    c.begin(rec, if matches!(rec.prop.as_str(), "C23" | "C30") { -1 } else { 0 }, "grid");
    match rec.prop.as_str() {
        "C20" => iteration(rec, &c, false, &mut Sqrid::<XM, YM, D, W, S>::bf_iter::<P, _>(go, &o)),
        "C23" => iteration(rec, &c, true, &mut one(ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(cgo, &o))),
        "C30" => iteration(rec, &c, true, &mut one(astar::AstarIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, &o, &last))),
        "C21" => {
            rec.about(&[("op", jstr("bfs"))]);
            let r = guarded(|| match Sqrid::<XM, YM, D, W, S>::bfs_path::<P, _, _>(go, &o, |p| p == last) {
                Ok((p, v)) => format!("[\"ok\",{},{}]", c.k(p).map_or(-1, |k| k as i64), runs(&v)),
                Err(e) => err_name(e),
            });
            rec.ev(&[("op", jstr("bfs")), ("k", c.reach.to_string()), ("r", r)]);
        }
        "C22" => {
            rec.about(&[("op", jstr("astar"))]);
            let r = jpath(|| Sqrid::<XM, YM, D, W, S>::astar_path::<_, P>(go, &o, &last));
            rec.ev(&[("op", jstr("astar")), ("k", c.reach.to_string()), ("r", r)]);
        }
        "C24" => {
            rec.about(&[("op", jstr("ucs"))]);
            let r = jpath(|| Sqrid::<XM, YM, D, W, S>::ucs_path::<_, P>(cgo, &o, &last));
            rec.ev(&[("op", jstr("ucs")), ("k", c.reach.to_string()), ("r", r)]);
        }
        _ => {
            rec.about(&[("op", jstr("traced"))]);
            let r = jpath(|| {
                let mut m = Grid::<Option<Dir>, P, S>::repeat(None);
                for k in 1..=c.reach {
                    m[c.at::<P>(k)] = Some(dirs()[(c.towards(k - 1) as usize + 4) % 8]);
                }
                Sqrid::<XM, YM, D, W, S>::camefrom_into_path(m, &o, &last)
            });
            rec.ev(&[("op", jstr("traced")), ("k", c.reach.to_string()), ("r", r)]);
        }
    }
    rec.end();
}

fn corridors(rec: &mut Rec, w: usize, h: usize) -> Vec<Corridor> {
    let mut v = vec![];
    for down in [false, true] {
        let (len, count) = if down { (h, w) } else { (w, h) };
        // Lines of less than two positions don't turn, short ones only turn
        if len < 2 || len < 16 && count > 16 {
            continue;
        }
        let size = len * count;
        let some = [size - 1 - rec.rng.below(2), rec.rng.below(size), size - 1, size - 2, size / 2, len.min(size - 1)];
        let n = match (rec.thorough, size < 140000) {
            (true, true) => 6,
            (true, false) => 2,
            _ => 1,
        };
        for reach in some.into_iter().take(n) {
            let most = usize::MAX / size;
            let cost = [1, 1 << 20, 1 << 40, most, 0][rec.rng.below(5)].min(most);
            v.push(Corridor { len, count, down, reach, cost });
        }
    }
    v
}

macro_rules! whole {
    ($rec:expr, $($xm:literal $ym:literal $d:literal $p:ty),* $(,)?) => {{ $(
        for c in corridors($rec, $xm + 1, $ym + 1) {
            const S: usize = ($xm + 1) * ($ym + 1);
            sparse::<$p, $xm, $ym, $d, { S / 32 + 1 }, S>($rec, &c);
            dense::<$p, $xm, $ym, $d, { (S + 31) / 32 }, S>($rec, &c);
        }
    )* }};
}
macro_rules! part {
    ($rec:expr, $($w:literal $h:literal $d:literal $p:ty),* $(,)?) => {{ $(
        for c in corridors($rec, $w, $h) {
            sparse::<$p, 0, 0, $d, 1, 1>($rec, &c);
        }
    )* }};
}

fn voyages() {
    let mut rec = Rec::from_args();
    let r = &mut rec;
    whole!(r, 9 0 true Pos<9, 0>, 65535 1 false Pos<65535, 1>, 2 29999 true Pos<2, 29999>, 299 299 false Pos<299, 299>);
    part!(r, 40000 2 true Pos<65535, 65535>, 3 50000 false (u16, u16), 256 256 true (u8, u8), 256 256 false (i8, i8), 300 2 true (u64, u64));
    if r.thorough {
        whole!(r, 65535 2 true Pos<65535, 2>, 511 700 true Pos<511, 700>);
        part!(r, 70000 5 false (u32, u32), 600 600 false (u16, u16));
    }
    rec.finish();
}

fn main() {
    // Grids are values: large ones need a large stack
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(voyages).expect("a thread");
    if t.join().is_err() {
        std::process::exit(101);
    }
}
