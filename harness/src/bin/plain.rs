//! Driver for large grids without obstacles: C20 to C24 and C30.

use harness::geom::*;
use harness::*;
use sqrid::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::ops::Add;

type HMap<P, T> = (HashMap<P, T>, T);
type BMap<P, T> = (BTreeMap<P, T>, T);
type Path = Result<Vec<Dir>, Error>;

trait Ground: Place + Ord + Hash + Copy + Add<Dir, Output = Result<Self, Error>> {}
impl<P: Place + Ord + Hash + Copy + Add<Dir, Output = Result<P, Error>>> Ground for P {}

struct Plain<P> {
    w: usize,
    h: usize,
    diag: bool,
    o: P,
    cost: usize,
}

fn xy<P: Place>(p: P) -> (i64, i64) {
    let (x, y) = p.xy();
    (x.mag as i64, y.mag as i64)
}
fn at<P: Place>(x: usize, y: usize) -> P {
    P::at(x.big(), y.big()).expect("a position of the grid")
}

impl<P: Ground> Plain<P> {
    fn step(&self, p: P, d: Dir) -> Option<P> {
        // The grid may be a part of what the type can hold
        let p = (p + d).ok()?;
        let (x, y) = xy(p);
        (x < self.w as i64 && y < self.h as i64).then_some(p)
    }
    fn begin(&self, rec: &mut Rec, way: usize) {
        let (x, y) = xy(self.o);
        let p = [
            ("w", self.w.to_string()),
            ("h", self.h.to_string()),
            ("diag", self.diag.to_string()),
            ("ox", x.to_string()),
            ("oy", y.to_string()),
            ("via", way.to_string()),
        ];
        rec.begin("Plain", &p);
    }
}

fn runs(path: &[Dir]) -> String {
    let mut v: Vec<(usize, u8)> = vec![];
    for d in path {
        let d = dnum(*d) as u8;
        match v.last_mut() {
            Some(l) if l.1 == d => l.0 += 1,
            _ => v.push((1, d)),
        }
    }
    jarr(v.iter().map(|(n, d)| format!("[{n},{d}]")))
}

fn layers<P: Ground>(rec: &mut Rec, c: &Plain<P>, it: &mut dyn Iterator<Item = Vec<(P, Dir)>>) {
    rec.about(&[("op", jstr("layer"))]);
    let done = attempt(|| {
        for _ in 0..c.w + c.h + 3 {
            let Some(l) = it.next() else {
                rec.ev(&[("op", jstr("end"))]);
                break;
            };
            let items = l.iter().map(|(p, d)| format!("[{},{},{}]", xy(*p).0, xy(*p).1, dnum(*d)));
            rec.ev(&[("op", jstr("layer")), ("r", jarr(items))]);
        }
    });
    if done.is_none() {
        rec.ev(&[("op", jstr("panic"))]);
    }
}

fn order<P: Ground>(rec: &mut Rec, c: &Plain<P>, op: &str, it: &mut dyn Iterator<Item = (P, Dir)>) {
    rec.about(&[("op", jstr(op))]);
    let n = c.w * c.h;
    let done = attempt(|| {
        let v: Vec<(usize, u8)> = it.take(n + 1).map(|(p, d)| ((xy(p).1 * c.w as i64 + xy(p).0) as usize, dnum(d) as u8)).collect();
        let mut ranks = vec![0; n];
        for (i, (p, _)) in v.iter().enumerate() {
            if let Some(r) = ranks.get_mut(*p) {
                *r = i + 1;
            }
        }
        rec.ev(&[
            ("op", jstr(op)),
            ("cells", jints(v.iter().map(|i| i.0))),
            ("backs", jints(v.iter().map(|i| i.1))),
            ("ranks", jints(ranks)),
        ]);
    });
    if done.is_none() {
        rec.ev(&[("op", jstr("panic"))]);
    }
}

/// What can be done only where the grid is all that the type can hold
macro_rules! pick {
    (dense, $a:expr $(, $b:expr)?) => {
        $a
    };
    (sparse, $a:expr) => {
        unreachable!()
    };
    (sparse, $a:expr, $b:expr) => {
        $b
    };
}

macro_rules! sessions {
    ($name:ident $dense:tt) => {
        fn $name<P: Ground, const XM: u16, const YM: u16, const D: bool, const W: usize, const S: usize>(rec: &mut Rec, w: usize, h: usize) {
            let prop = rec.prop.clone();
            let kinds = pick!($dense, 3, 2);
            let origins = [(0, 0), (w - 1, h - 1), (w / 2, h / 2), (rec.rng.below(w), rec.rng.below(h)), (w - 1, 0), (rec.rng.below(w), 0)];
            let most = if rec.thorough { 6 } else { 3 };
            let first = rec.rng.below(6);
            for n in 0..most {
                let (x, y) = origins[(first + n) % 6];
                let c = Plain::<P> { w, h, diag: D, o: at(x, y), cost: [1, 7, 1 << 33, usize::MAX / (w * h)][rec.rng.below(4)] };
                let way = (n + rec.rng.below(kinds)) % kinds;
                let go = |p: P, d: Dir| c.step(p, d);
                let cgo = |p: P, d: Dir| c.step(p, d).map(|p| (p, c.cost));
                let o = c.o;
                c.begin(rec, way);
                match prop.as_str() {
                    "C20" => match way {
                        0 => layers(rec, &c, &mut bf::bf_iter::<_, HashSet<P>, P, D, W, S>(go, &o)),
                        1 => layers(rec, &c, &mut bf::bf_iter::<_, BTreeSet<P>, P, D, W, S>(go, &o)),
                        _ => pick!($dense, layers(rec, &c, &mut Sqrid::<XM, YM, D, W, S>::bf_iter::<P, _>(go, &o))),
                    },
                    "C23" => match way {
                        0 => order(rec, &c, "costorder", &mut ucs::UcsIterator::<_, HMap<P, usize>, P, D, W, S>::new(cgo, &o)),
                        1 => order(rec, &c, "costorder", &mut ucs::UcsIterator::<_, BMap<P, usize>, P, D, W, S>::new(cgo, &o)),
                        _ => pick!($dense, order(rec, &c, "costorder", &mut ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(cgo, &o))),
                    },
                    "C30" => {
                        let dest = at(rec.rng.below(w), rec.rng.below(h));
                        match way {
                            0 => order(rec, &c, "order", &mut astar::AstarIterator::<_, HMap<P, usize>, P, D, W, S>::new(go, &o, &dest)),
                            1 => order(rec, &c, "order", &mut astar::AstarIterator::<_, BMap<P, usize>, P, D, W, S>::new(go, &o, &dest)),
                            _ => pick!($dense, order(rec, &c, "order", &mut astar::AstarIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(go, &o, &dest))),
                        }
                    }
                    "C22" | "C24" => {
                        for k in 0..if rec.thorough { 6 } else { 2 } {
                            let (x, y) = if k == 0 { (w - 1 - xy(o).0 as usize, h - 1 - xy(o).1 as usize) } else { (rec.rng.below(w), rec.rng.below(h)) };
                            let dest = at(x, y);
                            let call = [("op", jstr("path")), ("x", x.to_string()), ("y", y.to_string())];
                            rec.about(&call);
                            let r = guarded(|| {
                                let r: Path = match (prop == "C22", way) {
                                    (true, 0) => Sqrid::<XM, YM, D, W, S>::astar_path_hash::<_, P>(go, &o, &dest),
                                    (true, 1) => Sqrid::<XM, YM, D, W, S>::astar_path_btree::<_, P>(go, &o, &dest),
                                    (true, _) => pick!($dense, Sqrid::<XM, YM, D, W, S>::astar_path::<_, P>(go, &o, &dest)),
                                    (_, 0) => Sqrid::<XM, YM, D, W, S>::ucs_path_hash::<_, P>(cgo, &o, &dest),
                                    (_, 1) => Sqrid::<XM, YM, D, W, S>::ucs_path_btree::<_, P>(cgo, &o, &dest),
                                    _ => pick!($dense, Sqrid::<XM, YM, D, W, S>::ucs_path::<_, P>(cgo, &o, &dest)),
                                };
                                match r {
                                    Ok(v) => format!("[\"ok\",{}]", runs(&v)),
                                    Err(e) => err_name(e),
                                }
                            });
                            let [a, b, d] = call;
                            rec.ev(&[a, b, d, ("r", r)]);
                        }
                    }
                    "C21" => {
                        for k in 0..if rec.thorough { 6 } else { 2 } {
                            let count = [1, 2, 5][rec.rng.below(3)];
                            let mut goals: Vec<P> = (0..count).map(|_| at(rec.rng.below(w), rec.rng.below(h))).collect();
                            if k == 0 {
                                goals = vec![at(w - 1 - xy(o).0 as usize, h - 1 - xy(o).1 as usize)];
                            }
                            let found = |p: P| goals.contains(&p);
                            let list = jarr(goals.iter().map(|g| format!("[{},{}]", xy(*g).0, xy(*g).1)));
                            let call = [("op", jstr("nearest")), ("goals", list)];
                            rec.about(&call);
                            let r = guarded(|| {
                                let r = match way {
                                    0 => Sqrid::<XM, YM, D, W, S>::bfs_path_hash::<P, _, _>(go, &o, found),
                                    1 => Sqrid::<XM, YM, D, W, S>::bfs_path_btree::<P, _, _>(go, &o, found),
                                    _ => pick!($dense, Sqrid::<XM, YM, D, W, S>::bfs_path::<P, _, _>(go, &o, found)),
                                };
                                match r {
                                    Ok((p, v)) => format!("[\"ok\",{},[{},{}]]", runs(&v), xy(p).0, xy(p).1),
                                    Err(e) => err_name(e),
                                }
                            });
                            let [a, b] = call;
                            rec.ev(&[a, b, ("r", r)]);
                        }
                    }
                    p => {
                        eprintln!("no sessions for {p}");
                        std::process::exit(2);
                    }
                }
                rec.end();
            }
        }
    };
}

sessions!(whole dense);
sessions!(part sparse);

macro_rules! whole {
    ($rec:expr, $($xm:literal $ym:literal $p:ty),* $(,)?) => {{ $(
        whole::<$p, $xm, $ym, false, { ($xm + 1) * ($ym + 1) / 32 + 1 }, { ($xm + 1) * ($ym + 1) }>($rec, $xm + 1, $ym + 1);
        whole::<$p, $xm, $ym, true, { ($xm + 1) * ($ym + 1) / 32 + 1 }, { ($xm + 1) * ($ym + 1) }>($rec, $xm + 1, $ym + 1);
    )* }};
}
macro_rules! part {
    ($rec:expr, $($w:literal $h:literal $p:ty),* $(,)?) => {{ $(
        part::<$p, 0, 0, false, 1, 1>($rec, $w, $h);
        part::<$p, 0, 0, true, 1, 1>($rec, $w, $h);
    )* }};
}

fn plains() {
    let mut rec = Rec::from_args();
    let r = &mut rec;
    whole!(r, 6 4 Pos<6, 4>, 149 109 Pos<149, 109>, 1 999 Pos<1, 999>, 1399 0 Pos<1399, 0>);
    part!(r, 100 100 (u8, u8), 60 170 Pos<65535, 65535>);
    if r.thorough {
        whole!(r, 299 259 Pos<299, 259>, 9999 3 Pos<9999, 3>);
        part!(r, 256 256 (u8, u8), 300 30 (u16, u16));
    }
    rec.finish();
}

fn main() {
    // Grids are values: large ones need a large stack
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(plains).expect("a thread");
    if t.join().is_err() {
        std::process::exit(101);
    }
}
