//! Terrains for the searches: grids of cells, numbered in reading order, with
//! a movement function given as a table.

use crate::geom::*;
use crate::*;
use sqrid::Dir;
use std::cell::{Cell, RefCell};

/// A call of the movement function (cell, direction, answer) or of the goal predicate
pub enum Call {
    Ask(i64, u8, i64),
    Judge(i64),
}
thread_local! {
    static CALLS: RefCell<Option<Vec<Call>>> = const { RefCell::new(None) };
}
/// The calls of terrains that are made by `f`
pub fn calls(f: impl FnOnce()) -> (bool, Vec<Call>) {
    CALLS.with(|c| *c.borrow_mut() = Some(vec![]));
    let done = attempt(f).is_some();
    (done, CALLS.with(|c| c.borrow_mut().take()).unwrap_or_default())
}
fn called(call: impl FnOnce() -> Call) {
    CALLS.with(|c| {
        if let Some(v) = c.borrow_mut().as_mut() {
            v.push(call());
        }
    })
}

/* Interruptions: something else happens during some calls ********************/

type Other = Box<dyn FnMut(usize)>;
struct Interruptions {
    calls: usize,
    done: usize,
    other: Other,
}
thread_local! {
    static OTHER: RefCell<Option<Interruptions>> = const { RefCell::new(None) };
    static FUSE: Cell<usize> = const { Cell::new(0) };
}
/// From now on, calls are interrupted: the third, the 12th, the 48th and so on
pub fn interrupt(other: Option<Other>) {
    OTHER.with(|o| *o.borrow_mut() = other.map(|other| Interruptions { calls: 0, done: 0, other }));
}
/// Run something during which the n-th call panics
pub fn burning(n: usize, f: impl FnOnce()) {
    FUSE.set(n);
    let _ = attempt(f);
    FUSE.set(0);
}
fn interruption() {
    if FUSE.get() > 0 {
        FUSE.set(FUSE.get() - 1);
        if FUSE.get() == 0 {
            panic!("planned");
        }
    }
    let due = OTHER.with(|o| {
        let mut o = o.borrow_mut();
        let i = o.as_mut()?;
        i.calls += 1;
        if i.calls == 3 << (2 * i.done.min(12)) {
            i.done += 1;
            o.take()
        } else {
            None
        }
    });
    if let Some(mut i) = due {
        // Which is not interrupted itself, nor noticed
        let noted = CALLS.with(|c| c.borrow_mut().take());
        (i.other)(i.done);
        CALLS.with(|c| *c.borrow_mut() = noted);
        OTHER.with(|o| *o.borrow_mut() = Some(i));
    }
}

#[derive(Clone, Debug)]
pub struct Terrain {
    pub w: usize,
    pub h: usize,
    pub diag: bool,
    /// Cell reached from a cell towards a direction
    pub go: Vec<[Option<usize>; 8]>,
    /// Cost of that movement
    pub cost: Option<Vec<[usize; 8]>>,
    /// Coordinates of the first cell
    pub x0: Big,
    pub y0: Big,
    /// Another position of the grid that the cells are a part of
    pub away: Option<(Big, Big)>,
}

/// Number of that position
pub const AWAY: usize = usize::MAX;
/// For events: it is cell -2
pub fn jcell(p: usize) -> String {
    if p == AWAY {
        "-2".into()
    } else {
        p.to_string()
    }
}

pub fn vector(d: usize) -> (i64, i64) {
    [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)][d]
}

pub fn opposite(d: usize) -> usize {
    (d + 4) % 8
}

impl Terrain {
    /// No obstacles
    pub fn open(w: usize, h: usize, diag: bool) -> Terrain {
        let mut t = Terrain { w, h, diag, go: vec![[None; 8]; w * h], cost: None, x0: small(0), y0: small(0), away: None };
        for p in 0..w * h {
            for d in 0..8 {
                t.go[p][d] = t.beside(p, d);
            }
        }
        t
    }
    pub fn cells(&self) -> usize {
        self.w * self.h
    }
    pub fn beside(&self, p: usize, d: usize) -> Option<usize> {
        let (dx, dy) = vector(d);
        let (x, y) = ((p % self.w) as i64 + dx, (p / self.w) as i64 + dy);
        (x >= 0 && x < self.w as i64 && y >= 0 && y < self.h as i64).then(|| (y as usize) * self.w + x as usize)
    }
    /// Nobody gets in or out of a cell
    pub fn block(&mut self, p: usize) {
        self.go[p] = [None; 8];
        for q in 0..self.cells() {
            for d in 0..8 {
                if self.go[q][d] == Some(p) {
                    self.go[q][d] = None;
                }
            }
        }
    }
    /// The directions a search looks at
    pub fn dirs(&self) -> &'static [usize] {
        if self.diag {
            &[0, 1, 2, 3, 4, 5, 6, 7]
        } else {
            &[0, 2, 4, 6]
        }
    }
    pub fn blocked(mut self, den: u64, rng: &mut Rng) -> Terrain {
        for p in 0..self.cells() {
            if rng.chance(den, 100) {
                self.block(p);
            }
        }
        self
    }
    /// Movements that lack, each way on its own
    pub fn oneway(mut self, den: u64, rng: &mut Rng) -> Terrain {
        for p in 0..self.cells() {
            for d in 0..8 {
                if rng.chance(den, 100) {
                    self.go[p][d] = None;
                }
            }
        }
        self
    }
    /// Walls with gaps at alternating ends, making the way as long as possible
    pub fn snake(mut self, down: bool) -> Terrain {
        let (w, h) = (self.w, self.h);
        for y in 0..h {
            for x in 0..w {
                let (along, across, len) = if down { (y, x, h) } else { (x, y, w) };
                let gap = if across % 4 == 1 { len - 1 } else { 0 };
                if across % 2 == 1 && along != gap {
                    self.block(y * w + x);
                }
            }
        }
        self
    }
    /// Passages between neighbours only where `open` says so
    fn passages(mut self, open: &[(usize, usize)]) -> Terrain {
        self.go.iter_mut().for_each(|g| *g = [None; 8]);
        for &(p, d) in open {
            if let Some(q) = self.beside(p, d) {
                self.go[p][d] = Some(q);
                self.go[q][opposite(d)] = Some(p);
            }
        }
        self
    }
    /// A single way through all cells, back and forth along the lines
    pub fn serpent(self) -> Terrain {
        let mut open = vec![];
        for y in 0..self.h {
            for x in 0..self.w - 1 {
                open.push((y * self.w + x, 2));
            }
            let end = if y % 2 == 0 { self.w - 1 } else { 0 };
            open.push((y * self.w + end, 4));
        }
        self.passages(&open)
    }
    /// A winding labyrinth: there is one way between any two cells
    pub fn maze(self, rng: &mut Rng) -> Terrain {
        let n = self.cells();
        let mut seen = vec![false; n];
        let mut open = vec![];
        let start = rng.below(n);
        seen[start] = true;
        let mut trail = vec![start];
        while let Some(&p) = trail.last() {
            let ways: Vec<(usize, usize)> = self.dirs().iter()
                .filter_map(|&d| self.beside(p, d).map(|q| (d, q)))
                .filter(|(_, q)| !seen[*q])
                .collect();
            if ways.is_empty() {
                trail.pop();
                continue;
            }
            let (d, q) = ways[rng.below(ways.len())];
            seen[q] = true;
            open.push((p, d));
            trail.push(q);
        }
        self.passages(&open)
    }
    /// The cell that takes the most movements to get to
    pub fn farthest(&self, orig: usize) -> usize {
        let mut seen = vec![false; self.cells()];
        seen[orig] = true;
        let mut order = vec![orig];
        let mut i = 0;
        while i < order.len() {
            for &d in self.dirs() {
                if let Some(q) = self.go[order[i]][d] {
                    if !seen[q] {
                        seen[q] = true;
                        order.push(q);
                    }
                }
            }
            i += 1;
        }
        order[order.len() - 1]
    }
    /// A wall around the middle, open on one side: a dead end on the direct way
    pub fn trap(mut self, open: usize, rng: &mut Rng) -> Terrain {
        let (w, h) = (self.w, self.h);
        if w < 4 || h < 4 {
            return self;
        }
        let (l, r, t, b) = (1, w - 2, 1, h - 2);
        for y in t..=b {
            for x in l..=r {
                let side = [y == t, x == r, y == b, x == l];
                if (0..4).any(|s| side[s] && s != open) && !rng.chance(1, 20) {
                    self.block(y * w + x);
                }
            }
        }
        self
    }
    /// Borders lead to the other side
    pub fn torus(mut self) -> Terrain {
        for p in 0..self.cells() {
            for d in 0..8 {
                let (dx, dy) = vector(d);
                let x = ((p % self.w) as i64 + dx).rem_euclid(self.w as i64);
                let y = ((p / self.w) as i64 + dy).rem_euclid(self.h as i64);
                self.go[p][d] = Some(y as usize * self.w + x as usize);
            }
        }
        self
    }
    /// Some movements lead anywhere, possibly nowhere else
    pub fn portals(mut self, n: usize, rng: &mut Rng) -> Terrain {
        let cells = self.cells();
        for _ in 0..n {
            let (p, d) = (rng.below(cells), rng.below(8));
            self.go[p][d] = Some(if rng.chance(1, 5) { p } else { rng.below(cells) });
        }
        self
    }
    pub fn costs(mut self, f: &mut dyn FnMut(usize, usize) -> usize) -> Terrain {
        let c = (0..self.cells()).map(|p| std::array::from_fn(|d| f(p, d))).collect();
        self.cost = Some(c);
        self
    }
    /// Costs close to the largest ones, except on some way to each cell
    pub fn huge(self, orig: usize, rng: &mut Rng) -> Terrain {
        let n = self.cells();
        let mut cheap = vec![[false; 8]; n];
        let mut seen = vec![false; n];
        let mut todo = vec![orig];
        seen[orig] = true;
        while !todo.is_empty() {
            let i = rng.below(todo.len());
            let p = todo.swap_remove(i);
            for &d in self.dirs() {
                if let Some(q) = self.go[p][d] {
                    if !seen[q] {
                        seen[q] = true;
                        cheap[p][d] = true;
                        todo.push(q);
                    }
                }
            }
        }
        let big = [usize::MAX, usize::MAX - 1, usize::MAX - 2, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 4, 1 << 32, 1 << 63];
        let step = usize::MAX / (4 * n);
        let scale = [1, 1 << 31, step][rng.below(3)];
        self.costs(&mut |p, d| {
            if cheap[p][d] {
                scale * (1 + rng.below(3))
            } else {
                big[rng.below(big.len())]
            }
        })
    }

    pub fn orig_params(&self, orig: usize) -> Vec<(&'static str, String)> {
        let go = jarr(self.go.iter().map(|g| jints(g.iter().map(|q| q.map_or(-1, |q| q as i64)))));
        let cost = match &self.cost {
            None => "[]".to_string(),
            Some(c) => jarr(c.iter().map(|c| jarr(c.iter().map(|c| bigj(*c))))),
        };
        vec![
            ("w", self.w.to_string()),
            ("h", self.h.to_string()),
            ("diag", self.diag.to_string()),
            ("orig", orig.to_string()),
            ("go", go),
            ("cost", cost),
        ]
    }

    /// Position of a cell
    pub fn at<P: Place>(&self, p: usize) -> P {
        if p == AWAY {
            let (x, y) = self.away.unwrap();
            return P::at(x, y).unwrap();
        }
        let (a, b) = (self.x0.plus((p % self.w) as i128), self.y0.plus((p / self.w) as i128));
        P::at(a.unwrap(), b.unwrap()).expect("a cell of the grid")
    }
    /// Cell of a position
    pub fn cell<P: Place>(&self, p: P) -> Option<usize> {
        let (x, y) = p.xy();
        if !self.x0.le(x) || !self.y0.le(y) {
            return None;
        }
        let (x, y) = (self.x0.dist(x), self.y0.dist(y));
        (x < self.w as u128 && y < self.h as u128).then(|| y as usize * self.w + x as usize)
    }
    /// For events: a position that is not a cell is cell -2
    pub fn num<P: Place>(&self, p: P) -> i64 {
        self.cell(p).map_or(-2, |p| p as i64)
    }
    fn target<P: Place>(&self, p: P, d: Dir) -> Option<usize> {
        interruption();
        let i = self.cell(p);
        let q = i.and_then(|i| self.go[i][dnum(d) as usize]);
        called(|| Call::Ask(i.map_or(-2, |i| i as i64), dnum(d) as u8, q.map_or(-1, |q| q as i64)));
        q
    }
    pub fn step<P: Place>(&self, p: P, d: Dir) -> Option<P> {
        let q = self.target(p, d)?;
        Some(self.at(q))
    }
    pub fn judge<P: Place>(&self, p: P, goals: &[usize]) -> bool {
        interruption();
        called(|| Call::Judge(self.num(p)));
        self.cell(p).is_some_and(|i| goals.contains(&i))
    }
    pub fn stepcost<P: Place>(&self, p: P, d: Dir) -> Option<(P, usize)> {
        let q = self.target(p, d)?;
        let i = self.cell(p)?;
        let d = dnum(d) as usize;
        Some((self.at(q), self.cost.as_ref().map_or(1, |c| c[i][d])))
    }
}
