//! Driver for grids of values that tell when they are made and dropped: C33.

use harness::geom::*;
use harness::*;
use sqrid::*;
use std::cell::RefCell;

/* Values that are made once and dropped once **********************************/

/// What happened to the tokens since the last event
#[derive(Default)]
struct Log {
    next: u32,
    made: Vec<u32>,
    born: Vec<(u32, u32)>,
    dropped: Vec<u32>,
    /// How many defaults, and clones, until one panics; 0 is never
    fuse: [u32; 2],
}

thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

struct Token {
    id: u32,
    check: u32,
}

impl Token {
    fn fresh(l: &mut Log) -> Token {
        l.next += 1;
        Token { id: l.next, check: !l.next }
    }
    fn make() -> Token {
        LOG.with(|l| {
            let l = &mut *l.borrow_mut();
            let t = Token::fresh(l);
            l.made.push(t.id);
            t
        })
    }
    fn many(n: usize) -> Vec<Token> {
        (0..n).map(|_| Token::make()).collect()
    }
    fn born(origin: u32) -> Token {
        let blown = LOG.with(|l| {
            let fuse = &mut l.borrow_mut().fuse[(origin != 0) as usize];
            if *fuse > 0 {
                *fuse -= 1;
                *fuse == 0
            } else {
                false
            }
        });
        if blown {
            panic!("planned");
        }
        LOG.with(|l| {
            let l = &mut *l.borrow_mut();
            let t = Token::fresh(l);
            l.born.push((t.id, origin));
            t
        })
    }
    /// 0 if this is no token at all
    fn seen(&self) -> u32 {
        if self.check == !self.id {
            self.id
        } else {
            0
        }
    }
}
impl Default for Token {
    fn default() -> Token {
        Token::born(0)
    }
}
impl Clone for Token {
    fn clone(&self) -> Token {
        Token::born(self.seen())
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        LOG.with(|l| l.borrow_mut().dropped.push(self.seen()));
    }
}

fn ids<'a>(v: impl IntoIterator<Item = &'a Token>) -> String {
    jints(v.into_iter().map(|t| t.seen()))
}

/// Some tokens, and a panic after so many of them
struct Source {
    left: std::vec::IntoIter<Token>,
    until: usize,
}
impl Iterator for Source {
    type Item = Token;
    fn next(&mut self) -> Option<Token> {
        if self.until == 0 {
            panic!("planned");
        }
        self.until -= 1;
        self.left.next()
    }
}

/* Sessions ********************************************************************/

type Turns<G> = Option<(fn(&mut G), fn(&mut G))>;
const OK: &str = "[\"ok\"]";
const PANIC: &str = "[\"panic\"]";

struct Ow<'a, P: PosT, const S: usize> {
    rec: &'a mut Rec,
    grid: Option<Grid<Token, P, S>>,
    copy: Option<Grid<Token, P, S>>,
    hand: Vec<Token>,
    turns: Turns<Grid<Token, P, S>>,
}

fn at<P: Place>(i: usize) -> P {
    let w = P::xlim().1.mag as usize + 1;
    P::at((i % w).big(), (i / w).big()).unwrap()
}

impl<P: Place + Copy, const S: usize> Ow<'_, P, S> {
    fn size() -> (usize, usize) {
        (P::xlim().1.mag as usize + 1, P::ylim().1.mag as usize + 1)
    }
    fn begin(rec: &mut Rec, turns: Turns<Grid<Token, P, S>>) -> Ow<'_, P, S> {
        LOG.with(|l| *l.borrow_mut() = Log::default());
        let (w, h) = Self::size();
        rec.begin("Ownership", &[("w", w.to_string()), ("h", h.to_string()), ("type", jstr(&P::name()))]);
        Ow { rec, grid: None, copy: None, hand: vec![], turns }
    }
    fn end(mut self) {
        self.drop_grid(0);
        self.drop_copy();
        self.release(true);
        self.rec.end();
    }
    /// What is there now, and how it came to be
    fn ev(&mut self, fields: &[(&str, String)]) {
        let mut all = fields.to_vec();
        let cells = match &self.grid {
            Some(g) => ids(g.as_array()),
            None => "[]".into(),
        };
        let copy = match &self.copy {
            Some(g) => ids(g.as_array()),
            None => "[]".into(),
        };
        all.push(("cells", cells));
        all.push(("copy", copy));
        all.push(("hand", ids(&self.hand)));
        LOG.with(|l| {
            let l = &mut *l.borrow_mut();
            all.push(("made", jints(l.made.drain(..))));
            all.push(("born", jarr(l.born.drain(..).map(|(a, b)| format!("[{},{}]", a, b)))));
            all.push(("dropped", jints(l.dropped.drain(..))));
            l.fuse = [0, 0];
        });
        self.rec.ev(&all);
    }
    fn fuse(which: usize, n: usize) -> bool {
        LOG.with(|l| l.borrow_mut().fuse[which] = n as u32);
        n > 0
    }

    fn default(&mut self, fuse: usize) {
        let risky = Self::fuse(0, fuse);
        let r = match attempt(|| Grid::<Token, P, S>::default()) {
            Some(g) => {
                self.grid = Some(g);
                OK
            }
            None => PANIC,
        };
        self.ev(&[("op", jstr("default")), ("risky", risky.to_string()), ("r", r.into())]);
    }
    /// `how`: 0 all at once, 1 from a source that doesn't tell its length, 2 by reference to one that tells little of it
    fn collect(&mut self, n: usize, how: usize, until: usize, fuse: usize) {
        let ts = Token::many(n);
        let list = ids(&ts);
        let mut risky = Self::fuse(0, fuse);
        let kind = self.rec.rng.below(FEEDS);
        let r = attempt(|| match how {
            0 => ts.into_iter().collect::<Grid<Token, P, S>>(),
            1 => {
                let mut it = ts.into_iter();
                std::iter::from_fn(move || it.next()).collect()
            }
            2 => {
                let mut it = feed(ts, kind, S);
                it.by_ref().collect()
            }
            _ => {
                risky = true;
                Source { left: ts.into_iter(), until }.collect()
            }
        });
        let r = match r {
            Some(g) => {
                self.grid = Some(g);
                OK
            }
            None => PANIC,
        };
        self.ev(&[("op", jstr("collect")), ("ts", list), ("how", how.to_string()), ("risky", risky.to_string()), ("r", r.into())]);
    }
    /// From the values of the grid itself
    fn recollect(&mut self, how: usize) {
        let Some(g) = self.grid.take() else { return };
        let list = ids(g.as_array());
        let r = attempt(|| match how {
            0 => g.into_iter().collect::<Grid<Token, P, S>>(),
            1 => g.into_inner().into_iter().collect(),
            _ => Vec::from(g.into_inner()).into_iter().collect(),
        });
        let r = match r {
            Some(g) => {
                self.grid = Some(g);
                OK
            }
            None => PANIC,
        };
        self.ev(&[("op", jstr("collect")), ("ts", list), ("how", jstr("own")), ("risky", "false".into()), ("r", r.into())]);
    }
    fn lists(lens: &[usize]) -> (Vec<Vec<Token>>, String) {
        let v: Vec<Vec<Token>> = lens.iter().map(|n| Token::many(*n)).collect();
        let j = jarr(v.iter().map(ids));
        (v, j)
    }
    fn fromlists(&mut self, lens: &[usize], fuse: usize) {
        let (v, j) = Self::lists(lens);
        let risky = Self::fuse(0, fuse);
        let r = match attempt(|| Grid::<Token, P, S>::try_from(v)) {
            Some(Ok(g)) => {
                self.grid = Some(g);
                OK.into()
            }
            Some(Err(e)) => err_name(e),
            None => PANIC.into(),
        };
        self.ev(&[("op", jstr("fromlists")), ("lists", j), ("risky", risky.to_string()), ("r", r)]);
    }
    fn extendlists(&mut self, lens: &[usize]) {
        if self.grid.is_none() {
            return;
        }
        let (v, j) = Self::lists(lens);
        let g = self.grid.as_mut().unwrap();
        let r = match attempt(|| g.extend_from_vecvec(v)) {
            Some(Ok(())) => OK.into(),
            Some(Err(e)) => err_name(e),
            None => PANIC.into(),
        };
        self.ev(&[("op", jstr("extendlists")), ("lists", j), ("r", r)]);
    }
    /// The cell, by different ways
    fn cell(g: &mut Grid<Token, P, S>, i: usize, how: usize) -> &mut Token {
        let (w, _) = Self::size();
        let p: P = at(i);
        match how % 8 {
            0 => &mut g[p],
            1 => &mut g[&p],
            2 => g.get_mut(&p),
            3 => &mut g.line_mut(PosT::tuple(&p).1)[i % w],
            4 => &mut g.as_array_mut()[i],
            5 => g.iter_mut().nth(i).unwrap(),
            6 => &mut AsMut::<[Token; S]>::as_mut(g)[i],
            _ => g.into_iter().nth(i).unwrap(),
        }
    }
    fn write(&mut self, i: usize, how: usize) {
        let Some(g) = self.grid.as_mut() else { return };
        let t = Token::make();
        let id = t.seen();
        *Self::cell(g, i, how) = t;
        self.ev(&[("op", jstr("write")), ("p", i.to_string()), ("t", id.to_string()), ("how", how.to_string())]);
    }
    fn replace(&mut self, i: usize, how: usize) {
        let Some(g) = self.grid.as_mut() else { return };
        let t = Token::make();
        let id = t.seen();
        let old = std::mem::replace(Self::cell(g, i, how), t);
        self.hand.push(old);
        self.ev(&[("op", jstr("replace")), ("p", i.to_string()), ("t", id.to_string()), ("how", how.to_string())]);
    }
    fn take(&mut self, i: usize, how: usize) {
        let Some(g) = self.grid.as_mut() else { return };
        let old = std::mem::take(Self::cell(g, i, how));
        self.hand.push(old);
        self.ev(&[("op", jstr("take")), ("p", i.to_string()), ("how", how.to_string())]);
    }
    /// Pairs, and a panic before the pair `n` if there is one
    fn extend(&mut self, places: &[usize], n: usize) {
        let Some(g) = self.grid.as_mut() else { return };
        let ts = Token::many(places.len());
        let pairs = jarr(places.iter().zip(&ts).map(|(p, t)| format!("[{},{}]", p, t.seen())));
        let r = if n < places.len() {
            let mut src = Source { left: ts.into_iter(), until: n };
            let mut at_ = places.iter();
            attempt(|| g.extend(std::iter::from_fn(move || Some((at::<P>(*at_.next()?), src.next()?)))))
        } else {
            attempt(|| g.extend(places.iter().map(|i| at::<P>(*i)).zip(ts)))
        };
        let r = if r.is_some() { OK } else { PANIC };
        let n = n.min(places.len());
        self.ev(&[("op", jstr("extend")), ("pairs", pairs), ("n", n.to_string()), ("r", r.into())]);
    }
    fn transform(&mut self, k: usize) {
        let Some(g) = self.grid.as_mut() else { return };
        let sym = match (k % 4, self.turns) {
            (2, Some((cw, _))) => {
                cw(g);
                "cw"
            }
            (3, Some((_, cc))) => {
                cc(g);
                "cc"
            }
            (1, _) | (3, None) => {
                g.flip_v();
                "flipv"
            }
            _ => {
                g.flip_h();
                "fliph"
            }
        };
        self.ev(&[("op", jstr("transform")), ("sym", jstr(sym))]);
    }
    fn clone(&mut self, how: usize, fuse: usize)
    where
        P: Clone,
    {
        let Some(g) = self.grid.as_ref() else { return };
        let (r, risky) = match (how % 2, &mut self.copy) {
            (1, Some(c)) if fuse == 0 => {
                c.clone_from(g);
                (OK, false)
            }
            _ => {
                let risky = Self::fuse(1, fuse);
                match attempt(|| g.clone()) {
                    Some(c) => {
                        self.copy = Some(c);
                        (OK, risky)
                    }
                    None => (PANIC, risky),
                }
            }
        };
        self.ev(&[("op", jstr("clone")), ("risky", risky.to_string()), ("r", r.into())]);
    }
    fn swap(&mut self) {
        if let (Some(a), Some(b)) = (self.grid.as_mut(), self.copy.as_mut()) {
            std::mem::swap(a, b);
            self.ev(&[("op", jstr("swap"))]);
        }
    }
    fn consume(&mut self, front: usize, back: usize, how: usize) {
        let Some(g) = self.grid.take() else { return };
        let mut hand = vec![];
        let (mut front, mut back) = (front, back);
        match how {
            0 => {
                let mut it = g.into_iter();
                for _ in 0..front {
                    hand.extend(it.next());
                }
                for _ in 0..back {
                    hand.extend(it.next_back());
                }
            }
            1 => {
                let mut it = g.into_iter();
                for k in 0..front.max(back) {
                    if k < back {
                        hand.extend(it.next_back());
                    }
                    if k < front {
                        hand.extend(it.next());
                    }
                }
            }
            2 => {
                back = 0;
                for t in g {
                    if hand.len() == front {
                        break;
                    }
                    hand.push(t);
                }
            }
            _ => {
                front = S;
                back = 0;
                hand.extend(g.into_inner());
            }
        }
        self.hand.extend(hand);
        self.ev(&[("op", jstr("consume")), ("front", front.to_string()), ("back", back.to_string()), ("how", how.to_string())]);
    }
    fn drop_grid(&mut self, how: usize) {
        let Some(g) = self.grid.take() else { return };
        match how % 3 {
            0 => drop(g),
            1 => drop(Box::new(g)),
            _ => drop(g.into_inner()),
        }
        self.ev(&[("op", jstr("drop"))]);
    }
    fn drop_copy(&mut self) {
        if self.copy.take().is_some() {
            self.ev(&[("op", jstr("dropcopy"))]);
        }
    }
    fn release(&mut self, all: bool) {
        let n = if all { self.hand.len() } else { self.rec.rng.below(self.hand.len() + 1) };
        let ts: Vec<Token> = self.hand.drain(..n).collect();
        let list = ids(&ts);
        drop(ts);
        self.ev(&[("op", jstr("release")), ("ts", list)]);
    }
}

fn sessions<P: Place + Copy, const S: usize>(rec: &mut Rec, turns: Turns<Grid<Token, P, S>>) {
    let (w, h) = Ow::<P, S>::size();
    let last = S - 1;
    // Every way to make a grid, with a failure at any place
    let mut s = Ow::<P, S>::begin(rec, turns);
    let mut fuses: Vec<usize> = (0..=S.min(12)).collect();
    fuses.extend([S / 2 + 1, S, S + 1]);
    for k in fuses.clone() {
        s.default(k);
        s.collect(S, 0, 0, k);
        s.collect(S, 3, k, 0);
        s.fromlists(&vec![w / 2; h], k);
    }
    for n in [0, 1, S - 1, S, S + 1, S + 2, 2 * S] {
        for how in 0..3 {
            s.collect(n, how, 0, 0);
        }
    }
    for how in 0..3 {
        s.recollect(how);
    }
    for k in fuses.clone() {
        s.clone(0, k);
        s.swap();
    }
    s.clone(1, 0);
    s.end();
    // Every misfit of lists
    let mut shapes: Vec<Vec<usize>> = vec![vec![], vec![w; h], vec![w; h + 1], vec![0; h + 2], vec![w + 1], vec![w + 2; h], vec![1; h]];
    for y in 0..h.min(8) {
        for n in [0, 1, w - 1, w + 1] {
            let mut l = vec![w; h];
            l[y] = n;
            shapes.push(l);
        }
        let mut l = vec![0; h + y + 1];
        l[h + y] = 1;
        shapes.push(l);
    }
    let mut s = Ow::<P, S>::begin(rec, turns);
    s.default(0);
    for (k, l) in shapes.iter().enumerate() {
        if k % 12 == 11 {
            s.end();
            s = Ow::begin(rec, turns);
            s.collect(S, 1, 0, 0);
        }
        s.extendlists(l);
        s.fromlists(l, 0);
        s.extendlists(l);
    }
    s.end();
    // Every way to end a grid
    let mut cuts = vec![(0, 0), (S, 0), (0, S), (1, 0), (0, 1), (S / 2, S - S / 2), (S / 2, 0), (0, S / 2), (last, 0), (last, 1), (0, last)];
    cuts.retain(|(a, b)| a + b <= S);
    let mut s = Ow::<P, S>::begin(rec, turns);
    for (a, b) in cuts {
        for how in 0..4 {
            s.collect(S, how % 3, 0, 0);
            s.consume(a, b, how);
        }
        s.release(false);
    }
    for how in 0..3 {
        s.default(0);
        s.clone(0, 0);
        s.drop_grid(how);
        s.swap();
        s.default(0);
        s.swap();
        s.drop_copy();
    }
    s.end();
    // More pairs than there are positions
    if S <= 40 {
        let mut s = Ow::<P, S>::begin(rec, turns);
        s.default(0);
        for n in [S + 1, 2 * S + 1] {
            for until in [n, n - 1, S] {
                let late = s.rec.rng.below(S);
                let mut places: Vec<usize> = (0..n - 1).map(|i| (late + 1 + i % (S - 1).max(1)) % S).collect();
                places.push(late);
                s.extend(&places, until);
            }
        }
        s.end();
    }
    // Histories
    let rounds = if S > 120 { 1 } else { 6 } * if rec.thorough { 6 } else { 1 };
    for _ in 0..rounds {
        let mut s = Ow::<P, S>::begin(rec, turns);
        s.default(0);
        for k in 0..if S > 120 { 20 } else { 60 } {
            let i = [0, last, s.rec.rng.below(S), s.rec.rng.below(S)][s.rec.rng.below(4)];
            let how = s.rec.rng.below(16);
            match s.rec.rng.below(20) {
                0..=3 => s.write(i, how),
                4..=6 => s.replace(i, how),
                7..=8 => s.take(i, how),
                9..=10 => {
                    let n = s.rec.rng.below(6) + 1;
                    let places: Vec<usize> = (0..n).map(|_| s.rec.rng.below(S)).collect();
                    let until = if how < 8 { n } else { s.rec.rng.below(n) };
                    s.extend(&places, until)
                }
                11..=12 => s.transform(how),
                13 => s.clone(how, if how < 12 { 0 } else { 1 + i }),
                14 => s.swap(),
                15 => {
                    let lens: Vec<usize> = (0..s.rec.rng.below(h + 2)).map(|_| s.rec.rng.below(w + 1) + s.rec.rng.below(20) / 19).collect();
                    s.extendlists(&lens)
                }
                16 => s.release(false),
                17 => s.recollect(how % 3),
                18 if k % 3 == 0 => {
                    let a = s.rec.rng.below(S + 1);
                    let b = s.rec.rng.below(S + 1 - a);
                    s.consume(a, b, how % 4);
                    s.collect(S, 0, 0, 0)
                }
                _ if k % 3 == 0 => {
                    let lens: Vec<usize> = (0..s.rec.rng.below(h + 2)).map(|_| s.rec.rng.below(w + 1) + s.rec.rng.below(30) / 29).collect();
                    s.fromlists(&lens, if how < 14 { 0 } else { 1 + i })
                }
                _ => s.write(i, how),
            }
        }
        s.end();
    }
}

fn main() {
    let mut recorder = Rec::from_args();
    let rec = &mut recorder;
    macro_rules! square {
        ($m:expr, $s:expr) => {
            sessions::<Pos<$m, $m>, { $s }>(
                rec,
                Some((Grid::<Token, Pos<$m, $m>, { $s }>::rotate_cw, Grid::<Token, Pos<$m, $m>, { $s }>::rotate_cc)),
            );
        };
    }
    square!(0, 1);
    square!(1, 4);
    square!(2, 9);
    square!(3, 16);
    square!(4, 25);
    square!(5, 36);
    square!(7, 64);
    sessions::<Pos<1, 0>, 2>(rec, None);
    sessions::<Pos<0, 2>, 3>(rec, None);
    sessions::<Pos<2, 1>, 6>(rec, None);
    sessions::<Pos<1, 3>, 8>(rec, None);
    sessions::<Pos<5, 2>, 18>(rec, None);
    sessions::<Pos<31, 0>, 32>(rec, None);
    sessions::<Pos<0, 32>, 33>(rec, None);
    sessions::<Pos<12, 4>, 65>(rec, None);
    sessions::<Pos<3, 32>, 132>(rec, None);
    sessions::<Pos<99, 2>, 300>(rec, None);
    recorder.finish();
}
