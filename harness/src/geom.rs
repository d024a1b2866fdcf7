//! What the drivers need from position types, in addition to `PosT`.

use crate::*;
use sqrid::*;

pub fn rawof<B: BoundedInt>(b: B) -> Big
where
    B::Inner: ToBig,
{
    b.into_inner().big()
}

pub fn coord<B: BoundedInt>(b: Big) -> Option<B> {
    if b.neg {
        let m = i128::try_from(b.mag).ok()?;
        B::try_from(-m).ok()
    } else {
        B::try_from(b.mag).ok()
    }
}

/// A position type and its name
pub trait Place: PosT<Xtype: BoundedInt<Inner: ToBig>, Ytype: BoundedInt<Inner: ToBig>> {
    fn name() -> String;
    fn xlim() -> (Big, Big) {
        (rawof(Self::Xtype::MIN), rawof(Self::Xtype::MAX))
    }
    fn ylim() -> (Big, Big) {
        (rawof(Self::Ytype::MIN), rawof(Self::Ytype::MAX))
    }
    fn at(a: Big, b: Big) -> Option<Self> {
        Some(Self::new_((coord(a)?, coord(b)?)))
    }
    fn xy(&self) -> (Big, Big) {
        let t = PosT::tuple(self);
        (rawof(t.0), rawof(t.1))
    }
    fn json(&self) -> String {
        let (a, b) = self.xy();
        format!("[{},{}]", a.json(), b.json())
    }
    /// Is the number of positions one that fits in an usize?
    fn countable() -> bool {
        let (x, y) = (Self::xlim().1, Self::ylim().1);
        Self::zero_based() && (x.mag + 1).checked_mul(y.mag.saturating_add(1)).is_some_and(|n| n <= u64::MAX as u128)
    }
    fn zero_based() -> bool {
        Self::xlim().0.mag == 0 && Self::ylim().0.mag == 0
    }
    /// Number of positions, saturating
    fn cells() -> u128 {
        let (x, y) = (Self::xlim(), Self::ylim());
        let w = x.0.dist(x.1).saturating_add(1);
        w.saturating_mul(y.0.dist(y.1).saturating_add(1))
    }
    fn all() -> Vec<Self> {
        let (xl, yl) = (Self::xlim(), Self::ylim());
        let mut v = vec![];
        let mut b = yl.0;
        while b.le(yl.1) {
            let mut a = xl.0;
            while a.le(xl.1) {
                v.extend(Self::at(a, b));
                a = a.plus(1).unwrap();
            }
            b = b.plus(1).unwrap();
        }
        v
    }
    fn params() -> Vec<(&'static str, String)> {
        let (xl, yl) = (Self::xlim(), Self::ylim());
        vec![
            ("ty", jstr(&Self::name())),
            ("xlo", xl.0.json()),
            ("xhi", xl.1.json()),
            ("ylo", yl.0.json()),
            ("yhi", yl.1.json()),
        ]
    }
    /// Some positions: all of them if there are at most `most`, or the extremes
    /// and their neighbours, the middle and random ones
    fn some(most: usize, rng: &mut Rng) -> Vec<Self> {
        if Self::cells() <= most as u128 {
            return Self::all();
        }
        let (xs, ys) = (axis(Self::xlim(), rng), axis(Self::ylim(), rng));
        let mut v = vec![];
        for b in &ys {
            for a in &xs {
                v.extend(Self::at(*a, *b));
            }
        }
        while v.len() > most {
            let i = rng.below(v.len());
            v.remove(i);
        }
        v
    }
}

/// Interesting values of an axis
pub fn axis(lim: (Big, Big), rng: &mut Rng) -> Vec<Big> {
    let (lo, hi) = lim;
    let mut v = vec![lo, hi];
    for d in 1..3 {
        v.extend(lo.plus(d));
        v.extend(hi.plus(-d));
    }
    for _ in 0..3 {
        v.push(Big::random(lo, hi, rng));
    }
    v.retain(|b| lo.le(*b) && b.le(hi));
    v.sort_by_key(|b| (b.neg, b.mag));
    v.dedup();
    v
}

impl<const X: u16, const Y: u16> Place for Pos<X, Y> {
    fn name() -> String {
        format!("Pos<{},{}>", X, Y)
    }
}
macro_rules! place_tuple {
    ($($t:ty),*) => { $(impl Place for ($t, $t) {
        fn name() -> String { format!("({},{})", stringify!($t), stringify!($t)) }
    })* };
}
place_tuple!(u8, u16, u32, u64, u128, i8, i16, i32);

/* Position types that a user may write: one by its tuple, one by its coordinates */

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ByTuple(pub (BoundedU8<0, 4>, BoundedU32<0, 6>));
impl PosT for ByTuple {
    type Xtype = BoundedU8<0, 4>;
    type Ytype = BoundedU32<0, 6>;
    const WIDTH: usize = 5;
    const HEIGHT: usize = 7;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
        ByTuple(xy)
    }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) {
        self.0
    }
}
impl Place for ByTuple {
    fn name() -> String {
        "ByTuple".into()
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ByCoords {
    line: BoundedU8<0, 8>,
    column: BoundedU8<0, 2>,
}
impl PosT for ByCoords {
    type Xtype = BoundedU8<0, 2>;
    type Ytype = BoundedU8<0, 8>;
    const WIDTH: usize = 3;
    const HEIGHT: usize = 9;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
        ByCoords { column: xy.0, line: xy.1 }
    }
    fn x(&self) -> Self::Xtype {
        self.column
    }
    fn y(&self) -> Self::Ytype {
        self.line
    }
}
impl Place for ByCoords {
    fn name() -> String {
        "ByCoords".into()
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Around(pub (BoundedI16<-2, 3>, BoundedI8<-128, -125>));
impl PosT for Around {
    type Xtype = BoundedI16<-2, 3>;
    type Ytype = BoundedI8<-128, -125>;
    const WIDTH: usize = 6;
    const HEIGHT: usize = 4;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
        Around(xy)
    }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) {
        self.0
    }
}
impl Place for Around {
    fn name() -> String {
        "Around".into()
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Square8(pub (BoundedU64<0, 8>, BoundedU64<0, 8>));
impl PosT for Square8 {
    type Xtype = BoundedU64<0, 8>;
    type Ytype = BoundedU64<0, 8>;
    const WIDTH: usize = 9;
    const HEIGHT: usize = 9;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
        Square8(xy)
    }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) {
        self.0
    }
}
impl Place for Square8 {
    fn name() -> String {
        "Square8".into()
    }
}

pub fn pok<P: Place>(p: P) -> String {
    let (a, b) = p.xy();
    format!("[\"ok\",{},{}]", a.json(), b.json())
}
pub fn pres<P: Place, E: std::fmt::Debug>(r: Result<P, E>) -> String {
    match r {
        Ok(p) => pok(p),
        Err(e) => err_name(e),
    }
}
pub fn popt<P: Place>(r: Option<P>) -> String {
    match r {
        Some(p) => format!("[{}]", p.json()),
        None => "[]".into(),
    }
}
pub fn dirs() -> [Dir; 8] {
    [Dir::N, Dir::NE, Dir::E, Dir::SE, Dir::S, Dir::SW, Dir::W, Dir::NW]
}
pub fn dnum(d: Dir) -> u8 {
    match d {
        Dir::N => 0,
        Dir::NE => 1,
        Dir::E => 2,
        Dir::SE => 3,
        Dir::S => 4,
        Dir::SW => 5,
        Dir::W => 6,
        Dir::NW => 7,
    }
}

impl std::ops::Add<Dir> for ByCoords {
    type Output = Result<Self, Error>;
    fn add(self, d: Dir) -> Self::Output {
        Ok(Self::new_((PosT::tuple(&self) + d)?))
    }
}
impl std::ops::Add<Dir> for Square8 {
    type Output = Result<Self, Error>;
    fn add(self, d: Dir) -> Self::Output {
        Ok(Self::new_((PosT::tuple(&self) + d)?))
    }
}
