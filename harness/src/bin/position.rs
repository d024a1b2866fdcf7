//! Driver for positions: C03, C04, C07, C10, C11, C12.

use harness::geom::*;
use harness::*;
use sqrid::*;

struct Sess<'a, P: Place> {
    rec: &'a mut Rec,
    cur: P,
}

impl<'a, P: Place> Sess<'a, P> {
    fn begin(rec: &'a mut Rec) -> Self {
        rec.begin("Position", &P::params());
        Sess { rec, cur: P::first() }
    }
    fn end(self) {
        self.rec.end();
    }
    /// Go to a position, without exercising the checked constructors
    fn place(&mut self, p: P) {
        let (a, b) = p.xy();
        self.rec.ev(&[("op", jstr("place")), ("a", a.json()), ("b", b.json())]);
        self.cur = p;
    }
    fn note(&mut self, op: &str, via: &str, args: &[(&str, String)], r: String) {
        let mut f = vec![("op", jstr(op)), ("via", jstr(via))];
        f.extend(args.iter().cloned());
        f.push(("r", r));
        self.rec.ev(&f);
    }
    /// An operation that results in a position or an error
    fn to<E: std::fmt::Debug>(&mut self, op: &str, via: &str, args: &[(&str, String)], f: impl FnOnce() -> Result<P, E>) {
        let mut new = None;
        let r = guarded(|| {
            let r = f();
            new = r.as_ref().ok().copied();
            pres(r)
        });
        self.note(op, via, args, r);
        if let Some(p) = new {
            self.cur = p;
        }
    }
    fn make(&mut self, via: &str, a: Big, b: Big, f: impl FnOnce() -> Result<P, Error>) {
        self.to("make", via, &[("a", a.json()), ("b", b.json())], f)
    }
    fn read(&mut self, via: &str, f: impl FnOnce() -> (Big, Big)) {
        let r = guarded(|| {
            let (a, b) = f();
            format!("[\"ok\",{},{}]", a.json(), b.json())
        });
        self.note("read", via, &[], r);
    }
}

fn nn(s: &str) -> Result<(), Error> {
    let _ = s;
    Ok(())
}

/* C03 */

/// Coordinates in and out of an axis
fn candidates(lim: (Big, Big), rng: &mut Rng, rich: bool) -> Vec<Big> {
    let (lo, hi) = lim;
    let mut v = vec![];
    for b in [lo, hi, small(0)] {
        for d in -1..=1 {
            v.extend(b.plus(d));
        }
    }
    let within = Big::random(lo, hi, rng);
    v.push(within);
    for bits in [8, 16, 32, 64] {
        if rich || rng.chance(1, 2) {
            v.extend(within.plus(1i128 << bits));
            v.extend(within.plus(-(1i128 << bits)));
        }
    }
    if rich {
        v.extend([u8::MAX.big(), i8::MAX.big(), u16::MAX.big(), i16::MAX.big(), i16::MIN.big(), i32::MIN.big(), i32::MAX.big(),
                  u32::MAX.big(), i64::MIN.big(), i64::MAX.big(), u64::MAX.big(), i128::MAX.big(), i128::MIN.big(), u128::MAX.big()]);
    }
    v.sort_by_key(|b| (b.neg, b.mag));
    v.dedup();
    v
}

macro_rules! make_mixed {
    ($s:expr, $p:ty, $a:expr, $b:expr, $($x:ty, $y:ty);*) => { $(
        if let (Some(x), Some(y)) = (<$x as Fit>::fit($a), <$y as Fit>::fit($b)) {
            $s.make(concat!("PosT::new ", stringify!($x), ",", stringify!($y)), $a, $b, || <$p as PosT>::new(x, y));
        }
    )* };
}

fn construct<P: Place>(rec: &mut Rec) {
    let xs = candidates(P::xlim(), &mut rec.rng, true);
    let ys = candidates(P::ylim(), &mut rec.rng, true);
    let mut s = Sess::<P>::begin(rec);
    let mut i = 0;
    for a in &xs {
        for b in &ys {
            let (a, b) = (*a, *b);
            // All pairs with an interesting one, a sample of the others
            i += 1;
            let inside = P::at(a, b).is_some();
            if !inside && i % 3 != 0 && !s.rec.thorough {
                continue;
            }
            make_mixed!(s, P, a, b, u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; usize, usize;
                        i8, i8; i16, i16; i32, i32; i64, i64; i128, i128; isize, isize);
            if i % 2 == 0 {
                make_mixed!(s, P, a, b, u8, i128; i128, u8; u16, i64; i32, u64; usize, i16);
            }
        }
    }
    s.end();
    let ps = P::some(if rec.thorough { 60 } else { 24 }, &mut rec.rng);
    let mut s = Sess::<P>::begin(rec);
    for p in ps {
        s.place(p);
        s.read("x,y", || (rawof(PosT::x(&p)), rawof(PosT::y(&p))));
        s.read("tuple", || {
            let t = PosT::tuple(&p);
            (rawof(t.0), rawof(t.1))
        });
        s.read("into_tuple", || {
            let t = PosT::into_tuple(p);
            (rawof(t.0), rawof(t.1))
        });
        s.read("inner_tuple", || {
            let t = PosT::inner_tuple(p);
            (t.0.big(), t.1.big())
        });
        let t = PosT::tuple(&p);
        s.to("make", "new of own types", &[("a", rawof(t.0).json()), ("b", rawof(t.1).json())], || <P as PosT>::new(t.0, t.1));
        s.to("make", "new_ of own types", &[("a", rawof(t.0).json()), ("b", rawof(t.1).json())], || {
            nn("")?;
            Ok::<P, Error>(<P as PosT>::new_(t))
        });
    }
    s.end();
}

fn construct_pos<const X: u16, const Y: u16>(rec: &mut Rec) {
    construct::<Pos<X, Y>>(rec);
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let xs = candidates(P::<X, Y>::xlim(), &mut rec.rng, true);
    let ys = candidates(P::<X, Y>::ylim(), &mut rec.rng, true);
    let mut s = Sess::<P<X, Y>>::begin(rec);
    for a in &xs {
        for b in &ys {
            let (a, b) = (*a, *b);
            if let (Some(x), Some(y)) = (<u16 as Fit>::fit(a), <u16 as Fit>::fit(b)) {
                s.make("Pos::new", a, b, || P::<X, Y>::new(x, y));
                s.to("unwrap", "Pos::new_unwrap", &[("a", a.json()), ("b", b.json())],
                     || Ok::<_, Error>(P::<X, Y>::new_unwrap(x, y)));
                s.make("TryFrom (u16,u16)", a, b, || P::<X, Y>::try_from((x, y)));
                s.make("TryFrom &(u16,u16)", a, b, || P::<X, Y>::try_from(&(x, y)));
            }
            if let (Some(x), Some(y)) = (<i32 as Fit>::fit(a), <i32 as Fit>::fit(b)) {
                s.make("TryFrom (i32,i32)", a, b, || P::<X, Y>::try_from((x, y)));
                s.make("TryFrom &(i32,i32)", a, b, || P::<X, Y>::try_from(&(x, y)));
            }
        }
    }
    s.end();
    let ps = P::<X, Y>::some(30, &mut rec.rng);
    let mut s = Sess::<P<X, Y>>::begin(rec);
    for p in ps {
        s.place(p);
        let t = p.0;
        let (a, b) = (rawof(t.0), rawof(t.1));
        s.make("From bounded tuple", a, b, || Ok(P::<X, Y>::from(t)));
        s.make("From &bounded tuple", a, b, || Ok(P::<X, Y>::from(&t)));
        s.read("Pos::x,y", || (p.x().big(), p.y().big()));
        s.read("Pos::tuple", || (p.tuple().0.big(), p.tuple().1.big()));
        s.read("(u16,u16)::from", || {
            let t: (u16, u16) = p.into();
            (t.0.big(), t.1.big())
        });
        s.read("(u16,u16)::from &", || {
            let t: (u16, u16) = (&p).into();
            (t.0.big(), t.1.big())
        });
        s.read("(i32,i32)::from", || {
            let t: (i32, i32) = p.into();
            (t.0.big(), t.1.big())
        });
        s.read("(i32,i32)::from &", || {
            let t: (i32, i32) = (&p).into();
            (t.0.big(), t.1.big())
        });
        s.read("field", || (rawof(p.0 .0), rawof(p.0 .1)));
    }
    s.end();
}

/// From one position type to another
fn convert<P, Q>(rec: &mut Rec)
where
    P: Place,
    Q: Place,
    Q::Xtype: TryFrom<<P::Xtype as BoundedInt>::Inner>,
    Q::Ytype: TryFrom<<P::Ytype as BoundedInt>::Inner>,
    <P::Xtype as BoundedInt>::Inner: BoundedInt,
    <P::Ytype as BoundedInt>::Inner: BoundedInt,
{
    // Coordinates around the limits of the target, that the source has
    let xs = candidates(Q::xlim(), &mut rec.rng, true);
    let ys = candidates(Q::ylim(), &mut rec.rng, true);
    let mut s = Sess::<Q>::begin(rec);
    for a in &xs {
        for b in &ys {
            if let Some(p) = P::at(*a, *b) {
                s.make(&format!("tryfrom_pos {}", P::name()), *a, *b, || Q::tryfrom_pos(p));
            }
        }
    }
    for p in P::some(12, &mut s.rec.rng) {
        let (a, b) = p.xy();
        s.make(&format!("tryfrom_pos {}", P::name()), a, b, || Q::tryfrom_pos(p));
    }
    s.end();
}

macro_rules! statics {
    ($rec:expr, $($x:literal $y:literal: $($a:literal $b:literal),*);*) => { $( {
        let mut s = Sess::<Pos<$x, $y>>::begin($rec);
        $( {
            s.make("new_static", small($a), small($b), || Ok(Pos::<$x, $y>::new_static::<$a, $b>()));
            const P: Pos<$x, $y> = Pos::<$x, $y>::new_unwrap($a, $b);
            s.make("new_unwrap in a constant", small($a), small($b), || Ok(P));
            const Q: Result<Pos<$x, $y>, Error> = Pos::<$x, $y>::new($a, $b);
            s.make("new in a constant", small($a), small($b), || Q);
            const R: Result<Pos<$x, $y>, Error> = Pos::<$x, $y>::new($a, $y + 1);
            s.make("new in a constant", small($a), small($y + 1), || R);
            const S: Result<Pos<$x, $y>, Error> = Pos::<$x, $y>::new($x + 1, $b);
            s.make("new in a constant", small($x + 1), small($b), || S);
        } )*
        s.end();
    } )* };
}

/* C04 */

fn index<P: Place>(rec: &mut Rec) {
    if !P::countable() {
        return;
    }
    let ps = P::some(if rec.thorough { 400 } else { 100 }, &mut rec.rng);
    let cells = P::cells();
    let w = P::xlim().1.mag + 1;
    let mut is = vec![];
    if cells <= 300 {
        is.extend(0..cells + 4);
    }
    for c in [0, w, 2 * w, cells, cells / 2, cells / w, cells / w * 2, 1 << 8, 1 << 16, 1 << 32, 1 << 63, u64::MAX as u128,
              cells + (1 << 8), cells + (1 << 16), cells + (1 << 32), (1 << 8) * w, (1 << 16) * w, (1 << 32) * w, u32::MAX as u128 * w] {
        for d in 0..5 {
            is.extend((c + d).checked_sub(2));
        }
    }
    for _ in 0..10 {
        is.push(rec.rng.u128() % cells);
        is.push((rec.rng.u128() >> 64) >> rec.rng.below(60));
    }
    is.sort();
    is.dedup();
    is.retain(|i| *i <= u64::MAX as u128);
    let mut s = Sess::<P>::begin(rec);
    s.note("size", "width,height,dimensions", &[], guarded(|| {
        format!("[\"ok\",{},{},{}]", bigj(P::width()), bigj(P::height()), bigj(P::dimensions()))
    }));
    s.note("extent", "WIDTH,HEIGHT", &[], guarded(|| format!("[\"ok\",{},{}]", bigj(P::WIDTH), bigj(P::HEIGHT))));
    for (n, p) in [("first", P::first()), ("last", P::last())] {
        s.to("named", n, &[("name", jstr(n))], || Ok::<_, Error>(p));
        s.note("toindex", "to_usize", &[], guarded(|| format!("[\"ok\",{}]", bigj(p.to_usize()))));
    }
    for p in ps {
        s.place(p);
        let mut i = None;
        s.note("toindex", "to_usize", &[], guarded(|| {
            let n = p.to_usize();
            i = Some(n);
            format!("[\"ok\",{}]", bigj(n))
        }));
        if let Some(i) = i {
            s.to("fromindex", "round trip", &[("i", bigj(i))], || P::tryfrom_usize(i));
        }
    }
    for i in is {
        let i = i as usize;
        s.to("fromindex", "tryfrom_usize", &[("i", bigj(i))], || P::tryfrom_usize(i));
    }
    s.end();
}

/// The number of coordinates, wherever they start
fn span<P: Place>(rec: &mut Rec) {
    let mut s = Sess::<P>::begin(rec);
    s.note("extent", "WIDTH,HEIGHT", &[], guarded(|| format!("[\"ok\",{},{}]", bigj(P::WIDTH), bigj(P::HEIGHT))));
    s.end();
}

fn index_pos<const X: u16, const Y: u16>(rec: &mut Rec) {
    let ps = Pos::<X, Y>::some(40, &mut rec.rng);
    let cells = Pos::<X, Y>::cells() as usize;
    let mut s = Sess::<Pos<X, Y>>::begin(rec);
    for (n, p) in [("FIRST", Pos::<X, Y>::FIRST), ("LAST", Pos::<X, Y>::LAST)] {
        s.to("named", n, &[("name", jstr(n))], || Ok::<_, Error>(p));
    }
    for p in ps {
        s.place(p);
        s.note("toindex", "From", &[], guarded(|| format!("[\"ok\",{}]", bigj(usize::from(p)))));
        s.note("toindex", "From &", &[], guarded(|| format!("[\"ok\",{}]", bigj(usize::from(&p)))));
        let i = usize::from(p);
        s.to("fromindex", "TryFrom", &[("i", bigj(i))], || Pos::<X, Y>::try_from(i));
    }
    for i in [cells, cells + 1, cells - 1, cells + 65536, usize::MAX, cells * 2, 0] {
        s.to("fromindex", "TryFrom", &[("i", bigj(i))], || Pos::<X, Y>::try_from(i));
    }
    s.end();
}

/// The constants, for the types that have them
macro_rules! extents {
    ($rec:expr, $($x:literal $y:literal),*) => { $( {
        type P = Pos<$x, $y>;
        let s = Sess::<P>::begin($rec);
        let mut s = s;
        s.note("size", "WIDTH,HEIGHT,SIZE", &[], format!("[\"ok\",{},{},{}]", bigj(P::WIDTH), bigj(P::HEIGHT), bigj(P::SIZE)));
        s.note("extent", "XMAX+1,YMAX+1", &[], format!("[\"ok\",{},{}]", bigj(P::XMAX as usize + 1), bigj(P::YMAX as usize + 1)));
        s.end();
    } )* };
}

/* C07 */

fn moves<P: Place>(rec: &mut Rec) {
    let ps = P::some(if rec.thorough { 200 } else { 50 }, &mut rec.rng);
    let mut s = Sess::<P>::begin(rec);
    for p in ps {
        for d in dirs() {
            s.place(p);
            let t = PosT::tuple(&p);
            let mut there = None;
            s.to("move", "tuple + dir", &[("d", dnum(d).to_string())], || {
                let r = (t + d).map(P::new_);
                there = r.as_ref().ok().copied();
                r
            });
            if let Some(q) = there {
                let t = PosT::tuple(&q);
                s.to("move", "back", &[("d", dnum(-d).to_string())], || (&t + (-d)).map(P::new_));
            }
            s.place(p);
            s.to("move", "&tuple + dir", &[("d", dnum(d).to_string())], || (&t + d).map(P::new_));
        }
    }
    // A random walk
    s.place(P::last());
    for _ in 0..100 {
        let d = dirs()[s.rec.rng.below(8)];
        let t = PosT::tuple(&s.cur);
        s.to("move", "walk", &[("d", dnum(d).to_string())], || (t + d).map(P::new_));
    }
    s.end();
}

/// Tuples of any two bounded integers, which need not be position types
fn moves_tuple<A, B>(rec: &mut Rec)
where
    A: BoundedInt,
    B: BoundedInt,
    A::Inner: ToBig,
    B::Inner: ToBig,
{
    let (xl, yl) = ((rawof(A::MIN), rawof(A::MAX)), (rawof(B::MIN), rawof(B::MAX)));
    let xs = axis(xl, &mut rec.rng);
    let ys = axis(yl, &mut rec.rng);
    let name = std::any::type_name::<(A, B)>().replace("sqrid::sqrid::boundedint::", "");
    rec.begin("Position", &[("ty", jstr(&name)), ("xlo", xl.0.json()), ("xhi", xl.1.json()), ("ylo", yl.0.json()), ("yhi", yl.1.json())]);
    for a in &xs {
        for b in &ys {
            let (Some(x), Some(y)) = (coord::<A>(*a), coord::<B>(*b)) else { continue };
            for d in dirs() {
                for by_ref in [false, true] {
                    rec.ev(&[("op", jstr("place")), ("a", a.json()), ("b", b.json())]);
                    let r = guarded(|| {
                        let t = (x, y);
                        match if by_ref { &t + d } else { t + d } {
                            Ok((x, y)) => format!("[\"ok\",{},{}]", rawof(x).json(), rawof(y).json()),
                            Err(e) => err_name(e),
                        }
                    });
                    rec.ev(&[("op", jstr("move")), ("via", jstr("tuple")), ("d", dnum(d).to_string()), ("r", r)]);
                }
            }
        }
    }
    rec.end();
}

fn moves_pos<const X: u16, const Y: u16>(rec: &mut Rec) {
    moves::<Pos<X, Y>>(rec);
    let ps = Pos::<X, Y>::some(50, &mut rec.rng);
    let mut s = Sess::<Pos<X, Y>>::begin(rec);
    for p in ps {
        for d in dirs() {
            let dj = [("d", dnum(d).to_string())];
            s.place(p);
            s.to("move", "pos + dir", &dj, || p + d);
            s.place(p);
            s.to("move", "&pos + dir", &dj, || &p + d);
            s.place(p);
            s.to("move", "pos_dir_add", &dj, || pos_dir_add(p, d));
            s.place(p);
            let mut new = None;
            let r = guarded(|| {
                new = pos_dir_add_ok(p, d);
                match new {
                    Some(q) => format!("[\"some\",{},{}]", q.x().big().json(), q.y().big().json()),
                    None => "[\"none\"]".into(),
                }
            });
            s.note("moveok", "pos_dir_add_ok", &dj, r);
            if let Some(q) = new {
                s.cur = q;
                s.to("move", "back", &[("d", dnum(-d).to_string())], || q + (-d));
            }
        }
    }
    s.end();
}

/* C10 */

fn geometry<P: Place>(rec: &mut Rec) {
    let n = match (P::cells() <= 12, rec.thorough) {
        (true, _) => 12,
        (_, false) => 9,
        (_, true) => 14,
    };
    let ps = P::some(n, &mut rec.rng);
    let mut s = Sess::<P>::begin(rec);
    for p in &ps {
        s.place(*p);
        s.note("corner", "is_corner", &[], guarded(|| p.is_corner().to_string()));
        s.note("side", "is_side", &[], guarded(|| p.is_side().to_string()));
        for q in &ps {
            let (a, b) = q.xy();
                        s.note("distance", "manhattan", &[("a", a.json()), ("b", b.json())],
                   guarded(|| format!("[\"ok\",{}]", bigj(p.manhattan(q)))));
            for r in &ps {
                let (c, d) = r.xy();
                s.note("inside", "inside", &[("a", a.json()), ("b", b.json()), ("c", c.json()), ("d", d.json())],
                       guarded(|| p.inside(q, r).to_string()));
            }
        }
    }
    s.end();
    let mut s = Sess::<P>::begin(rec);
    for (i, n) in [0usize, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 10, 30, 3, 2].into_iter().enumerate() {
        let pool = if i % 2 == 0 { ps.clone() } else { P::some(1000, &mut s.rec.rng) };
        let v: Vec<P> = (0..n).map(|_| *s.rec.rng.pick(&pool)).collect();
        let pts = jarr(v.iter().map(|p| p.json()));
        let how = s.rec.rng.below(1 + FEEDS);
        let r = guarded(|| match if how == 0 { P::tlbr_of(v.iter().copied()) } else { P::tlbr_of(feed_again(v.clone(), how, 4)) } {
            Ok((t, b)) => {
                let ((a, b), (c, d)) = (t.xy(), b.xy());
                format!("[\"ok\",{},{},{},{}]", a.json(), b.json(), c.json(), d.json())
            }
            Err(e) => err_name(e),
        });
        s.note("box", "tlbr_of", &[("pts", pts)], r);
    }
    // Long sequences: only one of them may matter, wherever it comes up.
    // The box depends on the different ones.
    for n in [256usize, 257, 1000, 65537, 70000] {
        let few: Vec<P> = (0..3).map(|_| *s.rec.rng.pick(&ps)).collect();
        let special = *s.rec.rng.pick(&ps);
        let spot = match s.rec.rng.below(4) {
            0 => n - 1,
            1 => n - n % 256,
            2 => n / 2,
            _ => s.rec.rng.below(n),
        }.min(n - 1);
        let all: Vec<P> = (0..n).map(|i| if i == spot { special } else { few[i % 3] }).collect();
        let mut v = few.clone();
        v.push(special);
        let pts = jarr(v.iter().map(|p| p.json()));
        let how = s.rec.rng.below(1 + FEEDS);
        let r = guarded(|| match if how == 0 { P::tlbr_of(all.iter().copied()) } else { P::tlbr_of(feed_again(all.clone(), how, 4)) } {
            Ok((t, b)) => {
                let ((a, b), (c, d)) = (t.xy(), b.xy());
                format!("[\"ok\",{},{},{},{}]", a.json(), b.json(), c.json(), d.json())
            }
            Err(e) => err_name(e),
        });
        s.note("box", "tlbr_of many", &[("pts", pts)], r);
    }
    for (n, p) in [("first", P::first()), ("last", P::last())] {
        s.to("named", n, &[("name", jstr(n))], || Ok::<_, Error>(p));
    }
    s.end();
}

fn named_pos<const X: u16, const Y: u16>(rec: &mut Rec) {
    geometry::<Pos<X, Y>>(rec);
    let mut s = Sess::<Pos<X, Y>>::begin(rec);
    for (n, p) in [
        ("FIRST", Pos::<X, Y>::FIRST),
        ("LAST", Pos::<X, Y>::LAST),
        ("TOP_LEFT", Pos::<X, Y>::TOP_LEFT),
        ("TOP_RIGHT", Pos::<X, Y>::TOP_RIGHT),
        ("BOTTOM_LEFT", Pos::<X, Y>::BOTTOM_LEFT),
        ("BOTTOM_RIGHT", Pos::<X, Y>::BOTTOM_RIGHT),
        ("DEFAULT", Pos::<X, Y>::default()),
    ] {
        s.to("named", n, &[("name", jstr(n))], || Ok::<_, Error>(p));
    }
    s.to("center", "CENTER", &[], || Ok::<_, Error>(Pos::<X, Y>::CENTER));
    s.end();
}

/* C11 */

fn toward<P: Place>(rec: &mut Rec) {
    let ps = P::some(if rec.thorough { 60 } else { 30 }, &mut rec.rng);
    let mut s = Sess::<P>::begin(rec);
    let dirj = |d: Option<Dir>| jarr(d.map(|d| dnum(d).to_string()));
    for p in &ps {
        s.place(*p);
        for q in &ps {
            let (a, b) = q.xy();
            for diag in [false, true] {
                let r = guarded(|| dirj(if diag { direction_to::<P, true>(p, q) } else { direction_to::<P, false>(p, q) }));
                s.note("toward", "direction_to", &[("a", a.json()), ("b", b.json()), ("diag", diag.to_string())], r);
            }
        }
    }
    s.end();
    // Follow the directions all the way
    let far = |p: &P, q: &P| {
        let ((a, b), (c, d)) = (p.xy(), q.xy());
        a.dist(c) > 400 || b.dist(d) > 400
    };
    for _ in 0..if rec.thorough { 40 } else { 8 } {
        let (p, q) = (*rec.rng.pick(&ps), *rec.rng.pick(&ps));
        if far(&p, &q) {
            continue;
        }
        let diag = rec.rng.chance(1, 2);
        let mut s = Sess::<P>::begin(rec);
        s.place(p);
        let (a, b) = q.xy();
        s.rec.ev(&[("op", jstr("aim")), ("a", a.json()), ("b", b.json()), ("diag", diag.to_string())]);
        for _ in 0..900 {
            let c = s.cur;
            let d = if diag { direction_to::<P, true>(&c, &q) } else { direction_to::<P, false>(&c, &q) };
            let Some(d) = d else { break };
            let t = PosT::tuple(&c);
            match t + d {
                Ok(t) => s.cur = P::new_(t),
                Err(_) => break,
            }
            s.rec.ev(&[("op", jstr("follow")), ("d", dnum(d).to_string())]);
        }
        s.rec.ev(&[("op", jstr("arrived")), ("r", format!("[\"ok\",{},{}]", s.cur.xy().0.json(), s.cur.xy().1.json()))]);
        s.end();
    }
}

/* C12 */

fn flips<P: Place>(rec: &mut Rec) {
    if !P::zero_based() {
        return;
    }
    let ps = P::some(if rec.thorough { 300 } else { 80 }, &mut rec.rng);
    let mut s = Sess::<P>::begin(rec);
    for p in ps {
        s.place(p);
        s.to("fliph", "", &[], || Ok::<_, Error>(p.flip_h()));
        let q = s.cur;
        s.to("flipv", "", &[], || Ok::<_, Error>(q.flip_v()));
        let q = s.cur;
        s.to("fliph", "", &[], || Ok::<_, Error>(q.flip_h()));
        let q = s.cur;
        s.to("flipv", "", &[], || Ok::<_, Error>(q.flip_v()));
    }
    s.end();
}

fn rotations<P: Place>(rec: &mut Rec)
where
    <P::Xtype as BoundedInt>::Inner: std::ops::Sub<Output = <P::Xtype as BoundedInt>::Inner>,
    <P::Ytype as BoundedInt>::Inner: std::ops::Sub<Output = <P::Ytype as BoundedInt>::Inner>,
    P::Xtype: TryFrom<<P::Ytype as BoundedInt>::Inner>,
    P::Ytype: TryFrom<<P::Xtype as BoundedInt>::Inner>,
{
    flips::<P>(rec);
    let ps = P::some(if rec.thorough { 300 } else { 80 }, &mut rec.rng);
    let mut s = Sess::<P>::begin(rec);
    for p in ps {
        s.place(p);
        for _ in 0..4 {
            let q = s.cur;
            s.to("cw", "", &[], || Ok::<_, Error>(q.rotate_cw()));
        }
        for _ in 0..4 {
            let q = s.cur;
            s.to("cc", "", &[], || Ok::<_, Error>(q.rotate_cc()));
        }
        let q = s.cur;
        s.to("cw", "", &[], || Ok::<_, Error>(q.rotate_cw()));
        let q = s.cur;
        s.to("cc", "", &[], || Ok::<_, Error>(q.rotate_cc()));
        let q = s.cur;
        s.to("fliph", "", &[], || Ok::<_, Error>(q.flip_h()));
        let q = s.cur;
        s.to("cw", "", &[], || Ok::<_, Error>(q.rotate_cw()));
    }
    s.end();
}

/* */

macro_rules! each {
    ($f:ident, $rec:expr, $($t:ty),* $(,)?) => { $( $f::<$t>($rec); )* };
}
macro_rules! each_pos {
    ($f:ident, $rec:expr, $($x:literal $y:literal),* $(,)?) => { $( $f::<$x, $y>($rec); )* };
}

fn main() {
    let mut rec = Rec::from_args();
    let r = &mut rec;
    match r.prop.as_str() {
        "C03" => {
            each_pos!(construct_pos, r, 0 0, 0 5, 4 0, 1 1, 3 2, 2 4, 7 7, 255 254, 256 1, 65535 3, 2 65535, 65535 65535);
            each!(construct, r, (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), (i8, i8), (i16, i16), (i32, i32),
                  ByTuple, ByCoords, Around);
            convert::<(u8, u8), Pos<3, 2>>(r);
            convert::<(i8, i8), Pos<3, 2>>(r);
            convert::<(i32, i32), Pos<255, 100>>(r);
            convert::<(u128, u128), Pos<65535, 100>>(r);
            convert::<(u64, u64), (u16, u16)>(r);
            convert::<(u64, u64), (i32, i32)>(r);
            convert::<(i16, i16), (u8, u8)>(r);
            convert::<(i32, i32), (u128, u128)>(r);
            convert::<(i32, i32), (i8, i8)>(r);
            convert::<Pos<3, 2>, (u8, u8)>(r);
            convert::<Pos<300, 2>, (u8, u8)>(r);
            convert::<Pos<65535, 65535>, Pos<7, 9>>(r);
            convert::<Pos<2, 9>, Pos<9, 2>>(r);
            convert::<Pos<9, 9>, ByTuple>(r);
            convert::<Pos<300, 300>, ByCoords>(r);
            convert::<ByTuple, ByCoords>(r);
            convert::<Around, ByTuple>(r);
            convert::<(i32, i32), Around>(r);
            statics!(r, 3 2: 0 0, 3 2, 1 2, 3 0; 0 0: 0 0; 255 7: 255 7, 200 0; 65534 1: 65534 1, 0 0; 2 2: 1 1);
        }
        "C04" => {
            each_pos!(index_pos, r, 0 0, 0 5, 4 0, 1 1, 3 2, 2 4, 7 7, 30 2, 2 30, 255 255, 255 254, 256 1, 65535 3, 2 65535, 65535 65535, 65534 65534);
            each!(index, r, Pos<0, 0>, Pos<0, 9>, Pos<9, 0>, Pos<3, 2>, Pos<2, 3>, Pos<16, 16>, Pos<255, 255>, Pos<256, 255>, Pos<255, 256>,
                  Pos<65535, 65535>, Pos<65534, 1>, Pos<1, 65535>, (u8, u8), (u16, u16), ByTuple, ByCoords, Square8);
            each!(span, r, (u32, u32), (i8, i8), (i16, i16), (i32, i32));
            extents!(r, 0 0, 3 2, 2 3, 65534 0, 0 65534, 65534 65534, 255 255, 299 1);
        }
        "C07" => {
            each_pos!(moves_pos, r, 0 0, 0 3, 3 0, 1 1, 3 2, 2 4, 255 1, 1 256, 65535 65535);
            each!(moves, r, (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), (i8, i8), (i16, i16), (i32, i32),
                  ByTuple, ByCoords, Around, Square8);
            moves_tuple::<u8, i128>(r);
            moves_tuple::<isize, usize>(r);
            moves_tuple::<i64, u16>(r);
            moves_tuple::<BoundedU8<3, 17>, BoundedU8<200, 255>>(r);
            moves_tuple::<BoundedU8<255, 255>, BoundedU8<0, 0>>(r);
            moves_tuple::<BoundedI8<-128, -100>, BoundedI8<-7, 6>>(r);
            moves_tuple::<BoundedI8<100, 127>, BoundedU16<65530, 65535>>(r);
            moves_tuple::<BoundedU32<1, 2>, BoundedI32<-10, -9>>(r);
            moves_tuple::<BoundedU64<7, 8>, BoundedI64<-5, 5>>(r);
            moves_tuple::<BoundedU128<2, 5>, BoundedI128<-2, 3>>(r);
            moves_tuple::<BoundedIsize<-4, 8>, u8>(r);
            moves_tuple::<BoundedI16<-300, 300>, BoundedI16<32000, 32767>>(r);
        }
        "C10" => {
            each_pos!(named_pos, r, 0 0, 0 3, 3 0, 1 1, 1 2, 3 2, 2 2, 2 4, 4 4, 7 8, 255 1, 256 256, 65535 65535);
            each!(geometry, r, (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), (i8, i8), (i16, i16), (i32, i32),
                  ByTuple, ByCoords, Around, Square8);
        }
        "C11" => {
            each!(toward, r, Pos<0, 0>, Pos<0, 4>, Pos<4, 0>, Pos<3, 3>, Pos<4, 5>, Pos<20, 3>, Pos<300, 200>, Pos<65535, 65535>, (u8, u8), (u16, u16), (u64, u64),
                  (u128, u128), (i8, i8), (i16, i16), (i32, i32), ByTuple, ByCoords, Around, Square8);
        }
        "C12" => {
            each!(flips, r, Pos<0, 3>, Pos<3, 0>, Pos<3, 2>, Pos<2, 5>, Pos<300, 7>, Pos<1, 65535>, ByTuple, ByCoords);
            each!(rotations, r, Pos<0, 0>, Pos<1, 1>, Pos<2, 2>, Pos<3, 3>, Pos<4, 4>, Pos<7, 7>, Pos<255, 255>, Pos<256, 256>, Pos<65535, 65535>,
                  (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), Square8);
        }
        p => {
            eprintln!("no sessions for {p}");
            std::process::exit(2);
        }
    }
    rec.finish();
}
