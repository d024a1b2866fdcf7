//! Driver for what grids and other things are displayed as: C28.

use harness::geom::*;
use harness::*;
use sqrid::*;
use std::fmt::Display;

/// Formats: name of the alignment, fill, does it have a width?
/// From the 12th on they may have a precision; signs, `#` and zeros are
/// nothing to texts.
const FORMATS: [(&str, &str, bool); 19] = [
    ("left", " ", false),
    ("left", " ", true),
    ("left", " ", true),
    ("right", " ", true),
    ("center", " ", true),
    ("left", "-", true),
    ("right", "*", true),
    ("center", "_", true),
    ("right", "0", true),
    ("left", "\u{b7}", true),
    ("right", "#", true),
    ("center", "\"", true),
    ("left", " ", false),
    ("left", " ", true),
    ("right", "-", true),
    ("center", " ", true),
    ("left", " ", true),
    ("left", " ", true),
    ("right", "x", true),
];
/// How much of each text is shown
fn most(format: usize, width: usize) -> usize {
    match format {
        12 | 13 => 1 + width / 2,
        14 => width,
        15 => width + 1,
        _ => 1000,
    }
}

fn render<T: Display>(t: &T, format: usize, width: usize) -> String {
    match format {
        0 => format!("{}", t),
        1 => format!("{:w$}", t, w = width),
        2 => format!("{:<w$}", t, w = width),
        3 => format!("{:>w$}", t, w = width),
        4 => format!("{:^w$}", t, w = width),
        5 => format!("{:-<w$}", t, w = width),
        6 => format!("{:*>w$}", t, w = width),
        7 => format!("{:_^w$}", t, w = width),
        8 => format!("{:0>w$}", t, w = width),
        9 => format!("{:\u{b7}<w$}", t, w = width),
        10 => format!("{:#>w$}", t, w = width),
        11 => format!("{:\"^w$}", t, w = width),
        12 => format!("{:.n$}", t, n = most(format, width)),
        13 => format!("{:w$.n$}", t, w = width, n = most(format, width)),
        14 => format!("{:->w$.n$}", t, w = width, n = most(format, width)),
        15 => format!("{:^w$.n$}", t, w = width, n = most(format, width)),
        16 => format!("{:+w$}", t, w = width),
        17 => format!("{:#w$}", t, w = width),
        _ => format!("{:x>+#w$}", t, w = width),
    }
}

fn begin(rec: &mut Rec, name: &str, w: usize, h: usize, format: usize, width: usize) {
    let (align, fill, wide) = FORMATS[format];
    let fmt = obj(&[
        ("width", (if wide { width } else { 0 }).to_string()),
        ("align", jstr(align)),
        ("fill", jstr(fill)),
        ("most", most(format, width).to_string()),
    ]);
    rec.begin("Printer", &[("name", jstr(name)), ("w", w.to_string()), ("h", h.to_string()), ("fmt", fmt)]);
}

fn lines<T: Display>(rec: &mut Rec, t: &T, format: usize, width: usize) {
    match attempt(|| render(t, format, width)) {
        None => rec.ev(&[("op", jstr("panic"))]),
        Some(text) => {
            let all: Vec<&str> = text.split('\n').collect();
            for l in &all[..all.len() - 1] {
                rec.ev(&[("op", jstr("line")), ("s", jstr(l))]);
            }
            rec.ev(&[("op", jstr("done")), ("s", jstr(all[all.len() - 1]))]);
        }
    }
    rec.end();
}

fn formats(rec: &mut Rec, n: usize) -> Vec<(usize, usize)> {
    if n > 2000 {
        return vec![(0, 0), (3, 2)];
    }
    if n > 150 && !rec.thorough {
        return vec![(0, 0), (rec.rng.below(FORMATS.len()), 1 + rec.rng.below(6)), (3, 3)];
    }
    let mut v = vec![(0, 0), (1, 0), (3, 1)];
    for f in 1..FORMATS.len() {
        v.push((f, 1 + rec.rng.below(6)));
        if rec.thorough {
            v.push((f, 1 + rec.rng.below(9)));
        }
    }
    v
}

fn grids<P: Place + Copy, T: Display + Default, const S: usize>(rec: &mut Rec, what: &str, mut mk: impl FnMut(&mut Rng) -> T) {
    let ty = P::name();
    let (w, h) = (P::WIDTH, P::HEIGHT);
    for (format, width) in formats(rec, S) {
        let items: Vec<T> = (0..S).map(|_| mk(&mut rec.rng)).collect();
        let cells: Vec<String> = items.iter().map(|t| jstr(&t.to_string())).collect();
        let g: Grid<T, P, S> = items.into_iter().collect();
        begin(rec, &format!("Grid<{},{}>", what, ty), w, h, format, width);
        rec.ev(&[("op", jstr("texts")), ("cells", jarr(cells))]);
        lines(rec, &g, format, width);
    }
}

fn bits<P: Place + Copy, const W: usize, const S: usize>(rec: &mut Rec) {
    let ty = P::name();
    let (w, h) = (P::WIDTH, P::HEIGHT);
    for (k, (format, width)) in formats(rec, S).into_iter().enumerate() {
        let cells: Vec<bool> = (0..S).map(|_| if k == 0 { false } else { rec.rng.chance(1, 3) }).collect();
        let b: Gridbool<P, W> = cells.iter().copied().collect();
        begin(rec, &format!("Gridbool<{},{}>", ty, W), w, h, format, width);
        rec.ev(&[("op", jstr("bits")), ("cells", jints(cells.iter().map(|b| *b as u8)))]);
        lines(rec, &b, format, width);
    }
}

const WORDS: [&str; 9] = ["", "a", "-", "foo", "caf\u{e9}", "\u{2196}\u{2193}", "long word", "{}", "\"\\"];

fn both<P: Place + Copy, const W: usize, const S: usize>(rec: &mut Rec) {
    bits::<P, W, S>(rec);
    grids::<P, i32, S>(rec, "i32", |r| r.below(2400) as i32 - 1200);
    if S <= 2000 {
        grids::<P, u8, S>(rec, "u8", |r| r.below(12) as u8);
        grids::<P, String, S>(rec, "String", |r| r.pick(&WORDS).to_string());
        grids::<P, char, S>(rec, "char", |r| *r.pick(&['#', '.', '@', '\u{2191}']));
        grids::<P, bool, S>(rec, "bool", |r| r.chance(1, 2));
        grids::<P, Dir, S>(rec, "Dir", |r| dirs()[r.below(8)]);
        grids::<P, Pos<99, 1200>, S>(rec, "Pos", |r| Pos::try_from((r.below(100) as u16, r.below(1201) as u16)).unwrap());
    }
}

fn positions<const X: u16, const Y: u16>(rec: &mut Rec) {
    begin(rec, &format!("Pos<{},{}>", X, Y), 1, 1, 0, 0);
    for p in Pos::<X, Y>::some(200, &mut rec.rng) {
        let (x, y) = p.xy();
        rec.ev(&[("op", jstr("pos")), ("x", x.json()), ("y", y.json()), ("s", jstr(&format!("{}", p)))]);
        rec.ev(&[("op", jstr("pos")), ("x", x.json()), ("y", y.json()), ("s", jstr(&p.to_string()))]);
    }
    rec.end();
}

fn integers<B: BoundedInt<Inner: ToBig>>(rec: &mut Rec, name: &str) {
    begin(rec, name, 1, 1, 0, 0);
    for v in axis((rawof(B::MIN), rawof(B::MAX)), &mut rec.rng) {
        if let Some(b) = coord::<B>(v) {
            rec.ev(&[("op", jstr("int")), ("n", v.json()), ("s", jstr(&format!("{}", b)))]);
        }
    }
    rec.end();
}

fn main() {
    let mut recorder = Rec::from_args();
    let rec = &mut recorder;
    both::<Pos<0, 0>, 1, 1>(rec);
    both::<Pos<1, 0>, 1, 2>(rec);
    both::<Pos<0, 1>, 1, 2>(rec);
    both::<Pos<4, 2>, 1, 15>(rec);
    both::<Pos<2, 4>, 1, 15>(rec);
    both::<Pos<8, 1>, 1, 18>(rec);
    both::<Pos<9, 1>, 1, 20>(rec);
    both::<Pos<10, 1>, 1, 22>(rec);
    both::<Pos<11, 0>, 1, 12>(rec);
    both::<Pos<1, 8>, 1, 18>(rec);
    both::<Pos<1, 9>, 1, 20>(rec);
    both::<Pos<1, 10>, 1, 22>(rec);
    both::<Pos<0, 11>, 1, 12>(rec);
    both::<Pos<9, 9>, 4, 100>(rec);
    both::<Pos<10, 10>, 4, 121>(rec);
    both::<Pos<7, 3>, 2, 32>(rec);
    both::<ByCoords, 1, 27>(rec);
    both::<ByTuple, 2, 35>(rec);
    both::<Square8, 3, 81>(rec);
    both::<Pos<98, 0>, 4, 99>(rec);
    both::<Pos<99, 0>, 4, 100>(rec);
    both::<Pos<100, 0>, 4, 101>(rec);
    both::<Pos<0, 98>, 4, 99>(rec);
    both::<Pos<0, 99>, 4, 100>(rec);
    both::<Pos<0, 100>, 4, 101>(rec);
    both::<Pos<110, 1>, 7, 222>(rec);
    both::<Pos<1, 110>, 7, 222>(rec);
    both::<Pos<998, 0>, 32, 999>(rec);
    both::<Pos<999, 0>, 32, 1000>(rec);
    both::<Pos<1000, 1>, 63, 2002>(rec);
    both::<Pos<0, 998>, 32, 999>(rec);
    both::<Pos<0, 999>, 32, 1000>(rec);
    both::<Pos<1, 1000>, 63, 2002>(rec);
    both::<Pos<9999, 0>, 313, 10000>(rec);
    both::<Pos<10000, 0>, 313, 10001>(rec);
    both::<Pos<0, 10000>, 313, 10001>(rec);
    if rec.thorough {
        both::<Pos<65535, 0>, 2048, 65536>(rec);
        both::<Pos<0, 65535>, 2048, 65536>(rec);
        both::<Pos<299, 199>, 1876, 60000>(rec);
    }
    positions::<0, 0>(rec);
    positions::<9, 9>(rec);
    positions::<100, 3>(rec);
    positions::<3, 1000>(rec);
    positions::<65535, 65535>(rec);
    integers::<BoundedU8<0, 255>>(rec, "BoundedU8");
    integers::<BoundedU16<3, 60000>>(rec, "BoundedU16");
    integers::<BoundedU32<0, { u32::MAX }>>(rec, "BoundedU32");
    integers::<BoundedU64<9, { u64::MAX }>>(rec, "BoundedU64");
    integers::<BoundedU128<0, { u128::MAX }>>(rec, "BoundedU128");
    integers::<BoundedI8<-128, 127>>(rec, "BoundedI8");
    integers::<BoundedI16<-1000, 1000>>(rec, "BoundedI16");
    integers::<BoundedI32<{ i32::MIN }, { i32::MAX }>>(rec, "BoundedI32");
    begin(rec, "Dir", 1, 1, 0, 0);
    for d in dirs() {
        rec.ev(&[("op", jstr("dir")), ("d", dnum(d).to_string()), ("s", jstr(&format!("{}", d)))]);
        rec.ev(&[("op", jstr("dir")), ("d", dnum(d).to_string()), ("s", jstr(&d.to_string()))]);
    }
    rec.end();
    recorder.finish();
}
