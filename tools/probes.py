"""Programs that declare storage for grids, and the compiler's verdict: C29.

Each program becomes one session: `declare` events that tell what it creates,
then a `compile` event with the verdict of rustc. Nothing here decides what the
verdict has to be, that is up to specs/Declared.tla.
"""
import concurrent.futures, glob, json, os, random, re, subprocess

REPO = "/repo"
ICE = re.compile(r"internal compiler error|error: linking with|couldn't create a temp|No space left|Cannot allocate|signal:|SIGKILL|SIGSEGV")

# The declarations: a function of the crate, in which the type is created
USER = """
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct P%(i)d(pub (BoundedU16<0, %(xm)d>, BoundedU32<0, %(ym)d>));
impl PosT for P%(i)d {
    type Xtype = BoundedU16<0, %(xm)d>; type Ytype = BoundedU32<0, %(ym)d>;
    const WIDTH: usize = %(w)d; const HEIGHT: usize = %(h)d;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self { P%(i)d(xy) }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) { self.0 }
}
impl std::ops::Add<Dir> for P%(i)d {
    type Output = Result<Self, Error>;
    fn add(self, d: Dir) -> Self::Output { Ok(Self::new_((PosT::tuple(&self) + d)?)) }
}
"""
GRID = {
    "repeat": "#[inline(never)] pub fn f%(i)d(v: u8) -> Grid<u8, %(p)s, %(n)d> { Grid::repeat(v) }",
    "default": "#[inline(never)] pub fn f%(i)d() -> Grid<String, %(p)s, %(n)d> { Grid::default() }",
    "collect": "#[inline(never)] pub fn f%(i)d(v: Vec<i64>) -> Grid<i64, %(p)s, %(n)d> { v.into_iter().collect() }",
    "tryfrom": "#[inline(never)] pub fn f%(i)d(v: Vec<Vec<Option<char>>>) -> Result<Grid<Option<char>, %(p)s, %(n)d>, Error> { Grid::try_from(v) }",
    "mapnew": "#[inline(never)] pub fn f%(i)d(v: u16) -> Grid<u16, %(p)s, %(n)d> { <Grid<u16, %(p)s, %(n)d> as MapPos<u16, %(p)s, %(words)d, %(n)d>>::new(v) }",
    "neg": "#[inline(never)] pub fn f%(i)d(v: Vec<i8>) -> Grid<i8, %(p)s, %(n)d> { -v.into_iter().collect::<Grid<i8, %(p)s, %(n)d>>() }",
    "bfs": "#[inline(never)] pub fn f%(i)d(o: %(p)s, d: %(p)s) -> bool { bf::search_path_grid::<_, _, %(p)s, false, %(words)d, %(n)d>(|p, d| (p + d).ok(), &o, |p| p == d).is_ok() }",
    "astar": "#[inline(never)] pub fn f%(i)d(o: %(p)s, d: %(p)s) -> bool { astar::search_path_grid::<_, %(p)s, true, %(words)d, %(n)d>(|p, d| (p + d).ok(), &o, &d).is_ok() }",
    "ucs": "#[inline(never)] pub fn f%(i)d(o: %(p)s, d: %(p)s) -> bool { ucs::search_path_grid::<_, %(p)s, false, %(words)d, %(n)d>(|p, d| (p + d).ok().map(|q| (q, 1)), &o, &d).is_ok() }",
}
BITS = {
    "repeat": "#[inline(never)] pub fn f%(i)d(v: bool) -> Gridbool<%(p)s, %(n)d> { Gridbool::repeat(v) }",
    "constrepeat": "pub const C%(i)d: Gridbool<%(p)s, %(n)d> = Gridbool::repeat(true); #[inline(never)] pub fn f%(i)d() -> bool { C%(i)d == C%(i)d }",
    "alltrue": "#[inline(never)] pub fn f%(i)d() -> Gridbool<%(p)s, %(n)d> { Gridbool::ALL_TRUE }",
    "allfalse": "#[inline(never)] pub fn f%(i)d() -> Gridbool<%(p)s, %(n)d> { Gridbool::ALL_FALSE }",
    "default": "#[inline(never)] pub fn f%(i)d() -> Gridbool<%(p)s, %(n)d> { Gridbool::default() }",
    "cells": "#[inline(never)] pub fn f%(i)d(v: Vec<%(p)s>) -> Gridbool<%(p)s, %(n)d> { v.into_iter().collect() }",
    "bools": "#[inline(never)] pub fn f%(i)d(v: Vec<bool>) -> Gridbool<%(p)s, %(n)d> { v.into_iter().collect() }",
    "bfiter": "#[inline(never)] pub fn f%(i)d(o: %(p)s) -> usize { bf::bf_iter_grid::<_, %(p)s, true, %(n)d, %(cells)d>(|p, d| (p + d).ok(), &o).count() }",
    "bfs": "#[inline(never)] pub fn f%(i)d(o: %(p)s, d: %(p)s) -> bool { bf::search_path_grid::<_, _, %(p)s, false, %(n)d, %(cells)d>(|p, d| (p + d).ok(), &o, |p| p == d).is_ok() }",
}
# What the helper macros make of the dimensions
MACROS = """
pub type S%(i)d = sqrid::sqrid_create!(%(xm)d, %(ym)d, %(diags)s);
pub type T%(i)d = sqrid::sqrid_create!(sqrid::Pos::<%(xm)d, %(ym)d>, %(diags)s);
pub type M%(i)d = sqrid::pos_create!(S%(i)d);
pub type G%(i)d = sqrid::grid_create!(S%(i)d, u8);
pub type H%(i)d = sqrid::grid_create!(T%(i)d, String);
pub type B%(i)d = sqrid::gridbool_create!(S%(i)d);
#[inline(never)] pub fn f%(i)d(s: S%(i)d) -> (T%(i)d, bool) { (s, M%(i)d::FIRST == sqrid::Pos::<%(xm)d, %(ym)d>::FIRST) }
#[inline(never)] pub fn g%(i)d(v: Vec<u8>) -> (G%(i)d, B%(i)d) { (v.into_iter().collect(), B%(i)d::ALL_TRUE) }
#[inline(never)] pub fn h%(i)d() -> (H%(i)d, B%(i)d) { (H%(i)d::default(), B%(i)d::default()) }
"""
SEARCHES = """
#[inline(never)] pub fn k%(i)d(o: M%(i)d, d: M%(i)d) -> usize {
    let go = |p: M%(i)d, d: Dir| (p + d).ok();
    let gocost = |p: M%(i)d, d: Dir| (p + d).ok().map(|q| (q, 1));
    S%(i)d::bf_iter(go, &o).count()
        + S%(i)d::bfs_path(go, &o, |p| p == d).map_or(0, |(_, v)| v.len())
        + S%(i)d::astar_path(go, &o, &d).map_or(0, |v| v.len())
        + S%(i)d::ucs_path(gocost, &o, &d).map_or(0, |v| v.len())
}
"""
# Constants within limits
LIMITS = {
    "newstatic": "pub const C%(i)d: Bounded%(T)s<{ %(lo)s }, { %(hi)s }> = Bounded%(T)s::<{ %(lo)s }, { %(hi)s }>::new_static::<{ %(v)s }>(); #[inline(never)] pub fn f%(i)d() -> bool { C%(i)d == C%(i)d }",
    "newunwrap": "pub const C%(i)d: Bounded%(T)s<{ %(lo)s }, { %(hi)s }> = Bounded%(T)s::<{ %(lo)s }, { %(hi)s }>::new_unwrap(%(v)s); #[inline(never)] pub fn f%(i)d() -> bool { C%(i)d == C%(i)d }",
}
PLACE = {
    "newstatic": "pub const C%(i)d: Pos<%(xm)d, %(ym)d> = Pos::<%(xm)d, %(ym)d>::new_static::<%(x)d, %(y)d>(); #[inline(never)] pub fn f%(i)d() -> bool { C%(i)d == C%(i)d }",
    "newunwrap": "pub const C%(i)d: Pos<%(xm)d, %(ym)d> = Pos::new_unwrap(%(x)d, %(y)d); #[inline(never)] pub fn f%(i)d() -> bool { C%(i)d == C%(i)d }",
    "newstaticin": "#[inline(never)] pub fn f%(i)d() -> Pos<%(xm)d, %(ym)d> { const { Pos::<%(xm)d, %(ym)d>::new_static::<%(x)d, %(y)d>() } }",
}


def big(v):
    m, limbs = abs(v), []
    while m:
        limbs.append(m % 10000)
        m //= 10000
    return [(v > 0) - (v < 0), limbs]


def grid(ctor, w, h, n, user=False):
    return ("grid", dict(ctor=ctor, w=w, h=h, n=n), user)


def bits(ctor, w, h, n, user=False):
    return ("bits", dict(ctor=ctor, w=w, h=h, n=n), user)


def macros(w, h, diags, searches):
    return ("macros", dict(w=w, h=h, diags=diags, searches=searches), False)


def limits(ctor, T, lo, hi, v):
    return ("limits", dict(ctor=ctor, T=T, lo=lo, hi=hi, v=v), False)


def place(ctor, w, h, x, y):
    return ("place", dict(ctor=ctor, w=w, h=h, x=x, y=y), False)


def text(i, decl):
    k, d, user = decl
    a = dict(d, i=i)
    if "w" in d:
        a.update(xm=d["w"] - 1, ym=d["h"] - 1, cells=d["w"] * d["h"], words=(d["w"] * d["h"] + 31) // 32)
        a["p"] = "P%d" % i if user else "Pos<%d, %d>" % (a["xm"], a["ym"])
    s = USER % a if user else ""
    if k == "grid":
        return s + GRID[d["ctor"]] % a
    if k == "bits":
        return s + BITS[d["ctor"]] % a
    if k == "macros":
        a["diags"] = "true" if d["diags"] else "false"
        return s + MACROS % a + (SEARCHES % a if d["searches"] else "")
    if k == "limits":
        t = d["T"].lower()
        least = -(1 << (int(t[1:]) - 1))
        lit = lambda v: "%d%s" % (v, t) if v >= 0 else "%s::MIN" % t if v == least else "(-%d%s)" % (-v, t)
        return LIMITS[d["ctor"]] % dict(a, lo=lit(d["lo"]), hi=lit(d["hi"]), v=lit(d["v"]))
    return PLACE[d["ctor"]] % a


def event(decl):
    k, d, user = decl
    e = dict(op="declare", k=k, by=d.get("ctor", "macros"), user=user)
    if k == "limits":
        e.update(T=d["T"], lo=big(d["lo"]), hi=big(d["hi"]), v=big(d["v"]))
    else:
        e.update({n: v for n, v in d.items() if n != "ctor"})
    return e


SHAPES = [(1, 1), (2, 1), (1, 2), (3, 4), (5, 7), (8, 4), (4, 8), (31, 1), (32, 1), (33, 1), (1, 33), (16, 2), (16, 4),
          (64, 1), (65, 1), (1, 63), (11, 3), (20, 30), (255, 3), (9, 9), (10, 10), (3, 300), (97, 33), (256, 1)]


def wrong_sizes(w, h):
    n = w * h
    c = {n - 1, n + 1, 0, w * w, h * h, (w + 1) * (h + 1), (w - 1) * (h - 1), w * (h + 1), (w + 1) * h, w + h, 2 * n,
         w, h, n + 32, n + 256, (n + 31) // 32}
    return sorted(v for v in c if v >= 0 and v != n)


def words(w, h):
    n = w * h
    least = (n + 31) // 32
    right = [least] if n % 32 else [least, least + 1]
    c = {least - 1, right[-1] + 1, right[-1] + 2, 0, n + 1 if n > 1 else 3, 2 * right[-1] + 3, n // 32, n // 64}
    return right, sorted(v for v in c if v >= 0 and v not in right)


INTS = {"U8": (0, 255), "U16": (0, 65535), "U32": (0, 2**32 - 1), "U64": (0, 2**64 - 1), "U128": (0, 2**128 - 1),
        "I8": (-128, 127), "I16": (-2**15, 2**15 - 1), "I32": (-2**31, 2**31 - 1)}


def programs(tier, rng):
    """Lists of declarations, each of which becomes a program, and how it is built"""
    good, bad = [], []
    def shape():
        if rng.random() < 0.5:
            return rng.choice(SHAPES)
        while True:
            w, h = rng.randint(1, 400), rng.randint(1, 400)
            if rng.random() < 0.6:
                w = 1 + w % 40
                h = 1 + h % 40
            if w * h <= 20000:
                return w, h
    reps = 8 if tier == "thorough" else 1
    # For each constructor: shapes with what fits, and what doesn't
    for ctor in GRID:
        shapes = SHAPES + [shape() for _ in range(10 * reps)]
        good += [grid(ctor, w, h, w * h, rng.random() < 0.3) for w, h in shapes]
        cand = [(w, h, n) for w, h in shapes for n in wrong_sizes(w, h)]
        small = ctor in ("bfs", "astar", "ucs")
        some = [c for c in cand if c[:2] in ((1, 1), (5, 7), (8, 4)) and abs(c[2] - c[0] * c[1]) == 1] if not small else []
        some += rng.sample(cand, (3 if small else 7) * reps)
        bad += [grid(ctor, w, h, n, rng.random() < 0.3) for w, h, n in some]
    for ctor in BITS:
        shapes = SHAPES + [shape() for _ in range(10 * reps)]
        good += [bits(ctor, w, h, n, rng.random() < 0.3) for w, h in shapes for n in words(w, h)[0]]
        cand = [(w, h, n) for w, h in shapes for n in words(w, h)[1]]
        small = ctor in ("bfs", "bfiter")
        some = [c for c in cand if c[:2] in ((1, 1), (5, 7), (8, 4), (33, 1)) and (c[2] + 1 in words(*c[:2])[0] or c[2] - 1 in words(*c[:2])[0])] if not small else []
        some += rng.sample(cand, (3 if small else 7) * reps)
        bad += [bits(ctor, w, h, n, rng.random() < 0.3) for w, h, n in some]
    # Helper macros
    ms = [(w, h) for w, h in SHAPES] + [(n, 1) for n in range(1, 70)] + [(1, n) for n in range(90, 100)]
    ms += [shape() for _ in range(60 * reps)] + [(1024, 32), (999, 1000), (65536, 1), (1, 65536), (4096, 8), (300, 220), (65536, 2)]
    good += [macros(w, h, rng.random() < 0.5, w * h < 20000 and rng.random() < 0.15) for w, h in ms]
    # Constants
    for T, (lo, hi) in INTS.items():
        ranges = [(lo, hi), (lo + 3, hi - 7), (lo + 5, lo + 5)]
        for _ in range(2 * reps):
            a, b = sorted((rng.randint(lo, hi), rng.randint(lo, hi)))
            ranges.append((a, b))
        for a, b in ranges:
            for ctor in LIMITS:
                good += [limits(ctor, T, a, b, v) for v in {a, b, (a + b) // 2}]
            out = [v for v in {a - 1, b + 1, lo, hi} if lo <= v <= hi and not a <= v <= b]
            if out:
                bad.append(limits(rng.choice(list(LIMITS)), T, a, b, rng.choice(out)))
        # The edges, one by one
        bad += [limits(c, T, lo + 2, hi - 2, v) for c in LIMITS for v in (lo + 1, hi - 1)]
    for ctor in PLACE:
        for w, h in [(1, 1), (6, 3), (3, 6), (65536, 65536), (200, 1)] + [shape() for _ in range(4 * reps)]:
            good += [place(ctor, w, h, x, y) for x in {0, w - 1} for y in {0, h - 1}]
            out = [(x, y) for x, y in ((w, 0), (0, h), (w, h), (w, h - 1), (w - 1, h), (h - 1, w - 1), (65535, 65535))
                   if x < 65536 and y < 65536 and (x >= w or y >= h)]
            bad += [place(ctor, w, h, x, y) for x, y in (out if w + h < 12 else out[:2])]
    # What fits shares programs; what doesn't is on its own, or among others that fit
    rng.shuffle(good)
    res = [(good[i:i + 12], "release" if rng.random() < 0.2 else "dev") for i in range(0, len(good), 12)]
    light = [g for g in good if g[0] in ("place", "limits") or g[0] == "grid" and g[1]["ctor"] in ("repeat", "default")]
    for b in bad:
        p = [b]
        if rng.random() < 0.3:
            p.append(rng.choice(light))
        res.append((p, rng.choice(list(PROFILES))))
    return res


# As cargo builds for development and for a release
PROFILES = {"dev": ["-C", "opt-level=0", "-C", "debug-assertions=on"], "release": ["-C", "opt-level=3", "-C", "debug-assertions=off"]}


def rlibs(work):
    """The library, from the working tree"""
    out = os.path.join(work, "probes")
    libs = {}
    for profile, flags in PROFILES.items():
        path = os.path.join(out, profile, "libsqrid.rlib")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-name", "sqrid", "--crate-type", "rlib", "--cap-lints", "allow"]
                           + flags + ["-o", path, os.path.join(REPO, "src", "lib.rs")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise RuntimeError("the library does not build:\n" + p.stdout[-3000:])
        libs[profile] = path
    return out, libs


def verdict(n, decls, out, libs, profile):
    src = os.path.join(out, "p%d.rs" % n)
    obj = os.path.join(out, "p%d.o" % n)
    with open(src, "w") as f:
        f.write("#![allow(unused)]\nuse sqrid::*;\n" + "\n".join(text(i, d) for i, d in enumerate(decls)) + "\n")
    try:
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "probe", "--emit", "obj",
                            "--cap-lints", "allow"] + PROFILES[profile] + ["--extern", "sqrid=" + libs[profile], "-o", obj, src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    finally:
        for n in (src, obj):
            if os.path.exists(n) and not os.environ.get("KEEP_PROBES"):
                os.remove(n)
    if p.returncode == 0:
        return "accepted", []
    if p.returncode != 1 or ICE.search(p.stdout) or "error" not in p.stdout:
        raise RuntimeError("rustc failed (exit %d):\n%s" % (p.returncode, p.stdout[-3000:]))
    return "rejected", [m[:200] for m in re.findall(r"^error.*(?:\n.*){0,2}", p.stdout, re.M)[:3]]


def run(work, tier, seed):
    rng = random.Random(seed)
    out, libs = rlibs(work)
    progs = programs(tier, rng)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count()) as pool:
        res = list(pool.map(lambda a: verdict(a[0], a[1][0], out, libs, a[1][1]), enumerate(progs)))
    trace = os.path.join(work, "probes.ndjson")
    with open(trace, "w") as f:
        for (decls, profile), (v, msgs) in zip(progs, res):
            ev = [event(d) for d in decls] + [dict(op="compile", r=v, errors=msgs)]
            f.write(json.dumps(dict(k="Declared", p=dict(profile=profile), ev=ev)) + "\n")
    return trace
