//! C11: octree, views and filters under several seeds of the randomised hasher, compared with ordered computations.
use crate::load::{bits3, P3};
use crate::props::algos::{agree, coord, draw_seeds};
use crate::tape::Tape;
use crate::world::{Ctx, Verdict};
use rust_3d::{
    Box2D, Box3D, Circle, FilterAND, FilterAll, FilterAllRandomAccessible, FilterAllow, FilterAny, FilterAnyRandomAccessible, FilterBox2D, FilterBox3D, FilterCircle, FilterDeny, FilterNegate, FilterOR, FilterOuterInner, FilterRandomAccessible, FilterSphere, FilterXOR, IsFilter,
    IsFilterRandomAccessible, IsOcTree, IsRandomAccessible, IsTree3D, IsViewBuildable, OcTree, Point2D, Point3D, PointCloud2D, PointCloud3D, Positive, Sphere, View,
};
use std::collections::{BTreeMap, BTreeSet, LinkedList, VecDeque};

pub fn c11(c: &Ctx) -> Verdict {
    if c.t.bool() {
        octree(c)
    } else {
        views(c)
    }
}

//------------------------------------------------------------------------------
// Octree

fn key(p: &P3) -> [u64; 3] {
    let f = |x: f64| if x == 0.0 { 0 } else { x.to_bits() };
    [f(p[0]), f(p[1]), f(p[2])]
}
fn distinct(ps: &[P3]) -> Vec<P3> {
    let mut m: BTreeMap<[u64; 3], P3> = BTreeMap::new();
    for p in ps {
        m.entry(key(p)).or_insert(*p);
    }
    m.into_values().collect()
}
fn box_of(ps: &[P3]) -> Option<(P3, P3)> {
    let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for p in ps {
        for i in 0..3 {
            lo[i] = lo[i].min(p[i]);
            hi[i] = hi[i].max(p[i]);
        }
    }
    if (0..3).all(|i| lo[i] < hi[i]) {
        Some((lo, hi))
    } else {
        None
    }
}

/// What collect yields, as a list in the order of the octants
fn detail(ps: &[P3], lo: P3, hi: P3, depth: i64, max: i64, out: &mut Vec<P3>) {
    if ps.len() == 1 {
        out.push(ps[0]);
        return;
    }
    let mid = [0, 1, 2].map(|i| lo[i] / 2.0 + hi[i] / 2.0);
    for o in 0..8usize {
        let pos = [o & 4 == 0, o & 2 == 0, o & 1 == 0];
        let sub: Vec<P3> = ps.iter().filter(|p| (0..3).all(|i| (p[i] >= mid[i]) == pos[i])).cloned().collect();
        if sub.is_empty() {
            continue;
        }
        let (mut l, mut h) = (lo, hi);
        for i in 0..3 {
            if pos[i] {
                l[i] = mid[i]
            } else {
                h[i] = mid[i]
            }
        }
        if max >= 0 && depth > max {
            let mut v = vec![];
            detail(&sub, l, h, depth + 1, max, &mut v);
            let n = v.len() as f64;
            out.push([0, 1, 2].map(|i| v.iter().map(|p| p[i]).sum::<f64>() / n));
        } else {
            detail(&sub, l, h, depth + 1, max, out);
        }
    }
}

fn sorted(ps: &[P3]) -> Vec<P3> {
    let mut v = ps.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    v
}
/// same points in any order, each within a tolerance far below the distance of two of them
fn matches(a: &[P3], b: &[P3]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut left = b.to_vec();
    for p in a {
        match left.iter().position(|q| (0..3).all(|i| (p[i] - q[i]).abs() <= 1e-9 * (1.0 + q[i].abs()))) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => return false,
        }
    }
    true
}

fn octree(c: &Ctx) -> Verdict {
    let t = &c.t;
    let seeds = draw_seeds(c);
    let clouds = t.range(1, 2);
    let mut history: Vec<(Vec<P3>, bool)> = vec![];
    for _ in 0..clouds {
        let n = if t.chance(1, 50) { t.range(100, 300) } else { t.size(40) };
        let style = t.below(4);
        let scale = *t.pick(&[1.0, 0.25, 1024.0]);
        let mut ps: Vec<P3> = vec![];
        for _ in 0..n {
            let p = if !ps.is_empty() && t.chance(1, 5) {
                let mut q = *t.pick(&ps);
                match t.below(3) {
                    0 => {}
                    1 => q.iter_mut().for_each(|x| if *x == 0.0 { *x = -*x }),
                    _ if style == 3 => {
                        // the next number above or below
                        let i = t.usize_below(3);
                        let next = f64::from_bits(if q[i] == 0.0 { 1 } else { q[i].to_bits() + 1 });
                        if next.is_finite() {
                            q[i] = next;
                        }
                    }
                    _ => q[t.usize_below(3)] = coord(t, scale),
                }
                q
            } else {
                match style {
                    0 => [coord(t, 1.0), coord(t, 1.0), coord(t, 1.0)],
                    1 => [(t.below(65) as f64 - 32.0) * scale, (t.below(65) as f64) * scale, t.below(1000) as f64 / 8.0 * scale],
                    2 => [(t.below(3) as f64 - 1.0) * scale, (t.below(3) as f64 - 1.0) * scale, (t.below(2) as f64) * scale],
                    _ => [crate::props::saving::value(t, false), crate::props::saving::value(t, false), coord(t, 1.0)],
                }
            };
            ps.push(p);
        }
        // powers of two all the way down: cells are computed exactly
        history.push((ps, style != 3));
    }
    let depths: Vec<i8> = (0..t.range(1, 4)).map(|_| *t.pick(&[0i8, 1, 2, 3, -1, 5, 10, 127, -128])).collect();
    c.note(|| format!("octree over {:?}, depths {:?}, hash seeds {:?}", history, depths, seeds));
    c.event_str(&format!("{:?}{:?}", history, depths));
    type Answer = (Result<(), String>, usize, Vec<[u64; 3]>, Vec<Vec<[u64; 3]>>, bool);
    let read = |pc: PointCloud3D<Point3D>| -> Vec<[u64; 3]> { pc.data.iter().map(|p| [p.x.to_bits(), p.y.to_bits(), p.z.to_bits()]).collect() };
    let got: Vec<Answer> = agree(c, &seeds, "OcTree", || {
        let mut tree: OcTree<Point3D> = OcTree::default();
        history
            .iter()
            .map(|(ps, _)| {
                let cloud = PointCloud3D { data: ps.iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect() };
                let before = tree.clone();
                let r = tree.build(cloud.clone()).map_err(|e| format!("{:?}", e));
                // as if it had never held anything else; as it was, if the cloud was refused
                let mut fresh = OcTree::default();
                let same = if r.is_ok() { fresh.build(cloud).is_ok() && fresh == tree } else { before == tree };
                (r, tree.size(), read(tree.to_pointcloud()), depths.iter().map(|d| read(tree.collect(*d))).collect(), same)
            })
            .collect()
    })?;
    let mut now: Vec<P3> = vec![];
    let mut exact = true;
    for ((ps, ex), (r, size, all, lod, same)) in history.iter().zip(&got) {
        let pts = |v: &Vec<[u64; 3]>| -> Vec<P3> { v.iter().map(|p| [f64::from_bits(p[0]), f64::from_bits(p[1]), f64::from_bits(p[2])]).collect() };
        let ok = box_of(ps).is_some();
        if ok != r.is_ok() {
            bail!("wrong", "OcTree::build of {:?}: {:?}", ps, r);
        }
        if !*same {
            bail!("wrong", "OcTree::build of {:?}: {:?}, the tree differs from {}", ps, r, if ok { "a new one" } else { "what it was" });
        }
        if ok {
            now = distinct(ps);
            exact = *ex;
        } else {
            c.hit("octree refused the cloud");
        }
        c.hit_if(ok && now.len() < ps.len(), "octree removed duplicates");
        let all = pts(all);
        if *size != now.len() || sorted(&all) != sorted(&now) {
            bail!("wrong", "OcTree after building from {:?} ({:?}): size {}, contents {:?}, expected the {} points {:?}", ps, r, size, all, now.len(), now);
        }
        if !exact || now.is_empty() {
            continue;
        }
        let (lo, hi) = box_of(&now).unwrap();
        for (d, l) in depths.iter().zip(lod) {
            let mut want = vec![];
            detail(&now, lo, hi, 0, *d as i64, &mut want);
            c.hit_if(want.len() < now.len(), "centers collected");
            let l = pts(l);
            if !matches(&l, &want) {
                bail!("wrong", "OcTree over {:?}: collect({}) yields {:?}, expected {:?}", now, d, l, want);
            }
        }
    }
    Ok(())
}

//------------------------------------------------------------------------------
// Views and filters

/// A predicate on points, as data
#[derive(Clone, Debug)]
pub enum Pred {
    Mod(u64, u64),
    Box(P3, P3),
    Sphere(P3, u64),
    /// of x and y alone
    Box2(P3, P3),
    Circle(P3, u64),
    Allow,
    Deny,
    Not(Box<Pred>),
    And(Box<Pred>, Box<Pred>),
    Or(Box<Pred>, Box<Pred>),
    Xor(Box<Pred>, Box<Pred>),
    OuterInner(Box<Pred>, Box<Pred>),
    All(Vec<Pred>),
    Any(Vec<Pred>),
}
/// A filter on selections
#[derive(Clone, Debug)]
pub enum Sel {
    One(Pred),
    All(Vec<Sel>),
    Any(Vec<Sel>),
}

pub fn draw_pred(t: &Tape, depth: usize) -> Pred {
    let b = |t: &Tape| Box::new(draw_pred(t, depth - 1));
    match t.below(if depth == 0 { 7 } else { 14 }) {
        0 => {
            let m = 2 + t.below(4);
            Pred::Mod(m, t.below(m))
        }
        1 => Pred::Box([coord(t, 1.0), coord(t, 1.0), coord(t, 1.0)], [1.0 + t.below(16) as f64, 1.0 + t.below(16) as f64, 1.0 + t.below(16) as f64]),
        2 => Pred::Sphere([coord(t, 1.0), coord(t, 1.0), coord(t, 1.0)], t.below(12)),
        3 => Pred::Box2([coord(t, 1.0), coord(t, 1.0), 0.0], [1.0 + t.below(16) as f64, 1.0 + t.below(16) as f64, 0.0]),
        4 => Pred::Circle([coord(t, 1.0), coord(t, 1.0), 0.0], t.below(12)),
        5 => Pred::Allow,
        6 => Pred::Deny,
        7 => Pred::Not(b(t)),
        8 => Pred::And(b(t), b(t)),
        9 => Pred::Or(b(t), b(t)),
        10 => Pred::Xor(b(t), b(t)),
        11 => Pred::OuterInner(b(t), b(t)),
        12 => Pred::All((0..t.range(0, 3)).map(|_| draw_pred(t, depth - 1)).collect()),
        _ => Pred::Any((0..t.range(0, 3)).map(|_| draw_pred(t, depth - 1)).collect()),
    }
}
pub fn draw_sel(t: &Tape, depth: usize) -> Sel {
    match t.below(if depth == 0 { 2 } else { 4 }) {
        0 | 1 => Sel::One(draw_pred(t, 2)),
        2 => Sel::All((0..t.range(0, 3)).map(|_| draw_sel(t, depth - 1)).collect()),
        _ => Sel::Any((0..t.range(0, 3)).map(|_| draw_sel(t, depth - 1)).collect()),
    }
}

pub struct ModF(pub u64, pub u64);
impl IsFilter<Point3D> for ModF {
    fn is_allowed(&self, p: &Point3D) -> bool {
        crate::fuse::tick();
        ((p.x + 2.0 * p.y + 3.0 * p.z + 1000.0) as u64) % self.0 == self.1
    }
}
pub struct Dyn(pub Box<dyn IsFilter<Point3D>>);
impl IsFilter<Point3D> for Dyn {
    fn is_allowed(&self, p: &Point3D) -> bool {
        self.0.is_allowed(p)
    }
}
/// A filter of 2D points on the first two coordinates
pub struct Flat<F>(pub F);
impl<F: IsFilter<Point2D>> IsFilter<Point3D> for Flat<F> {
    fn is_allowed(&self, p: &Point3D) -> bool {
        self.0.is_allowed(&Point2D::new(p.x, p.y))
    }
}
impl Pred {
    pub fn real(&self) -> Box<dyn IsFilter<Point3D>> {
        let d = |p: &Pred| Dyn(p.real());
        match self {
            Pred::Mod(m, r) => Box::new(ModF(*m, *r)),
            Pred::Box(p, s) => {
                let pos = |x: f64| Positive::new(x).expect("harness: positive");
                Box::new(FilterBox3D::new(Box3D { center: Point3D::new(p[0], p[1], p[2]), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) }))
            }
            Pred::Sphere(p, r) => Box::new(FilterSphere::new(Sphere { center: Point3D::new(p[0], p[1], p[2]), radius: Positive::new(*r as f64 + 0.5).expect("harness: positive") })),
            Pred::Box2(p, s) => {
                let pos = |x: f64| Positive::new(x).expect("harness: positive");
                Box::new(Flat(FilterBox2D::new(Box2D { center: Point2D::new(p[0], p[1]), size_x: pos(s[0]), size_y: pos(s[1]) })))
            }
            Pred::Circle(p, r) => Box::new(Flat(FilterCircle::new(Circle { center: Point2D::new(p[0], p[1]), radius: Positive::new(*r as f64 + 0.5).expect("harness: positive") }))),
            Pred::Allow => Box::new(FilterAllow::new()),
            Pred::Deny => Box::new(FilterDeny::new()),
            Pred::Not(a) => Box::new(FilterNegate::new(d(a))),
            Pred::And(a, b) => Box::new(FilterAND::new(d(a), d(b))),
            Pred::Or(a, b) => Box::new(FilterOR::new(d(a), d(b))),
            Pred::Xor(a, b) => Box::new(FilterXOR::new(d(a), d(b))),
            Pred::OuterInner(a, b) => Box::new(FilterOuterInner::new(d(a), d(b))),
            Pred::All(v) => {
                let mut f = FilterAll::new();
                f.filters = v.iter().map(|p| p.real()).collect();
                Box::new(f)
            }
            Pred::Any(v) => {
                let mut f = FilterAny::new();
                f.filters = v.iter().map(|p| p.real()).collect();
                Box::new(f)
            }
        }
    }
    /// points have whole coordinates, radii end in .5: no comparison is close
    pub fn model(&self, p: &P3) -> bool {
        match self {
            Pred::Mod(m, r) => ((p[0] + 2.0 * p[1] + 3.0 * p[2] + 1000.0) as u64) % m == *r,
            Pred::Box(o, s) => (0..3).all(|i| (p[i] - o[i]).abs() * 2.0 <= s[i]),
            Pred::Sphere(o, r) => (0..3).map(|i| (p[i] - o[i]) * (p[i] - o[i])).sum::<f64>() < (*r as f64 + 0.5) * (*r as f64 + 0.5),
            Pred::Box2(o, s) => (0..2).all(|i| (p[i] - o[i]).abs() * 2.0 <= s[i]),
            Pred::Circle(o, r) => (0..2).map(|i| (p[i] - o[i]) * (p[i] - o[i])).sum::<f64>() < (*r as f64 + 0.5) * (*r as f64 + 0.5),
            Pred::Allow => true,
            Pred::Deny => false,
            Pred::Not(a) => !a.model(p),
            Pred::And(a, b) => a.model(p) && b.model(p),
            Pred::Or(a, b) => a.model(p) || b.model(p),
            Pred::Xor(a, b) => a.model(p) != b.model(p),
            Pred::OuterInner(a, b) => a.model(p) && !b.model(p),
            Pred::All(v) => v.iter().all(|x| x.model(p)),
            Pred::Any(v) => v.iter().any(|x| x.model(p)),
        }
    }
}
impl Sel {
    pub fn real<RA: IsRandomAccessible<Point3D> + 'static>(&self) -> Box<dyn IsFilterRandomAccessible<RA, Point3D>> {
        match self {
            Sel::One(p) => Box::new(FilterRandomAccessible::new(Dyn(p.real()))),
            Sel::All(v) => Box::new(FilterAllRandomAccessible { filters: v.iter().map(|x| x.real()).collect() }),
            Sel::Any(v) => Box::new(FilterAnyRandomAccessible { filters: v.iter().map(|x| x.real()).collect() }),
        }
    }
    pub fn model(&self, ps: &[P3], v: &MV) -> MV {
        match self {
            Sel::One(p) => MV::Set(v.of(ps.len()).into_iter().filter(|i| *i < ps.len() && p.model(&ps[*i])).collect()),
            Sel::All(f) => f.iter().fold(v.clone(), |v, x| x.model(ps, &v)),
            Sel::Any(f) => f.iter().fold(MV::Set(BTreeSet::new()), |a, x| a.union(&x.model(ps, v))),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MV {
    Full,
    Set(BTreeSet<usize>),
}
impl MV {
    pub fn of(&self, n: usize) -> BTreeSet<usize> {
        match self {
            MV::Full => (0..n).collect(),
            MV::Set(s) => s.clone(),
        }
    }
    fn union(&self, o: &MV) -> MV {
        match (self, o) {
            (MV::Set(a), MV::Set(b)) => MV::Set(a.union(b).cloned().collect()),
            _ => MV::Full,
        }
    }
    pub fn real(&self) -> View {
        match self {
            MV::Full => View::Full,
            MV::Set(s) => View::Restricted(s.iter().cloned().collect()),
        }
    }
    pub fn from(v: &View) -> MV {
        match v {
            View::Full => MV::Full,
            View::Restricted(s) => MV::Set(s.iter().cloned().collect()),
        }
    }
}

#[derive(Clone, Debug)]
enum Act {
    Filter(Sel),
    Union(MV),
    Set(MV),
    Apply,
    From,
}

#[derive(Clone, Debug, PartialEq)]
struct Snap {
    view: MV,
    data: Vec<[u64; 3]>,
    refused: bool,
    copy: Option<Vec<[u64; 3]>>,
}

pub fn draw_view(t: &Tape, n: usize) -> MV {
    if t.chance(1, 4) {
        return MV::Full;
    }
    let mut s = BTreeSet::new();
    for _ in 0..t.range(0, n + 1) {
        if n > 0 {
            s.insert(t.usize_below(n));
        }
    }
    if t.chance(1, 6) {
        s.insert(n + t.usize_below(3));
    }
    MV::Set(s)
}

/// A collection of points the acts work on
trait Coll: IsViewBuildable + Clone {
    fn make(ps: &[P3]) -> Self;
    fn dump(&self) -> Vec<[u64; 3]>;
    fn filter(&self, f: &Sel, v: &mut View);
}
macro_rules! coll {
    ($T:ty, $iter:ident => $e:expr, $s:ident => $d:expr) => {
        impl Coll for $T {
            fn make(ps: &[P3]) -> Self {
                let $iter = ps.iter().map(|p| Point3D::new(p[0], p[1], p[2]));
                $e
            }
            fn dump(&self) -> Vec<[u64; 3]> {
                let $s = self;
                $d.map(|p| bits3(&[p.x, p.y, p.z])).collect()
            }
            fn filter(&self, f: &Sel, v: &mut View) {
                f.real::<Self>().filter(self, v)
            }
        }
    };
}
coll!(Vec<Point3D>, i => i.collect(), s => s.iter());
coll!(VecDeque<Point3D>, i => i.collect(), s => s.iter());
coll!(PointCloud3D<Point3D>, i => PointCloud3D { data: i.collect() }, s => s.data.iter());
/// no random access: filtered through a Vec of the same contents
impl Coll for LinkedList<Point3D> {
    fn make(ps: &[P3]) -> Self {
        ps.iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect()
    }
    fn dump(&self) -> Vec<[u64; 3]> {
        self.iter().map(|p| bits3(&[p.x, p.y, p.z])).collect()
    }
    fn filter(&self, f: &Sel, v: &mut View) {
        let ra: Vec<Point3D> = self.iter().cloned().collect();
        f.real::<Vec<Point3D>>().filter(&ra, v)
    }
}
impl Coll for PointCloud2D<Point2D> {
    fn make(ps: &[P3]) -> Self {
        PointCloud2D { data: ps.iter().map(|p| Point2D::new(p[0], p[1])).collect() }
    }
    fn dump(&self) -> Vec<[u64; 3]> {
        self.data.iter().map(|p| bits3(&[p.x, p.y, 0.0])).collect()
    }
    fn filter(&self, f: &Sel, v: &mut View) {
        let ra: VecDeque<Point3D> = self.data.iter().map(|p| Point3D::new(p.x, p.y, 0.0)).collect();
        f.real::<VecDeque<Point3D>>().filter(&ra, v)
    }
}

fn play<C: Coll>(ps: &[P3], start: &MV, acts: &[Act]) -> Vec<Snap> {
    let mut data = C::make(ps);
    let mut view = start.real();
    acts.iter()
        .map(|a| {
            let (mut refused, mut copy) = (false, None);
            match a {
                Act::Filter(f) => data.filter(f, &mut view),
                Act::Union(v) => view.union(v.real()),
                Act::Set(v) => view = v.real(),
                Act::Apply => refused = data.apply_view(&view).is_err(),
                Act::From => match data.from_view(&view) {
                    Some(x) => copy = Some(x.dump()),
                    None => refused = true,
                },
            }
            Snap { view: MV::from(&view), data: data.dump(), refused, copy }
        })
        .collect()
}

fn views(c: &Ctx) -> Verdict {
    let t = &c.t;
    let seeds = draw_seeds(c);
    let kind = t.below(5);
    let n = if t.chance(1, 40) { t.range(200, 400) } else { t.size(24) };
    let ps: Vec<P3> = (0..n)
        .map(|_| {
            let z = if kind == 4 { 0.0 } else { coord(t, 1.0) };
            [coord(t, 1.0), coord(t, 1.0), z]
        })
        .collect();
    let start = draw_view(t, n);
    let acts: Vec<Act> = (0..t.range(1, 6))
        .map(|_| match t.below(7) {
            0..=2 => Act::Filter(draw_sel(t, 2)),
            3 => Act::Union(draw_view(t, n)),
            4 => Act::Apply,
            5 => Act::From,
            _ => Act::Set(draw_view(t, n)),
        })
        .collect();
    let name = ["Vec", "VecDeque", "PointCloud3D", "LinkedList", "PointCloud2D"][kind as usize];
    c.note(|| format!("{} of {:?}, view {:?}, then {:?}, hash seeds {:?}", name, ps, start, acts, seeds));
    c.event_str(&format!("{}{:?}{:?}{:?}", name, ps, start, acts));
    let got = agree(c, &seeds, "views", || match kind {
        0 => play::<Vec<Point3D>>(&ps, &start, &acts),
        1 => play::<VecDeque<Point3D>>(&ps, &start, &acts),
        2 => play::<PointCloud3D<Point3D>>(&ps, &start, &acts),
        3 => play::<LinkedList<Point3D>>(&ps, &start, &acts),
        _ => play::<PointCloud2D<Point2D>>(&ps, &start, &acts),
    })?;
    let (mut data, mut view) = (ps.clone(), start.clone());
    for (i, (a, s)) in acts.iter().zip(&got).enumerate() {
        let n = data.len();
        let (mut refused, mut copy) = (false, None);
        let pick = |v: &MV| -> Option<Vec<P3>> {
            let s = v.of(n);
            if s.iter().any(|i| *i >= n) {
                return None;
            }
            Some(s.iter().map(|i| data[*i]).collect())
        };
        match a {
            Act::Filter(f) => {
                let before = view.clone();
                view = f.model(&data, &view);
                c.hit_if(view != before && view.of(n).len() > 0, "filter removed some");
            }
            Act::Union(v) => {
                view = view.union(v);
                c.hit("union");
            }
            Act::Set(v) => view = v.clone(),
            Act::Apply | Act::From => match pick(&view) {
                Some(x) => {
                    c.hit_if(x.len() > 0 && x.len() < n, "selection applied");
                    if let Act::Apply = a {
                        data = x
                    } else {
                        copy = Some(x.iter().map(bits3).collect::<Vec<_>>())
                    }
                }
                None => {
                    c.hit("selection refused");
                    refused = true
                }
            },
        }
        let bits: Vec<[u64; 3]> = data.iter().map(bits3).collect();
        // on an empty collection every selection means the same unless it names unknown elements
        let same_view = match (&view, &s.view) {
            (a, b) if a == b => true,
            (a, b) => a.of(n) == b.of(n) || n == 0,
        };
        if s.refused != refused || s.data != bits || s.copy != copy || !same_view {
            bail!("wrong", "{} of {:?}, view {:?}: act {} of {:?} leaves {:?}, expected view {:?}, data {:?}, refused {}, copy {:?}", name, ps, start, i, acts, s, view, bits, refused, copy);
        }
        if n == 0 {
            view = s.view.clone();
        }
    }
    Ok(())
}
