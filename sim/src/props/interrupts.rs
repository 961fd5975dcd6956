//! C13: user code interrupted by a panic at a drawn invocation; what the caller still holds is compared with an
//! execution in which the interrupted operation never started (or stopped after a completed element).
use crate::docs::{self, FMTS};
use crate::fuse::{blow, count, tick};
use crate::load::{bits3, bulk, Api, Containers, Data, MeshKind, PointKind, P3};
use crate::props::algos::coord;
use crate::props::loading::{draw_doc, draw_setup, kinds, show, sound};
use crate::props::saving::{ideal, Art};
use crate::props::selections::{draw_sel, draw_view, MV};
use crate::simio::{AnyReader, Plan, Sink, SinkPlan};
use crate::tape::{mix_bytes, Tape};
use crate::world::{Ctx, Verdict};
use rust_3d::io::{save_xy, save_xyz};
use rust_3d::{
    Box2D, Circle, FilterBox2D, FilterBox3D, FilterCircle, FilterSphere, Matrix4Pipe, Rad,
    cluster_vertices, convex_hull_2d, douglas_peucker_2d, heal_mesh, sort_vec_2d_x, sort_vec_2d_y, sort_vec_3d_x, sort_vec_3d_y, sort_vec_3d_z, subdivide, unify_faces, IsMatrix3Transformable, IsMatrix4Transformable, IsMovable2D, IsPolygon, IsScalable, IsSortable2D, IsSortable3D, Matrix3, Matrix4, Point2D, Polygon2D, Polygon3D, SearchableMesh, IsSearchableMesh,
    closest_intersecting_mut, for_each_intersecting, AABBTree2D, AABBTree3D, BoundingBox2D, BoundingBox3D, Box3D, Cluster, Collider3D, FilterOutlier3D, FilterRandomAccessible, HasBoundingBox2D, HasBoundingBox2DMaybe, HasBoundingBox3D,
    HasBoundingBox3DMaybe, HasColliders3D, Is2D, Is3D, IsBox3DSearchable, IsBuildable2D, IsBuildable3D, IsBuildableND, IsColliderContainer3D, IsDataContainer, IsEditable2D, IsEditable3D, IsEditableND, IsFilter, IsFilterRandomAccessible,
    IsKNearestSearchable, IsMergeable, IsMovable3D, IsND, IsOcTree, IsPushable, IsNormalized3D, IsSortableND, IsSphereSearchable, IsTree3D, IsVertexEditableMesh, IsFaceEditableMesh, IsMesh, IsViewBuildable, KdTree, Line3D, Mesh3D, Norm3D, OcTree, Point3D,
    PointCloud2D, PointCloud3D, PointCloud3Df32, Positive, Ray3D, Sphere, VId, View, U32IndexVec,
};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, LinkedList, VecDeque};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn c13(c: &Ctx) -> Verdict {
    match c.t.below(16) {
        0 | 1 => filters(c),
        2 => views(c),
        3 => trees(c),
        4 => growing(c),
        5 => callbacks(c),
        6 => outlier(c),
        7..=9 => loads(c),
        10 | 11 => saves(c),
        12 => elements(c),
        13 => points(c),
        14 => algorithms(c),
        _ => containers(c),
    }
}

//------------------------------------------------------------------------------
// The pattern

/// What an interrupted operation may leave behind
enum Left<'a, D> {
    /// the state before
    Before,
    /// any state this accepts, given the states before and after the complete operation
    OneByOne(&'a dyn Fn(&D, &D, &D) -> bool),
}

/// Interrupts op on a fresh structure, several times in a row, then repeats it undisturbed
fn interrupt<S, R: PartialEq + Debug, D: PartialEq + Debug>(c: &Ctx, what: &str, make: &dyn Fn() -> S, op: &dyn Fn(&mut S) -> R, look: &dyn Fn(&S) -> D, left: Left<D>) -> Verdict {
    let mut s = make();
    let before = look(&s);
    let (want, calls) = count(|| op(&mut s));
    let full = look(&s);
    c.event_str(&format!("{} {} {:?}", what, calls, full));
    if calls == 0 {
        return Ok(());
    }
    c.hit(what);
    let mut s = make();
    for _ in 0..c.t.range(1, 3) {
        let at = 1 + c.t.below(calls);
        match blow(c, at, what, || op(&mut s))? {
            None => {
                let now = look(&s);
                c.note(|| format!("{}: interrupted in call {} of {}", what, at, calls));
                match left {
                    Left::Before => {
                        if now != before {
                            bail!("damaged", "{}: interrupted in call {} of {} to user code; left behind {:?} instead of {:?}", what, at, calls, now, before);
                        }
                    }
                    Left::OneByOne(ok) => {
                        if !ok(&before, &full, &now) {
                            bail!("damaged", "{}: interrupted in call {} of {} to user code; left behind {:?}, before {:?}, complete {:?}", what, at, calls, now, before, full);
                        }
                        if now != before {
                            c.hit("stopped after some elements");
                            return Ok(());
                        }
                    }
                }
            }
            Some(r) => {
                // the number of calls may depend on the randomised hasher
                if r != want || look(&s) != full {
                    bail!("damaged", "{}: repeated after an interruption: {:?} leaves {:?}, expected {:?} and {:?}", what, r, look(&s), want, full);
                }
                return Ok(());
            }
        }
    }
    let (r, _) = count(|| op(&mut s));
    if r != want || look(&s) != full {
        bail!("damaged", "{}: repeated after an interruption: {:?} leaves {:?}, expected {:?} and {:?}", what, r, look(&s), want, full);
    }
    Ok(())
}

//------------------------------------------------------------------------------
// User types on the fuse

/// A user's point type: clones, accessors and hashing are user code
#[derive(Debug, Default)]
pub struct Bomb {
    p: P3,
}
impl Bomb {
    pub fn at(p: &P3) -> Self {
        Bomb { p: *p }
    }
    pub fn bits(&self) -> [u64; 3] {
        bits3(&self.p)
    }
}
impl Clone for Bomb {
    fn clone(&self) -> Self {
        tick();
        Bomb { p: self.p }
    }
}
impl PartialEq for Bomb {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.p == o.p
    }
}
impl Eq for Bomb {}
impl PartialOrd for Bomb {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Bomb {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.p.partial_cmp(&o.p).unwrap_or(Ordering::Equal)
    }
}
impl Hash for Bomb {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        for x in &self.p {
            (if *x == 0.0 { 0 } else { x.to_bits() }).hash(h)
        }
    }
}
impl IsND for Bomb {
    fn n_dimensions() -> usize {
        3
    }
    fn position_nd(&self, d: usize) -> Option<f64> {
        tick();
        self.p.get(d).cloned()
    }
}
impl Is2D for Bomb {
    fn x(&self) -> f64 {
        tick();
        self.p[0]
    }
    fn y(&self) -> f64 {
        tick();
        self.p[1]
    }
}
impl Is3D for Bomb {
    fn x(&self) -> f64 {
        tick();
        self.p[0]
    }
    fn y(&self) -> f64 {
        tick();
        self.p[1]
    }
    fn z(&self) -> f64 {
        tick();
        self.p[2]
    }
}
impl IsBuildableND for Bomb {
    fn new_nd(k: &[f64]) -> rust_3d::Result<Self> {
        Ok(Bomb { p: [k[0], k[1], k[2]] })
    }
    fn from_nd<P: IsBuildableND>(&mut self, _: P) -> rust_3d::Result<()> {
        Ok(())
    }
}
impl IsBuildable3D for Bomb {
    fn new(x: f64, y: f64, z: f64) -> Self {
        Bomb { p: [x, y, z] }
    }
    fn from<P: Is3D>(&mut self, o: &P) {
        self.p = [o.x(), o.y(), o.z()]
    }
}
impl IsBuildable2D for Bomb {
    fn new(x: f64, y: f64) -> Self {
        Bomb { p: [x, y, 0.0] }
    }
    fn from<P: Is2D>(&mut self, o: &P) {
        self.p = [o.x(), o.y(), 0.0]
    }
}
impl IsEditableND for Bomb {
    fn set_position(&mut self, d: usize, v: f64) -> rust_3d::Result<()> {
        self.p[d] = v;
        Ok(())
    }
}
impl IsEditable3D for Bomb {
    fn set_x(&mut self, v: f64) {
        self.p[0] = v
    }
    fn set_y(&mut self, v: f64) {
        self.p[1] = v
    }
    fn set_z(&mut self, v: f64) {
        self.p[2] = v
    }
    fn set_xyz(&mut self, x: f64, y: f64, z: f64) {
        tick();
        self.p = [x, y, z]
    }
}
impl IsEditable2D for Bomb {
    fn set_x(&mut self, v: f64) {
        self.p[0] = v
    }
    fn set_y(&mut self, v: f64) {
        self.p[1] = v
    }
    fn set_xy(&mut self, x: f64, y: f64) {
        tick();
        self.p[0] = x;
        self.p[1] = y
    }
}
impl IsMovable2D for Bomb {
    fn move_by(&mut self, x: f64, y: f64) {
        tick();
        self.p = [self.p[0] + x, self.p[1] + y, self.p[2]]
    }
}
impl IsMatrix3Transformable for Bomb {
    fn transformed(&self, m: &Matrix3) -> Self {
        let mut r = self.clone();
        IsMatrix3Transformable::transform(&mut r, m);
        r
    }
    fn transform(&mut self, m: &Matrix3) {
        tick();
        let q = rust_3d::Point2D::new(self.p[0], self.p[1]).transformed(m);
        self.p = [q.x, q.y, self.p[2]]
    }
}
impl IsMatrix4Transformable for Bomb {
    fn transformed(&self, m: &Matrix4) -> Self {
        let mut r = self.clone();
        IsMatrix4Transformable::transform(&mut r, m);
        r
    }
    fn transform(&mut self, m: &Matrix4) {
        tick();
        self.p = { let q = Point3D::new(self.p[0], self.p[1], self.p[2]).transformed(m); [q.x, q.y, q.z] }
    }
}
impl IsMovable3D for Bomb {
    fn move_by(&mut self, x: f64, y: f64, z: f64) {
        tick();
        self.p = [self.p[0] + x, self.p[1] + y, self.p[2] + z]
    }
}

/// A user's element with a bounding box
#[derive(Debug)]
pub struct Boxy {
    pub id: usize,
    pub bb: BoundingBox3D,
    pub own: bool,
}
impl Clone for Boxy {
    fn clone(&self) -> Self {
        tick();
        Boxy { id: self.id, bb: self.bb.clone(), own: self.own }
    }
}
impl HasBoundingBox3DMaybe for Boxy {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        tick();
        Some(self.bb.clone())
    }
}
impl HasBoundingBox3D for Boxy {
    fn bounding_box(&self) -> BoundingBox3D {
        tick();
        self.bb.clone()
    }
}
impl HasColliders3D for Boxy {
    fn has_additional_colliders(&self) -> bool {
        tick();
        self.own
    }
    fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) {
        tick();
        f(&Collider3D::AABB(self.bb.clone()))
    }
}
#[derive(Debug)]
pub struct Boxy2 {
    pub id: usize,
    pub bb: BoundingBox2D,
}
impl Clone for Boxy2 {
    fn clone(&self) -> Self {
        tick();
        Boxy2 { id: self.id, bb: self.bb.clone() }
    }
}
impl HasBoundingBox2DMaybe for Boxy2 {
    fn bounding_box_maybe(&self) -> Option<BoundingBox2D> {
        tick();
        Some(self.bb.clone())
    }
}
impl HasBoundingBox2D for Boxy2 {
    fn bounding_box(&self) -> BoundingBox2D {
        tick();
        self.bb.clone()
    }
}

pub fn draw_points(t: &Tape, n: usize) -> Vec<P3> {
    (0..n).map(|_| [coord(t, 1.0), coord(t, 1.0), coord(t, 1.0)]).collect()
}
pub fn bombs(ps: &[P3]) -> Vec<Bomb> {
    let mut v = vec![];
    for p in ps {
        v.push(Bomb::at(p))
    }
    v
}
pub fn dump<'a>(i: impl IntoIterator<Item = &'a Bomb>) -> Vec<[u64; 3]> {
    i.into_iter().map(|b| b.bits()).collect()
}

//------------------------------------------------------------------------------

/// Filters over selections, the predicates being user code
fn filters(c: &Ctx) -> Verdict {
    let t = &c.t;
    let n = t.size(14);
    let ps = draw_points(t, n);
    let start = draw_view(t, n);
    let sel = draw_sel(t, 3);
    let kind = t.below(3);
    c.note(|| format!("filter {:?} over {:?} with view {:?}, collection {}", sel, ps, start, kind));
    let real = |p: &P3| Point3D::new(p[0], p[1], p[2]);
    let look = |v: &View| MV::from(v);
    macro_rules! go {
        ($T:ty, $e:expr) => {{
            let data: $T = $e;
            let f = sel.real::<$T>();
            interrupt(c, "filter over a view", &|| start.real(), &|v: &mut View| f.filter(&data, v), &look, Left::Before)
        }};
    }
    match kind {
        0 => go!(Vec<Point3D>, ps.iter().map(real).collect()),
        1 => go!(VecDeque<Point3D>, ps.iter().map(real).collect()),
        _ => go!(PointCloud3D<Point3D>, PointCloud3D { data: ps.iter().map(real).collect() }),
    }?;
    // the view still selects what it should
    let want = sel.model(&ps, &start);
    let data: Vec<Point3D> = ps.iter().map(real).collect();
    let mut v = start.real();
    sel.real::<Vec<Point3D>>().filter(&data, &mut v);
    if n > 0 && MV::from(&v).of(n) != want.of(n) {
        bail!("wrong", "filter {:?} over {:?} with view {:?} yields {:?} instead of {:?}", sel, ps, start, v, want);
    }
    Ok(())
}

/// Selections applied to collections whose elements are cloned by user code
fn views(c: &Ctx) -> Verdict {
    let t = &c.t;
    let n = t.size(12);
    let ps = draw_points(t, n);
    let v = draw_view(t, n).real();
    let from = t.bool();
    c.note(|| format!("{} {:?} on {:?}", if from { "from_view" } else { "apply_view" }, v, ps));
    fn go<C: IsViewBuildable>(c: &Ctx, what: &str, make: &dyn Fn() -> C, v: &View, from: bool, d: &dyn Fn(&C) -> Vec<[u64; 3]>) -> Verdict {
        if from {
            interrupt(c, &format!("from_view on {}", what), make, &|x: &mut C| x.from_view(v).map(|y| d(&y)), d, Left::Before)
        } else {
            interrupt(c, &format!("apply_view on {}", what), make, &|x: &mut C| x.apply_view(v).is_ok(), d, Left::Before)
        }
    }
    match t.below(5) {
        0 => go(c, "Vec", &|| bombs(&ps), &v, from, &|x: &Vec<Bomb>| dump(x)),
        1 => go(c, "VecDeque", &|| bombs(&ps).into_iter().collect(), &v, from, &|x: &VecDeque<Bomb>| dump(x)),
        2 => go(c, "LinkedList", &|| bombs(&ps).into_iter().collect(), &v, from, &|x: &LinkedList<Bomb>| dump(x)),
        3 => go(c, "PointCloud3D", &|| PointCloud3D { data: bombs(&ps) }, &v, from, &|x: &PointCloud3D<Bomb>| dump(&x.data)),
        _ => go(c, "PointCloud2D", &|| PointCloud2D { data: bombs(&ps) }, &v, from, &|x: &PointCloud2D<Bomb>| dump(&x.data)),
    }
}

/// Trees rebuilt over an earlier content, and queried
fn trees(c: &Ctx) -> Verdict {
    let t = &c.t;
    let a = draw_points(t, t.range(0, 12));
    let b = draw_points(t, t.range(0, 12));
    let q = Point3D::new(coord(t, 1.0), coord(t, 1.0), coord(t, 1.0));
    let r = Positive::new(t.below(9) as f64 + 0.5).expect("harness: positive");
    let k = t.range(0, 5);
    let (sphere, bx) = (Sphere { center: q.clone(), radius: r }, Box3D { center: q.clone(), size_x: r, size_y: r, size_z: r });
    let depth = *t.pick(&[-1i8, 0, 1, 2]);
    let build = t.bool();
    let which = t.below(5);
    c.note(|| format!("tree over {:?}, then {:?}; query {:?} {:?} {}", a, b, q, r, k));
    let ask = |s: &KdTree<Bomb>, which: u64| -> Vec<[u64; 3]> {
        let mut v = vec![];
        match which {
            0 => s.knearest(&q, k, &mut v),
            1 => s.in_sphere(&sphere, &mut v),
            2 => s.in_box(&bx, &mut v),
            3 => v.extend(s.nearest(&q)),
            _ => return dump(&s.to_pointcloud().data),
        }
        dump(&v)
    };
    if t.bool() {
        let make = || {
            let mut s: KdTree<Bomb> = KdTree::default();
            let _ = s.build(PointCloud3D { data: bombs(&a) });
            s
        };
        let look = |s: &KdTree<Bomb>| (s.size(), (0..5).map(|w| ask(s, w)).collect::<Vec<_>>());
        if build {
            interrupt(c, "KdTree::build", &make, &|s| s.build(PointCloud3D { data: bombs(&b) }).is_ok(), &look, Left::Before)
        } else {
            interrupt(c, "KdTree query", &make, &|s| ask(s, which), &look, Left::Before)
        }
    } else {
        let make = || {
            let mut s: OcTree<Bomb> = OcTree::default();
            let _ = s.build(PointCloud3D { data: bombs(&a) });
            s
        };
        let look = |s: &OcTree<Bomb>| (s.size(), dump(&s.to_pointcloud().data), dump(&s.collect(depth).data));
        if build {
            interrupt(c, "OcTree::build", &make, &|s| s.build(PointCloud3D { data: bombs(&b) }).is_ok(), &look, Left::Before)
        } else {
            interrupt(c, "OcTree::collect", &make, &|s| dump(&s.collect(depth).data), &look, Left::Before)
        }
    }
}

fn starts(a: &[[u64; 3]], b: &[[u64; 3]]) -> bool {
    b.len() >= a.len() && b[..a.len()] == *a
}
fn multiset(v: &[[u64; 3]]) -> BTreeMap<[u64; 3], usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(*x).or_insert(0) += 1;
    }
    m
}

/// Operations adding, visiting or changing elements one by one
fn growing(c: &Ctx) -> Verdict {
    type D = Vec<[u64; 3]>;
    let t = &c.t;
    let a = draw_points(t, t.size(8));
    let b = draw_points(t, t.size(8));
    let deque = t.bool();
    let i = if a.is_empty() { 0 } else { t.usize_below(a.len()) };
    let p = [coord(t, 1.0), coord(t, 0.5), coord(t, 0.25)];
    c.note(|| format!("{:?} and {:?}, element {} / {:?}", a, b, i, p));
    // old content, then some of what was to be added
    let grown = |before: &D, full: &D, now: &D| starts(before, now) && starts(now, full);
    // every element either as before or as after
    let each = |before: &D, full: &D, now: &D| now.len() == before.len() && now.iter().enumerate().all(|(i, x)| *x == before[i] || *x == full[i]);
    // the same elements in whatever order
    let permuted = |before: &D, _: &D, now: &D| multiset(before) == multiset(now);
    match t.below(12) {
        0 => interrupt(
            c,
            "PointCloud3D::append_ra",
            &|| PointCloud3D { data: bombs(&a) },
            &|s| if deque { s.append_ra(&bombs(&b).into_iter().collect::<VecDeque<_>>()) } else { s.append_ra(&bombs(&b)) },
            &|s| dump(&s.data),
            Left::OneByOne(&grown),
        ),
        1 => interrupt(
            c,
            "PointCloud2D::append_ra",
            &|| PointCloud2D { data: bombs(&a) },
            &|s| if deque { s.append_ra(&bombs(&b).into_iter().collect::<VecDeque<_>>()) } else { s.append_ra(&bombs(&b)) },
            &|s| dump(&s.data),
            Left::OneByOne(&grown),
        ),
        2 => interrupt(c, "PointCloud3D::consume", &|| PointCloud3D { data: bombs(&a) }, &|s| s.consume(PointCloud3D { data: bombs(&b) }), &|s| dump(&s.data), Left::OneByOne(&grown)),
        3 => interrupt(c, "PointCloud2D::consume", &|| PointCloud2D { data: bombs(&a) }, &|s| s.consume(PointCloud2D { data: bombs(&b) }), &|s| dump(&s.data), Left::OneByOne(&grown)),
        4 => interrupt(
            c,
            "PointCloud3D::combine",
            &|| (PointCloud3D { data: bombs(&a) }, PointCloud3D { data: bombs(&b) }),
            &|s| dump(&s.0.combine(&s.1).data),
            &|s| (dump(&s.0.data), dump(&s.1.data)),
            Left::Before,
        ),
        5 => interrupt(
            c,
            "PointCloud2D::combine",
            &|| (PointCloud2D { data: bombs(&a) }, PointCloud2D { data: bombs(&b) }),
            &|s| dump(&s.0.combine(&s.1).data),
            &|s| (dump(&s.0.data), dump(&s.1.data)),
            Left::Before,
        ),
        6 => {
            let change = |x: &mut Bomb| {
                tick();
                x.p[0] += 100.0;
                x.p[1] -= 100.0;
            };
            if t.bool() {
                interrupt(c, "PointCloud3D::for_each_point", &|| PointCloud3D { data: bombs(&a) }, &|s| s.for_each_point(change), &|s| dump(&s.data), Left::OneByOne(&each))
            } else {
                interrupt(c, "PointCloud2D::for_each_point", &|| PointCloud2D { data: bombs(&a) }, &|s| s.for_each_point(change), &|s| dump(&s.data), Left::OneByOne(&each))
            }
        }
        7 => {
            let make = || {
                let mut s: PointCloud3Df32<Bomb> = PointCloud3Df32::new();
                for p in &a {
                    s.push(Bomb::at(p))
                }
                s
            };
            let look = |s: &PointCloud3Df32<Bomb>| (s.data.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), s.len_d());
            match t.below(3) {
                0 => interrupt(c, "PointCloud3Df32::push", &make, &|s| IsPushable::push(s, Bomb::at(&p)), &look, Left::Before),
                1 => interrupt(c, "PointCloud3Df32::push_d", &make, &|s| s.push_d(Bomb::at(&p)), &look, Left::Before),
                _ if a.is_empty() => Ok(()),
                _ => interrupt(c, "PointCloud3Df32::set_d", &make, &|s| s.set_d(i, Bomb::at(&p)), &look, Left::Before),
            }
        }
        8 => {
            let d = t.usize_below(3);
            if t.bool() {
                interrupt(c, "PointCloud3D::sort_dim", &|| PointCloud3D { data: bombs(&a) }, &|s| s.sort_dim(d).is_ok(), &|s| dump(&s.data), Left::OneByOne(&permuted))
            } else {
                interrupt(c, "PointCloud2D::sort_dim", &|| PointCloud2D { data: bombs(&a) }, &|s| s.sort_dim(d).is_ok(), &|s| dump(&s.data), Left::OneByOne(&permuted))
            }
        }
        9 => {
            let (x, y, z) = (100.0, -50.0, 25.0);
            match t.below(3) {
                0 => interrupt(c, "PointCloud3D::move_by", &|| PointCloud3D { data: bombs(&a) }, &|s| s.move_by(x, y, z), &|s| dump(&s.data), Left::OneByOne(&each)),
                1 => interrupt(c, "Vec::move_by", &|| bombs(&a), &|s| IsMovable3D::move_by(s, x, y, z), &|s| dump(s), Left::OneByOne(&each)),
                _ => interrupt(c, "LinkedList::move_by", &|| bombs(&a).into_iter().collect::<LinkedList<_>>(), &|s| IsMovable3D::move_by(s, x, y, z), &|s| dump(s), Left::OneByOne(&each)),
            }
        }
        _ => {
            // a mesh over user points: reading and changing
            type M = Mesh3D<Bomb, PointCloud3D<Bomb>, U32IndexVec>;
            let a = if a.len() < 3 { vec![[0.0; 3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]] } else { a.clone() };
            let n = a.len();
            let faces: Vec<[usize; 3]> = (0..t.range(1, 4)).map(|k| [k % n, (k + 1) % n, (k + 2) % n]).collect();
            let make = || {
                let mut m = M::default();
                for p in &a {
                    m.add_vertex(Bomb::at(p));
                }
                for f in &faces {
                    let _ = m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2]));
                }
                m
            };
            let look = |m: &M| {
                let v: Vec<[u64; 3]> = (0..m.num_vertices()).map(|i| m.vertex(VId(i)).map(|x| x.bits()).unwrap_or_default()).collect();
                let f: Vec<[usize; 3]> = (0..m.num_faces()).map(|i| m.face_vertex_ids(rust_3d::FId(i)).map(|f| [f.a.0, f.b.0, f.c.0]).unwrap_or_default()).collect();
                (v, f)
            };
            match t.below(4) {
                0 => interrupt(c, "Mesh3D::face_vertices", &make, &|m| m.face_vertices(rust_3d::FId(0)).map(|x| dump(x.iter())), &look, Left::Before),
                1 => interrupt(c, "Mesh3D::bounding_box_maybe", &make, &|m| m.bounding_box_maybe().map(|x| format!("{:?}", x)), &look, Left::Before),
                2 => interrupt(
                    c,
                    "Mesh3D::move_by",
                    &make,
                    &|m| IsMovable3D::move_by(m, 100.0, 50.0, 25.0),
                    &look,
                    Left::OneByOne(&|b, f, n| each(&b.0, &f.0, &n.0) && b.1 == n.1),
                ),
                _ => interrupt(c, "Mesh3D::change_vertex", &make, &|m| m.change_vertex(VId(i % n), Bomb::at(&p)).is_ok(), &look, Left::Before),
            }
        }
    }
}

/// Moving, scaling, transforming and sorting what a structure holds, element by element
fn elements(c: &Ctx) -> Verdict {
    type D = Vec<[u64; 3]>;
    let t = &c.t;
    let ps = draw_points(t, t.size(9));
    let op = t.below(5);
    let f = Positive::new(t.range(1, 8) as f64 * 0.5).expect("harness: positive");
    let m3 = if t.bool() { Matrix3::translation(100.0, -50.0) } else { Matrix3::scale(2.0, -4.0) };
    let m4 = if t.bool() { Matrix4::translation(100.0, -50.0, 25.0) } else { Matrix4::scale(2.0, -4.0, 0.5) };
    let dim = t.usize_below(3);
    c.note(|| format!("operation {} (factor {:?}, {:?}, {:?}, dimension {}) on {:?}", op, f, m3, m4, dim, ps));
    let each = |before: &D, full: &D, now: &D| now.len() == before.len() && now.iter().enumerate().all(|(i, x)| *x == before[i] || *x == full[i]);
    let permuted = |before: &D, _: &D, now: &D| multiset(before) == multiset(now);
    macro_rules! go {
        ($what:literal, $T:ty, $make:expr, $look:expr, [$($mv:expr)?], [$($sc:expr)?], [$($tr:expr)?], [$($td:expr)?], [$($so:expr)?]) => {{
            let make = &|| -> $T { $make };
            let look = &|s: &$T| -> D { $look(s) };
            match op {
                $(0 => { let o: &dyn Fn(&mut $T) = &$mv; interrupt(c, concat!($what, "::move_by"), make, &|s: &mut $T| o(s), look, Left::OneByOne(&each)) })?
                $(1 => { let o: &dyn Fn(&mut $T) = &$sc; interrupt(c, concat!($what, "::scale"), make, &|s: &mut $T| o(s), look, Left::OneByOne(&each)) })?
                $(2 => { let o: &dyn Fn(&mut $T) = &$tr; interrupt(c, concat!($what, "::transform"), make, &|s: &mut $T| o(s), look, Left::OneByOne(&each)) })?
                $(3 => { let o: &dyn Fn(&mut $T) -> D = &$td; interrupt(c, concat!($what, "::transformed"), make, &|s: &mut $T| o(s), look, Left::Before) })?
                $(4 => { let o: &dyn Fn(&mut $T) = &$so; interrupt(c, concat!($what, " sorted"), make, &|s: &mut $T| o(s), look, Left::OneByOne(&permuted)) })?
                #[allow(unreachable_patterns)]
                _ => Ok(()),
            }
        }};
    }
    let poly = |s: &dyn IsPolygon<Bomb>| -> D { (0..s.num_segments()).map(|i| s.vertex(VId(i)).map(|x| x.bits()).unwrap_or_default()).collect() };
    type M = Mesh3D<Bomb, PointCloud3D<Bomb>, U32IndexVec>;
    let mesh = || {
        let mut m = M::default();
        for p in &ps {
            m.add_vertex(Bomb::at(p));
        }
        for k in 0..ps.len().saturating_sub(2) {
            let _ = m.try_add_connection(VId(k), VId(k + 1), VId(k + 2));
        }
        m
    };
    // vertices, then faces
    let mesh_look = |m: &M| -> D {
        let mut d: D = (0..m.num_vertices()).map(|i| m.vertex(VId(i)).map(|x| x.bits()).unwrap_or_default()).collect();
        d.extend((0..m.num_faces()).map(|i| m.face_vertex_ids(rust_3d::FId(i)).map(|f| [f.a.0 as u64, f.b.0 as u64, f.c.0 as u64]).unwrap_or_default()));
        d
    };
    match t.below(11) {
        0 => go!("PointCloud3D", PointCloud3D<Bomb>, PointCloud3D { data: bombs(&ps) }, |s: &PointCloud3D<Bomb>| dump(&s.data), [|s| IsMovable3D::move_by(s, 100.0, 50.0, 25.0)], [|s| s.scale(f)], [|s| s.transform(&m4)], [|s| dump(&s.transformed(&m4).data)],
            [|s| match dim { 0 => s.sort_x(), 1 => s.sort_y(), _ => s.sort_z() }]),
        1 => go!("PointCloud2D", PointCloud2D<Bomb>, PointCloud2D { data: bombs(&ps) }, |s: &PointCloud2D<Bomb>| dump(&s.data), [|s| IsMovable2D::move_by(s, 100.0, 50.0)], [|s| s.scale(f)], [|s| s.transform(&m3)], [|s| dump(&s.transformed(&m3).data)],
            [|s| if dim == 0 { s.sort_x() } else { s.sort_y() }]),
        2 => go!("Vec", Vec<Bomb>, bombs(&ps), |s: &Vec<Bomb>| dump(s), [|s| IsMovable2D::move_by(s, 100.0, 50.0)], [], [], [],
            [|s| match dim { 0 => sort_vec_3d_x(s), 1 => sort_vec_3d_y(s), _ => sort_vec_3d_z(s) }]),
        3 => go!("Vec (3D)", Vec<Bomb>, bombs(&ps), |s: &Vec<Bomb>| dump(s), [|s| IsMovable3D::move_by(s, 100.0, 50.0, 25.0)], [], [], [], [|s| if dim == 0 { sort_vec_2d_x(s) } else { sort_vec_2d_y(s) }]),
        4 => go!("VecDeque", VecDeque<Bomb>, bombs(&ps).into_iter().collect(), |s: &VecDeque<Bomb>| dump(s), [|s| if dim == 0 { IsMovable2D::move_by(s, 100.0, 50.0) } else { IsMovable3D::move_by(s, 100.0, 50.0, 25.0) }], [], [], [], []),
        5 => go!("LinkedList", LinkedList<Bomb>, bombs(&ps).into_iter().collect(), |s: &LinkedList<Bomb>| dump(s), [|s| if dim == 0 { IsMovable2D::move_by(s, 100.0, 50.0) } else { IsMovable3D::move_by(s, 100.0, 50.0, 25.0) }], [], [], [], []),
        6 => go!("Mesh3D", M, mesh(), mesh_look, [|s| IsMovable3D::move_by(s, 100.0, 50.0, 25.0)], [|s| s.scale(f)], [|s| s.transform(&m4)], [|s| mesh_look(&s.transformed(&m4))], []),
        7 => go!("Polygon2D", Polygon2D<Bomb>, Polygon2D::from(PointCloud2D { data: bombs(&ps) }), |s: &Polygon2D<Bomb>| poly(s), [|s| IsMovable2D::move_by(s, 100.0, 50.0)], [|s| s.scale(f)], [|s| s.transform(&m3)], [|s| poly(&s.transformed(&m3))], []),
        8 => go!("Polygon3D", Polygon3D<Bomb>, Polygon3D::from(PointCloud3D { data: bombs(&ps) }), |s: &Polygon3D<Bomb>| poly(s), [|s| IsMovable3D::move_by(s, 100.0, 50.0, 25.0)], [|s| s.scale(f)], [|s| s.transform(&m4)], [|s| poly(&s.transformed(&m4))], []),
        9 => go!("SearchableMesh", SearchableMesh<M, Bomb, U32IndexVec>, SearchableMesh::new(mesh()), |s: &SearchableMesh<M, Bomb, U32IndexVec>| mesh_look(s.mesh()), [], [|s| s.scale(f)], [], [], []),
        _ => go!("center / set_size", PointCloud3D<Bomb>, PointCloud3D { data: bombs(&ps) }, |s: &PointCloud3D<Bomb>| dump(&s.data), [|s| rust_3d::center(s)], [|s| if ps.iter().all(|p| (0..3).all(|i| p[i] == ps[0][i] || p[i] != ps[0][i])) { rust_3d::center(s) }], [|s| rust_3d::set_size(s, [f, f, f])], [], []),
    }
}

/// A library point taking over or combining with the coordinates of a user's
fn points(c: &Ctx) -> Verdict {
    let t = &c.t;
    let a = [coord(t, 1.0), coord(t, 1.0), coord(t, 1.0)];
    let b = [coord(t, 1.0), coord(t, 1.0), coord(t, 1.0)];
    let f = Positive::new(t.range(1, 8) as f64 * 0.5).expect("harness: positive");
    c.note(|| format!("point {:?} and the user's {:?}", a, b));
    let three = || Point3D::new(a[0], a[1], a[2]);
    let two = || Point2D::new(a[0], a[1]);
    let u = Bomb::at(&b);
    let one = Positive::one();
    let half = Positive::new(0.5).expect("harness: positive");
    // edits which take a point of the user's, on anything that has a position
    macro_rules! on3 {
        ($what:literal, $make:expr) => {{
            let make = &|| $make;
            let look = &|s: &_| look_at(s);
            match t.below(5) {
                0 => interrupt(c, concat!($what, "::from"), make, &|s| IsBuildable3D::from(s, &u), look, Left::Before),
                1 => interrupt(c, concat!($what, "::from_nd"), make, &|s| s.from_nd(Bomb::at(&b)).is_ok(), look, Left::Before),
                2 => interrupt(c, concat!($what, "::add"), make, &|s| IsEditable3D::add(s, &u), look, Left::Before),
                3 => interrupt(c, concat!($what, "::subtract"), make, &|s| IsEditable3D::subtract(s, &u), look, Left::Before),
                _ => interrupt(c, concat!($what, "::increase_distance_to_by"), make, &|s| IsEditable3D::increase_distance_to_by(s, &u, f), look, Left::Before),
            }
        }};
    }
    macro_rules! on2 {
        ($what:literal, $make:expr) => {{
            let make = &|| $make;
            let look = &|s: &_| look_at(s);
            match t.below(6) {
                0 => interrupt(c, concat!($what, "::from"), make, &|s| IsBuildable2D::from(s, &u), look, Left::Before),
                1 => interrupt(c, concat!($what, "::from_nd"), make, &|s| s.from_nd(Bomb2(Bomb::at(&b))).is_ok(), look, Left::Before),
                2 => interrupt(c, concat!($what, "::add"), make, &|s| IsEditable2D::add(s, &u), look, Left::Before),
                3 => interrupt(c, concat!($what, "::subtract"), make, &|s| IsEditable2D::subtract(s, &u), look, Left::Before),
                4 => interrupt(c, concat!($what, "::rotate"), make, &|s| IsEditable2D::rotate(s, Rad(1.0), &u), look, Left::Before),
                _ => interrupt(c, concat!($what, "::increase_distance_to_by"), make, &|s| IsEditable2D::increase_distance_to_by(s, &u, f), look, Left::Before),
            }
        }};
    }
    match t.below(12) {
        0 | 1 => on3!("Point3D", three()),
        2 | 3 => on2!("Point2D", two()),
        4 => on3!("Box3D", Box3D { center: three(), size_x: f, size_y: one, size_z: half }),
        5 => on3!("Sphere", Sphere { center: three(), radius: f }),
        6 => on3!("FilterBox3D", FilterBox3D::new(Box3D { center: three(), size_x: f, size_y: one, size_z: half })),
        7 => on3!("FilterSphere", FilterSphere::new(Sphere { center: three(), radius: f })),
        8 => on2!("Box2D", Box2D { center: two(), size_x: f, size_y: one }),
        9 => on2!("Circle", Circle { center: two(), radius: f }),
        10 => match t.below(2) {
            0 => on2!("FilterBox2D", FilterBox2D::new(Box2D { center: two(), size_x: f, size_y: one })),
            _ => on2!("FilterCircle", FilterCircle::new(Circle { center: two(), radius: f })),
        },
        _ => {
            let make = || {
                let mut p = Matrix4Pipe::default();
                p.add_translation(a[0], a[1], a[2]);
                let _ = p.add_look_at(&Point3D::new(1.0, 2.0, 3.0), &Norm3D::norm_z());
                p
            };
            interrupt(c, "Matrix4Pipe::add_look_at", &make, &|p| p.add_look_at(&u, &Norm3D::norm_z()).is_ok(), &|p| format!("{:?}", p), Left::Before)
        }
    }
}

/// Everything there is to see of a shape
fn look_at<S: IsND + std::fmt::Debug>(s: &S) -> (Vec<Option<u64>>, String) {
    ((0..4).map(|d| s.position_nd(d).map(|x| x.to_bits())).collect(), format!("{:?}", s))
}

/// A user's point of two dimensions
#[derive(Debug, Default, Clone)]
struct Bomb2(Bomb);
impl IsND for Bomb2 {
    fn n_dimensions() -> usize {
        2
    }
    fn position_nd(&self, d: usize) -> Option<f64> {
        if d < 2 { self.0.position_nd(d) } else { None }
    }
}
impl PartialEq for Bomb2 {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl IsBuildableND for Bomb2 {
    fn new_nd(k: &[f64]) -> rust_3d::Result<Self> {
        Ok(Bomb2(Bomb::at(&[k[0], k[1], 0.0])))
    }
    fn from_nd<P: IsBuildableND>(&mut self, _: P) -> rust_3d::Result<()> {
        Ok(())
    }
}

/// Algorithms over user points leave their input alone and keep no memory of an interrupted call
fn algorithms(c: &Ctx) -> Verdict {
    let t = &c.t;
    type M = Mesh3D<Bomb, PointCloud3D<Bomb>, U32IndexVec>;
    let n = t.range(3, 9) as usize;
    // few distinct places, so that there is something to heal and to cluster
    let ps: Vec<P3> = (0..n).map(|_| [t.below(3) as f64, t.below(3) as f64, t.below(2) as f64]).collect();
    let faces: Vec<[usize; 3]> = (0..t.range(0, 5)).map(|_| [t.usize_below(n), t.usize_below(n), t.usize_below(n)]).filter(|f| f[0] != f[1] && f[1] != f[2] && f[0] != f[2]).collect();
    let size = t.range(1, 4) as f64 * 0.5;
    c.note(|| format!("algorithms over {:?} {:?}, cluster size {}", ps, faces, size));
    let make = || {
        let mut m = M::default();
        for p in &ps {
            m.add_vertex(Bomb::at(p));
        }
        for f in &faces {
            let _ = m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2]));
        }
        m
    };
    let look = |m: &M| -> Vec<[u64; 3]> {
        let mut d: Vec<[u64; 3]> = (0..m.num_vertices()).map(|i| m.vertex(VId(i)).map(|x| x.bits()).unwrap_or_default()).collect();
        d.extend((0..m.num_faces()).map(|i| m.face_vertex_ids(rust_3d::FId(i)).map(|f| [f.a.0 as u64, f.b.0 as u64, f.c.0 as u64]).unwrap_or_default()));
        d
    };
    let flat: Vec<P3> = ps.iter().map(|p| [p[0], p[1], 0.0]).collect();
    match t.below(8) {
        0 | 1 => interrupt(c, "heal_mesh", &make, &|m: &mut M| heal_mesh(m).map(|m| look(&m)).ok(), &look, Left::Before),
        2 => interrupt(c, "cluster_vertices", &make, &|m: &mut M| cluster_vertices(m, size).map(|m| look(&m)).ok(), &look, Left::Before),
        3 => interrupt(c, "subdivide linear", &make, &|m: &mut M| subdivide::linear::<Bomb, M, M>(m).map(|m| look(&m)).ok(), &look, Left::Before),
        4 => interrupt(c, "unify_faces", &make, &|m: &mut M| unify_faces(m).map(|m| look(&m)).ok(), &look, Left::Before),
        5 => interrupt(c, "convex_hull_2d", &|| bombs(&flat), &|v: &mut Vec<Bomb>| dump(&convex_hull_2d(v)), &|v| dump(v), Left::Before),
        6 => interrupt(c, "douglas_peucker_2d", &|| PointCloud2D { data: bombs(&flat) }, &|v: &mut PointCloud2D<Bomb>| dump(&douglas_peucker_2d(v.clone(), size).data), &|v| dump(&v.data), Left::Before),
        _ => interrupt(c, "SearchableMesh::new", &make, &|m: &mut M| SearchableMesh::<M, Bomb, U32IndexVec>::new(m.clone()).num_edges(), &look, Left::Before),
    }
}

/// A user's container of points: every access may be interrupted, before anything happens
#[derive(Debug, Default, Clone)]
struct UserStore {
    v: Vec<P3>,
}
impl IsDataContainer<Point3D> for UserStore {
    fn reserve_d(&mut self, _: usize) {
        tick();
    }
    fn len_d(&self) -> usize {
        tick();
        self.v.len()
    }
    fn push_d(&mut self, p: Point3D) {
        tick();
        self.v.push([p.x, p.y, p.z])
    }
    fn get_d(&self, i: usize) -> Option<Point3D> {
        tick();
        self.v.get(i).map(|p| Point3D::new(p[0], p[1], p[2]))
    }
    fn set_d(&mut self, i: usize, p: Point3D) {
        tick();
        self.v[i] = [p.x, p.y, p.z]
    }
}

/// A mesh over a user's container of vertices
fn containers(c: &Ctx) -> Verdict {
    type M = Mesh3D<Point3D, UserStore, Vec<usize>>;
    type D = (Vec<[u64; 3]>, Vec<usize>);
    let t = &c.t;
    let n = t.range(3, 8) as usize;
    let ps = draw_points(t, n);
    let faces: Vec<[usize; 3]> = (0..t.range(0, 4) as usize).map(|k| [k % n, (k + 1) % n, (k + 2) % n]).collect();
    let make = || {
        let index: Vec<usize> = faces.iter().flatten().cloned().collect();
        M::from((UserStore { v: ps.clone() }, index))
    };
    // the store is looked at through the parts the mesh falls into
    let look = |m: &M| -> D {
        let (s, i): (UserStore, Vec<usize>) = m.clone().into();
        (s.v.iter().map(bits3).collect(), i)
    };
    let q = |k: f64| Point3D::new(coord(t, 1.0) + k, coord(t, 1.0), coord(t, 1.0));
    let (a, b, d) = (q(0.0), q(0.25), q(0.5));
    let ids = [t.usize_below(n + 2), t.usize_below(n + 2), t.usize_below(n + 2)];
    c.note(|| format!("mesh over a user's container: {:?} {:?}, new {:?} {:?} {:?}, ids {:?}", ps, faces, a, b, d, ids));
    // vertices may have been added, faces only whole and with their vertices
    let grown = |before: &D, full: &D, now: &D| {
        starts(&before.0, &now.0) && starts(&now.0, &full.0) && now.1.starts_with(&before.1) && full.1.starts_with(&now.1) && now.1.len() % 3 == 0 && now.1.iter().all(|i| *i < now.0.len())
    };
    match t.below(6) {
        0 => interrupt(c, "Mesh3D::add_vertex in a user's container", &make, &|m: &mut M| m.add_vertex(a.clone()).0, &look, Left::OneByOne(&grown)),
        1 | 2 => interrupt(c, "Mesh3D::add_face in a user's container", &make, &|m: &mut M| m.add_face(a.clone(), b.clone(), d.clone()).0, &look, Left::OneByOne(&grown)),
        3 => interrupt(c, "Mesh3D::try_add_connection in a user's container", &make, &|m: &mut M| m.try_add_connection(VId(ids[0]), VId(ids[1]), VId(ids[2])).ok().map(|f| f.0), &look, Left::Before),
        4 => interrupt(c, "Mesh3D::change_vertex in a user's container", &make, &|m: &mut M| m.change_vertex(VId(ids[0]), a.clone()).is_ok(), &look, Left::Before),
        _ => interrupt(c, "Mesh3D::reserve in a user's container", &make, &|m: &mut M| { m.reserve_vertices(ids[0]); m.reserve_faces(ids[1]) }, &look, Left::Before),
    }
}

pub fn draw_box(t: &Tape) -> BoundingBox3D {
    let lo = Point3D::new(coord(t, 1.0), coord(t, 1.0), coord(t, 1.0));
    let hi = Point3D::new(lo.x + 1.0 + t.below(5) as f64, lo.y + 1.0 + t.below(5) as f64, lo.z + 1.0 + t.below(5) as f64);
    BoundingBox3D::new(&lo, &hi).ok().expect("harness: box")
}

/// Structures calling back for each candidate
fn callbacks(c: &Ctx) -> Verdict {
    let t = &c.t;
    let n = t.size(10);
    let boxes: Vec<(BoundingBox3D, bool)> = (0..n).map(|_| (draw_box(t), t.bool())).collect();
    let (depth, bucket) = (t.range(0, 6), t.range(1, 3));
    let query = Boxy { id: 999, bb: draw_box(t), own: t.bool() };
    let far = t.range(0, 2);
    let axis = [Norm3D::norm_x(), Norm3D::norm_y(), Norm3D::norm_z()][far].clone();
    let line = Line3D::new(Point3D::new(coord(t, 1.0), coord(t, 1.0), coord(t, 1.0)), axis);
    let (x, y) = (coord(t, 1.0), coord(t, 1.0));
    let m = t.range(2, 4);
    c.note(|| format!("boxes {:?}, depth {}, bucket {}, query {:?}, line {:?}", boxes, depth, bucket, query, line));
    let all = || -> Vec<Boxy> { boxes.iter().enumerate().map(|(id, (b, own))| Boxy { id, bb: b.clone(), own: *own }).collect() };
    match t.below(9) {
        k @ 0..=4 => {
            let make = || AABBTree3D::new(all(), depth, bucket);
            let cross = |s: &AABBTree3D<Boxy>| {
                let (mut rx, mut ry, mut rz) = (vec![], vec![], vec![]);
                s.bb_crossing_x_value(x, &mut rx);
                s.bb_crossing_y_value(y, &mut ry);
                s.bb_crossing_z_value(y, &mut rz);
                [rx, ry, rz].iter().map(|v| v.iter().map(|b| b.id).collect::<Vec<_>>()).collect::<Vec<_>>()
            };
            let cand = |s: &AABBTree3D<Boxy>| {
                let mut v = vec![];
                s.for_each_collision_candidate(&query.bb, &mut |b| {
                    tick();
                    v.push(b.id)
                });
                v
            };
            let hits = |s: &AABBTree3D<Boxy>| {
                let mut v = vec![];
                s.for_each_intersection_candidate(&line, &mut |b| {
                    tick();
                    v.push(b.id)
                });
                v
            };
            let any = |s: &AABBTree3D<Boxy>| {
                s.any(&|b| {
                    tick();
                    b.id % m == 1
                })
            };
            let look = |s: &AABBTree3D<Boxy>| {
                let mut r = vec![];
                s.bb_colliding(&query.bb, &mut r);
                (cand(s), hits(s), any(s), cross(s), r.into_iter().map(|b| b.id).collect::<Vec<_>>(), s.any_element_collides_with_collider(&query), s.any_element_collides_with_bounding(&query))
            };
            match k {
                0 => interrupt(c, "AABBTree3D::for_each_collision_candidate", &make, &|s| cand(s), &look, Left::Before),
                1 => interrupt(c, "AABBTree3D::for_each_intersection_candidate", &make, &|s| hits(s), &look, Left::Before),
                4 => interrupt(c, "AABBTree3D::bb_crossing", &make, &|s| cross(s), &look, Left::Before),
                2 => interrupt(c, "AABBTree3D::any", &make, &|s| any(s), &look, Left::Before),
                _ => interrupt(c, "AABBTree3D::any_element_collides_with_collider", &make, &|s| s.any_element_collides_with_collider(&query), &look, Left::Before),
            }
        }
        5 => {
            if n == 0 {
                return Ok(());
            }
            let make = || Cluster::new(all(), 1 + m as u16, 2).ok().expect("harness: cluster");
            let near = |s: &Cluster<Boxy>| {
                let mut v = vec![];
                s.for_each_candidate(x, y, &mut |b| {
                    tick();
                    v.push(b.id)
                });
                v
            };
            interrupt(c, "Cluster::for_each_candidate", &make, &|s| near(s), &near, Left::Before)
        }
        6 => {
            let look = |s: &dyn IsColliderContainer3D| (s.any_element_collides_with_collider(&query), s.any_element_collides_with_bounding(&query));
            match t.below(3) {
                0 => interrupt(c, "Vec::any_element_collides", &all, &|s| look(s), &|s| look(s), Left::Before),
                1 => interrupt(c, "VecDeque::any_element_collides", &|| all().into_iter().collect::<VecDeque<_>>(), &|s| look(s), &|s| look(s), Left::Before),
                _ => interrupt(c, "LinkedList::any_element_collides", &|| all().into_iter().collect::<LinkedList<_>>(), &|s| look(s), &|s| look(s), Left::Before),
            }
        }
        7 => {
            let ray = Ray3D::new(line.clone());
            let op = |s: &mut Vec<Boxy>| {
                let mut v = vec![];
                for_each_intersecting(&ray, s.iter_mut(), &mut |p, b| {
                    tick();
                    v.push((b.id, bits3(&[p.x, p.y, p.z])))
                });
                let first = closest_intersecting_mut(&ray, s.iter_mut()).map(|(p, b)| (b.id, bits3(&[p.x, p.y, p.z])));
                (v, first)
            };
            interrupt(c, "for_each_intersecting", &all, &op, &|s| s.iter().map(|b| (b.id, format!("{:?}", b.bb))).collect::<Vec<_>>(), Left::Before)
        }
        _ => {
            let flat = |b: &BoundingBox3D| {
                let (a, z) = (b.min_p(), b.max_p());
                BoundingBox2D::new(&rust_3d::Point2D::new(a.x, a.y), &rust_3d::Point2D::new(z.x, z.y)).ok().expect("harness: box")
            };
            let make = || AABBTree2D::new(boxes.iter().enumerate().map(|(id, (b, _))| Boxy2 { id, bb: flat(b) }).collect(), depth, bucket);
            let q = flat(&query.bb);
            let ask = |s: &AABBTree2D<Boxy2>| {
                let (mut r, mut rx, mut ry) = (vec![], vec![], vec![]);
                s.bb_colliding(&q, &mut r);
                s.bb_crossing_x_value(x, &mut rx);
                s.bb_crossing_y_value(y, &mut ry);
                let any = s.any(&|b| {
                    tick();
                    b.id % m == 1
                });
                let mut near = vec![];
                s.for_each_collision_candidate(&q, &mut |b| {
                    tick();
                    near.push(b.id)
                });
                let mut all = [r, rx, ry].iter().map(|v| v.iter().map(|b| b.id).collect::<Vec<_>>()).collect::<Vec<_>>();
                all.push(near);
                (all, any)
            };
            interrupt(c, "AABBTree2D queries", &make, &|s| ask(s), &ask, Left::Before)
        }
    }
}

/// A user's search structure, interrupted after it found some
pub struct Finder {
    pub ps: Vec<P3>,
    pub calls: Cell<u64>,
}
impl IsSphereSearchable<Point3D> for Finder {
    fn in_sphere(&self, s: &Sphere, r: &mut Vec<Point3D>) {
        self.calls.set(self.calls.get() + 1);
        tick();
        for p in &self.ps {
            let d: f64 = [p[0] - s.center.x, p[1] - s.center.y, p[2] - s.center.z].iter().map(|x| x * x).sum();
            if d <= *s.radius * *s.radius {
                r.push(Point3D::new(p[0], p[1], p[2]));
                tick();
            }
        }
    }
}

fn outlier(c: &Ctx) -> Verdict {
    let t = &c.t;
    let ps = draw_points(t, t.size(10));
    let qs = draw_points(t, t.range(1, 6));
    let r = t.below(9) as f64 + 0.5;
    let k = t.range(0, 4);
    c.note(|| format!("FilterOutlier3D over {:?}, radius {}, neighbours {}, asked for {:?}", ps, r, k, qs));
    let near = |q: &P3| ps.iter().filter(|p| (0..3).map(|i| (p[i] - q[i]) * (p[i] - q[i])).sum::<f64>() <= r * r).count() >= k;
    let want: Vec<bool> = qs.iter().map(near).collect();
    let make = || FilterOutlier3D::<_, Point3D>::new(Finder { ps: ps.clone(), calls: Cell::new(0) }, Positive::new(r).expect("harness: positive"), k);
    let ask = |f: &FilterOutlier3D<Finder, Point3D>| -> Vec<bool> { qs.iter().map(|q| f.is_allowed(&Point3D::new(q[0], q[1], q[2]))).collect() };
    let fresh = ask(&make());
    if fresh != want {
        bail!("wrong", "FilterOutlier3D over {:?}, radius {}, {} neighbours: {:?} for {:?}", ps, r, k, fresh, qs);
    }
    if t.bool() {
        return interrupt(c, "FilterOutlier3D::is_allowed", &make, &|f| ask(f), &ask, Left::Before);
    }
    // as a filter of a view
    let data: Vec<Point3D> = qs.iter().map(|q| Point3D::new(q[0], q[1], q[2])).collect();
    let start = draw_view(t, qs.len());
    let f = FilterRandomAccessible::new(make());
    interrupt(c, "FilterOutlier3D over a view", &|| start.real(), &|v: &mut View| f.filter(&data, v), &|v| MV::from(v), Left::Before)
}

//------------------------------------------------------------------------------
// I/O

/// Runs f; None: interrupted by the simulator
fn caught<T>(what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, crate::world::Viol> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(Some(x)),
        Err(p) => {
            let text = crate::runner::payload_text(&*p);
            if text.contains(crate::simio::BUDGET) {
                bail!("hang", "{}: {}", what, text);
            }
            if !text.contains(crate::INJECTED) {
                bail!("foreign-panic", "{}: panic: {}", what, crate::runner::last_panic());
            }
            Ok(None)
        }
    }
}

/// Loads interrupted by their target container or their reader
fn loads(c: &Ctx) -> Verdict {
    let t = &c.t;
    let doc = draw_doc(c, &FMTS, 20);
    let mut s = draw_setup(c, &doc, true);
    if s.api == Api::PlyEither {
        // one kind of storage for points, whichever of the two containers they end up in
        s.points = PointKind::Cloud;
        if s.mesh == MeshKind::F32Dyn {
            s.mesh = MeshKind::CloudDyn;
        }
    }
    let (want, refused) = docs::expect(&s, doc.has_faces, &kinds(&doc.view(s.api)));
    assert!(refused.is_none(), "harness: document with unacceptable faces");
    let bytes = Rc::new(doc.bytes.clone());
    let mut plan = if t.bool() { Plan::draw(t, &doc.boundaries()) } else { Plan::plain() };
    let mut k = Containers::new(&s);
    let before = k.data(&s);
    let mode = t.below(5);
    match mode {
        0 | 1 => {
            let n = want.points.len() + want.faces.len() - before.points.len() - before.faces.len();
            let at = t.usize_below(n + 1);
            k.p2.fuse.panic_at = Some(at);
            k.p3.fuse.panic_at = Some(at);
            k.mesh.fuse.panic_at = Some(at);
        }
        2 => {
            k.p2.fuse.panic_reserve = true;
            k.p3.fuse.panic_reserve = true;
            k.mesh.fuse.panic_reserve = true;
        }
        _ => {
            let mut r = AnyReader::new(bytes.clone(), &plan);
            let st = r.stats();
            let mut k2 = Containers::new(&s);
            let _ = bulk(&s, &mut k2, &mut r);
            let calls = st.borrow().calls;
            plan.panic_at = Some(t.below(calls + 1) as usize);
        }
    }
    let mut r = AnyReader::new(bytes.clone(), &plan);
    let stats = r.stats();
    let out = caught(&format!("{:?}", s.api), || bulk(&s, &mut k, &mut r))?;
    c.stream(&stats.borrow());
    for f in [&mut k.p2.fuse, &mut k.p3.fuse, &mut k.mesh.fuse] {
        f.panic_at = None;
        f.panic_reserve = false;
    }
    let d = k.data(&s);
    c.event_str(&format!("{:?} {} {}", out, d.points.len(), d.faces.len()));
    c.note(|| format!("plan {:?}, mode {}: {:?}, the container holds {}", plan, mode, out, d.short()));
    match out {
        Some(Err(e)) => bail!("refused", "{:?}: well-formed document refused: {:?}", s.api, e),
        Some(Ok(_)) => {
            if !d.same(&want) {
                bail!("wrong-data", "{:?}: loaded {} instead of {}", s.api, d.short(), want.short());
            }
        }
        None => {
            c.fault(["container panics when adding", "container panics when adding", "container panics when reserving", "reader panics", "reader panics"][mode as usize], 1);
            c.hit(&format!("{:?} interrupted", s.api));
            if s.api.is_mesh() {
                sound(&d)?;
            }
            // whether a facet or its normal comes first is not observable otherwise
            if s.api.is_stl() && s.api.is_mesh() && d.normals.len() != d.faces.len() && !(mode < 2 && d.normals.len() == d.faces.len() + 1) {
                bail!("unsound", "{:?}: {} faces but {} normals after an interruption", s.api, d.faces.len(), d.normals.len());
            }
            if !d.is_prefix_of(&want) || !before.is_prefix_of(&d) {
                bail!("damaged", "{:?}: interrupted; the container holds {}, before {}, complete {}", s.api, d.short(), before.short(), want.short());
            }
            c.hit_if(d.points.len() > before.points.len(), "interrupted after some records");
        }
    }
    // the container is as usable as ever
    let d = Data { normals: d.normals.clone(), ..d };
    let s2 = crate::load::Setup { initial: d, ..s };
    let (want, _) = docs::expect(&s2, doc.has_faces, &kinds(&doc.view(s2.api)));
    let mut r = AnyReader::new(bytes, &Plan::plain());
    match bulk(&s2, &mut k, &mut r) {
        Err(e) => bail!("refused", "{:?}: after an interruption, a well-formed document is refused: {:?}", s2.api, e),
        Ok(_) => {
            let d = k.data(&s2);
            if !d.same(&want) {
                bail!("damaged", "{:?}: loaded again after an interruption: {} instead of {}", s2.api, d.short(), want.short());
            }
        }
    }
    Ok(())
}

/// Saves interrupted by their writer or by an element
fn saves(c: &Ctx) -> Verdict {
    let t = &c.t;
    if t.chance(1, 4) {
        // the coordinates are user code
        let ps = draw_points(t, t.size(10));
        let two = t.bool();
        let delim = *t.pick(&[" ", ";"]);
        let op = |b: &Vec<Bomb>, w: &mut dyn Write| {
            let mut w = w;
            if two {
                save_xy(&mut w, b, delim, "\n").is_ok()
            } else {
                save_xyz(&mut w, b, delim, "\n").is_ok()
            }
        };
        let data = bombs(&ps);
        let mut want = vec![];
        let (ok, calls) = count(|| op(&data, &mut want));
        if !ok {
            bail!("refused", "saving into memory failed");
        }
        if calls == 0 {
            return Ok(());
        }
        let at = 1 + t.below(calls);
        let mut sink = Sink::new(SinkPlan::draw(t));
        c.note(|| format!("save {:?}, interrupted in call {} of {} to user code", ps, at, calls));
        let r = blow(c, at, "save of user points", || op(&data, &mut sink))?;
        c.sink(&sink.stats);
        c.event(mix_bytes(0, &sink.accepted));
        if !want.starts_with(&sink.accepted) || (r.is_some() && sink.accepted != want) {
            bail!("damaged", "save of {:?}: interrupted in call {}: the sink accepted {} of {}", ps, at, show(&sink.accepted), show(&want));
        }
        if dump(&data) != dump(&bombs(&ps)) {
            bail!("damaged", "save of {:?}: interrupted in call {}: the collection now holds {:?}", ps, at, data);
        }
        let mut again = vec![];
        if !op(&data, &mut again) || again != want {
            bail!("damaged", "save of {:?} repeated after an interruption: {} instead of {}", ps, show(&again), show(&want));
        }
        return Ok(());
    }
    let a = Art::draw(c, true, 20);
    let want = match ideal(&a) {
        Ok(x) => x,
        Err(e) => bail!("refused", "{:?}: saving into memory failed: {}", a.kind, e),
    };
    let mut plan = SinkPlan::draw(t);
    let buffered = if t.chance(1, 3) { Some(*t.pick(&[1usize, 7, 16, 64, 512])) } else { None };
    let run = |sink: &mut Sink| match buffered {
        None => a.save(sink),
        Some(n) => {
            let mut w = BufWriter::with_capacity(n, sink);
            a.save(&mut w)?;
            w.flush().map_err(|e| e.to_string())
        }
    };
    let mut dry = Sink::new(plan.clone());
    let _ = run(&mut dry);
    plan.panic_at = Some(t.below(dry.stats.calls + 1) as usize);
    let mut sink = Sink::new(plan.clone());
    let r = caught(&format!("save {:?}", a.kind), || run(&mut sink))?;
    c.sink(&sink.stats);
    c.event(mix_bytes(0, &sink.accepted));
    c.note(|| format!("plan {:?}, buffer {:?}: {:?}, {} of {} bytes accepted", plan, buffered, r, sink.accepted.len(), want.len()));
    match r {
        None => {
            c.fault("writer panics", 1);
            c.hit(&format!("save {:?} interrupted", a.kind));
        }
        Some(Ok(())) if sink.accepted == want => {}
        Some(x) => bail!("refused", "{:?}: no fault, {:?}, {} of {} bytes accepted", a.kind, x, sink.accepted.len(), want.len()),
    }
    if !want.starts_with(&sink.accepted) {
        bail!("damaged", "{:?}: interrupted; what the sink accepted is no prefix of the document: {} of {}", a.kind, show(&sink.accepted), show(&want));
    }
    match ideal(&a) {
        Ok(x) if x == want => Ok(()),
        x => bail!("damaged", "{:?}: saved again after an interruption: {:?} instead of {}", a.kind, x.map(|b| show(&b)), show(&want)),
    }
}
