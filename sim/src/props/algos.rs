//! C10: algorithms that use hash tables, executed under several seeds of the randomised hasher and compared with
//! plain ordered computations.
use crate::docs::{self, Fmt};
use crate::hashseed::with_seed;
use crate::load::*;
use crate::props::loading::{draw_doc, draw_setup, kinds};
use crate::runner::last_panic;
use crate::simio::{AnyReader, Plan};
use crate::tape::Tape;
use crate::world::{Ctx, Verdict};
use rust_3d::{cluster_vertices, heal_mesh, pack_dupes_indexed, subdivide, unify_faces, BoundingBox3D, Cluster, HasBoundingBox3D, LineSegment3D, NonNegative, Point2D, Point3D, PointCloud3D};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

type Res<T> = std::result::Result<T, String>;

/// seeds of the hasher; the first one is the reference execution
pub fn draw_seeds(c: &Ctx) -> Vec<u64> {
    let n = 2 + c.t.usize_below(2);
    let s: Vec<u64> = (0..n).map(|_| c.t.u64()).collect();
    c.fault("randomised hasher reseeded", n as u64 - 1);
    s
}

/// Runs f once per seed; all executions must agree
pub fn agree<T: Send + PartialEq + std::fmt::Debug>(c: &Ctx, seeds: &[u64], what: &str, f: impl Fn() -> T + Sync) -> std::result::Result<T, crate::world::Viol> {
    let mut first: Option<T> = None;
    for s in seeds {
        c.step();
        let r = match with_seed(*s, || f()) {
            Ok(r) => r,
            Err(_) => bail!("panic", "{} under hash seed {}: panic: {}", what, s, last_panic()),
        };
        match first {
            None => first = Some(r),
            Some(ref x) => {
                if *x != r {
                    bail!("seed", "{}: hash seed {} yields {:?}, hash seed {} yields {:?}", what, seeds[0], x, s, r);
                }
            }
        }
    }
    Ok(first.unwrap())
}

/// A coordinate with which everything is computed exactly; zero may carry a sign
pub fn coord(t: &Tape, scale: f64) -> f64 {
    match t.below(8) {
        0 => 0.0,
        1 => -0.0,
        _ => (t.below(17) as f64 - 8.0) * scale,
    }
}

fn bits_of(d: &MeshData) -> (Vec<[u64; 3]>, Vec<[usize; 3]>) {
    (d.verts.iter().map(bits3).collect(), d.faces.clone())
}
/// equal as numbers: both zeros are the same
fn same_num(a: &MeshData, b: &MeshData) -> bool {
    a.faces == b.faces && a.verts.len() == b.verts.len() && a.verts.iter().zip(&b.verts).all(|(p, q)| p == q)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Heal,
    Subdivide,
    Cluster(f64),
    Unify,
}

fn apply(op: Op, m: &MTarget) -> Res<MTarget> {
    macro_rules! each {
        ($m:ident => $e:expr) => {
            match &m.inner {
                MInner::CloudVec($m) => $e.map(MInner::CloudVec),
                MInner::VecU32($m) => $e.map(MInner::VecU32),
                MInner::CloudDyn($m) => $e.map(MInner::CloudDyn),
                MInner::DequeVec($m) => $e.map(MInner::DequeVec),
                MInner::F32Dyn($m) => $e.map(MInner::F32Dyn),
            }
        };
    }
    let r = match op {
        Op::Heal => each!(x => heal_mesh(x)),
        Op::Subdivide => each!(x => subdivide::linear(x)),
        Op::Unify => each!(x => unify_faces(x)),
        Op::Cluster(s) => match &m.inner {
            MInner::CloudVec(x) => cluster_vertices(x, s).map(MInner::CloudVec),
            MInner::CloudDyn(x) => cluster_vertices(x, s).map(MInner::CloudDyn),
            MInner::F32Dyn(x) => cluster_vertices(x, s).map(MInner::F32Dyn),
            _ => unreachable!(),
        },
    };
    r.map(|inner| MTarget { inner, fuse: Fuse::new() }).map_err(|e| format!("{:?}", e))
}

fn key(p: &P3) -> [u64; 3] {
    let f = |x: f64| if x == 0.0 { 0 } else { x.to_bits() };
    [f(p[0]), f(p[1]), f(p[2])]
}

/// merges equal vertices in the order of their first use, drops faces that use one vertex twice
fn heal_model(d: &MeshData) -> MeshData {
    let mut r = MeshData::default();
    let mut ids: BTreeMap<[u64; 3], usize> = BTreeMap::new();
    for f in &d.faces {
        let g = [0, 1, 2].map(|i| {
            let p = d.verts[f[i]];
            *ids.entry(key(&p)).or_insert_with(|| {
                r.verts.push(p);
                r.verts.len() - 1
            })
        });
        if g[0] != g[1] && g[0] != g[2] && g[1] != g[2] {
            r.faces.push(g);
        }
    }
    r
}

fn subdivide_model(d: &MeshData) -> MeshData {
    let mut r = MeshData { verts: d.verts.clone(), faces: vec![] };
    let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for f in &d.faces {
        let m = [(f[0], f[1]), (f[1], f[2]), (f[2], f[0])].map(|(a, b)| {
            *edges.entry((a.min(b), a.max(b))).or_insert_with(|| {
                let (p, q) = (d.verts[a], d.verts[b]);
                r.verts.push([0, 1, 2].map(|i| (p[i] + q[i]) / 2.0));
                r.verts.len() - 1
            })
        });
        r.faces.push([f[0], m[0], m[2]]);
        r.faces.push([m[0], f[1], m[1]]);
        r.faces.push([m[0], m[1], m[2]]);
        r.faces.push([m[2], m[1], f[2]]);
    }
    r
}

/// None: refused
fn cluster_model(d: &MeshData, size: f64) -> Option<MeshData> {
    let mut lo = [f64::INFINITY; 3];
    let mut hi = [f64::NEG_INFINITY; 3];
    for p in &d.verts {
        for i in 0..3 {
            lo[i] = lo[i].min(p[i]);
            hi[i] = hi[i].max(p[i]);
        }
    }
    if d.verts.len() < 2 || (0..3).any(|i| ((hi[i] - lo[i]) / size).floor() < 2.0) {
        return None;
    }
    let of = |p: &P3| [0, 1, 2].map(|i| ((p[i] - lo[i]) / size).floor() as u64);
    let mut last: BTreeMap<[u64; 3], usize> = BTreeMap::new();
    for (i, p) in d.verts.iter().enumerate() {
        last.insert(of(p), i);
    }
    let mut r = MeshData::default();
    for f in &d.faces {
        let n = r.verts.len();
        for i in 0..3 {
            r.verts.push(d.verts[last[&of(&d.verts[f[i]])]]);
        }
        r.faces.push([n, n + 1, n + 2]);
    }
    Some(heal_model(&r))
}

fn draw_mesh(c: &Ctx, exact: bool) -> (MeshKind, MeshData) {
    let t = &c.t;
    let kind = *t.pick(&MESH_KINDS);
    let scale = *t.pick(&[1.0, 0.25, 4.0]);
    let mut d = MeshData::default();
    let p = |t: &Tape| -> P3 {
        if exact || t.chance(2, 3) {
            [coord(t, scale), coord(t, scale), coord(t, scale)]
        } else {
            [crate::props::saving::value(t, false), coord(t, scale), crate::props::saving::value(t, false)]
        }
    };
    let n = if t.chance(1, 60) { t.range(80, 120) } else { t.size(24) };
    match t.below(3) {
        0 => {
            // soup: every face has its own vertices, often equal to earlier ones
            for _ in 0..n {
                let k = d.verts.len();
                for _ in 0..3 {
                    let q = if !d.verts.is_empty() && t.chance(1, 2) {
                        let mut q = *t.pick(&d.verts);
                        // the same number in its other form
                        for x in q.iter_mut() {
                            if *x == 0.0 && t.bool() {
                                *x = -*x;
                            }
                        }
                        q
                    } else {
                        p(t)
                    };
                    d.verts.push(q);
                }
                d.faces.push([k, k + 1, k + 2]);
            }
        }
        1 => {
            // shared vertices
            let nv = t.range(3, 3 + n);
            for _ in 0..nv {
                let q = p(t);
                d.verts.push(q);
            }
            for _ in 0..n {
                let a = t.usize_below(nv);
                let b = (a + 1 + t.usize_below(nv - 1)) % nv;
                let mut e = t.usize_below(nv);
                while e == a || e == b {
                    e = (e + 1) % nv;
                }
                d.faces.push([a, b, e]);
            }
        }
        _ => {
            // a grid of quads, as soup
            let (w, h) = (t.range(1, 5), t.range(1, 5));
            for x in 0..w {
                for y in 0..h {
                    let q = |x: usize, y: usize| [x as f64 * scale, y as f64 * scale, ((x * y) % 3) as f64 * scale];
                    for f in [[q(x, y), q(x + 1, y), q(x, y + 1)], [q(x + 1, y), q(x + 1, y + 1), q(x, y + 1)]] {
                        let k = d.verts.len();
                        d.verts.extend_from_slice(&f);
                        d.faces.push([k, k + 1, k + 2]);
                    }
                }
            }
        }
    }
    for _ in 0..t.size(3) {
        let q = p(t);
        d.verts.push(q);
    }
    (kind, MTarget::with(kind, &d).dump_as(d.faces))
}

pub fn c10(c: &Ctx) -> Verdict {
    match c.t.below(8) {
        0..=3 => meshes(c),
        4 => grouping(c),
        5 => dupes(c),
        _ => stl(c),
    }
}

fn meshes(c: &Ctx) -> Verdict {
    let t = &c.t;
    let seeds = draw_seeds(c);
    let exact = t.chance(2, 3);
    let (kind, mut d) = draw_mesh(c, exact);
    c.note(|| format!("mesh in {:?}: {:?}, hash seeds {:?}", kind, d, seeds));
    c.event_str(&format!("{:?} {:?}", kind, d));
    let steps = t.range(1, 4);
    for _ in 0..steps {
        let cloud = matches!(kind, MeshKind::CloudVec | MeshKind::CloudDyn | MeshKind::F32Dyn);
        let op = match t.below(6) {
            0 | 1 => Op::Heal,
            2 if exact && d.faces.len() <= 150 => Op::Subdivide,
            3 if exact && d.faces.len() <= 40 => Op::Subdivide,
            4 if exact && cloud => Op::Cluster(*t.pick(&[1.0, 0.5, 2.0, 4.0, 0.25, 8.0])),
            5 if exact => Op::Unify,
            _ => Op::Heal,
        };
        let got = agree(c, &seeds, &format!("{:?}", op), || {
            apply(op, &MTarget::with(kind, &d)).map(|m| {
                let m = m.dump();
                (bits_of(&m), m)
            })
        });
        let got = match got {
            Ok(g) => g.map(|x| x.1),
            Err(v) => return Err(v),
        };
        c.note(|| format!("{:?} -> {:?}", op, got));
        c.event_str(&format!("{:?}", got));
        let want = match op {
            Op::Heal => Some(heal_model(&d)),
            Op::Subdivide => Some(subdivide_model(&d)),
            Op::Cluster(s) => {
                if kind == MeshKind::F32Dyn && d.verts.len() == 2 {
                    return Ok(());
                }
                cluster_model(&d, s)
            }
            Op::Unify => {
                // which way a face ends up is not decided here; that only faces are turned is
                if let Ok(ref g) = got {
                    let turned = |a: &[usize; 3], b: &[usize; 3]| {
                        let r = |k: usize, f: [usize; 3]| [f[k % 3], f[(k + 1) % 3], f[(k + 2) % 3]];
                        (0..3).any(|k| r(k, *a) == *b || r(k, [a[0], a[2], a[1]]) == *b)
                    };
                    if g.verts != d.verts || g.faces.len() != d.faces.len() || !g.faces.iter().zip(&d.faces).all(|(a, b)| turned(a, b)) {
                        bail!("wrong", "unify_faces of {:?} yields {:?}", d, g);
                    }
                    d = g.clone();
                    c.hit("unified");
                }
                continue;
            }
        };
        match (want, got) {
            (None, Err(_)) => {
                c.hit("cluster refused");
                return Ok(());
            }
            (Some(w), Ok(g)) => {
                if !same_num(&w, &g) {
                    bail!("wrong", "{:?} of {:?} in {:?} yields {:?}, expected {:?}", op, d, kind, g, w);
                }
                c.hit_if(op == Op::Heal && g.verts.len() < d.verts.len(), "vertices merged");
                c.hit_if(op == Op::Heal && g.faces.len() < d.faces.len(), "degenerate faces dropped");
                c.hit_if(op == Op::Subdivide && g.verts.len() < d.verts.len() + 3 * d.faces.len(), "edges shared");
                c.hit_if(matches!(op, Op::Cluster(_)) && g.verts.len() < d.verts.len(), "vertices clustered");
                c.hit_if(g.verts.len() > 255 && matches!(kind, MeshKind::CloudDyn | MeshKind::F32Dyn), "more than 255 vertices with 8 bit indices");
                d = g;
            }
            (w, g) => bail!("wrong", "{:?} of {:?} in {:?} yields {:?}, expected {:?}", op, d, kind, g, w),
        }
    }
    Ok(())
}

//------------------------------------------------------------------------------

#[derive(Clone)]
struct El {
    id: usize,
    bb: BoundingBox3D,
}
impl rust_3d::HasBoundingBox3DMaybe for El {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        Some(self.bb.clone())
    }
}
impl HasBoundingBox3D for El {
    fn bounding_box(&self) -> BoundingBox3D {
        self.bb.clone()
    }
}

fn grouping(c: &Ctx) -> Verdict {
    let t = &c.t;
    let seeds = draw_seeds(c);
    // extents and counts are powers of two, so cells are computed exactly
    let ext = [1u64 << t.range(2, 6), 1u64 << t.range(2, 6)];
    let count = [1u64 << t.below(6), 1u64 << t.below(6)];
    let off = [t.below(9) as i64 - 4, t.below(9) as i64 - 4];
    let n = t.size(14) + 2;
    // in quarters
    let mut els: Vec<[[i64; 2]; 2]> = vec![];
    for i in 0..n {
        let mut e = [[0i64; 2]; 2];
        for a in 0..2 {
            let full = ext[a] as i64 * 4;
            let lo = t.below(full as u64) as i64;
            let hi = lo + 1 + t.below((full - lo) as u64) as i64;
            e[a] = [lo, hi];
            // two elements span everything together
            if i == 0 {
                e[a][0] = 0;
            }
            if i == 1 {
                e[a][1] = full;
            }
        }
        els.push(e);
    }
    let qs: Vec<[i64; 2]> = (0..t.range(4, 24))
        .map(|_| {
            [0, 1].map(|a| {
                let full = ext[a] as i64 * 4;
                match t.below(4) {
                    0 => full,
                    1 => els[t.usize_below(n)][a][t.usize_below(2)],
                    _ => t.below(full as u64 + 1) as i64,
                }
            })
        })
        .collect();
    let real = |a: usize, v: i64| off[a] as f64 + v as f64 / 4.0;
    let seed_note = seeds.clone();
    c.note(|| format!("grouping {} elements {:?} (quarters) in {:?} cells over {:?}, queries {:?}, hash seeds {:?}", n, els, count, ext, qs, seed_note));
    c.event_str(&format!("{:?}{:?}{:?}", els, count, qs));
    let got = agree(c, &seeds, "Cluster", || {
        let data: Vec<El> = els
            .iter()
            .enumerate()
            .map(|(id, e)| El {
                id,
                bb: BoundingBox3D::new(&Point3D::new(real(0, e[0][0]), real(1, e[1][0]), 0.0), &Point3D::new(real(0, e[0][1]), real(1, e[1][1]), 1.0)).expect("harness: box"),
            })
            .collect();
        let g = Cluster::new(data, count[0] as u16, count[1] as u16).map_err(|e| format!("{:?}", e))?;
        Ok::<_, String>(
            qs.iter()
                .map(|q| {
                    let mut ids = vec![];
                    g.for_each_candidate(real(0, q[0]), real(1, q[1]), &mut |e| ids.push(e.id));
                    ids
                })
                .collect::<Vec<_>>(),
        )
    })?;
    let got = match got {
        Ok(g) => g,
        Err(e) => bail!("wrong", "Cluster::new refused valid elements: {}", e),
    };
    let cell = |a: usize, v: i64| v * count[a] as i64 / (ext[a] as i64 * 4);
    for (q, ids) in qs.iter().zip(&got) {
        let want: Vec<usize> = (0..n).filter(|i| (0..2).all(|a| cell(a, els[*i][a][0]) <= cell(a, q[a]) && cell(a, q[a]) <= cell(a, els[*i][a][1]))).collect();
        c.hit_if(want.len() > 1, "several candidates");
        if *ids != want {
            bail!("wrong", "Cluster of {:?} (quarters) over {:?} in {:?} cells: candidates at {:?} are {:?}, expected {:?}", els, ext, count, q, ids, want);
        }
    }
    Ok(())
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn dupes(c: &Ctx) -> Verdict {
    let t = &c.t;
    let seeds = draw_seeds(c);
    let n = t.size(40);
    let small = t.bool();
    let ps: Vec<P3> = (0..n)
        .map(|_| {
            if small {
                [coord(t, 1.0), [0.0, -0.0, 1.0][t.usize_below(3)], [-0.0, 0.0][t.usize_below(2)]]
            } else {
                [coord(t, 0.5), coord(t, 0.5), crate::props::saving::value(t, false)]
            }
        })
        .collect();
    c.note(|| format!("removing duplicates of {:?}, hash seeds {:?}", ps, seeds));
    c.event_str(&format!("{:?}", ps));
    let dims = t.below(3);
    // (position of each kept value's first occurrence, ids)
    let want = |eq: &dyn Fn(usize, usize) -> bool| {
        let (mut kept, mut ids): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
        for i in 0..n {
            match kept.iter().position(|k| eq(*k, i)) {
                Some(x) => ids.push(x),
                None => {
                    ids.push(kept.len());
                    kept.push(i);
                }
            }
        }
        (kept, ids)
    };
    macro_rules! one {
        ($name:expr, $T:ty, $make:expr, $read:expr) => {{
            let make = $make;
            let items: Vec<$T> = ps.iter().filter_map(|p| make(p)).collect();
            if items.len() != n {
                return Ok(());
            }
            let (packed, ids, distinct) = agree(c, &seeds, $name, || {
                let (p, ids) = pack_dupes_indexed(items.iter());
                let distinct = items.iter().cloned().collect::<HashSet<$T>>().len();
                (p.iter().map($read).collect::<Vec<_>>(), ids, distinct)
            })?;
            let (kept, want_ids) = want(&|a, b| items[a] == items[b]);
            let vals: Vec<_> = kept.iter().map(|k| $read(&items[*k])).collect();
            c.hit_if(kept.len() < n, "duplicates removed");
            if packed != vals || ids != want_ids || distinct != kept.len() {
                bail!("wrong", "duplicates of {} {:?}: {:?} with indices {:?} ({} distinct), expected {:?} with {:?}", $name, ps, packed, ids, distinct, vals, want_ids);
            }
            for i in 0..n.min(12) {
                for j in 0..i {
                    if items[i] == items[j] && hash_of(&items[i]) != hash_of(&items[j]) {
                        bail!("hash", "{}: {:?} and {:?} are equal but hash differently", $name, ps[i], ps[j]);
                    }
                }
            }
        }};
    }
    match dims {
        0 => one!("Point3D", Point3D, |p: &P3| Some(Point3D::new(p[0], p[1], p[2])), |p: &Point3D| [p.x, p.y, p.z]),
        1 => one!("Point2D", Point2D, |p: &P3| Some(Point2D::new(p[0], p[1])), |p: &Point2D| [p.x, p.y]),
        _ => match t.below(3) {
            0 => one!("LineSegment3D", LineSegment3D, |p: &P3| Some(LineSegment3D::new(Point3D::new(p[0], p[1], p[2]), Point3D::new(p[1], p[2], p[0]))), |l: &LineSegment3D| hash_of(l)),
            1 => one!("NonNegative", NonNegative, |p: &P3| NonNegative::new(if p[0] < 0.0 { -p[0] } else { p[0] }), |x: &NonNegative| **x),
            _ => one!("Point3D in PointCloud3D", PointCloud3D<Point3D>, |p: &P3| Some(PointCloud3D { data: vec![Point3D::new(p[0], p[1], p[2]), Point3D::new(p[2], p[2], p[1])] }), |p: &PointCloud3D<Point3D>| hash_of(p)),
        },
    }
    Ok(())
}

/// Removing duplicate vertices while loading: neither the hasher's seed nor the delivery changes the result
fn stl(c: &Ctx) -> Verdict {
    let seeds = draw_seeds(c);
    let doc = draw_doc(c, &[Fmt::StlAscii, Fmt::StlBinary], 16);
    let mut s = draw_setup(c, &doc, true);
    s.api = Api::StlUnique;
    s.initial.points.truncate(5);
    s.initial.faces.clear();
    s.initial.normals.clear();
    let plan = Plan::draw(&c.t, &doc.boundaries());
    let (got, d) = agree(c, &seeds, "load_stl_mesh_unique", || {
        let mut r = AnyReader::of(&doc.bytes, &plan);
        let mut k = Containers::new(&s);
        let o = bulk(&s, &mut k, &mut r);
        let d = k.data(&s);
        (o.map(|_| ()).map_err(|e| e.what), MD(d))
    })?;
    c.event_str(&format!("{:?}", got));
    let (want, _) = docs::expect(&s, doc.has_faces, &kinds(&doc.view(s.api)));
    if got.is_err() || !same_data(&d.0, &want) {
        bail!("wrong", "load_stl_mesh_unique of {}: {:?} {}, expected {}", doc.desc, got, d.0.short(), want.short());
    }
    c.hit_if(want.points.len() < 3 * want.faces.len(), "STL vertices merged");
    Ok(())
}
#[derive(Debug)]
struct MD(Data);
impl PartialEq for MD {
    fn eq(&self, o: &MD) -> bool {
        self.0.same(&o.0)
    }
}
fn same_data(a: &Data, b: &Data) -> bool {
    let eq = |a: &Vec<P3>, b: &Vec<P3>| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| (0..3).all(|i| p[i] == q[i] || (p[i].is_nan() && q[i].is_nan())));
    a.faces == b.faces && eq(&a.points, &b.points) && eq(&a.normals, &b.normals)
}
