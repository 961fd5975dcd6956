//! C12: sessions of valid, invalid, failing and interrupted operations on meshes, collections, index containers
//! and polygons, compared with a plain model after every step; crashes and restarts from simulated storage.
use crate::docs::{self, Doc, Fmt, RK};
use crate::load::*;
use crate::props::loading::{self, Ran};
use crate::props::saving::value;
use crate::simio::{AnyReader, Plan, Sink, SinkPlan};
use crate::tape::{mix_bytes, Tape};
use crate::world::{Ctx, Verdict, Viol};
use rust_3d::io::{load_ply_mesh, load_xy, load_xyz, save_ply_ascii, save_ply_binary, save_xy, save_xyz};
use rust_3d::{Matrix3, Matrix3Pipe, Matrix4, Matrix4Pipe, Norm3D, IsNormalized3D, Rad, IsKNearestSearchable, IsTree3D, KdTree, OcTree, 
    Box2D, Box3D, Circle, DynamicPrecisionIndexVec, EId, FId, FilterBox2D, FilterBox3D, FilterCircle, FilterSphere, HalfEdge, IsBuildable2D, IsBuildable3D, IsBuildableND, IsEditable2D, IsEditable3D, IsND, Positive, Sphere, IsDataContainer, IsEditableND, IsEditablePolygon, IsFaceEditableMesh, IsIndexContainer, IsMergeable, IsMesh, IsMovable2D, IsMovable3D, IsPushable, IsRandomAccessible,
    IsRandomInsertible, IsSearchableMesh, IsSortableND, IsVertexEditableMesh, IsViewBuildable, Point2D, Point3D, PointCloud2D, PointCloud3D, PointCloud3Df32, Polygon2D, Polygon3D, Precision, SId, SearchableMesh, U32IndexVec, VId, View,
};
use std::collections::{LinkedList, VecDeque};
use std::io::{BufWriter, Write};
use std::rc::Rc;

pub fn c12(c: &Ctx) -> Verdict {
    match c.t.below(8) {
        0..=3 => mesh_session(c),
        4 | 5 => match c.t.below(6) {
            0 => coll_session::<PointCloud3D<Point3D>>(c),
            1 => coll_session::<Vec<Point3D>>(c),
            2 => coll_session::<VecDeque<Point3D>>(c),
            3 => coll_session::<PointCloud2D<Point2D>>(c),
            4 => coll_session::<PointCloud3Df32<Point3D>>(c),
            _ => coll_session::<LinkedList<Point3D>>(c),
        },
        6 => match c.t.below(3) {
            0 => index_session::<DynamicPrecisionIndexVec>(c, true),
            1 => index_session::<U32IndexVec>(c, false),
            _ => index_session::<Vec<usize>>(c, true),
        },
        _ => match c.t.below(5) {
            0 | 1 => polygon_session(c),
            2 | 3 => shape_session(c),
            _ => tree_session(c),
        },
    }
}

/// A coordinate that no container turns into something infinite
fn coordinate(t: &Tape) -> f64 {
    let x = value(t, false);
    if x.abs() > 1e30 {
        7.5
    } else {
        x
    }
}
fn pt(t: &Tape) -> P3 {
    if t.chance(1, 3) {
        [t.below(4) as f64, t.below(4) as f64, t.below(4) as f64]
    } else {
        [coordinate(t), coordinate(t), coordinate(t)]
    }
}
fn p3(p: &P3) -> Point3D {
    Point3D::new(p[0], p[1], p[2])
}
fn r32(p: P3) -> P3 {
    [p[0] as f32 as f64, p[1] as f32 as f64, p[2] as f32 as f64]
}
fn same(a: &[P3], b: &[P3]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| bits3(x) == bits3(y))
}
fn short<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() <= 8 {
        format!("{:?}", v)
    } else {
        format!("{:?} .. ({} in all) .. {:?}", &v[..3], v.len(), &v[v.len() - 3..])
    }
}
/// How many elements a session starts with: mostly few, sometimes around the limits of 8 and 16 bit indices
fn initial_size(t: &Tape) -> usize {
    match t.below(1500) {
        0..=1300 => t.range(0, 6),
        1301..=1498 => t.range(250, 259),
        _ => t.range(65_530, 65_540),
    }
}
/// An index that does not exist among n
fn unknown(t: &Tape, n: usize) -> usize {
    let xs = [n, n + 1, n + 7, 255, 256, 65_535, 65_536, u32::MAX as usize, u32::MAX as usize + 1, u32::MAX as usize + 2, 1 << 40, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    let x = *t.pick(&xs);
    if x < n {
        n
    } else {
        x
    }
}

//------------------------------------------------------------------------------
// Storage

/// Saves by `f` through the planned sink
pub fn write_with(c: &Ctx, plan: &SinkPlan, f: &mut dyn FnMut(&mut dyn Write) -> Result<(), String>) -> (Result<(), String>, Vec<u8>) {
    let mut sink = Sink::new(plan.clone());
    let r = match plan.bufwriter {
        None => f(&mut sink).and_then(|_| sink.flush().map_err(|e| e.to_string())),
        Some(n) => {
            let mut w = BufWriter::with_capacity(n, sink);
            let r = f(&mut w).and_then(|_| w.flush().map_err(|e| e.to_string()));
            sink = w.into_parts().0;
            r
        }
    };
    c.sink(&sink.stats);
    c.event(mix_bytes(0, &sink.accepted));
    (r, sink.accepted)
}
fn sink_plan(c: &Ctx, size: usize) -> SinkPlan {
    let t = &c.t;
    let mut plan = if t.bool() { SinkPlan::draw(t) } else { SinkPlan::plain() };
    if t.chance(1, 4) {
        plan.bufwriter = Some(*t.pick(&[1usize, 16, 512, 8192]));
    }
    if t.chance(1, 3) {
        plan = plan.with_fault(t, t.usize_below(size));
    }
    plan
}
fn read_plan(t: &Tape) -> Plan {
    if t.bool() {
        Plan::draw(t, &[])
    } else {
        Plan::plain()
    }
}

//------------------------------------------------------------------------------
// Meshes

struct MeshWorld {
    m: MTarget,
    kind: MeshKind,
    model: MeshData,
    /// last successful save and what was saved
    stored: Option<(Rc<Vec<u8>>, MeshData)>,
}
impl MeshWorld {
    fn stored(&self, p: P3) -> P3 {
        if self.kind == MeshKind::F32Dyn {
            r32(p)
        } else {
            p
        }
    }
    fn check(&self, c: &Ctx, after: &str) -> Verdict {
        c.step();
        let d = self.m.dump();
        if !same(&d.verts, &self.model.verts) || d.faces != self.model.faces {
            bail!("mesh-differs", "{:?} after {}: vertices {} faces {}, expected vertices {} faces {}", self.kind, after, short(&d.verts), short(&d.faces), short(&self.model.verts), short(&self.model.faces));
        }
        let (nv, nf) = (d.verts.len(), d.faces.len());
        if self.m.vertex(VId(nv)).is_some() {
            bail!("mesh-invents", "{:?} after {}: there is a vertex {} of {}", self.kind, after, nv, nv);
        }
        if self.m.face_vertex_ids(FId(nf)).is_some() || self.m.face_vertices(FId(nf)).is_some() {
            bail!("mesh-invents", "{:?} after {}: there is a face {} of {}", self.kind, after, nf, nf);
        }
        for (i, f) in d.faces.iter().enumerate().rev().take(8) {
            if f.iter().any(|v| *v >= nv) {
                bail!("mesh-unsound", "{:?} after {}: face {:?} among {} vertices", self.kind, after, f, nv);
            }
            let want: Vec<P3> = f.iter().map(|v| d.verts[*v]).collect();
            match self.m.face_vertices(FId(i)) {
                Some(x) => {
                    let x: Vec<P3> = x.iter().map(|p| [p.x, p.y, p.z]).collect();
                    if !same(&x, &want) {
                        bail!("mesh-differs", "{:?} after {}: the vertices of face {} are {:?} instead of {:?}", self.kind, after, i, x, want);
                    }
                }
                None => bail!("mesh-unsound", "{:?} after {}: face {} has no vertices", self.kind, after, i),
            }
        }
        Ok(())
    }
}

/// A face that may be added: three different known vertices
fn valid_face(t: &Tape, n: usize) -> [usize; 3] {
    let a = if t.chance(1, 3) { n - 1 } else { t.usize_below(n) };
    let b = (a + t.range(1, n - 1)) % n;
    let mut k = t.usize_below(n);
    while k == a || k == b {
        k = (k + 1) % n;
    }
    [a, b, k]
}
/// A face that must be refused, and what is wrong with it
fn invalid_face(t: &Tape, n: usize) -> ([usize; 3], &'static str) {
    let mut f = if n >= 3 { valid_face(t, n) } else { [0, 1, 2] };
    let i = t.usize_below(3);
    if n >= 3 && t.bool() {
        f[i] = f[(i + 1) % 3];
        if t.chance(1, 6) {
            f = [f[i]; 3];
        }
        (f, "repeated vertex")
    } else {
        f[i] = unknown(t, n);
        if t.chance(1, 4) {
            f[(i + 1) % 3] = if t.bool() { f[i] } else { unknown(t, n) };
        }
        (f, "unknown vertex")
    }
}

macro_rules! add {
    ($c:expr, $s:expr, $m:expr, $kind:expr, $model:expr, $p:expr) => {{
        let p = $p;
        let id = $m.add_vertex(p3(&p));
        $model.verts.push($s(p));
        if id.0 != $model.verts.len() - 1 {
            bail!("wrong-id", "{:?}: add_vertex returned {} for vertex {}", $kind, id.0, $model.verts.len() - 1);
        }
    }};
}

fn mesh_session(c: &Ctx) -> Verdict {
    let t = &c.t;
    let kind = *t.pick(&MESH_KINDS);
    let mut w = MeshWorld { m: MTarget::new(kind), kind, model: MeshData::default(), stored: None };
    let n0 = initial_size(t);
    for i in 0..n0 {
        let p = if n0 > 20 { [i as f64, (i % 7) as f64, 0.5] } else { pt(t) };
        add!(c, |p| w.stored(p), w.m, kind, w.model, p);
    }
    c.hit_if(n0 > 65_000, "mesh around 65536 vertices");
    c.hit_if((250..300).contains(&n0), "mesh around 256 vertices");
    let steps = if n0 > 1000 { t.range(1, 6) } else { t.range(1, 20) };
    c.note(|| format!("mesh {:?} with {} vertices", kind, n0));
    w.check(c, "the initial vertices")?;
    for _ in 0..steps {
        let n = w.model.verts.len();
        let op = t.below(20);
        c.event(op);
        match op {
            0 | 1 => {
                let k = t.range(1, 6);
                for _ in 0..k {
                    let p = pt(t);
                    add!(c, |p| w.stored(p), w.m, w.kind, w.model, p);
                }
                c.note(|| format!("add_vertex x {}", k));
                w.check(c, "add_vertex")?;
            }
            2 => {
                let ps = [pt(t), pt(t), pt(t)];
                let id = w.m.add_face(p3(&ps[0]), p3(&ps[1]), p3(&ps[2]));
                for p in ps.iter() {
                    let p = w.stored(*p);
                    w.model.verts.push(p);
                }
                w.model.faces.push([n, n + 1, n + 2]);
                c.note(|| format!("add_face {:?}", ps));
                if id.0 != w.model.faces.len() - 1 {
                    bail!("wrong-id", "{:?}: add_face returned {} for face {}", w.kind, id.0, w.model.faces.len() - 1);
                }
                w.check(c, "add_face")?;
            }
            3 | 4 | 5 if n >= 3 => {
                let k = t.range(1, 3);
                for _ in 0..k {
                    let f = valid_face(t, n);
                    match w.m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])) {
                        Ok(id) => {
                            w.model.faces.push(f);
                            if id.0 != w.model.faces.len() - 1 {
                                bail!("wrong-id", "{:?}: try_add_connection returned {} for face {}", w.kind, id.0, w.model.faces.len() - 1);
                            }
                        }
                        Err(e) => bail!("valid-refused", "{:?}: connection {:?} of {} vertices refused: {:?}", w.kind, f, n, e),
                    }
                    c.note(|| format!("try_add_connection {:?}", f));
                    c.hit_if(f.iter().any(|v| *v > 255), "face index above 255");
                    c.hit_if(f.iter().any(|v| *v > 65_535), "face index above 65535");
                }
                w.check(c, "try_add_connection")?;
            }
            6 | 7 | 8 => {
                let (f, why) = invalid_face(t, n);
                c.note(|| format!("try_add_connection {:?} ({})", f, why));
                c.fault(&format!("connection refused: {}", why), 1);
                if w.m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).is_ok() {
                    bail!("invalid-accepted", "{:?}: connection {:?} of {} vertices ({}) accepted", w.kind, f, n, why);
                }
                w.check(c, &format!("the refused connection {:?}", f))?;
            }
            9 | 10 => {
                let p = pt(t);
                if n > 0 && t.bool() {
                    let i = t.usize_below(n);
                    if let Err(e) = w.m.change_vertex(VId(i), p3(&p)) {
                        bail!("valid-refused", "{:?}: change of vertex {} of {} refused: {:?}", w.kind, i, n, e);
                    }
                    w.model.verts[i] = w.stored(p);
                    c.note(|| format!("change_vertex {} to {:?}", i, p));
                    w.check(c, "change_vertex")?;
                } else {
                    let i = unknown(t, n);
                    c.note(|| format!("change_vertex {} (unknown)", i));
                    c.fault("change of an unknown vertex", 1);
                    // index arithmetic of the containers need not cope with more than the address space
                    if i < usize::MAX / 4 && w.m.vertex(VId(i)).is_some() {
                        bail!("mesh-invents", "{:?}: there is a vertex {} of {}", w.kind, i, n);
                    }
                    if w.m.change_vertex(VId(i), p3(&p)).is_ok() {
                        bail!("invalid-accepted", "{:?}: change of vertex {} of {} accepted", w.kind, i, n);
                    }
                    w.check(c, &format!("the refused change of vertex {}", i))?;
                }
            }
            11 => {
                let k = t.range(0, 50);
                w.m.reserve_vertices(k);
                w.m.reserve_faces(k);
                c.note(|| format!("reserve {}", k));
                w.check(c, "reserve")?;
            }
            12 => {
                let d = [t.below(64) as f64 / 8.0 - 4.0, t.below(9) as f64, -(t.below(5) as f64) / 4.0];
                match &mut w.m.inner {
                    MInner::CloudVec(m) => m.move_by(d[0], d[1], d[2]),
                    MInner::VecU32(m) => m.move_by(d[0], d[1], d[2]),
                    MInner::CloudDyn(m) => m.move_by(d[0], d[1], d[2]),
                    MInner::DequeVec(m) => m.move_by(d[0], d[1], d[2]),
                    MInner::F32Dyn(m) => m.move_by(d[0], d[1], d[2]),
                }
                let f = w.kind == MeshKind::F32Dyn;
                for p in w.model.verts.iter_mut() {
                    for i in 0..3 {
                        p[i] = if f { (p[i] as f32 + d[i] as f32) as f64 } else { p[i] + d[i] };
                    }
                }
                c.note(|| format!("move_by {:?}", d));
                w.check(c, "move_by")?;
            }
            13 => {
                adjacency(c, &mut w)?;
                w.check(c, "a session with adjacency")?;
            }
            14 | 15 => mesh_load(c, &mut w)?,
            16 | 17 => mesh_save(c, &mut w)?,
            18 => mesh_restart(c, &mut w)?,
            _ => {
                // copies are independent
                let before = w.model.clone();
                match &w.m.inner {
                    MInner::CloudVec(m) => diverge(c, m)?,
                    MInner::DequeVec(m) => diverge(c, m)?,
                    MInner::VecU32(m) => diverge(c, m)?,
                    MInner::CloudDyn(m) => diverge(c, m)?,
                    MInner::F32Dyn(m) => diverge(c, m)?,
                }
                w.model = before;
                w.check(c, "edits of a copy")?;
            }
        }
    }
    if w.stored.is_some() && t.bool() {
        mesh_restart(c, &mut w)?;
    }
    Ok(())
}

fn diverge<M: IsFaceEditableMesh<Point3D, rust_3d::Face3> + IsVertexEditableMesh<Point3D, rust_3d::Face3> + Clone>(c: &Ctx, m: &M) -> Verdict {
    let mut k = m.clone();
    let d = dump_mesh(&k);
    let e = dump_mesh(m);
    if !same(&d.verts, &e.verts) || d.faces != e.faces {
        bail!("copy-differs", "a copy has vertices {} faces {}, the original {} {}", short(&d.verts), short(&d.faces), short(&e.verts), short(&e.faces));
    }
    k.add_face(Point3D::new(1.0, 2.0, 3.0), Point3D::new(4.0, 5.0, 6.0), Point3D::new(7.0, 8.0, 0.0));
    let _ = k.change_vertex(VId(0), Point3D::new(-9.0, -9.0, -9.0));
    c.note(|| "copy, then edit the copy".to_string());
    Ok(())
}

fn mesh_save(c: &Ctx, w: &mut MeshWorld) -> Verdict {
    let t = &c.t;
    let ascii = t.bool();
    let plan = sink_plan(c, 60 * (w.model.verts.len() + w.model.faces.len()) + 400);
    let m = &w.m;
    let (r, bytes) = write_with(c, &plan, &mut |mut o| if ascii { save_ply_ascii(&mut o, m).map_err(|e| format!("{:?}", e)) } else { save_ply_binary(&mut o, m, &Precision::P64).map_err(|e| format!("{:?}", e)) });
    c.note(|| format!("save as {} -> {:?}, {} bytes accepted", if ascii { "ASCII PLY" } else { "binary PLY" }, r, bytes.len()));
    match r {
        Ok(()) => w.stored = Some((Rc::new(bytes), w.model.clone())),
        Err(_) => c.hit("failed save in a session"),
    }
    w.check(c, "a save")
}

/// The process dies and is started again: only what was saved is left
fn mesh_restart(c: &Ctx, w: &mut MeshWorld) -> Verdict {
    let t = &c.t;
    let (bytes, model) = match &w.stored {
        Some(x) => x.clone(),
        None => return Ok(()),
    };
    c.fault("crash and restart", 1);
    w.kind = *t.pick(&MESH_KINDS);
    w.m = MTarget::new(w.kind);
    let mut r = AnyReader::new(bytes, &read_plan(t));
    let st = r.stats();
    let o = load_ply_mesh(&mut r, &mut w.m);
    c.stream(&st.borrow());
    c.note(|| format!("crash; restart as {:?}: {:?}", w.kind, o));
    if let Err(e) = o {
        bail!("restart-failed", "what was saved does not load after a restart: {:?}", e);
    }
    w.model = model;
    if w.kind == MeshKind::F32Dyn {
        w.model.verts.iter_mut().for_each(|p| *p = r32(*p));
    }
    w.check(c, "a restart")
}

const MESH_FMTS: [Fmt; 12] = [Fmt::Off, Fmt::Obj, Fmt::StlAscii, Fmt::StlBinary, Fmt::PlyAscii, Fmt::PlyLe, Fmt::PlyBe, Fmt::Off, Fmt::Obj, Fmt::PlyAscii, Fmt::PlyLe, Fmt::PlyBe];

fn mesh_load(c: &Ctx, w: &mut MeshWorld) -> Verdict {
    let t = &c.t;
    let doc = loading::draw_doc(c, &MESH_FMTS, 12);
    let apis: Vec<Api> = doc.apis().into_iter().filter(|a| a.is_mesh()).collect();
    let api = *t.pick(&apis);
    let mut initial = Data { points: w.model.verts.clone(), faces: w.model.faces.clone(), normals: vec![] };
    if api.is_stl() {
        initial.normals = initial.faces.iter().map(|_| [0.0; 3]).collect();
    }
    let s = Setup { api, stl: *t.pick(&doc.stl), points: PointKind::Vec, mesh: w.kind, initial, panic_push: None, panic_reserve: false, budget: 2_000_000 };
    c.note(|| format!("load {:?} as {:?}", api, s.stl));
    let before = w.model.clone();
    let m = &mut w.m;
    let mut ld = |bytes: &Rc<Vec<u8>>, plan: &Plan| -> Ran {
        let mut k = Containers::new(&Setup { initial: Data { normals: s.initial.normals.clone(), ..Data::default() }, ..s.clone() });
        std::mem::swap(&mut k.mesh.inner, &mut m.inner);
        let mut r = AnyReader::new(bytes.clone(), plan);
        let st = r.stats();
        let o = bulk(&s, &mut k, &mut r);
        let d = k.data(&s);
        std::mem::swap(&mut k.mesh.inner, &mut m.inner);
        let st = st.borrow().clone();
        c.stream(&st);
        c.note(|| format!("-> {:?}", o));
        (o, d, st)
    };
    let left = load_step(c, &doc, &s, &mut ld)?;
    let d = w.m.dump();
    if let Some(left) = left {
        if !left.points.iter().zip(&before.verts).all(|(a, b)| bits3(a) == bits3(b)) || left.points.len() < before.verts.len() || !left.faces.starts_with(&before.faces) {
            bail!("load-destroys", "{:?}: a load changed what was in the mesh before: {} was {} {}", api, left.short(), short(&before.verts), short(&before.faces));
        }
        if left.points.len() < d.verts.len() || !same(&d.verts, &left.points[..d.verts.len()]) {
            bail!("load-destroys", "{:?}: mesh holds {} after {}", api, short(&d.verts), left.short());
        }
        w.model = d;
    }
    w.check(c, "a load")
}

/// A complete load or one that fails
fn load_step(c: &Ctx, doc: &Doc, s: &Setup, ld: &mut dyn FnMut(&Rc<Vec<u8>>, &Plan) -> Ran) -> Result<Option<Data>, Viol> {
    if c.t.chance(2, 3) {
        c.hit("failing load in a session");
        return loading::failing_load(c, doc, s, ld);
    }
    let full: Vec<RK> = loading::kinds(&doc.view(s.api));
    let bytes = Rc::new(doc.bytes.clone());
    let (o, d, _) = ld(&bytes, &if c.t.bool() { Plan::draw(&c.t, &doc.boundaries()) } else { Plan::plain() });
    let (want, refused) = docs::expect(s, doc.has_faces, &full);
    c.hit("complete load in a session");
    if o.is_ok() != refused.is_none() {
        bail!("wrong-outcome", "{:?} into a filled container: {:?}", s.api, o);
    }
    if !d.same(&want) {
        bail!("wrong-data", "{:?} into a filled container: it holds {} instead of {}", s.api, d.short(), want.short());
    }
    Ok(Some(d))
}

/// Wraps the mesh, edits vertices through the wrapper, and unwraps it again
fn adjacency(c: &Ctx, w: &mut MeshWorld) -> Verdict {
    let which = c.t.below(3);
    let kind = w.kind;
    macro_rules! go {
        ($m:expr) => {
            match which {
                0 => wrapped::<_, Vec<usize>>(c, $m, &mut w.model, kind)?,
                1 => wrapped::<_, DynamicPrecisionIndexVec>(c, $m, &mut w.model, kind)?,
                _ => wrapped::<_, U32IndexVec>(c, $m, &mut w.model, kind)?,
            }
        };
    }
    let m = std::mem::replace(&mut w.m.inner, MInner::CloudVec(Default::default()));
    w.m.inner = match m {
        MInner::CloudVec(m) => MInner::CloudVec(go!(m)),
        MInner::VecU32(m) => MInner::VecU32(go!(m)),
        MInner::CloudDyn(m) => MInner::CloudDyn(go!(m)),
        MInner::DequeVec(m) => MInner::DequeVec(go!(m)),
        MInner::F32Dyn(m) => MInner::F32Dyn(go!(m)),
    };
    Ok(())
}

type Answers = Vec<(Option<VId>, Option<VId>, Option<EId>, Option<EId>, Option<EId>, Option<FId>)>;
fn answers<S: IsSearchableMesh<Point3D, rust_3d::Face3>>(s: &S) -> Answers {
    let n = s.num_edges();
    let k = n.min(300);
    (0..k).chain(n..n + 2).map(|i| EId(i)).map(|e| (s.edge_tail(e), s.edge_head(e), s.edge_next(e), s.edge_prev(e), s.edge_twin(e), s.edge_face(e))).collect()
}
fn around<S: IsSearchableMesh<Point3D, rust_3d::Face3>>(s: &S, n: usize) -> Vec<Option<Vec<usize>>> {
    (0..n.min(300))
        .map(|v| {
            let (mut cache, mut out) = (vec![], vec![]);
            s.edges_of_vertex(VId(v), &mut cache, &mut out).ok().map(|_| out.iter().map(|e| e.0).collect())
        })
        .collect()
}

fn wrapped<M, IC>(c: &Ctx, m: M, model: &mut MeshData, kind: MeshKind) -> Result<M, Viol>
where
    M: IsFaceEditableMesh<Point3D, rust_3d::Face3> + IsVertexEditableMesh<Point3D, rust_3d::Face3> + IsMesh<Point3D, rust_3d::Face3>,
    IC: IsIndexContainer,
{
    let t = &c.t;
    let st = |p: P3| if kind == MeshKind::F32Dyn { r32(p) } else { p };
    let mut s: SearchableMesh<M, Point3D, IC> = SearchableMesh::new(m);
    c.hit("session with adjacency");
    let n0 = model.verts.len();
    let before = (answers(&s), around(&s, n0));
    let nf = model.faces.len();
    for (e, a) in before.0.iter().take(3 * nf.min(100)).enumerate() {
        let f = model.faces[e / 3];
        let i = e % 3;
        if a.0 != Some(VId(f[i])) || a.1 != Some(VId(f[(i + 1) % 3])) || a.2 != Some(EId(e - i + (i + 1) % 3)) || a.3 != Some(EId(e - i + (i + 2) % 3)) || a.5 != Some(FId(e / 3)) {
            bail!("adjacency", "{:?}: edge {} of face {:?}: {:?}", kind, e, f, a);
        }
    }
    if s.num_edges() != 3 * nf {
        bail!("adjacency", "{:?}: {} edges of {} faces", kind, s.num_edges(), nf);
    }
    for a in before.0.iter().rev().take(2) {
        if a.0.is_some() || a.1.is_some() || a.2.is_some() || a.3.is_some() || a.4.is_some() || a.5.is_some() {
            bail!("adjacency", "{:?}: an edge beyond the last of {} has {:?}", kind, 3 * nf, a);
        }
    }
    queries(c, &s, &model.faces, n0)?;
    half_edges(c, &HalfEdge::<IC>::new(s.mesh()), &s, &model.faces, n0)?;
    for _ in 0..t.range(1, 6) {
        let n = model.verts.len();
        let p = pt(t);
        match t.below(4) {
            0 => {
                let id = s.add_vertex(p3(&p));
                model.verts.push(st(p));
                if id.0 != n {
                    bail!("wrong-id", "{:?}: add_vertex returned {} for vertex {}", kind, id.0, n);
                }
            }
            1 if n > 0 => {
                let i = t.usize_below(n);
                if let Err(e) = s.change_vertex(VId(i), p3(&p)) {
                    bail!("valid-refused", "{:?} with adjacency: change of vertex {} of {}: {:?}", kind, i, n, e);
                }
                model.verts[i] = st(p);
            }
            2 => {
                let i = unknown(t, n);
                c.fault("change of an unknown vertex", 1);
                if s.change_vertex(VId(i), p3(&p)).is_ok() {
                    bail!("invalid-accepted", "{:?} with adjacency: change of vertex {} of {} accepted", kind, i, n);
                }
            }
            _ => s.reserve_vertices(t.range(0, 9)),
        }
        let d = dump_mesh(&s);
        if !same(&d.verts, &model.verts) || d.faces != model.faces {
            bail!("mesh-differs", "{:?} with adjacency: vertices {} faces {}, expected {} {}", kind, short(&d.verts), short(&d.faces), short(&model.verts), short(&model.faces));
        }
    }
    queries(c, &s, &model.faces, n0)?;
    let after = (answers(&s), around(&s, n0));
    if before != after {
        bail!("adjacency", "{:?}: the adjacency answers changed though no face was edited: {:?} became {:?}", kind, before, after);
    }
    c.note(|| "adjacency: wrap, edit vertices, unwrap".to_string());
    let (m, he): (M, HalfEdge<IC>) = s.into();
    if t.bool() {
        let s: SearchableMesh<M, Point3D, IC> = (m, he).into();
        if answers(&s) != before.0 {
            bail!("adjacency", "{:?}: taken apart and put together, the mesh answers differently", kind);
        }
        let (m, _he): (M, HalfEdge<IC>) = s.into();
        return Ok(m);
    }
    Ok(m)
}

/// Queries around vertices and faces, known and unknown ones: each appends to what the caller collected so far,
/// a refused one leaves that alone
fn queries<S: IsSearchableMesh<Point3D, rust_3d::Face3>>(c: &Ctx, s: &S, faces: &[[usize; 3]], n: usize) -> Verdict {
    let t = &c.t;
    let e = |i: usize| (faces[i / 3][i % 3], faces[i / 3][(i % 3 + 1) % 3]);
    let ne = 3 * faces.len();
    let all: Vec<usize> = (0..ne).collect();
    let of = |v: usize, tail: bool| -> Vec<usize> { all.as_slice().iter().cloned().filter(|i| if tail { e(*i).0 == v } else { e(*i).1 == v }).collect() };
    let prev = |i: usize| i - i % 3 + (i + 2) % 3;
    for _ in 0..3 {
        let v = if n > 0 && t.chance(2, 3) { t.usize_below(n) } else { unknown(t, s.num_vertices()) };
        let f = if !faces.is_empty() && t.chance(2, 3) { t.usize_below(faces.len()) } else { unknown(t, faces.len()) };
        // what earlier queries left in the buffers
        let kept: Vec<EId> = (0..t.below(3)).map(|i| EId(1000 + i as usize)).collect();
        let keptf: Vec<FId> = (0..t.below(3)).map(|i| FId(1000 + i as usize)).collect();
        let mut cache: Vec<EId> = (0..t.below(3)).map(|_| EId(t.usize_below(9))).collect();
        let out = of(v, true);
        let known = v < n && !out.is_empty();
        let ends: Vec<usize> = out.as_slice().iter().map(|i| prev(*i)).collect();
        let both: Vec<usize> = out.as_slice().iter().flat_map(|i| [*i, prev(*i)]).collect();
        for q in 0..3 {
            let mut got = kept.clone();
            let r = match q {
                0 => s.edges_originating_from_vertex(VId(v), &mut got),
                1 => s.edges_ending_at_vertex(VId(v), &mut cache, &mut got),
                _ => s.edges_of_vertex(VId(v), &mut cache, &mut got),
            };
            let want = [&out, &ends, &both][q];
            let new: Vec<usize> = got.as_slice().iter().skip(kept.len()).map(|x| x.0).collect();
            if got.len() < kept.len() || got[..kept.len()] != kept[..] {
                bail!("query", "query {} around vertex {} changed what was collected before", q, v);
            }
            let (mut a, mut b) = (new.clone(), want.clone());
            a.sort();
            b.sort();
            if a != b {
                bail!("query", "query {} around vertex {} of {}: edges {:?} instead of {:?}", q, v, n, new, want);
            }
            if known && r.is_err() {
                bail!("valid-refused", "query {} around vertex {} of {}: {:?}", q, v, n, r);
            }
            if v >= s.num_vertices() {
                c.fault("query of something unknown", 1);
                if r.is_ok() {
                    bail!("invalid-accepted", "query {} around vertex {} of {} accepted", q, v, n);
                }
            }
        }
        let mut got = keptf.clone();
        let r = s.faces_of_vertex(VId(v), &mut cache, &mut got);
        let mut new: Vec<usize> = got.as_slice().iter().skip(keptf.len()).map(|x| x.0).collect();
        new.sort();
        let want: Vec<usize> = out.as_slice().iter().map(|i| i / 3).collect();
        if !got.starts_with(&keptf) || new != want || (known && r.is_err()) || (v >= s.num_vertices() && r.is_ok()) {
            bail!("query", "faces of vertex {} of {}: {:?} ({:?}) instead of {:?}", v, n, got, r, want);
        }
        let got = s.edges_of_face(FId(f)).map(|(a, b, c)| (a.0, b.0, c.0));
        if got != if f < faces.len() { Some((3 * f, 3 * f + 1, 3 * f + 2)) } else { None } {
            bail!("query", "edges of face {} of {}: {:?}", f, faces.len(), got);
        }
        let mut got = keptf.clone();
        let r = s.face_vertex_neighbours(FId(f), &mut cache, &mut got);
        if f < faces.len() {
            let mut want = keptf.clone();
            want.extend((0..faces.len()).filter(|i| faces[*i].as_slice().iter().any(|v| faces[f].contains(v))).map(FId));
            want.sort();
            want.dedup();
            if r.is_err() || got != want {
                bail!("query", "faces sharing a vertex with face {}: {:?} ({:?}) instead of {:?}", f, got, r, want);
            }
        } else if r.is_ok() || got != keptf {
            bail!("query", "faces sharing a vertex with face {} of {}: {:?} ({:?})", f, faces.len(), got, r);
        }
        let mut got = keptf.clone();
        let r = s.face_edge_neighbours(FId(f), &mut got);
        if f >= faces.len() {
            if r.is_ok() || got != keptf {
                bail!("query", "faces sharing an edge with face {} of {}: {:?} ({:?})", f, faces.len(), got, r);
            }
            continue;
        }
        if r.is_err() || !got.starts_with(&keptf) {
            bail!("query", "faces sharing an edge with face {}: {:?} ({:?})", f, got, r);
        }
        let mut k = keptf.len();
        for i in 3 * f..3 * f + 3 {
            let (a, b) = e(i);
            let back: Vec<usize> = of(b, true).into_iter().filter(|j| e(*j).1 == a).collect();
            let twin = s.edge_twin(EId(i)).map(|x| x.0);
            c.hit_if(back.len() == 1, "edge with a twin");
            if twin.is_some() != !back.is_empty() || twin.map_or(false, |x| !back.contains(&x)) {
                bail!("query", "edge {} from {} to {} has the twin {:?} instead of one of {:?}", i, a, b, twin, back);
            }
            if let Some(x) = twin {
                if got.get(k) != Some(&FId(x / 3)) {
                    bail!("query", "faces sharing an edge with face {}: {:?}", f, got);
                }
                k += 1;
            }
        }
        if got.len() != k {
            bail!("query", "faces sharing an edge with face {}: {:?}", f, got);
        }
    }
    Ok(())
}

/// The half edges themselves
fn half_edges<IC: IsIndexContainer, S: IsSearchableMesh<Point3D, rust_3d::Face3>>(c: &Ctx, h: &HalfEdge<IC>, s: &S, faces: &[[usize; 3]], n: usize) -> Verdict {
    let t = &c.t;
    let ne = 3 * faces.len();
    let mut cache: Vec<EId> = vec![];
    let mut edges: Vec<EId> = vec![];
    let mut found: Vec<FId> = vec![];
    for _ in 0..4 {
        let v = if n > 0 && t.chance(3, 4) { t.usize_below(n) } else { unknown(t, n) };
        let out: Vec<usize> = (0..ne).filter(|i| faces[i / 3][i % 3] == v).collect();
        let prev = |i: usize| i - i % 3 + (i + 2) % 3;
        let q = t.below(4);
        let mut want: Vec<usize> = match q {
            0 => out.clone(),
            1 => out.as_slice().iter().map(|i| prev(*i)).collect(),
            2 => out.as_slice().iter().flat_map(|i| [*i, prev(*i)]).collect(),
            _ => out.as_slice().iter().map(|i| i / 3).collect(),
        };
        let (kept, keptf) = (edges.clone(), found.clone());
        let r = match q {
            0 => h.edges_originating(VId(v), &mut edges),
            1 => h.edges_ending(VId(v), &mut cache, &mut edges),
            2 => h.edges_all(VId(v), &mut cache, &mut edges),
            _ => h.faces(VId(v), &mut cache, &mut found),
        };
        if !edges.starts_with(&kept) || !found.starts_with(&keptf) {
            bail!("query", "half edge query {} around vertex {} changed what was collected before", q, v);
        }
        let mut new: Vec<usize> = edges.as_slice()[kept.len()..].iter().map(|x| x.0).chain(found.as_slice()[keptf.len()..].iter().map(|x| x.0)).collect();
        new.sort();
        want.sort();
        if new != want || (r.is_err() && !out.is_empty()) || (r.is_ok() && v >= n) {
            bail!("query", "half edge query {} around vertex {} of {}: {:?} ({:?}) instead of {:?}", q, v, n, new, r, want);
        }
        let e = EId(if ne > 0 && t.chance(3, 4) { t.usize_below(ne) } else { unknown(t, ne) });
        let (a, b) = ((h.tail(e), h.face(e), h.twin(e), h.next(e), h.prev(e)), (s.edge_tail(e), s.edge_face(e), s.edge_twin(e), s.edge_next(e), s.edge_prev(e)));
        if a != b {
            bail!("query", "half edge {:?}: {:?}, the mesh says {:?}", e, a, b);
        }
    }
    Ok(())
}

/// Trees built again and again: from nothing, or from what has no bounding box, they refuse to be, and keep what they hold
fn tree_session(c: &Ctx) -> Verdict {
    let t = &c.t;
    let mut kd: KdTree<Point3D> = KdTree::default();
    let mut oc: OcTree<Point3D> = OcTree::default();
    let (mut in_kd, mut in_oc): (Vec<P3>, Vec<P3>) = (vec![], vec![]);
    let sorted = |mut v: Vec<P3>| {
        v.sort_by(|a, b| a.partial_cmp(b).expect("harness: no NaN"));
        v
    };
    let dump = |pc: PointCloud3D<Point3D>| sorted(pc.data.iter().map(a3).collect());
    c.interesting();
    for _ in 0..t.range(2, 6) {
        let n = if t.chance(1, 3) { t.usize_below(2) } else { t.range(2, 9) };
        let ps: Vec<P3> = (0..n).map(|_| [t.below(5) as f64 + 1.0, t.below(5) as f64 - 8.5, t.below(3) as f64 + 0.25]).collect();
        let pc = PointCloud3D { data: ps.iter().map(p3).collect() };
        c.note(|| format!("build from {:?}", ps));
        if t.bool() {
            match kd.build(pc) {
                Ok(_) => in_kd = sorted(ps),
                Err(_) if n == 0 => c.fault("tree built from nothing", 1),
                Err(e) => bail!("valid-refused", "KdTree of {} points: {:?}", n, e),
            }
        } else {
            match oc.build(pc) {
                Ok(_) => {
                    in_oc = sorted(ps);
                    in_oc.dedup();
                }
                // without extent in some dimension there is no box around the points
                Err(_) if (0..3).any(|i| ps.iter().all(|p| p[i] == ps[0][i])) => c.fault("tree built from nothing", 1),
                Err(e) => bail!("valid-refused", "OcTree of {} points: {:?}", n, e),
            }
        }
        if kd.size() != in_kd.len() || dump(kd.to_pointcloud()) != in_kd {
            bail!("tree", "the KdTree holds {} points {:?} instead of {:?}", kd.size(), dump(kd.to_pointcloud()), in_kd);
        }
        if oc.size() != in_oc.len() || dump(oc.to_pointcloud()) != in_oc {
            bail!("tree", "the OcTree holds {} points {:?} instead of {:?}", oc.size(), dump(oc.to_pointcloud()), in_oc);
        }
        c.event(kd.size() as u64 * 1000 + oc.size() as u64);
        if let Some(p) = in_kd.first() {
            let q = p3(p);
            match kd.nearest(&q) {
                Some(x) if a3(&x) == *p => (),
                x => bail!("tree", "the KdTree holds {:?}, nearest to it is {:?}", p, x),
            }
        } else if kd.nearest(&Point3D::default()).is_some() {
            bail!("tree", "an empty KdTree has a nearest point");
        }
    }
    Ok(())
}

//------------------------------------------------------------------------------
// Collections of points

/// A collection under test. Coll of 2D points use z = 0
trait Coll: Sized {
    const NAME: &'static str;
    const TWO: bool = false;
    const F32: bool = false;
    fn empty() -> Self;
    fn dump(&self) -> Vec<P3>;
    fn push(&mut self, p: P3);
    /// None: not supported
    fn insert(&mut self, _i: usize, _p: P3) -> Option<bool> {
        None
    }
    fn set(&mut self, _i: usize, _p: P3) -> bool {
        false
    }
    fn get(&self, _i: usize) -> Option<Option<P3>> {
        None
    }
    fn apply_view(&mut self, _v: &View) -> Option<bool> {
        None
    }
    fn from_view(&self, _v: &View) -> Option<Option<Self>> {
        None
    }
    fn sort_dim(&mut self, _d: usize) -> Option<bool> {
        None
    }
    fn shift(&mut self, _d: P3) -> bool {
        false
    }
    /// append a collection of the same kind / a Vec
    fn append(&mut self, _o: Self, _how: usize) -> bool {
        false
    }
    fn save(&self, _w: &mut dyn Write) -> Option<Result<(), String>> {
        None
    }
    fn load_own(&mut self, _r: &mut AnyReader) -> Result<(), String> {
        unreachable!()
    }
    /// lend the collection to the containers of a load
    fn kind() -> Option<PointKind> {
        None
    }
    fn lend(self, _k: &mut Containers) {
        unreachable!()
    }
    fn back(_k: &mut Containers) -> Self {
        unreachable!()
    }
}
fn dbg<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}
fn a3(p: &Point3D) -> P3 {
    [p.x, p.y, p.z]
}

macro_rules! coll3 {
    ($t:ty, $name:expr, $kind:expr, $variant:ident, $($extra:tt)*) => {
        impl Coll for $t {
            const NAME: &'static str = $name;
            fn empty() -> Self { Self::new() }
            fn dump(&self) -> Vec<P3> {
                (0..IsRandomAccessible::len(self)).map(|i| a3(&self[i])).collect()
            }
            fn push(&mut self, p: P3) { IsPushable::push(self, p3(&p)) }
            fn insert(&mut self, i: usize, p: P3) -> Option<bool> { Some(IsRandomInsertible::insert(self, i, p3(&p)).is_ok()) }
            fn set(&mut self, i: usize, p: P3) -> bool { self.set_d(i, p3(&p)); true }
            fn get(&self, i: usize) -> Option<Option<P3>> { Some(self.get_d(i).map(|p| a3(&p))) }
            fn apply_view(&mut self, v: &View) -> Option<bool> { Some(IsViewBuildable::apply_view(self, v).is_ok()) }
            fn from_view(&self, v: &View) -> Option<Option<Self>> { Some(IsViewBuildable::from_view(self, v)) }
            fn shift(&mut self, d: P3) -> bool { self.move_by(d[0], d[1], d[2]); true }
            fn save(&self, mut w: &mut dyn Write) -> Option<Result<(), String>> { Some(save_xyz(&mut w, self, " ", "\n").map_err(dbg)) }
            fn load_own(&mut self, r: &mut AnyReader) -> Result<(), String> { load_xyz(r, self).map_err(dbg) }
            fn kind() -> Option<PointKind> { Some($kind) }
            fn lend(self, k: &mut Containers) { k.p3.inner = PInner::$variant(self) }
            fn back(k: &mut Containers) -> Self {
                match std::mem::replace(&mut k.p3.inner, PInner::Vec(vec![])) {
                    PInner::$variant(x) => x,
                    _ => unreachable!(),
                }
            }
            $($extra)*
        }
    };
}
coll3!(Vec<Point3D>, "Vec", PointKind::Vec, Vec,);
coll3!(VecDeque<Point3D>, "VecDeque", PointKind::Deque, Deque,);
coll3!(PointCloud3D<Point3D>, "PointCloud3D", PointKind::Cloud, Cloud,
    fn sort_dim(&mut self, d: usize) -> Option<bool> { Some(IsSortableND::sort_dim(self, d).is_ok()) }
    fn append(&mut self, o: Self, how: usize) -> bool {
        match how {
            0 => self.append_ra(&o),
            1 => self.consume(o),
            2 => *self = self.combine(&o),
            _ => self.append_ra(&o.data),
        }
        true
    }
);

impl Coll for PointCloud2D<Point2D> {
    const NAME: &'static str = "PointCloud2D";
    const TWO: bool = true;
    fn empty() -> Self {
        PointCloud2D::new()
    }
    fn dump(&self) -> Vec<P3> {
        self.data.iter().map(|p| [p.x, p.y, 0.0]).collect()
    }
    fn push(&mut self, p: P3) {
        let n = self.len_d();
        self.reserve_d(2);
        self.push_d(Point2D::new(p[0], p[1]));
        assert!(self.len_d() == n + 1);
    }
    fn insert(&mut self, i: usize, p: P3) -> Option<bool> {
        Some(IsRandomInsertible::insert(self, i, Point2D::new(p[0], p[1])).is_ok())
    }
    fn set(&mut self, i: usize, p: P3) -> bool {
        let q = Point2D::new(p[0], p[1]);
        if p[2] > 1.0 {
            self[i] = q;
        } else {
            self.set_d(i, q);
        }
        true
    }
    fn get(&self, i: usize) -> Option<Option<P3>> {
        Some(self.get_d(i).map(|p| [p.x, p.y, 0.0]))
    }
    fn apply_view(&mut self, v: &View) -> Option<bool> {
        Some(IsViewBuildable::apply_view(self, v).is_ok())
    }
    fn from_view(&self, v: &View) -> Option<Option<Self>> {
        Some(IsViewBuildable::from_view(self, v))
    }
    fn sort_dim(&mut self, d: usize) -> Option<bool> {
        Some(IsSortableND::sort_dim(self, d).is_ok())
    }
    fn shift(&mut self, d: P3) -> bool {
        IsMovable2D::move_by(self, d[0], d[1]);
        true
    }
    fn append(&mut self, o: Self, how: usize) -> bool {
        match how {
            0 => self.append_ra(&o),
            1 => self.consume(o),
            2 => *self = self.combine(&o),
            _ => self.append_ra(&o.data),
        }
        true
    }
    fn save(&self, mut w: &mut dyn Write) -> Option<Result<(), String>> {
        Some(save_xy(&mut w, self, ";", "\r\n").map_err(dbg))
    }
    fn load_own(&mut self, r: &mut AnyReader) -> Result<(), String> {
        load_xy(r, self).map_err(dbg)
    }
    fn kind() -> Option<PointKind> {
        Some(PointKind::Cloud)
    }
    fn lend(self, k: &mut Containers) {
        k.p2.inner = P2Inner::Cloud(self)
    }
    fn back(k: &mut Containers) -> Self {
        match std::mem::replace(&mut k.p2.inner, P2Inner::Vec(vec![])) {
            P2Inner::Cloud(x) => x,
            _ => unreachable!(),
        }
    }
}
impl Coll for PointCloud3Df32<Point3D> {
    const NAME: &'static str = "PointCloud3Df32";
    const F32: bool = true;
    fn empty() -> Self {
        PointCloud3Df32::new()
    }
    fn dump(&self) -> Vec<P3> {
        assert!(self.data.len() % 3 == 0, "PointCloud3Df32 holds a partial point: {} floats", self.data.len());
        assert!(self.data.len() / 3 == self.len_d(), "PointCloud3Df32 counts {} points of {} floats", self.len_d(), self.data.len());
        self.data.chunks(3).map(|c| [c[0] as f64, c[1] as f64, c[2] as f64]).collect()
    }
    fn push(&mut self, p: P3) {
        IsPushable::push(self, p3(&p))
    }
    fn set(&mut self, i: usize, p: P3) -> bool {
        self.set_d(i, p3(&p));
        true
    }
    fn get(&self, i: usize) -> Option<Option<P3>> {
        Some(self.get_d(i).map(|p| a3(&p)))
    }
    fn shift(&mut self, d: P3) -> bool {
        self.move_by(d[0], d[1], d[2]);
        true
    }
    fn kind() -> Option<PointKind> {
        Some(PointKind::Cloud32)
    }
    fn lend(self, k: &mut Containers) {
        k.p3.inner = PInner::Cloud32(self)
    }
    fn back(k: &mut Containers) -> Self {
        match std::mem::replace(&mut k.p3.inner, PInner::Vec(vec![])) {
            PInner::Cloud32(x) => x,
            _ => unreachable!(),
        }
    }
}
impl Coll for LinkedList<Point3D> {
    const NAME: &'static str = "LinkedList";
    fn empty() -> Self {
        LinkedList::new()
    }
    fn dump(&self) -> Vec<P3> {
        self.iter().map(a3).collect()
    }
    fn push(&mut self, p: P3) {
        self.push_back(p3(&p))
    }
    fn apply_view(&mut self, v: &View) -> Option<bool> {
        Some(IsViewBuildable::apply_view(self, v).is_ok())
    }
    fn from_view(&self, v: &View) -> Option<Option<Self>> {
        Some(IsViewBuildable::from_view(self, v))
    }
}

fn draw_view(t: &Tape, n: usize) -> (View, Option<Vec<usize>>) {
    if t.chance(1, 8) {
        return (View::Full, Some((0..n).collect()));
    }
    let mut v: Vec<usize> = (0..n).filter(|_| t.bool()).collect();
    if t.bool() {
        for _ in 0..t.range(1, 3) {
            v.push(unknown(t, n));
        }
        return (View::Restricted(v.into_iter().collect()), None);
    }
    (View::Restricted(v.clone().into_iter().collect()), Some(v))
}

fn coll_session<C: Coll + Clone>(c: &Ctx) -> Verdict {
    let t = &c.t;
    let st = |p: P3| {
        if C::F32 {
            r32(p)
        } else if C::TWO {
            [p[0], p[1], 0.0]
        } else {
            p
        }
    };
    let mut x = C::empty();
    let mut model: Vec<P3> = vec![];
    let mut stored: Option<(Rc<Vec<u8>>, Vec<P3>)> = None;
    let n0 = t.range(0, 8);
    for _ in 0..n0 {
        let p = pt(t);
        x.push(p);
        model.push(st(p));
    }
    c.note(|| format!("{} with {} points", C::NAME, n0));
    let steps = t.range(1, 20);
    for _ in 0..steps {
        let n = model.len();
        let op = t.below(14);
        c.event(op);
        let mut what = String::new();
        match op {
            0 => {
                let p = pt(t);
                x.push(p);
                model.push(st(p));
                what += "push";
            }
            1 | 2 => {
                let p = pt(t);
                let i = if t.bool() { t.range(0, n) } else { unknown(t, n) };
                match x.insert(i, p) {
                    None => continue,
                    Some(ok) => {
                        what += &format!("insertion at {} of {}: {}", i, n, ok);
                        if i < n && !ok {
                            bail!("valid-refused", "{}: {}", C::NAME, what);
                        }
                        if i > n {
                            c.fault("insertion out of range", 1);
                            if ok {
                                bail!("invalid-accepted", "{}: {}", C::NAME, what);
                            }
                        }
                        if ok {
                            model.insert(i, st(p));
                        }
                    }
                }
            }
            3 if n > 0 => {
                let i = t.usize_below(n);
                let p = pt(t);
                if !x.set(i, p) {
                    continue;
                }
                model[i] = st(p);
                what += "set";
            }
            4 => {
                let i = if n > 0 && t.bool() { t.usize_below(n) } else { unknown(t, n) };
                if let Some(g) = x.get(i) {
                    let want = model.get(i).cloned();
                    if g.map(|p| bits3(&p)) != want.map(|p| bits3(&p)) {
                        bail!("wrong-element", "{}: element {} of {} is {:?} instead of {:?}", C::NAME, i, n, g, want);
                    }
                }
                what += "get";
            }
            5 | 6 => {
                let (v, keep) = draw_view(t, n);
                what += &format!("apply_view {:?}", v);
                match (x.apply_view(&v), keep) {
                    (None, _) => continue,
                    (Some(ok), None) => {
                        c.fault("selection out of range", 1);
                        if ok {
                            bail!("invalid-accepted", "{} of {} points: {}", C::NAME, n, what);
                        }
                    }
                    (Some(ok), Some(k)) => {
                        if !ok {
                            bail!("valid-refused", "{} of {} points: {}", C::NAME, n, what);
                        }
                        model = k.into_iter().map(|i| model[i]).collect();
                    }
                }
            }
            7 => {
                let (v, keep) = draw_view(t, n);
                what += &format!("from_view {:?}", v);
                match (x.from_view(&v), keep) {
                    (None, _) => continue,
                    (Some(r), None) => {
                        c.fault("selection out of range", 1);
                        if r.is_some() {
                            bail!("invalid-accepted", "{} of {} points: {}", C::NAME, n, what);
                        }
                    }
                    (Some(None), Some(_)) => bail!("valid-refused", "{} of {} points: {}", C::NAME, n, what),
                    (Some(Some(y)), Some(k)) => {
                        let want: Vec<P3> = k.into_iter().map(|i| model[i]).collect();
                        if !same(&y.dump(), &want) {
                            bail!("wrong-selection", "{}: {} yields {} instead of {}", C::NAME, what, short(&y.dump()), short(&want));
                        }
                        if t.bool() {
                            x = y;
                            model = want;
                        }
                    }
                }
            }
            8 => {
                let dims = if C::TWO { 2 } else { 3 };
                let d = if t.bool() { t.usize_below(dims) } else { *t.pick(&[dims, dims + 1, 255, usize::MAX]) };
                what += &format!("sort_dim {}", d);
                match x.sort_dim(d) {
                    None => continue,
                    Some(ok) => {
                        if ok != (d < dims) {
                            bail!(if ok { "invalid-accepted" } else { "valid-refused" }, "{}: {} -> {}", C::NAME, what, ok);
                        }
                        if ok {
                            let y = x.dump();
                            let key = |v: &[P3]| {
                                let mut k: Vec<[u64; 3]> = v.iter().map(bits3).collect();
                                k.sort();
                                k
                            };
                            if key(&y) != key(&model) || y.windows(2).any(|w| w[0][d] > w[1][d]) {
                                bail!("wrong-order", "{}: {} of {} yields {}", C::NAME, what, short(&model), short(&y));
                            }
                            model = y;
                        } else {
                            c.fault("unknown dimension", 1);
                        }
                    }
                }
            }
            9 => {
                let d = [t.below(64) as f64 / 8.0, -(t.below(9) as f64), 0.25];
                if !x.shift(d) {
                    continue;
                }
                for p in model.iter_mut() {
                    for i in 0..3 {
                        if C::TWO && i == 2 {
                            continue;
                        }
                        p[i] = if C::F32 { (p[i] as f32 + d[i] as f32) as f64 } else { p[i] + d[i] };
                    }
                }
                what += "move_by";
            }
            10 => {
                let mut o = C::empty();
                let mut add = vec![];
                for _ in 0..t.range(0, 4) {
                    let p = pt(t);
                    o.push(p);
                    add.push(st(p));
                }
                let how = t.usize_below(4);
                if !x.append(o, how) {
                    continue;
                }
                model.extend(add);
                what += &format!("append ({})", how);
            }
            11 => {
                what += "load";
                let kind = match C::kind() {
                    Some(k) => k,
                    None => continue,
                };
                let fmts: &[Fmt] = if C::TWO { &[Fmt::Xy] } else { &[Fmt::Xyz, Fmt::Pts, Fmt::Ptx, Fmt::Psl, Fmt::Obj, Fmt::Off, Fmt::Gcode, Fmt::StlAscii, Fmt::StlBinary, Fmt::Las, Fmt::PlyAscii, Fmt::PlyLe, Fmt::PlyBe] };
                let doc = loading::draw_doc(c, fmts, 12);
                let apis: Vec<Api> = doc.apis().into_iter().filter(|a| !a.is_mesh()).collect();
                let api = *t.pick(&apis);
                let s = Setup { api, stl: *t.pick(&doc.stl), points: kind, mesh: MeshKind::CloudVec, initial: Data { points: model.clone(), ..Data::default() }, panic_push: None, panic_reserve: false, budget: 2_000_000 };
                let x_ = &mut x;
                let mut ld = |bytes: &Rc<Vec<u8>>, plan: &Plan| -> Ran {
                    let mut k = Containers::new(&Setup { initial: Data::default(), ..s.clone() });
                    std::mem::replace(x_, C::empty()).lend(&mut k);
                    let mut r = AnyReader::new(bytes.clone(), plan);
                    let st = r.stats();
                    let o = bulk(&s, &mut k, &mut r);
                    let d = k.data(&s);
                    *x_ = C::back(&mut k);
                    let st = st.borrow().clone();
                    c.stream(&st);
                    c.note(|| format!("load {:?} -> {:?}", api, o));
                    (o, d, st)
                };
                if load_step(c, &doc, &s, &mut ld)?.is_some() {
                    let y = x.dump();
                    if y.len() < n || !same(&y[..n], &model) {
                        bail!("load-destroys", "{} via {:?}: a load changed what was there: {} was {}", C::NAME, api, short(&y), short(&model));
                    }
                    model = y;
                }
            }
            12 => {
                let plan = sink_plan(c, 30 * n + 30);
                let mut supported = true;
                let (r, bytes) = write_with(c, &plan, &mut |w| match x.save(w) {
                    Some(r) => r,
                    None => {
                        supported = false;
                        Ok(())
                    }
                });
                if !supported {
                    continue;
                }
                what += &format!("save -> {:?}", r);
                match r {
                    Ok(()) => stored = Some((Rc::new(bytes), model.clone())),
                    Err(_) => c.hit("failed save in a session"),
                }
            }
            _ => {
                let (bytes, m) = match &stored {
                    Some(x) => x.clone(),
                    None => continue,
                };
                c.fault("crash and restart", 1);
                x = C::empty();
                let mut r = AnyReader::new(bytes, &read_plan(t));
                let st = r.stats();
                let o = x.load_own(&mut r);
                c.stream(&st.borrow());
                if let Err(e) = o {
                    bail!("restart-failed", "{}: what was saved does not load after a restart: {}", C::NAME, e);
                }
                model = m;
                what += "crash and restart";
            }
        }
        c.step();
        c.note(|| what.clone());
        let y = x.dump();
        if !same(&y, &model) {
            bail!("collection-differs", "{} after {}: {} instead of {}", C::NAME, what, short(&y), short(&model));
        }
    }
    // single points
    let mut p = Point3D::new(1.0, 2.0, 3.0);
    let d = t.usize_below(6);
    let r = p.set_position(d, 9.0);
    let mut want = [1.0, 2.0, 3.0];
    if d < 3 {
        want[d] = 9.0;
    }
    if r.is_ok() != (d < 3) || a3(&p) != want {
        bail!("point", "set_position({}) -> {:?}: {:?}", d, r, p);
    }
    Ok(())
}

//------------------------------------------------------------------------------
// Index containers

fn index_value(t: &Tape, wide: bool) -> usize {
    let x = match t.below(8) {
        0 | 1 => t.usize_below(256),
        2 => t.range(253, 258),
        3 => t.usize_below(65_536),
        4 => t.range(65_533, 65_538),
        5 => t.usize_below(1 << 32),
        6 => (1usize << 32) - 3 + t.usize_below(6),
        _ => t.u64() as usize,
    };
    if wide {
        x
    } else {
        x.min(u32::MAX as usize)
    }
}

trait IndexStore: IsIndexContainer {
    /// a container made from existing indices in one of several ways
    fn made(_t: &Tape, _v: &[usize]) -> Option<(Self, Vec<usize>)> {
        None
    }
    /// edits through the container's own accessors; returns whether it did
    fn own(&mut self, _t: &Tape, _model: &mut Vec<usize>) -> bool {
        false
    }
    /// what the container's own read accessors show, one entry per accessor that offers anything
    fn shown(&mut self) -> Vec<Vec<usize>> {
        vec![]
    }
}
impl IndexStore for Vec<usize> {}
impl IndexStore for U32IndexVec {}
impl IndexStore for DynamicPrecisionIndexVec {
    fn made(t: &Tape, v: &[usize]) -> Option<(Self, Vec<usize>)> {
        let b = t.bool();
        Some(match t.below(4) {
            0 => {
                let v = v.to_vec();
                (if b { Self::from(&v) } else { Self::from(v.clone()) }, v)
            }
            1 => {
                let u: Vec<u32> = v.iter().map(|x| *x as u32).collect();
                (if b { Self::from(&u) } else { Self::from(u.clone()) }, u.iter().map(|x| *x as usize).collect())
            }
            2 => {
                let u: Vec<u16> = v.iter().map(|x| *x as u16).collect();
                (if b { Self::from(&u) } else { Self::from(u.clone()) }, u.iter().map(|x| *x as usize).collect())
            }
            _ => {
                let u: Vec<u8> = v.iter().map(|x| *x as u8).collect();
                (if b { Self::from(&u) } else { Self::from(u.clone()) }, u.iter().map(|x| *x as usize).collect())
            }
        })
    }
    fn shown(&mut self) -> Vec<Vec<usize>> {
        let mut r = vec![];
        r.extend(self.get_u8().map(|v| v.as_slice().iter().map(|x| *x as usize).collect()));
        r.extend(self.get_u16().map(|v| v.as_slice().iter().map(|x| *x as usize).collect()));
        r.extend(self.get_u32().map(|v| v.as_slice().iter().map(|x| *x as usize).collect()));
        r.extend(self.get_usize().cloned());
        assert!(r.len() == 1, "{} representations at once", r.len());
        r
    }
    fn own(&mut self, t: &Tape, model: &mut Vec<usize>) -> bool {
        let i = if model.is_empty() { None } else { Some(t.usize_below(model.len())) };
        match t.below(6) {
            0 => {
                if let (Some(v), Some(i)) = (self.get_u8_mut(), i) {
                    v[i] = 200;
                    model[i] = 200;
                }
            }
            1 => {
                if let (Some(v), Some(i)) = (self.get_u16_mut(), i) {
                    v[i] = 65_000;
                    model[i] = 65_000;
                }
            }
            2 => {
                if let (Some(v), Some(i)) = (self.get_u32_mut(), i) {
                    v[i] = 4_000_000_000;
                    model[i] = 4_000_000_000;
                }
            }
            3 => {
                if let (Some(v), Some(i)) = (self.get_usize_mut(), i) {
                    v[i] = 1 << 50;
                    model[i] = 1 << 50;
                }
            }
            4 => {
                let _ = self.get_usize_upgraded();
            }
            _ => {
                let v = self.get_usize_upgraded_mut();
                if let Some(i) = i {
                    v[i] = 1 << 40;
                    model[i] = 1 << 40;
                }
            }
        }
        true
    }
}

fn index_session<IC: IndexStore>(c: &Ctx, wide: bool) -> Verdict {
    let t = &c.t;
    c.interesting();
    let mut x = match t.below(4) {
        0 => IC::default(),
        1 => IC::with_capacity(t.range(0, 300)),
        2 => IC::with_support_for(index_value(t, wide)),
        _ => IC::with_capacity_and_support_for(t.range(0, 9), index_value(t, wide)),
    };
    let mut model: Vec<usize> = vec![];
    let name = std::any::type_name::<IC>();
    let steps = t.range(1, 30);
    for _ in 0..steps {
        let op = t.below(10);
        c.event(op);
        let mut what = String::new();
        match op {
            0..=3 => {
                let v = index_value(t, wide);
                IsIndexContainer::push(&mut x, v);
                model.push(v);
                what += &format!("push {}", v);
                c.hit_if(v > 255, "index above 255");
                c.hit_if(v > 65_535, "index above 65535");
                c.hit_if(v > u32::MAX as usize, "index above 2^32 - 1");
            }
            4 | 5 if !model.is_empty() => {
                let v = index_value(t, wide);
                let i = t.usize_below(model.len());
                IsIndexContainer::set(&mut x, i, v);
                model[i] = v;
                what += &format!("set {} to {}", i, v);
            }
            6 => {
                let v = index_value(t, wide);
                x.ensure_supported(v);
                what += &format!("ensure_supported {}", v);
            }
            7 => {
                IsIndexContainer::reserve(&mut x, t.range(0, 40));
                what += "reserve";
            }
            8 => {
                if let Some((y, m)) = IC::made(t, &model) {
                    x = y;
                    model = m;
                    what += "rebuilt from a Vec";
                }
            }
            _ => {
                if t.bool() {
                    x.own(t, &mut model);
                    what += "own accessor";
                } else {
                    let mut y = x.clone();
                    IsIndexContainer::push(&mut y, 70_000);
                    what += "edit of a copy";
                }
            }
        }
        c.step();
        c.note(|| what.clone());
        let a: Vec<usize> = IsIndexContainer::iter(&x).collect();
        let b: Vec<usize> = (0..IsIndexContainer::len(&x)).map(|i| IsIndexContainer::get(&x, i)).collect();
        if a != model || b != model {
            bail!("indices-differ", "{} after {}: {} / {} instead of {}", name, what, short(&a), short(&b), short(&model));
        }
        for v in x.shown() {
            if v != model {
                bail!("indices-differ", "{} after {}: it shows {} instead of {}", name, what, short(&v), short(&model));
            }
        }
    }
    Ok(())
}

//------------------------------------------------------------------------------
// Polygons

fn polygon_session(c: &Ctx) -> Verdict {
    let t = &c.t;
    if t.bool() {
        polygon(c, Polygon2D::<Point2D>::default(), &|p| Point2D::new(p[0], p[1]), &|p| [p.x, p.y, 0.0], &|x, d| x.move_by(d[0], d[1]), true)
    } else {
        polygon(c, Polygon3D::<Point3D>::default(), &p3, &a3, &|x, d| x.move_by(d[0], d[1], d[2]), false)
    }
}
fn polygon<V, P: IsEditablePolygon<V>>(c: &Ctx, mut x: P, to: &dyn Fn(&P3) -> V, from: &dyn Fn(&V) -> P3, mv: &dyn Fn(&mut P, P3), two: bool) -> Verdict {
    let t = &c.t;
    let mut model: Vec<P3> = vec![];
    for _ in 0..t.range(1, 16) {
        let mut p = pt(t);
        if two {
            p[2] = 0.0;
        }
        let n = model.len();
        let op = t.below(5);
        c.event(op);
        match op {
            4 => {
                mv(&mut x, p);
                for q in &mut model {
                    (0..3).for_each(|i| q[i] += p[i]);
                }
            }
            0 | 1 => {
                let id = x.add_vertex(to(&p));
                model.push(p);
                if id.0 != n {
                    bail!("wrong-id", "polygon: add_vertex returned {} for vertex {}", id.0, n);
                }
            }
            2 if n > 0 => {
                let i = t.usize_below(n);
                if x.change_vertex(VId(i), to(&p)).is_err() {
                    bail!("valid-refused", "polygon: change of vertex {} of {}", i, n);
                }
                model[i] = p;
            }
            _ => {
                let i = unknown(t, n);
                c.fault("change of an unknown vertex", 1);
                if x.change_vertex(VId(i), to(&p)).is_ok() {
                    bail!("invalid-accepted", "polygon: change of vertex {} of {}", i, n);
                }
            }
        }
        c.step();
        c.note(|| format!("polygon: op {} -> {:?}", op, model));
        let n = model.len();
        if x.num_vertices() != n || x.num_segments() != n {
            bail!("polygon-differs", "{} vertices and {} segments instead of {}", x.num_vertices(), x.num_segments(), n);
        }
        for i in 0..n + 2 {
            let v = x.vertex(VId(i)).map(|p| bits3(&from(&p)));
            if v != model.get(i).map(bits3) {
                bail!("polygon-differs", "vertex {} is {:?} instead of {:?}", i, x.vertex(VId(i)).map(|p| from(&p)), model.get(i));
            }
            let ids = x.segment_vertex_ids(SId(i)).map(|(a, b)| (a.0, b.0));
            let want = if i < n { Some((i, (i + 1) % n)) } else { None };
            if ids != want {
                bail!("polygon-differs", "segment {} of {} connects {:?} instead of {:?}", i, n, ids, want);
            }
            let pos = x.segment_vertices(SId(i)).map(|(a, b)| (bits3(&from(&a)), bits3(&from(&b))));
            if pos != want.map(|(a, b)| (bits3(&model[a]), bits3(&model[b]))) {
                bail!("polygon-differs", "segment {} of {} has the wrong vertices", i, n);
            }
        }
    }
    Ok(())
}

//------------------------------------------------------------------------------
// Points and shapes

/// Claims to have three dimensions, but does not know some of its coordinates
#[derive(Clone, Default, PartialEq)]
struct Partial<const N: usize>([Option<f64>; 3]);
impl<const N: usize> IsND for Partial<N> {
    fn n_dimensions() -> usize {
        N
    }
    fn position_nd(&self, d: usize) -> Option<f64> {
        self.0.get(d).cloned().flatten()
    }
}
impl<const N: usize> IsBuildableND for Partial<N> {
    fn new_nd(_c: &[f64]) -> rust_3d::Result<Self> {
        Err(rust_3d::ErrorKind::DimensionsDontMatch)
    }
    fn from_nd<P: IsBuildableND>(&mut self, _o: P) -> rust_3d::Result<()> {
        Err(rust_3d::ErrorKind::DimensionsDontMatch)
    }
}

fn shape_session(c: &Ctx) -> Verdict {
    let t = &c.t;
    let size = Positive::new(1.0 + t.below(40) as f64 / 8.0).unwrap();
    let size2 = Positive::new(0.5).unwrap();
    match t.below(11) {
        10 => pipe_session(c),
        0 => shape3(c, "Point3D", &mut Point3D::new(1.0, 2.0, 3.0), &|_| vec![], Some(&|x, d| x.move_by(d[0], d[1], d[2]))),
        1 => shape2(c, "Point2D", &mut Point2D::new(1.0, 2.0), &|_| vec![], Some(&|x, d| x.move_by(d[0], d[1]))),
        2 => shape3(c, "Box3D", &mut Box3D { center: Point3D::new(1.0, 2.0, 3.0), size_x: size, size_y: size2, size_z: size }, &|x| vec![*x.size_x, *x.size_y, *x.size_z], Some(&|x, d| x.move_by(d[0], d[1], d[2]))),
        3 => shape2(c, "Box2D", &mut Box2D { center: Point2D::new(1.0, 2.0), size_x: size, size_y: size2 }, &|x| vec![*x.size_x, *x.size_y], Some(&|x, d| x.move_by(d[0], d[1]))),
        4 => shape3(c, "Sphere", &mut Sphere { center: Point3D::new(1.0, 2.0, 3.0), radius: size }, &|x| vec![*x.radius], None),
        5 => shape2(c, "Circle", &mut Circle { center: Point2D::new(1.0, 2.0), radius: size }, &|x| vec![*x.radius], None),
        6 => shape3(c, "FilterBox3D", &mut FilterBox3D::new(Box3D { center: Point3D::new(1.0, 2.0, 3.0), size_x: size, size_y: size2, size_z: size }), &|_| vec![], None),
        7 => shape2(c, "FilterBox2D", &mut FilterBox2D::new(Box2D { center: Point2D::new(1.0, 2.0), size_x: size, size_y: size2 }), &|_| vec![], None),
        8 => shape3(c, "FilterSphere", &mut FilterSphere::new(Sphere { center: Point3D::new(1.0, 2.0, 3.0), radius: size }), &|_| vec![], None),
        _ => shape2(c, "FilterCircle", &mut FilterCircle::new(Circle { center: Point2D::new(1.0, 2.0), radius: size }), &|_| vec![], None),
    }
}

/// Edits of several coordinates at once
fn more3<S: IsEditable3D>(t: &Tape, x: &mut S, m: &mut Vec<f64>, p: &P3) -> String {
    let o = p3(p);
    let f = t.range(1, 8) as f64 * 0.5;
    let all = |m: &mut Vec<f64>, g: &dyn Fn(f64, f64) -> f64| (0..3).for_each(|d| m[d] = g(m[d], p[d]));
    match t.below(8) {
        0 => {
            x.set_xyz(p[0], p[1], p[2]);
            *m = p.to_vec();
            format!("set_xyz to {:?}", p)
        }
        1 => {
            x.set_xy(p[0], p[1]);
            (m[0], m[1]) = (p[0], p[1]);
            format!("set_xy to {:?}", p)
        }
        2 => {
            x.set_xz(p[0], p[2]);
            (m[0], m[2]) = (p[0], p[2]);
            format!("set_xz to {:?}", p)
        }
        3 => {
            x.set_yz(p[1], p[2]);
            (m[1], m[2]) = (p[1], p[2]);
            format!("set_yz to {:?}", p)
        }
        4 => {
            x.add(&o);
            all(m, &|a, b| a + b);
            format!("add {:?}", p)
        }
        5 => {
            x.subtract(&o);
            all(m, &|a, b| a - b);
            format!("subtract {:?}", p)
        }
        6 => {
            x.scale_pos(f);
            all(m, &|a, _| f * a);
            format!("scale_pos {:?}", f)
        }
        _ => {
            // as a point does it, whatever the rounding
            let f = Positive::new(f).expect("harness: positive");
            let mut q = Point3D::new(m[0], m[1], m[2]);
            q.increase_distance_to_by(&o, f);
            x.increase_distance_to_by(&o, f);
            *m = vec![q.x, q.y, q.z];
            format!("increase_distance_to_by {:?} {:?}", p, f)
        }
    }
}

fn more2<S: IsEditable2D>(t: &Tape, x: &mut S, m: &mut Vec<f64>, p: &P3) -> String {
    let o = Point2D::new(p[0], p[1]);
    let f = t.range(1, 8) as f64 * 0.5;
    let all = |m: &mut Vec<f64>, g: &dyn Fn(f64, f64) -> f64| (0..2).for_each(|d| m[d] = g(m[d], p[d]));
    match t.below(5) {
        0 => {
            x.set_xy(p[0], p[1]);
            *m = p[..2].to_vec();
            format!("set_xy to {:?}", p)
        }
        1 => {
            x.add(&o);
            all(m, &|a, b| a + b);
            format!("add {:?}", p)
        }
        2 => {
            x.subtract(&o);
            all(m, &|a, b| a - b);
            format!("subtract {:?}", p)
        }
        3 => {
            x.scale_pos(f);
            all(m, &|a, _| f * a);
            format!("scale_pos {:?}", f)
        }
        _ => {
            let f = Positive::new(f).expect("harness: positive");
            let mut q = Point2D::new(m[0], m[1]);
            q.increase_distance_to_by(&o, f);
            x.increase_distance_to_by(&o, f);
            *m = vec![q.x, q.y];
            format!("increase_distance_to_by {:?} {:?}", p, f)
        }
    }
}

/// Pipes of matrices: every addition and removal concerns one of its parts, a refused one none
fn pipe_session(c: &Ctx) -> Verdict {
    let t = &c.t;
    let bits4 = |m: &Matrix4| -> Vec<u64> { (0..16).map(|i| m.data[i / 4][i % 4].to_bits()).collect() };
    let bits_of = |m: &Matrix3| -> Vec<u64> { (0..9).map(|i| m.data[i / 3][i % 3].to_bits()).collect() };
    let v = |t: &Tape| -> f64 { t.range(0, 16) as f64 * 0.5 - 4.0 };
    if t.chance(1, 3) {
        let mut x = Matrix3Pipe::default();
        let mut model = [Matrix3::default(), Matrix3::default(), Matrix3::default()];
        for _ in 0..t.range(1, 10) {
            let (a, b) = (v(t), v(t));
            let op = t.below(6);
            match op {
                0 => (x.add_translation(a, b), model[0] = Matrix3::translation(a, b)).1,
                1 => (x.add_rotation(Rad(a)), model[1] = Matrix3::rotation(Rad(a))).1,
                2 => (x.add_scale(a, b), model[2] = Matrix3::scale(a, b)).1,
                3 => (x.remove_translation(), model[0] = Matrix3::default()).1,
                4 => (x.remove_rotation(), model[1] = Matrix3::default()).1,
                _ => (x.remove_scale(), model[2] = Matrix3::default()).1,
            }
            c.step();
            c.note(|| format!("Matrix3Pipe: operation {} ({}, {})", op, a, b));
            let now = [&x.mtranslation, &x.mrotation, &x.mscale].map(bits_of);
            let fresh = Matrix3Pipe { mtranslation: model[0].clone(), mrotation: model[1].clone(), mscale: model[2].clone() };
            if now != [&model[0], &model[1], &model[2]].map(bits_of) || bits_of(&x.result()) != bits_of(&fresh.result()) {
                bail!("pipe-differs", "Matrix3Pipe after operation {}: {:?} instead of {:?}", op, x, fresh);
            }
        }
        c.interesting();
        return Ok(());
    }
    let mut x = Matrix4Pipe::default();
    let mut fresh = Matrix4Pipe::default();
    for _ in 0..t.range(1, 12) {
        let (a, b, d) = (v(t), v(t), v(t));
        let op = t.below(14);
        let one = Matrix4::default;
        match op {
            0 => (x.add_translation(a, b, d), fresh.mtranslation = Matrix4::translation(a, b, d)).1,
            1 => (x.add_rotation(Rad(a), Rad(b), Rad(d)), fresh.mrotation = Matrix4::rotation(Rad(a), Rad(b), Rad(d))).1,
            2 => (x.add_scale(a, b, d), fresh.mscale = Matrix4::scale(a, b, d)).1,
            3 => (x.add_perspective(1.0, 5.0 + a, Rad(1.0)), fresh.mperspective = Matrix4::perspective(1.0, 5.0 + a, Rad(1.0))).1,
            4 => (x.add_camera_translation(a, b, d), fresh.mcamtrans = Matrix4::translation(-a, -b, -d)).1,
            5 => (x.remove_translation(), fresh.mtranslation = one()).1,
            6 => (x.remove_rotation(), fresh.mrotation = one()).1,
            7 => (x.remove_scale(), fresh.mscale = one()).1,
            8 => (x.remove_perspective(), fresh.mperspective = one()).1,
            9 => (x.remove_camera_translation(), fresh.mcamtrans = one()).1,
            10 => (x.remove_look_at(), fresh.mcamlook = one()).1,
            _ => {
                // a view direction without length is refused
                let zero = t.bool();
                let target = if zero { Point3D::new(0.0, 0.0, 0.0) } else { Point3D::new(a + 10.0, b, d) };
                let up = Norm3D::norm_z();
                let r = x.add_look_at(&target, &up);
                if r.is_ok() == zero {
                    bail!(if zero { "invalid-accepted" } else { "valid-refused" }, "Matrix4Pipe: look at {:?} -> {:?}", target, r);
                }
                if zero {
                    c.fault("view direction without length", 1);
                } else if let Ok(m) = Matrix4::look_at(&target, &up) {
                    fresh.mcamlook = m;
                }
            }
        }
        c.step();
        c.note(|| format!("Matrix4Pipe: operation {} ({}, {}, {})", op, a, b, d));
        let parts = |p: &Matrix4Pipe| [&p.mtranslation, &p.mrotation, &p.mscale, &p.mperspective, &p.mcamtrans, &p.mcamlook].map(bits4);
        if parts(&x) != parts(&fresh) || bits4(&x.result()) != bits4(&fresh.result()) {
            bail!("pipe-differs", "Matrix4Pipe after operation {}: {:?} instead of {:?}", op, x, fresh);
        }
    }
    c.interesting();
    Ok(())
}

macro_rules! shape {
    ($f:ident, $n:expr, $build:ident, $edit:ident, $more:ident, $from:expr, $set:expr, $xyz:expr) => {
        fn $f<S: $edit + $build + IsBuildableND + Clone>(c: &Ctx, name: &str, x: &mut S, rest: &dyn Fn(&S) -> Vec<f64>, mv: Option<&dyn Fn(&mut S, P3)>) -> Verdict {
            let t = &c.t;
            let mut model: Vec<f64> = [1.0, 2.0, 3.0][..$n].to_vec();
            let other = rest(x);
            for _ in 0..t.range(1, 12) {
                let p = pt(t);
                let q = p[..$n].to_vec();
                let what;
                match t.below(9) {
                    8 if mv.is_some() => {
                        (mv.expect("harness: movable"))(x, p);
                        (0..$n).for_each(|d| model[d] += p[d]);
                        what = format!("move_by {:?}", p);
                    }
                    6 | 7 => what = $more(t, x, &mut model, &p),
                    0 | 1 => {
                        let d = if t.bool() { t.usize_below($n) } else { *t.pick(&[$n, $n + 1, 255, 256, usize::MAX]) };
                        let r = x.set_position(d, p[0]);
                        what = format!("set_position({}, {:?})", d, p[0]);
                        if r.is_ok() != (d < $n) {
                            bail!(if r.is_ok() { "invalid-accepted" } else { "valid-refused" }, "{}: {} -> {:?}", name, what, r);
                        }
                        if d < $n {
                            model[d] = p[0];
                        } else {
                            c.fault("unknown dimension", 1);
                        }
                    }
                    2 => {
                        // a point of the right dimension, of the wrong one, or one that does not know all of itself
                        let known = t.below(1 << $n);
                        let v = |d: usize| if known >> d & 1 == 1 { Some(p[d]) } else { None };
                        let all = [v(0), v(1), if $n == 3 { v(2) } else { None }];
                        let (r, ok) = match t.below(4) {
                            0 => (x.from_nd(Point2D::new(p[0], p[1])), $n == 2),
                            1 => (x.from_nd(Point3D::new(p[0], p[1], p[2])), $n == 3),
                            2 => (x.from_nd(Partial::<$n>(all)), all[..$n].as_ref().iter().all(|v: &Option<f64>| v.is_some())),
                            _ => (x.from_nd(Partial::<4>([Some(p[0]), Some(p[1]), Some(p[2])])), false),
                        };
                        what = format!("from_nd of {:?}", p);
                        if r.is_ok() != ok {
                            bail!(if r.is_ok() { "invalid-accepted" } else { "valid-refused" }, "{}: {} -> {:?}", name, what, r);
                        }
                        if ok {
                            model = q;
                        } else {
                            c.fault("change to a point of another dimension", 1);
                        }
                    }
                    3 => {
                        $from(x, &p);
                        model = q;
                        what = format!("from {:?}", p);
                    }
                    4 => {
                        let d = t.usize_below($n);
                        $set(x, d, p[d]);
                        model[d] = p[d];
                        what = format!("set coordinate {}", d);
                    }
                    _ => {
                        let mut y = x.clone();
                        let _ = y.set_position(0, 1234.5);
                        what = "edit of a copy".to_string();
                        // one made of any number of coordinates
                        let k = t.usize_below($n + 3);
                        let q = [p[0], p[1], p[2], 1.0, 2.0, 3.0];
                        match S::new_nd(&q[..k]) {
                            Ok(z) => {
                                if k != $n || (0..$n).any(|d| z.position_nd(d).map(|v| v.to_bits()) != Some(q[d].to_bits())) {
                                    bail!("shape-differs", "{} of {:?} is at {:?}", name, &q[..k], $xyz(&z));
                                }
                            }
                            Err(e) => {
                                if k == $n {
                                    bail!("valid-refused", "{} of {:?} -> {:?}", name, &q[..k], e);
                                }
                                c.fault("wrong number of coordinates", 1);
                            }
                        }
                        if S::n_dimensions() != $n {
                            bail!("shape-differs", "{} claims {} dimensions", name, S::n_dimensions());
                        }
                    }
                }
                c.event(0);
                c.step();
                c.note(|| format!("{}: {}", name, what));
                let bits = |v: f64| if v.is_nan() { u64::MAX } else { v.to_bits() };
                let want: Vec<u64> = model.as_slice().iter().map(|v| bits(*v)).collect();
                let a: Vec<u64> = $xyz(x).iter().map(|v: &f64| bits(*v)).collect();
                let b: Vec<Option<u64>> = (0..$n + 2).map(|d| x.position_nd(d).map(bits)).collect();
                if a != want || rest(x) != other || (0..$n + 2).any(|d| b[d] != want.as_slice().get(d).cloned()) {
                    bail!("shape-differs", "{} after {}: it is at {:?} (size {:?}) instead of {:?} (size {:?})", name, what, $xyz(x), rest(x), model, other);
                }
            }
            c.interesting();
            Ok(())
        }
    };
}
shape!(shape3, 3, IsBuildable3D, IsEditable3D, more3, |x: &mut S, p: &P3| IsBuildable3D::from(x, &p3(p)), |x: &mut S, d: usize, v: f64| match d { 0 => x.set_x(v), 1 => x.set_y(v), _ => x.set_z(v) }, |x: &S| vec![x.x(), x.y(), x.z()]);
shape!(shape2, 2, IsBuildable2D, IsEditable2D, more2, |x: &mut S, p: &P3| IsBuildable2D::from(x, &Point2D::new(p[0], p[1])), |x: &mut S, d: usize, v: f64| match d { 0 => x.set_x(v), _ => x.set_y(v) }, |x: &S| vec![x.x(), x.y()]);
