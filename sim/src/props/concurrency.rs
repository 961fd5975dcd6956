//! C15: operations in flight at the same time. Two to four operations (loads, incremental loads, saves, queries and
//! algorithms on structures they share) are executed alone first, then together: on threads of which the simulator
//! lets exactly one proceed from one call into the environment to the next, or nested in one another through such
//! calls. Every one must end as it did alone.
use crate::docs::{Fmt, FMTS};
use crate::fuse::tick;
use crate::load::{bulk, incremental, Api, Containers, P3};
use crate::props::algos::coord;
use crate::props::interrupts::{bombs, draw_box, draw_points, dump, Bomb, Boxy, Boxy2, Finder};
use crate::props::loading::{damage, draw_doc, draw_setup};
use crate::props::saving::Art;
use crate::props::selections::{draw_sel, draw_view, MV};
use crate::seam;
use crate::simio::{AnyReader, Plan, Sink, SinkPlan, Stats};
use crate::tape::{mix, mix_bytes, Tape};
use crate::world::{Ctx, Verdict};
use rust_3d::io::{save_xy, save_xyz};
use rust_3d::*;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::Arc;
use std::time::Duration;

type Mesh = Mesh3D<Bomb, PointCloud3D<Bomb>, U32IndexVec>;

/// What several operations use at the same time, none of them changing it
struct Common {
    kd: KdTree<Bomb>,
    oc: OcTree<Bomb>,
    boxes: AABBTree3D<Boxy>,
    boxes2: AABBTree2D<Boxy2>,
    adjacent: SearchableMesh<Mesh, Bomb, U32IndexVec>,
    cluster: Option<Cluster<Boxy>>,
    mesh: Mesh,
    cloud: PointCloud3D<Bomb>,
    deque: VecDeque<Bomb>,
    /// what outlier filters look for; each operation has a filter of its own: they keep a cache, and are not Sync
    near: (Positive, usize),
    ps: Vec<P3>,
    plain: Vec<Point3D>,
}

impl Common {
    fn outlier(&self) -> FilterOutlier3D<Finder, Point3D> {
        FilterOutlier3D::new(Finder { ps: self.ps.clone(), calls: Cell::new(0) }, self.near.0, self.near.1)
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Out {
    text: String,
    log: u64,
}
#[derive(Default)]
struct Side {
    reads: Option<Stats>,
    writes: Option<Stats>,
}
/// An operation; it owns its streams and sinks, and shares what is in Common
struct Op {
    what: String,
    run: Box<dyn Fn(&Common, &mut Side) -> String>,
}

/// The simulator lets one thread proceed at a time, and waits for it
struct Handed<T>(T);
unsafe impl<T> Send for Handed<T> {}
unsafe impl<T> Sync for Handed<T> {}
impl<T> Handed<T> {
    fn into(self) -> T {
        self.0
    }
}

fn perform(op: &Op, common: &Common) -> (Out, Side) {
    let mut side = Side::default();
    let text = match catch_unwind(AssertUnwindSafe(|| (op.run)(common, &mut side))) {
        Ok(t) => t,
        Err(e) => format!("panic: {}", crate::runner::payload_text(&*e)),
    };
    let mut log = mix_bytes(0, text.as_bytes());
    for s in [&side.reads, &side.writes] {
        if let Some(s) = s {
            log = mix(log, s.log);
        }
    }
    (Out { text, log }, side)
}

//------------------------------------------------------------------------------

fn load_op(c: &Ctx, fmts: &[Fmt]) -> Op {
    let t = &c.t;
    let doc = draw_doc(c, fmts, 10);
    let mut s = draw_setup(c, &doc, false);
    let bytes = match t.below(4) {
        0 => damage(c, &doc),
        1 => doc.bytes[..t.usize_below(doc.bytes.len() + 1)].to_vec(),
        _ => doc.bytes.clone(),
    };
    s.budget = bytes.len() + 64;
    let mut plan = Plan::draw(t, &doc.boundaries());
    if t.chance(1, 4) {
        plan = plan.with_fault(t, t.usize_below(bytes.len() + 1));
    }
    let single = t.bool() && s.api != Api::PlyEither;
    c.note(|| format!("bytes {}, plan {:?}", crate::props::loading::show(&bytes), plan));
    let what = format!("{} {:?}", if single { "incremental load" } else { "load" }, s.api);
    Op {
        what,
        run: Box::new(move |_, side| {
            let mut r = AnyReader::new(Rc::new(bytes.clone()), &plan);
            let stats = r.stats();
            let text = if single {
                let mut v = vec![];
                match incremental(s.api, s.stl, &mut r) {
                    Err(e) => v.push(format!("{:?}", e)),
                    Ok(it) => {
                        for x in it.take(bytes.len() + 64) {
                            v.push(format!("{:?}", x))
                        }
                    }
                }
                format!("{:?} {}", v, r.consumed())
            } else {
                let mut k = Containers::new(&s);
                let o = bulk(&s, &mut k, &mut r);
                format!("{:?} {:?} {}", o, k.data(&s), r.consumed())
            };
            let st = stats.borrow().clone();
            side.reads = Some(st);
            text
        }),
    }
}

fn save_op(c: &Ctx) -> Op {
    let t = &c.t;
    let mut plan = SinkPlan::draw(t);
    let at = t.usize_below(400);
    if t.chance(1, 4) {
        plan = plan.with_fault(t, at);
    }
    if t.chance(1, 3) {
        // what is saved is shared
        let two = t.bool();
        let delim = *t.pick(&[" ", ";"]);
        return Op {
            what: "save of a shared cloud".into(),
            run: Box::new(move |k, side| {
                let mut sink = Sink::new(plan.clone());
                let r = if two { save_xy(&mut sink, &k.cloud, delim, "\n").map_err(|e| format!("{:?}", e)) } else { save_xyz(&mut sink, &k.deque, delim, "\n").map_err(|e| format!("{:?}", e)) };
                side.writes = Some(sink.stats.clone());
                format!("{:?} {:?}", r, sink.accepted)
            }),
        };
    }
    let a = Art::draw(c, true, 8);
    Op {
        what: format!("save {:?}", a.kind),
        run: Box::new(move |_, side| {
            let mut sink = Sink::new(plan.clone());
            let r = a.save(&mut sink);
            side.writes = Some(sink.stats.clone());
            format!("{:?} {:?}", r, sink.accepted)
        }),
    }
}

fn flat(b: &BoundingBox3D) -> BoundingBox2D {
    BoundingBox2D::new(&Point2D::new(b.min_p().x, b.min_p().y), &Point2D::new(b.max_p().x, b.max_p().y)).ok().expect("harness: box")
}

fn mesh_text(m: &Mesh) -> String {
    let v: Vec<[u64; 3]> = (0..m.num_vertices()).map(|i| m.vertex(VId(i)).map(|x| x.bits()).unwrap_or_default()).collect();
    let f: Vec<_> = (0..m.num_faces()).map(|i| m.face_vertex_ids(FId(i))).collect();
    format!("{:?} {:?}", v, f)
}

fn query_op(c: &Ctx, kind: u64) -> Op {
    let t = &c.t;
    let q = Point3D::new(coord(t, 1.0), coord(t, 1.0), coord(t, 1.0));
    let r = Positive::new(t.below(9) as f64 + 0.5).expect("harness: positive");
    let k = t.range(0, 5);
    let kind = if kind < 21 { kind } else { t.below(21) };
    let depth = *t.pick(&[-1i8, 0, 1, 2]);
    let m = t.range(2, 4);
    let bb = draw_box(t);
    let size = t.range(1, 4) as f64 * 0.5;
    let ps: Vec<P3> = draw_points(t, t.size(8));
    c.note(|| format!("query {} about {:?} {:?} {} {} {:?}; own points {:?}", kind, q, r, k, depth, bb, ps));
    let names = ["k nearest", "in sphere", "in box", "octree collect", "box tree", "cluster candidates", "heal_mesh", "cluster_vertices", "subdivide", "unify_faces", "outlier filter", "append of a shared cloud", "mesh access", "octree build", "k-d tree build", "flat box tree", "adjacency", "texts", "summaries", "outlines", "compression"];
    Op {
        what: names[kind as usize].into(),
        run: Box::new(move |s, _| {
            let mut v = vec![];
            match kind {
                0 => s.kd.knearest(&q, k, &mut v),
                1 => s.kd.in_sphere(&Sphere { center: q.clone(), radius: r }, &mut v),
                2 => s.kd.in_box(&Box3D { center: q.clone(), size_x: r, size_y: r, size_z: r }, &mut v),
                3 => v = s.oc.collect(depth).data,
                4 => {
                    let mut ids = vec![];
                    s.boxes.for_each_collision_candidate(&bb, &mut |b| {
                        tick();
                        ids.push(b.id)
                    });
                    let mut r = vec![];
                    s.boxes.bb_colliding(&bb, &mut r);
                    let any = s.boxes.any(&|b| {
                        tick();
                        b.id % m == 1
                    });
                    return format!("{:?} {:?} {}", ids, r.into_iter().map(|b| b.id).collect::<Vec<_>>(), any);
                }
                5 => {
                    let mut ids = vec![];
                    if let Some(ref k) = s.cluster {
                        k.for_each_candidate(q.x, q.y, &mut |b| {
                            tick();
                            ids.push(b.id)
                        });
                    }
                    return format!("{:?}", ids);
                }
                6 => return heal_mesh(&s.mesh).map(|m| mesh_text(&m)).unwrap_or_default(),
                7 => return cluster_vertices(&s.mesh, size).map(|m| mesh_text(&m)).unwrap_or_default(),
                8 => return subdivide::linear::<Bomb, Mesh, Mesh>(&s.mesh).map(|m| mesh_text(&m)).unwrap_or_default(),
                9 => return unify_faces(&s.mesh).map(|m| mesh_text(&m)).unwrap_or_default(),
                10 => {
                    let f = s.outlier();
                    return format!("{:?}", ps.iter().map(|p| f.is_allowed(&Point3D::new(p[0], p[1], p[2]))).collect::<Vec<_>>());
                }
                11 => {
                    let mut own = PointCloud3D { data: bombs(&ps) };
                    own.append_ra(&s.cloud);
                    own.append_ra(&s.deque);
                    own.sort_x();
                    v = own.data;
                }
                12 => {
                    let n = s.mesh.num_faces();
                    return format!("{} {:?} {:?}", mesh_text(&s.mesh), (0..n).map(|i| s.mesh.face_vertices(FId(i)).map(|x| dump(x.iter()))).collect::<Vec<_>>(), s.mesh.bounding_box_maybe());
                }
                14 => {
                    let mut own: KdTree<Bomb> = KdTree::default();
                    let ok = own.build(PointCloud3D { data: bombs(&ps) }).is_ok();
                    own.knearest(&q, k, &mut v);
                    return format!("{} {} {:?} {:?}", ok, own.size(), dump(&v), own.nearest(&q).map(|x| x.bits()));
                }
                15 => {
                    let flat = flat(&bb);
                    let mut ids = vec![];
                    s.boxes2.for_each_collision_candidate(&flat, &mut |b| {
                        tick();
                        ids.push(b.id)
                    });
                    let (mut r, mut x, mut y) = (vec![], vec![], vec![]);
                    s.boxes2.bb_colliding(&flat, &mut r);
                    s.boxes2.bb_crossing_x_value(q.x, &mut x);
                    s.boxes2.bb_crossing_y_value(q.y, &mut y);
                    let any = s.boxes2.any(&|b| {
                        tick();
                        b.id % m == 1
                    });
                    let id = |v: Vec<&Boxy2>| v.into_iter().map(|b| b.id).collect::<Vec<_>>();
                    return format!("{:?} {:?} {:?} {:?} {}", ids, id(r), id(x), id(y), any);
                }
                16 => {
                    let own: SearchableMesh<Mesh, Bomb, U32IndexVec> = SearchableMesh::new(s.mesh.clone());
                    let mut text = String::new();
                    for a in vec![&own, &s.adjacent] {
                        for i in 0..a.num_vertices() + 1 {
                            let (mut e, mut f, mut cache) = (vec![], vec![], vec![]);
                            let ok = [a.edges_of_vertex(VId(i), &mut cache, &mut e).is_ok(), a.faces_of_vertex(VId(i), &mut cache, &mut f).is_ok()];
                            tick();
                            text += &format!("{:?} {:?} {:?} ", ok, e, f);
                        }
                        for i in 0..a.num_faces() {
                            let (mut e, mut f, mut cache) = (vec![], vec![], vec![]);
                            let ok = [a.face_edge_neighbours(FId(i), &mut e).is_ok(), a.face_vertex_neighbours(FId(i), &mut cache, &mut f).is_ok()];
                            tick();
                            text += &format!("{:?} {:?} {:?} {:?}", ok, e, f, a.edge_twin(EId(3 * i)));
                        }
                    }
                    return text;
                }
                17 => {
                    let two = PointCloud2D { data: bombs(&ps) };
                    let back: Result<PointCloud3D<Point3D>> = PointCloud3D::parse(&s.cloud.to_str());
                    return format!("{} {} {:?}", two.to_str(), s.cloud.to_str(), back.map(|x| x.data.len()).ok());
                }
                18 => {
                    let two = PointCloud2D { data: bombs(&ps) };
                    return format!(
                        "{:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                        s.cloud.center_of_gravity(),
                        s.cloud.bounding_box_maybe(),
                        s.mesh.center_of_gravity(),
                        two.center_of_gravity(),
                        two.bounding_box_maybe(),
                        two.length(),
                        s.cloud.length()
                    );
                }
                19 => {
                    let two = PointCloud2D { data: bombs(&ps) };
                    let curve = interpolate_bezier(&two, 4).map(|x| dump(&x.data)).ok();
                    let cosine = interpolate_cosine(&two, 4).map(|x| dump(&x.data)).ok();
                    let line = interpolation_linear(&two, 4).map(|x| dump(&x.data)).ok();
                    let hull = if ps.is_empty() { vec![] } else { dump(&convex_hull_2d(&two.data)) };
                    return format!("{:?} {:?} {:?} {:?} {:?}", hull, curve, cosine, line, dump(&douglas_peucker_2d(two, size).data));
                }
                20 => {
                    let pressed: Result<CompressedPointCloud3D<u8>> = CompressedPointCloud3D::compress(&s.cloud);
                    return format!("{:?}", pressed.map(|x| dump(&x.decompress::<Bomb>().data)).ok());
                }
                _ => {
                    let mut own: OcTree<Bomb> = OcTree::default();
                    let ok = own.build(PointCloud3D { data: bombs(&ps) }).is_ok();
                    return format!("{} {} {:?}", ok, own.size(), dump(&own.collect(depth).data));
                }
            }
            format!("{:?}", dump(&v))
        }),
    }
}

fn filter_op(c: &Ctx, n: usize) -> Op {
    let t = &c.t;
    let sel = draw_sel(t, 3);
    let start = draw_view(t, n);
    let outlier = t.chance(1, 3);
    c.note(|| format!("filter {} of view {:?}", if outlier { "FilterOutlier3D".to_string() } else { format!("{:?}", sel) }, start));
    Op {
        what: "filter over a view".into(),
        run: Box::new(move |s, _| {
            let mut v = start.real();
            if outlier {
                let f = FilterRandomAccessible::new(s.outlier());
                IsFilterRandomAccessible::<Vec<Point3D>, Point3D>::filter(&f, &s.plain, &mut v);
            } else {
                sel.real::<Vec<Point3D>>().filter(&s.plain, &mut v);
            }
            let mut own = s.plain.clone();
            let ok = own.apply_view(&v).is_ok();
            format!("{:?} {} {:?}", MV::from(&v), ok, own.iter().map(|p| [p.x, p.y, p.z]).collect::<Vec<_>>())
        }),
    }
}

fn common(c: &Ctx) -> Common {
    let t = &c.t;
    let n = t.range(0, 8);
    let ps = draw_points(t, n);
    let boxes: Vec<Boxy> = (0..t.range(0, 6)).map(|id| Boxy { id, bb: draw_box(t), own: t.bool() }).collect();
    let mv: Vec<P3> = (0..t.range(3, 7)).map(|_| [t.below(3) as f64, t.below(3) as f64, t.below(2) as f64]).collect();
    let mut mesh = Mesh::default();
    for p in &mv {
        mesh.add_vertex(Bomb::at(p));
    }
    for _ in 0..t.range(0, 4) {
        let _ = mesh.try_add_connection(VId(t.usize_below(mv.len())), VId(t.usize_below(mv.len())), VId(t.usize_below(mv.len())));
    }
    let radius = t.below(9) as f64 + 0.5;
    let near = t.range(0, 3);
    c.note(|| format!("shared: points {:?}, boxes {:?}, mesh {}, outliers {} {}", ps, boxes.iter().map(|b| &b.bb).collect::<Vec<_>>(), mesh_text(&mesh), radius, near));
    let mut kd = KdTree::default();
    let _ = kd.build(PointCloud3D { data: bombs(&ps) });
    let mut oc = OcTree::default();
    let _ = oc.build(PointCloud3D { data: bombs(&ps) });
    Common {
        kd,
        oc,
        cluster: if boxes.is_empty() { None } else { Cluster::new(boxes.clone(), 2, 2).ok() },
        boxes2: AABBTree2D::new(boxes.iter().map(|b| Boxy2 { id: b.id, bb: flat(&b.bb) }).collect(), 4, 2),
        boxes: AABBTree3D::new(boxes, 4, 2),
        adjacent: SearchableMesh::new(mesh.clone()),
        mesh,
        cloud: PointCloud3D { data: bombs(&ps) },
        deque: bombs(&ps).into_iter().rev().collect(),
        near: (Positive::new(radius).expect("harness: positive"), near),
        ps: ps.clone(),
        plain: ps.iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect(),
    }
}

//------------------------------------------------------------------------------

pub fn c15(c: &Ctx) -> Verdict {
    let t = &c.t;
    let com = common(c);
    let n = t.range(2, 4);
    // mostly loads of the same format: they have most in common
    let one = [*t.pick(&FMTS)];
    let fmts: &[Fmt] = if t.chance(2, 3) { &one } else { &FMTS };
    // and often the same query: nothing has more in common with an operation than itself
    let kind = if t.chance(2, 3) { t.below(21) } else { 99 };
    let mut ops = vec![];
    for _ in 0..n {
        let op = match t.below(8) {
            0 | 1 | 2 => load_op(c, fmts),
            3 => save_op(c),
            4 | 5 | 6 => query_op(c, kind),
            _ => filter_op(c, com.plain.len()),
        };
        c.note(|| format!("operation {}: {}", ops.len(), op.what));
        ops.push(op);
    }
    let ops = Rc::new(ops);
    let com = Rc::new(com);
    // each alone
    let alone: Vec<Out> = ops.iter().map(|o| perform(o, &com).0).collect();
    let (got, switches) = if t.chance(1, 3) { threads(c, &ops, com.clone())? } else { nested(c, &ops, com.clone()) };
    c.note(|| format!("{} switches", switches));
    if switches > 0 {
        c.interesting();
    }
    for (i, (o, side)) in got.iter().enumerate() {
        if let Some(ref s) = side.reads {
            c.stream(s);
        }
        if let Some(ref s) = side.writes {
            c.sink(s);
        }
        c.event(o.log);
        if o.text != alone[i].text {
            bail!("disturbed", "{} (operation {}): alone it ends as {}; with the others in flight as {}", ops[i].what, i, clip(&alone[i].text), clip(&o.text));
        }
    }
    // and once more alone: nothing was left behind
    for (i, o) in ops.iter().enumerate() {
        let again = perform(o, &com).0;
        if again.text != alone[i].text {
            bail!("disturbed", "{} (operation {}): alone it ends as {}; alone again, after the others, as {}", o.what, i, clip(&alone[i].text), clip(&again.text));
        }
    }
    Ok(())
}
fn clip(s: &str) -> String {
    s.chars().take(700).collect()
}

/// How many points pass until the next switch
fn stretch(t: &Tape) -> u64 {
    match t.below(4) {
        0 => t.below(3),
        1 | 2 => t.below(20),
        _ => t.below(200),
    }
}

type Got = Vec<(Out, Side)>;

/// Operations starting inside one another, to their end
fn nested(c: &Ctx, ops: &Rc<Vec<Op>>, com: Rc<Common>) -> (Got, u64) {
    struct State {
        t: Tape,
        left: Cell<u64>,
        pending: RefCell<Vec<usize>>,
        out: RefCell<Vec<Option<(Out, Side)>>>,
        switches: Cell<u64>,
    }
    let st = Rc::new(State {
        t: c.t.clone(),
        left: Cell::new(stretch(&c.t)),
        pending: RefCell::new((1..ops.len()).rev().collect()),
        out: RefCell::new((0..ops.len()).map(|_| None).collect()),
        switches: Cell::new(0),
    });
    let (s2, o2, k2) = (st.clone(), ops.clone(), com.clone());
    seam::install(Some(Rc::new(move || {
        if s2.left.get() > 0 {
            s2.left.set(s2.left.get() - 1);
            return;
        }
        let next = s2.pending.borrow_mut().pop();
        if let Some(i) = next {
            s2.switches.set(s2.switches.get() + 1);
            s2.left.set(stretch(&s2.t));
            let r = perform(&o2[i], &k2);
            s2.out.borrow_mut()[i] = Some(r);
        }
    })));
    let r = perform(&ops[0], &com);
    st.out.borrow_mut()[0] = Some(r);
    // those that did not get their turn
    loop {
        let next = st.pending.borrow_mut().pop();
        match next {
            None => break,
            Some(i) => {
                let r = perform(&ops[i], &com);
                st.out.borrow_mut()[i] = Some(r);
            }
        }
    }
    seam::install(None);
    let n = st.switches.get();
    c.fault("operation started inside another", n);
    let got = st.out.borrow_mut().iter_mut().map(|x| x.take().expect("harness: operation without outcome")).collect();
    (got, n)
}

enum Msg {
    Paused,
    Done(usize, Handed<(Out, Side)>),
}

/// Operations on threads of their own, one proceeding at a time
fn threads(c: &Ctx, ops: &Rc<Vec<Op>>, com: Rc<Common>) -> std::result::Result<(Got, u64), crate::world::Viol> {
    let n = ops.len();
    let (tx, rx) = channel::<Msg>();
    let mut go: Vec<Sender<u64>> = vec![];
    let mut handles = vec![];
    // kept alive by the threads, should one never return
    let shared: Arc<Handed<(*const Vec<Op>, *const Common)>> = Arc::new(Handed((Rc::as_ptr(ops), Rc::as_ptr(&com))));
    for i in 0..n {
        let (gtx, grx): (Sender<u64>, Receiver<u64>) = channel();
        go.push(gtx);
        let tx = tx.clone();
        let shared = shared.clone();
        let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            let first = match grx.recv() {
                Ok(x) => x,
                Err(_) => return,
            };
            let left = Cell::new(first);
            let tx2 = tx.clone();
            seam::install(Some(Rc::new(move || {
                if left.get() > 0 {
                    left.set(left.get() - 1);
                    return;
                }
                let _ = tx2.send(Msg::Paused);
                match grx.recv() {
                    Ok(x) => left.set(x),
                    // the simulation is over
                    Err(_) => left.set(u64::MAX),
                }
            })));
            // the simulator keeps both alive until every thread is through, and lets one proceed at a time
            let (ops, com) = shared.0;
            let r = unsafe { perform(&(&*ops)[i], &*com) };
            seam::install(None);
            let _ = tx.send(Msg::Done(i, Handed(r)));
        });
        handles.push(h.expect("harness: spawn"));
    }
    let mut out: Vec<Option<(Out, Side)>> = (0..n).map(|_| None).collect();
    let mut open: Vec<usize> = (0..n).collect();
    let mut switches = 0;
    let mut last = usize::MAX;
    while !open.is_empty() {
        let i = open[c.t.usize_below(open.len())];
        let k = if open.len() == 1 { u64::MAX } else { stretch(&c.t) };
        if i != last && last != usize::MAX {
            switches += 1;
        }
        last = i;
        c.step();
        c.event(mix(i as u64, k));
        let _ = go[i].send(k);
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(Msg::Paused) => {}
            Ok(Msg::Done(i, r)) => {
                out[i] = Some(r.into());
                open.retain(|x| *x != i);
            }
            Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => {
                // whatever it waits for is held by one that waits for its turn
                std::mem::forget(com);
                std::mem::forget(ops.clone());
                bail!("blocked", "{} (operation {}) does not proceed while the others pause: {:?}", ops[i].what, i, open.as_slice().iter().map(|x| ops[*x].what.as_str()).collect::<Vec<_>>());
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    c.fault("switch between threads", switches);
    Ok((out.into_iter().map(|x| x.expect("harness: operation without outcome")).collect(), switches))
}
