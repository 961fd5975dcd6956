//! C08, C09: saving to simulated sinks, and what storage gives back after a crash
use crate::docs::{self, RK};
use crate::load::*;
use crate::props::loading::{self, show};
use crate::simio::{Plan, Sink, SinkPlan};
use crate::tape::{mix_bytes, Tape};
use crate::world::{Ctx, Verdict};
use rust_3d::io::*;
use rust_3d::{IsEditablePolygon, Point2D, Point3D, PointCloud2D, PointCloud3D, Polygon2D, Polygon3D, Precision, Rgb};
type Result<T, E> = std::result::Result<T, E>;
use std::collections::VecDeque;
use std::io::{BufWriter, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SK {
    Xy,
    Xyz,
    PlyAscii,
    PlyAsciiColored,
    PlyBin32,
    PlyBin64,
    PlyBin32Colored,
    PlyBin64Colored,
    StlAscii,
}
pub const SKS: [SK; 9] = [SK::Xy, SK::Xyz, SK::PlyAscii, SK::PlyAsciiColored, SK::PlyBin32, SK::PlyBin64, SK::PlyBin32Colored, SK::PlyBin64Colored, SK::StlAscii];
impl SK {
    pub fn is_mesh(self) -> bool {
        !matches!(self, SK::Xy | SK::Xyz)
    }
    fn is_ply(self) -> bool {
        self.is_mesh() && self != SK::StlAscii
    }
    fn is_text(self) -> bool {
        matches!(self, SK::Xy | SK::Xyz | SK::PlyAscii | SK::PlyAsciiColored | SK::StlAscii)
    }
    fn colored(self) -> bool {
        matches!(self, SK::PlyAsciiColored | SK::PlyBin32Colored | SK::PlyBin64Colored)
    }
    fn p32(self) -> bool {
        matches!(self, SK::PlyBin32 | SK::PlyBin32Colored)
    }
}

/// A value somebody may want to store
pub fn value(t: &Tape, wild: bool) -> f64 {
    match t.below(10) {
        0 => t.below(10) as f64,
        1 => -(t.below(1000) as f64) / 8.0,
        2 => t.below(1_000_000) as f64 / 1000.0,
        3 => (t.below(2_000_000) as f64 - 1e6) / 7.0,
        4 => [0.0, -0.0, 1.0, -1.0, 0.1, 1e10, 123456789.0][t.usize_below(7)],
        5 => f64::from_bits((t.u64() & 0x800F_FFFF_FFFF_FFFF) | ((1023 - 30 + t.below(60)) << 52)),
        6 => [f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e300, -1e-300, f32::MAX as f64, 3.5e38, 1e-45, 16777217.0][t.usize_below(10)],
        7 if wild => [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][t.usize_below(3)],
        8 => {
            let x = f64::from_bits(t.u64());
            if x.is_finite() || wild {
                x
            } else {
                2.5
            }
        }
        _ => t.below(100) as f64 / 4.0,
    }
}

/// What is to be saved, and how
pub struct Art {
    pub kind: SK,
    pub points: Vec<P3>,
    pub faces: Vec<[usize; 3]>,
    pub colors: Vec<Rgb>,
    pub delim: &'static str,
    pub eol: &'static str,
    pub pk: PointKind,
    pub mk: MeshKind,
    mesh: MTarget,
}
impl Art {
    pub fn draw(c: &Ctx, wild: bool, max: usize) -> Self {
        let t = &c.t;
        let kind = *t.pick(&SKS);
        let large = t.chance(1, 300);
        let huge = large && t.chance(1, 20);
        let n = if huge { 90_000 } else if large { t.range(200, 900) } else { t.size(max) };
        c.hit_if(huge, "more vertices than 16 bits can number");
        if huge {
            t.begin_bulk();
        }
        let simple = t.chance(1, 3);
        let mut points: Vec<P3> = vec![];
        for _ in 0..n {
            let p = if !points.is_empty() && t.chance(1, 8) {
                *t.pick(&points)
            } else if simple {
                [t.below(5) as f64, t.below(5) as f64, t.below(5) as f64]
            } else {
                [value(t, wild), value(t, wild), value(t, wild)]
            };
            points.push(p);
        }
        let mut faces = vec![];
        if kind.is_mesh() && n >= 3 {
            for _ in 0..t.size(max).min(3 * n) {
                let a = t.usize_below(n);
                let b = (a + t.range(1, n - 1)) % n;
                let mut k = (b + t.range(1, n - 1)) % n;
                if k == a {
                    k = (k + 1) % n;
                }
                if k == b {
                    k = (k + 1) % n;
                }
                if k != a && k != b {
                    faces.push([a, b, k]);
                }
            }
        }
        let colors = (0..n).map(|_| if kind.colored() { Rgb::new(t.below(256) as u8, t.below(256) as u8, t.below(256) as u8) } else { Rgb::default() }).collect();
        t.end_bulk();
        let delim = *t.pick(&[" ", ";", ",", "\t", "  ", ";;"]);
        let eol = *t.pick(&["\n", "\r\n"]);
        let pk = *t.pick(&[PointKind::Vec, PointKind::Deque, PointKind::Cloud]);
        let mk = *t.pick(&MESH_KINDS);
        let mesh = if kind.is_mesh() { MTarget::with(mk, &MeshData { verts: points.clone(), faces: faces.clone() }) } else { MTarget::new(mk) };
        if kind.is_mesh() {
            points = mesh.dump().verts;
        }
        c.event_str(&format!("{:?} {} {}", kind, points.len(), faces.len()));
        c.note(|| format!("save {:?}: {} points {:?}, faces {:?}, delimiter {:?}, line end {:?}, containers {:?} / {:?}", kind, points.len(), &points[..points.len().min(20)], &faces[..faces.len().min(20)], delim, eol, pk, mk));
        Art { kind, points, faces, colors, delim, eol, pk, mk, mesh }
    }
    pub fn save<W: Write>(&self, w: &mut W) -> Result<(), String> {
        fn s<E: std::fmt::Debug>(e: E) -> String {
            format!("{:?}", e)
        }
        let m = &self.mesh;
        match self.kind {
            SK::Xy => {
                let it = self.points.iter().map(|p| Point2D::new(p[0], p[1]));
                match self.pk {
                    PointKind::Vec => save_xy(w, &it.collect::<Vec<_>>(), self.delim, self.eol).map_err(s),
                    PointKind::Deque => save_xy(w, &it.collect::<VecDeque<_>>(), self.delim, self.eol).map_err(s),
                    _ => save_xy(w, &PointCloud2D { data: it.collect() }, self.delim, self.eol).map_err(s),
                }
            }
            SK::Xyz => {
                let it = self.points.iter().map(|p| Point3D::new(p[0], p[1], p[2]));
                match self.pk {
                    PointKind::Vec => save_xyz(w, &it.collect::<Vec<_>>(), self.delim, self.eol).map_err(s),
                    PointKind::Deque => save_xyz(w, &it.collect::<VecDeque<_>>(), self.delim, self.eol).map_err(s),
                    _ => save_xyz(w, &PointCloud3D { data: it.collect() }, self.delim, self.eol).map_err(s),
                }
            }
            SK::PlyAscii => save_ply_ascii(w, m).map_err(s),
            SK::PlyAsciiColored => save_ply_ascii_colored(w, m, &self.colors).map_err(s),
            SK::PlyBin32 => save_ply_binary(w, m, &Precision::P32).map_err(s),
            SK::PlyBin64 => save_ply_binary(w, m, &Precision::P64).map_err(s),
            SK::PlyBin32Colored => save_ply_binary_colored(w, m, &Precision::P32, &self.colors).map_err(s),
            SK::PlyBin64Colored => save_ply_binary_colored(w, m, &Precision::P64, &self.colors).map_err(s),
            SK::StlAscii => save_stl_ascii(w, m).map_err(s),
        }
    }
    /// The records a document holding this data consists of
    fn records(&self) -> Vec<RK> {
        let r = |p: &P3| -> P3 {
            if self.kind.p32() {
                [p[0] as f32 as f64, p[1] as f32 as f64, p[2] as f32 as f64]
            } else if self.kind == SK::Xy {
                [p[0], p[1], 0.0]
            } else {
                *p
            }
        };
        if self.kind == SK::StlAscii {
            return self.faces.iter().map(|f| RK::T([self.points[f[0]], self.points[f[1]], self.points[f[2]], [0.0, 0.0, 0.0]])).collect();
        }
        let mut v: Vec<RK> = self.points.iter().map(|p| RK::V(r(p))).collect();
        v.extend(self.faces.iter().map(|f| RK::F(*f)));
        v
    }
}

/// Saves through the planned sink; the result the caller sees (a final flush included) and what was accepted
pub fn save_to(c: &Ctx, a: &Art, plan: &SinkPlan) -> (Result<(), String>, Sink) {
    write_to(c, plan, &mut |mut w| a.save(&mut w))
}
fn write_to(c: &Ctx, plan: &SinkPlan, f: &mut dyn FnMut(&mut dyn Write) -> Result<(), String>) -> (Result<(), String>, Sink) {
    let mut sink = Sink::new(plan.clone());
    let r = match plan.bufwriter {
        None => {
            let r = f(&mut sink);
            r.and_then(|_| sink.flush().map_err(|e| e.to_string()))
        }
        Some(n) => {
            let mut w = BufWriter::with_capacity(n, sink);
            let r = f(&mut w).and_then(|_| w.flush().map_err(|e| e.to_string()));
            // nothing more reaches the sink
            sink = w.into_parts().0;
            r
        }
    };
    c.sink(&sink.stats);
    c.event(sink.accepted.len() as u64);
    c.note(|| format!("sink {:?} -> {:?}, {} bytes accepted in {} calls", plan, r, sink.accepted.len(), sink.stats.calls));
    (r, sink)
}

pub fn ideal(a: &Art) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    a.save(&mut v)?;
    Ok(v)
}

/// Offsets worth failing at: everything near line ends, near the end, anywhere
fn draw_at(t: &Tape, b: &[u8]) -> usize {
    match t.below(4) {
        0 => t.usize_below(b.len() + 1),
        1 => b.len() - t.usize_below(b.len().min(12) + 1),
        2 => {
            let nl: Vec<usize> = b.iter().enumerate().filter(|(_, x)| **x == b'\n').map(|(i, _)| i + 1).collect();
            if nl.is_empty() {
                return t.usize_below(b.len() + 1);
            }
            let k = *t.pick(&nl) + t.range(0, 2);
            k.saturating_sub(1).min(b.len())
        }
        _ => b.len() / 2 + t.usize_below(b.len() / 2 + 1),
    }
}

/// Something printed through its Display implementation
fn printed(c: &Ctx) -> Verdict {
    let t = &c.t;
    let n = t.size(60);
    let p: Vec<P3> = (0..n).map(|_| [value(t, true), value(t, true), value(t, true)]).collect();
    let p2 = p.as_slice().iter().map(|p| Point2D::new(p[0], p[1])).collect::<Vec<_>>();
    let p3 = p.as_slice().iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect::<Vec<_>>();
    let kind = t.below(6);
    let x: Box<dyn std::fmt::Display> = match kind {
        0 => Box::new(PointCloud2D { data: p2 }),
        1 => Box::new(PointCloud3D { data: p3 }),
        2 => {
            let mut x = Polygon2D::default();
            for p in p2 {
                x.add_vertex(p);
            }
            Box::new(x)
        }
        3 => {
            let mut x = Polygon3D::default();
            for p in p3 {
                x.add_vertex(p);
            }
            Box::new(x)
        }
        4 => Box::new(p2.into_iter().next().unwrap_or(Point2D::new(1.0, 2.0))),
        _ => Box::new(p3.into_iter().next().unwrap_or(Point3D::new(1.0, 2.0, 3.0))),
    };
    let want = x.to_string().into_bytes();
    // everything it holds is in there, in order
    if kind < 4 && want.iter().filter(|b| **b == b'\n').count() < n {
        bail!("refused", "kind {}: {} points printed as {}", kind, n, show(&want));
    }
    let mut plan = SinkPlan::draw(t);
    if t.chance(1, 4) {
        plan.bufwriter = Some(*t.pick(&[1usize, 7, 16, 64, 512, 8192]));
    }
    if t.chance(3, 5) {
        let at = draw_at(t, &want);
        plan = plan.with_fault(t, at);
    }
    let (r, sink) = write_to(c, &plan, &mut |w| write!(w, "{}", x).map_err(|e| e.to_string()));
    c.event(mix_bytes(kind, &want));
    c.hit(&format!("printed kind {} {}", kind, if r.is_ok() { "written" } else { "not written" }));
    if !want.starts_with(&sink.accepted) {
        bail!("not-a-prefix", "printing kind {}: what the sink accepted is no prefix of the text", kind);
    }
    if r.is_ok() != (sink.accepted.len() == want.len()) {
        bail!("false-outcome", "printing kind {}: {:?}, but the sink accepted {} of {} bytes", kind, r, sink.accepted.len(), want.len());
    }
    Ok(())
}

/// Clouds as text of their own, kept on storage that may lose its tail
fn texts(c: &Ctx) -> Verdict {
    let t = &c.t;
    let n = 1 + t.size(60);
    let p: Vec<P3> = (0..n).map(|_| [value(t, false), value(t, false), value(t, false)]).collect();
    let two = t.bool();
    let text = if two { PointCloud2D { data: p.as_slice().iter().map(|p| Point2D::new(p[0], p[1])).collect() }.to_str() } else { PointCloud3D { data: p.as_slice().iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect() }.to_str() };
    c.event(mix_bytes(two as u64, text.as_bytes()));
    c.interesting();
    let cut = if t.chance(3, 5) { draw_at(t, text.as_bytes()) } else { text.len() };
    if cut < text.len() {
        c.fault("crash: tail of the document lost", 1);
    }
    c.step();
    c.note(|| format!("text of {} points, {} of {} bytes kept", n, cut, text.len()));
    let text = &text[..cut];
    let back: Result<Vec<P3>, _> = if two { PointCloud2D::<Point2D>::parse(text).map(|x| x.data.as_slice().iter().map(|p| [p.x, p.y, 0.0]).collect()) } else { PointCloud3D::<Point3D>::parse(text).map(|x| x.data.as_slice().iter().map(|p| [p.x, p.y, p.z]).collect()) };
    let dims = if two { 2 } else { 3 };
    let back = match back {
        Ok(x) => x,
        Err(e) => {
            let whole = cut > 0 && text.ends_with('\n') || text.lines().last().map_or(false, |l| l.split(' ').count() == dims && last_number(l.as_bytes()).is_some() && l.split(' ').all(|w| !w.is_empty()));
            if whole {
                bail!("lost", "the text of a cloud, complete in itself, is refused: {:?}", e);
            }
            c.hit("text of a cloud refused");
            return Ok(());
        }
    };
    let lines = text.lines().count();
    let same = |a: &P3, b: &P3, k: usize| (0..k).all(|i| a[i].to_bits() == b[i].to_bits());
    let ok = back.len() == lines && (0..lines).all(|i| same(&back[i], &p[i], dims) || (i + 1 == lines && !text.ends_with('\n') && same(&back[i], &p[i], dims - 1) && last_number(text.as_bytes()).map(|x| x.to_bits()) == Some(back[i][dims - 1].to_bits())));
    c.hit(if cut == text.len() { "text of a cloud read back" } else { "prefix of a text of a cloud" });
    if !ok {
        bail!("altered", "{} points as text, {} bytes kept: {:?} instead of {:?}", n, cut, &back[..back.len().min(9)], &p[..n.min(9)]);
    }
    Ok(())
}

pub fn c08(c: &Ctx) -> Verdict {
    let t = &c.t;
    if t.chance(1, 12) {
        return printed(c);
    }
    let mut a = Art::draw(c, true, 40);
    if a.kind.colored() && t.chance(1, 30) {
        // a colour list that does not fit is refused before anything is written
        if t.bool() || a.colors.is_empty() {
            a.colors.push(Rgb::new(1, 2, 3));
        } else {
            a.colors.pop();
        }
        c.hit("colours do not fit the vertices");
        let (r, sink) = save_to(c, &a, &SinkPlan::draw(t));
        if r.is_ok() {
            bail!("bad-colors", "{:?}: {} colours for {} vertices, yet the save succeeded", a.kind, a.colors.len(), a.points.len());
        }
        if !sink.accepted.is_empty() {
            bail!("bad-colors", "{:?}: {} colours for {} vertices refused after writing {} bytes", a.kind, a.colors.len(), a.points.len(), sink.accepted.len());
        }
        return Ok(());
    }
    let want = match ideal(&a) {
        Ok(x) => x,
        Err(e) => bail!("refused", "{:?}: saving into memory failed: {}", a.kind, e),
    };
    c.event(mix_bytes(0, &want));
    let mut plan = SinkPlan::draw(t);
    if t.chance(1, 4) {
        plan.bufwriter = Some(*t.pick(&[1usize, 7, 16, 64, 512, 8192]));
    }
    let faulty = t.chance(3, 5);
    if faulty {
        let at = draw_at(t, &want);
        plan = plan.with_fault(t, at);
    }
    let (r, sink) = save_to(c, &a, &plan);
    c.hit(&format!("{:?} {}", a.kind, if r.is_ok() { "saved" } else { "not saved" }));
    c.hit_if(want.len() > 8192, "document larger than 8 KiB");
    if !want.starts_with(&sink.accepted) {
        let i = want.iter().zip(&sink.accepted).position(|(x, y)| x != y).unwrap_or(want.len());
        bail!("not-a-prefix", "{:?}: what the sink accepted differs from the document at byte {} of {}: {} instead of {}", a.kind, i, want.len(), show(&sink.accepted[i..]), show(&want[i..]));
    }
    let complete = sink.accepted.len() == want.len();
    match r {
        Ok(()) if !complete => bail!("false-success", "{:?}: success reported, but the sink accepted only {} of {} bytes", a.kind, sink.accepted.len(), want.len()),
        Ok(()) if sink.stats.faults > 0 => c.hit("fault while nothing was missing"),
        Err(e) if complete => bail!("false-failure", "{:?}: the sink accepted all {} bytes, but the save failed: {}", a.kind, want.len(), e),
        Err(e) if sink.stats.faults == 0 => bail!("refused", "{:?}: no fault, but the save failed: {}", a.kind, e),
        _ => {}
    }
    Ok(())
}

//------------------------------------------------------------------------------

fn setup_for(c: &Ctx, a: &Art) -> Setup {
    let t = &c.t;
    let api = match a.kind {
        SK::Xy => Api::Xy,
        SK::Xyz => Api::Xyz,
        SK::StlAscii => *t.pick(&[Api::StlDuped, Api::StlUnique, Api::StlTriplets]),
        _ => *t.pick(&[Api::PlyMesh, Api::PlyEither, Api::PlyPoints]),
    };
    let mut points = *t.pick(&POINT_KINDS);
    let mut mesh = *t.pick(&MESH_KINDS);
    if api == Api::PlyEither {
        points = PointKind::Cloud;
        if mesh == MeshKind::F32Dyn {
            mesh = MeshKind::CloudDyn;
        }
    }
    let stl = *t.pick(&[StlF::Ascii, StlF::Auto]);
    c.note(|| format!("load: {:?} as {:?} into {:?} / {:?}", api, stl, points, mesh));
    Setup { api, stl, points, mesh, initial: Data::default(), panic_push: None, panic_reserve: false, budget: 2_000_000 }
}

/// How the last number of cut text reads
fn last_number(b: &[u8]) -> Option<f64> {
    let s = std::str::from_utf8(b).ok()?;
    s.rsplit(|c: char| " ;,\t\n".contains(c)).next()?.parse().ok()
}
fn same_bits(a: &P3, b: &P3) -> bool {
    bits3(a) == bits3(b)
}

/// normals as the geometry has them, wherever that is well conditioned
fn normals_ok(recs: &[RK], d: &Data, s: &Setup) -> Verdict {
    if s.api == Api::StlUnique {
        return Ok(());
    }
    for (r, n) in recs.iter().zip(&d.normals) {
        if let RK::T([a, b, k, _]) = r {
            if [a, b, k].iter().any(|p| p.iter().any(|x| x.abs() > 1e6 || (*x != 0.0 && x.abs() < 1e-3))) {
                continue;
            }
            let e = |p: &P3, q: &P3| [q[0] - p[0], q[1] - p[1], q[2] - p[2]];
            let (u, v) = (e(a, b), e(b, k));
            let x = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
            let l = |p: &P3| (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
            if l(&x) < 1e-3 * l(&u) * l(&v) || l(&x) < 1e-3 {
                continue;
            }
            let y = [x[0] / l(&x), x[1] / l(&x), x[2] / l(&x)];
            if l(&e(n, &y)) > 1e-5 {
                bail!("normal", "facet {:?} came back with normal {:?} instead of {:?}", [a, b, k], n, y);
            }
        }
    }
    Ok(())
}

/// The colours in a PLY document, which come last in each vertex
fn colors_of(kind: SK, b: &[u8], n: usize) -> Option<Vec<[u8; 3]>> {
    let end = b"end_header\n";
    let i = b.windows(end.len()).position(|w| w == end)? + end.len();
    let b = &b[i..];
    if kind.is_text() {
        let lines = b.split(|x| *x == b'\n').take(n);
        return lines
            .map(|l| {
                let w: Vec<u8> = std::str::from_utf8(l).ok()?.split_whitespace().skip(3).map(|w| w.parse().ok()).collect::<Option<_>>()?;
                w.try_into().ok()
            })
            .collect();
    }
    let size = if kind.p32() { 4 } else { 8 };
    b.chunks_exact(3 * size + 3).take(n).map(|v| v[3 * size..].try_into().ok()).collect()
}

pub fn c09(c: &Ctx) -> Verdict {
    let t = &c.t;
    if t.chance(1, 12) {
        return texts(c);
    }
    let a = Art::draw(c, false, 40);
    let want = match ideal(&a) {
        Ok(x) => x,
        Err(e) => bail!("refused", "{:?}: saving into memory failed: {}", a.kind, e),
    };
    // the save itself may meet a full or failing device
    let mut plan = if t.bool() { SinkPlan::draw(t) } else { SinkPlan::plain() };
    if t.chance(1, 4) {
        plan.bufwriter = Some(*t.pick(&[1usize, 7, 64, 512, 8192]));
    }
    if t.chance(1, 4) {
        plan = plan.with_fault(t, draw_at(t, &want));
    }
    let (r, sink) = save_to(c, &a, &plan);
    let mut durable = sink.accepted;
    // crash: only the first so many bytes reached the device
    if t.chance(3, 5) {
        let k = draw_at(t, &durable);
        if k < durable.len() {
            c.fault("crash: tail of the document lost", 1);
            durable.truncate(k);
        }
    }
    let complete = r.is_ok() && durable.len() == want.len();
    let cut = durable.len();
    c.event(mix_bytes(1, &durable));
    c.note(|| format!("save -> {:?}; storage holds {} of {} bytes", r, durable.len(), want.len()));
    // restart: load from storage
    let s = setup_for(c, &a);
    let rplan = if t.chance(2, 3) { Plan::draw(t, &[]) } else { Plan::plain() };
    let bytes = Rc::new(durable);
    let (o, d, _) = loading::load(c, &s, &bytes, &rplan);
    let recs = a.records();
    let (mut exp, _) = docs::expect(&s, true, &recs);
    if a.kind == SK::StlAscii {
        if exp.normals.len() != d.normals.len() && o.is_ok() && complete {
            bail!("lost", "{:?} via {:?}: {} normals for {} facets", a.kind, s.api, d.normals.len(), exp.normals.len());
        }
        if d.normals.len() > exp.normals.len() {
            bail!("invented", "{:?} via {:?}: {} normals, saved were {} facets", a.kind, s.api, d.normals.len(), exp.normals.len());
        }
        normals_ok(&recs, &d, &s)?;
        exp.normals = d.normals.clone();
    }
    c.hit(&format!("{:?} via {:?}: {}", a.kind, s.api, if complete { "complete" } else if o.is_ok() { "partial accepted" } else { "partial refused" }));
    if complete {
        if let Err(e) = o {
            bail!("lost", "{:?} via {:?}: saved completely, but loading fails: {:?}", a.kind, s.api, e);
        }
        if !d.same(&exp) {
            bail!("altered", "{:?} via {:?}: saved {}, loaded {}", a.kind, s.api, exp.short(), d.short());
        }
        if a.kind.colored() {
            // no loader knows about colours
            let want: Vec<[u8; 3]> = a.colors.iter().map(|x| [x.r, x.g, x.b]).collect();
            let got = colors_of(a.kind, &bytes, want.len());
            if got.as_ref() != Some(&want) {
                bail!("altered", "{:?}: colours {:?} were saved as {:?}", a.kind, want, got);
            }
        }
        return Ok(());
    }
    // whatever was accepted: all that precedes the damage, and nothing else
    if d.is_prefix_of(&exp) {
        if o.is_ok() && a.kind.is_ply() {
            let all = d.points.len() == exp.points.len() && d.faces.len() == exp.faces.len();
            if !all {
                bail!("loss-unnoticed", "{:?} via {:?}: storage holds {} of {} bytes; loaded without error: {} instead of {}", a.kind, s.api, cut, want.len(), d.short(), exp.short());
            }
        }
        return Ok(());
    }
    // the one exception: the last number of a text document may have lost its tail
    if a.kind.is_text() && a.kind != SK::StlAscii {
        if let Some(x) = last_number(&bytes) {
            let mut e = exp.clone();
            let n = d.points.len();
            if a.kind.is_ply() && !d.faces.is_empty() {
                let k = d.faces.len();
                if k <= e.faces.len() {
                    e.faces.truncate(k);
                    e.faces[k - 1][2] = x as usize;
                    if d.same(&e) {
                        c.hit("last number shortened");
                        return Ok(());
                    }
                }
            } else if n > 0 && n <= e.points.len() && !a.kind.colored() {
                e.points.truncate(n);
                e.faces.clear();
                let i = if a.kind == SK::Xy { 1 } else { 2 };
                let f32s = if s.api.is_mesh() { s.mesh == MeshKind::F32Dyn } else { s.points == PointKind::Cloud32 && s.api != Api::Xy };
                e.points[n - 1][i] = if f32s { x as f32 as f64 } else { x };
                if d.points.iter().zip(&e.points).all(|(p, q)| same_bits(p, q)) && d.faces.is_empty() {
                    c.hit("last number shortened");
                    return Ok(());
                }
            }
        }
    }
    bail!("altered", "{:?} via {:?}: storage holds {} of {} bytes ({:?}); loaded {} is no prefix of what was saved: {}", a.kind, s.api, cut, want.len(), o, d.short(), exp.short())
}
