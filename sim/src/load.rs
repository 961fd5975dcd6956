//! The public loading interface of rust-3d as data: every load function and incremental reader, the containers
//! they fill, and their outcomes in one comparable form.
use crate::simio::{AnyReader, BUDGET};
use rust_3d::io::*;
use rust_3d::*;
use std::collections::VecDeque;
use std::fmt::{Debug, Display};

pub type P3 = [f64; 3];

/// bit pattern used for comparison; every NaN counts as the same value
pub fn bits(x: f64) -> u64 {
    if x.is_nan() {
        f64::NAN.to_bits()
    } else {
        x.to_bits()
    }
}
pub fn bits3(p: &P3) -> [u64; 3] {
    [bits(p[0]), bits(p[1]), bits(p[2])]
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ErrInfo {
    pub what: String,
    pub line: Option<usize>,
    pub text: Option<String>,
    /// as displayed to a user
    pub shown: String,
}
fn e_line<E: Debug + Display>(e: WithLineInfo<E>) -> ErrInfo {
    let shown = format!("{}", e);
    match e {
        WithLineInfo::None(x) => ErrInfo { what: format!("{:?}", x), line: None, text: None, shown },
        WithLineInfo::Index(i, x) => ErrInfo { what: format!("{:?}", x), line: Some(i), text: None, shown },
        WithLineInfo::Line(i, l, x) => ErrInfo { what: format!("{:?}", x), line: Some(i), text: Some(l), shown },
    }
}
fn e_plain<E: Debug + Display>(e: E) -> ErrInfo {
    ErrInfo { what: format!("{:?}", e), line: None, text: None, shown: format!("{}", e) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Api {
    Xy,
    Xyz,
    Pts,
    Ptx,
    Psl,
    ObjPoints,
    ObjMesh,
    OffPoints,
    OffMesh,
    Gcode,
    StlDuped,
    StlUnique,
    StlTriplets,
    Las,
    PlyMesh,
    PlyPoints,
    PlyEither,
}
impl Api {
    pub fn is_mesh(self) -> bool {
        matches!(self, Api::ObjMesh | Api::OffMesh | Api::StlDuped | Api::StlUnique | Api::PlyMesh | Api::PlyEither)
    }
    pub fn is_stl(self) -> bool {
        matches!(self, Api::StlDuped | Api::StlUnique | Api::StlTriplets)
    }
}

//------------------------------------------------------------------------------
// Containers

/// Which real container a load fills
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PointKind {
    Vec,
    Deque,
    Cloud,
    Cloud32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MeshKind {
    CloudVec,
    VecU32,
    CloudDyn,
    DequeVec,
    F32Dyn,
}
pub const POINT_KINDS: [PointKind; 4] = [PointKind::Cloud, PointKind::Vec, PointKind::Deque, PointKind::Cloud32];
pub const MESH_KINDS: [MeshKind; 5] = [MeshKind::CloudVec, MeshKind::VecU32, MeshKind::CloudDyn, MeshKind::DequeVec, MeshKind::F32Dyn];

pub enum PInner {
    Vec(Vec<Point3D>),
    Deque(VecDeque<Point3D>),
    Cloud(PointCloud3D<Point3D>),
    Cloud32(PointCloud3Df32<Point3D>),
}

/// Counts what happens to a container and can interrupt it
#[derive(Default, Clone, Debug)]
pub struct Fuse {
    pub pushes: usize,
    pub budget: usize,
    pub panic_at: Option<usize>,
    pub reserves: usize,
    /// panic in the n-th reserve call
    pub panic_reserve: bool,
}
impl Fuse {
    pub fn new() -> Self {
        Fuse { budget: 2_000_000, ..Default::default() }
    }
    fn tick(&mut self) {
        crate::seam::point();
        if self.pushes >= self.budget {
            panic!("{}: more than {} elements added", BUDGET, self.budget);
        }
        if self.panic_at == Some(self.pushes) {
            self.pushes += 1;
            panic!("{}", crate::INJECTED);
        }
        self.pushes += 1;
    }
    fn tick_reserve(&mut self) {
        crate::seam::point();
        self.reserves += 1;
        if self.panic_reserve {
            panic!("{}", crate::INJECTED);
        }
    }
}

pub struct PTarget {
    pub inner: PInner,
    pub fuse: Fuse,
}
impl PTarget {
    pub fn new(kind: PointKind) -> Self {
        PTarget {
            inner: match kind {
                PointKind::Vec => PInner::Vec(Vec::new()),
                PointKind::Deque => PInner::Deque(VecDeque::new()),
                PointKind::Cloud => PInner::Cloud(PointCloud3D::new()),
                PointKind::Cloud32 => PInner::Cloud32(PointCloud3Df32::new()),
            },
            fuse: Fuse::new(),
        }
    }
    pub fn with(kind: PointKind, ps: &[P3]) -> Self {
        let mut t = Self::new(kind);
        for p in ps {
            t.raw_push(Point3D::new(p[0], p[1], p[2]));
        }
        t
    }
    fn raw_push(&mut self, p: Point3D) {
        match &mut self.inner {
            PInner::Vec(x) => IsPushable::push(x, p),
            PInner::Deque(x) => IsPushable::push(x, p),
            PInner::Cloud(x) => IsPushable::push(x, p),
            PInner::Cloud32(x) => IsPushable::push(x, p),
        }
    }
    pub fn dump(&self) -> Vec<P3> {
        let f = |p: &Point3D| [p.x, p.y, p.z];
        match &self.inner {
            PInner::Vec(x) => x.iter().map(f).collect(),
            PInner::Deque(x) => x.iter().map(f).collect(),
            PInner::Cloud(x) => x.data.iter().map(f).collect(),
            PInner::Cloud32(x) => {
                assert!(x.data.len() % 3 == 0, "PointCloud3Df32 holds a partial point: {} floats", x.data.len());
                x.data.chunks(3).map(|c| [c[0] as f64, c[1] as f64, c[2] as f64]).collect()
            }
        }
    }
}
impl IsPushable<Point3D> for PTarget {
    fn push(&mut self, p: Point3D) {
        self.fuse.tick();
        self.raw_push(p)
    }
    fn reserve(&mut self, n: usize) {
        self.fuse.tick_reserve();
        match &mut self.inner {
            PInner::Vec(x) => IsPushable::reserve(x, n),
            PInner::Deque(x) => IsPushable::reserve(x, n),
            PInner::Cloud(x) => IsPushable::reserve(x, n),
            PInner::Cloud32(x) => IsPushable::reserve(x, n),
        }
    }
}

pub enum P2Inner {
    Vec(Vec<Point2D>),
    Deque(VecDeque<Point2D>),
    Cloud(PointCloud2D<Point2D>),
}
pub struct P2Target {
    pub inner: P2Inner,
    pub fuse: Fuse,
}
impl P2Target {
    pub fn with(kind: PointKind, ps: &[P3]) -> Self {
        let mut t = P2Target {
            inner: match kind {
                PointKind::Vec => P2Inner::Vec(Vec::new()),
                PointKind::Deque => P2Inner::Deque(VecDeque::new()),
                _ => P2Inner::Cloud(PointCloud2D::new()),
            },
            fuse: Fuse::new(),
        };
        for p in ps {
            t.raw_push(Point2D::new(p[0], p[1]));
        }
        t
    }
    fn raw_push(&mut self, p: Point2D) {
        match &mut self.inner {
            P2Inner::Vec(x) => IsPushable::push(x, p),
            P2Inner::Deque(x) => IsPushable::push(x, p),
            P2Inner::Cloud(x) => IsPushable::push(x, p),
        }
    }
    pub fn dump(&self) -> Vec<P3> {
        let f = |p: &Point2D| [p.x, p.y, 0.0];
        match &self.inner {
            P2Inner::Vec(x) => x.iter().map(f).collect(),
            P2Inner::Deque(x) => x.iter().map(f).collect(),
            P2Inner::Cloud(x) => x.data.iter().map(f).collect(),
        }
    }
}
impl IsPushable<Point2D> for P2Target {
    fn push(&mut self, p: Point2D) {
        self.fuse.tick();
        self.raw_push(p)
    }
    fn reserve(&mut self, n: usize) {
        self.fuse.tick_reserve();
        match &mut self.inner {
            P2Inner::Vec(x) => IsPushable::reserve(x, n),
            P2Inner::Deque(x) => IsPushable::reserve(x, n),
            P2Inner::Cloud(x) => IsPushable::reserve(x, n),
        }
    }
}

pub type MCloudVec = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
pub type MVecU32 = Mesh3D<Point3D, Vec<Point3D>, U32IndexVec>;
pub type MCloudDyn = Mesh3D<Point3D, PointCloud3D<Point3D>, DynamicPrecisionIndexVec>;
pub type MDequeVec = Mesh3D<Point3D, VecDeque<Point3D>, Vec<usize>>;
pub type MF32Dyn = Mesh3D<Point3D, PointCloud3Df32<Point3D>, DynamicPrecisionIndexVec>;

pub enum MInner {
    CloudVec(MCloudVec),
    VecU32(MVecU32),
    CloudDyn(MCloudDyn),
    DequeVec(MDequeVec),
    F32Dyn(MF32Dyn),
}
macro_rules! on {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            MInner::CloudVec($m) => $e,
            MInner::VecU32($m) => $e,
            MInner::CloudDyn($m) => $e,
            MInner::DequeVec($m) => $e,
            MInner::F32Dyn($m) => $e,
        }
    };
}

pub struct MTarget {
    pub inner: MInner,
    pub fuse: Fuse,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MeshData {
    pub verts: Vec<P3>,
    pub faces: Vec<[usize; 3]>,
}

impl MTarget {
    pub fn new(kind: MeshKind) -> Self {
        MTarget {
            inner: match kind {
                MeshKind::CloudVec => MInner::CloudVec(Default::default()),
                MeshKind::VecU32 => MInner::VecU32(Default::default()),
                MeshKind::CloudDyn => MInner::CloudDyn(Default::default()),
                MeshKind::DequeVec => MInner::DequeVec(Default::default()),
                MeshKind::F32Dyn => MInner::F32Dyn(Default::default()),
            },
            fuse: Fuse::new(),
        }
    }
    pub fn with(kind: MeshKind, d: &MeshData) -> Self {
        let mut t = Self::new(kind);
        for p in &d.verts {
            on!(&mut t.inner, m => m.add_vertex(Point3D::new(p[0], p[1], p[2])));
        }
        for f in &d.faces {
            on!(&mut t.inner, m => { m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).ok().expect("harness: valid connection refused"); });
        }
        t
    }
    pub fn dump(&self) -> MeshData {
        on!(&self.inner, m => dump_mesh(m))
    }
    /// its vertices as stored (the container may round them), with the given faces
    pub fn dump_as(&self, faces: Vec<[usize; 3]>) -> MeshData {
        MeshData { verts: self.dump().verts, faces }
    }
}
pub fn dump_mesh<M: IsMesh<Point3D, Face3>>(m: &M) -> MeshData {
    MeshData {
        verts: (0..m.num_vertices())
            .map(|i| {
                let p = m.vertex(VId(i)).expect("mesh: vertex below num_vertices missing");
                [p.x, p.y, p.z]
            })
            .collect(),
        faces: (0..m.num_faces())
            .map(|i| {
                let f = m.face_vertex_ids(FId(i)).expect("mesh: face below num_faces missing");
                [f.a.0, f.b.0, f.c.0]
            })
            .collect(),
    }
}
impl IsMesh<Point3D, Face3> for MTarget {
    fn num_faces(&self) -> usize {
        on!(&self.inner, m => m.num_faces())
    }
    fn num_vertices(&self) -> usize {
        on!(&self.inner, m => m.num_vertices())
    }
    fn face_vertex_ids(&self, f: FId) -> Option<Face3> {
        on!(&self.inner, m => m.face_vertex_ids(f))
    }
    fn face_vertices(&self, f: FId) -> Option<[Point3D; 3]> {
        on!(&self.inner, m => m.face_vertices(f))
    }
    fn vertex(&self, v: VId) -> Option<Point3D> {
        on!(&self.inner, m => m.vertex(v))
    }
}
impl IsFaceEditableMesh<Point3D, Face3> for MTarget {
    fn add_face(&mut self, a: Point3D, b: Point3D, c: Point3D) -> FId {
        self.fuse.tick();
        on!(&mut self.inner, m => m.add_face(a, b, c))
    }
    fn try_add_connection(&mut self, a: VId, b: VId, c: VId) -> Result<FId> {
        self.fuse.tick();
        on!(&mut self.inner, m => m.try_add_connection(a, b, c))
    }
    fn reserve_faces(&mut self, n: usize) {
        self.fuse.tick_reserve();
        on!(&mut self.inner, m => m.reserve_faces(n))
    }
}
impl IsVertexEditableMesh<Point3D, Face3> for MTarget {
    fn add_vertex(&mut self, v: Point3D) -> VId {
        self.fuse.tick();
        on!(&mut self.inner, m => m.add_vertex(v))
    }
    fn change_vertex(&mut self, i: VId, v: Point3D) -> Result<()> {
        on!(&mut self.inner, m => m.change_vertex(i, v))
    }
    fn reserve_vertices(&mut self, n: usize) {
        self.fuse.tick_reserve();
        on!(&mut self.inner, m => m.reserve_vertices(n))
    }
}

//------------------------------------------------------------------------------
// Outcomes

/// Everything a caller can see after a load
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Data {
    pub points: Vec<P3>,
    pub faces: Vec<[usize; 3]>,
    pub normals: Vec<P3>,
}
impl Data {
    pub fn same(&self, o: &Data) -> bool {
        let b = |v: &Vec<P3>| v.iter().map(bits3).collect::<Vec<_>>();
        self.faces == o.faces && b(&self.points) == b(&o.points) && b(&self.normals) == b(&o.normals)
    }
    pub fn short(&self) -> String {
        fn s<T: Debug>(v: &[T]) -> String {
            if v.len() <= 8 {
                format!("{:?}", v)
            } else {
                format!("{:?} .. ({} in all) .. {:?}", &v[..3], v.len(), &v[v.len() - 3..])
            }
        }
        format!("points {} faces {} normals {}", s(&self.points), s(&self.faces), s(&self.normals))
    }
    pub fn is_prefix_of(&self, o: &Data) -> bool {
        fn p(a: &[P3], b: &[P3]) -> bool {
            a.len() <= b.len() && a.iter().zip(b).all(|(x, y)| bits3(x) == bits3(y))
        }
        p(&self.points, &o.points) && p(&self.normals, &o.normals) && self.faces.len() <= o.faces.len() && self.faces[..] == o.faces[..self.faces.len()]
    }
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub api: Api,
    pub stl: StlF,
    pub points: PointKind,
    pub mesh: MeshKind,
    /// previous content of the containers
    pub initial: Data,
    pub panic_push: Option<usize>,
    pub panic_reserve: bool,
    pub budget: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StlF {
    Ascii,
    Binary,
    Auto,
}
impl StlF {
    pub fn real(self) -> StlFormat {
        match self {
            StlF::Ascii => StlFormat::Ascii,
            StlF::Binary => StlFormat::Binary,
            StlF::Auto => StlFormat::Auto,
        }
    }
}

pub struct Containers {
    pub p2: P2Target,
    pub p3: PTarget,
    pub mesh: MTarget,
    pub normals: PTarget,
}
impl Containers {
    pub fn new(s: &Setup) -> Self {
        let none: &[P3] = &[];
        let md = MeshData { verts: s.initial.points.clone(), faces: s.initial.faces.clone() };
        let mesh = s.api.is_mesh();
        let mut c = Containers {
            p2: P2Target::with(s.points, if s.api == Api::Xy { &s.initial.points } else { none }),
            p3: PTarget::with(s.points, if s.api != Api::Xy && !mesh { &s.initial.points } else { none }),
            mesh: if mesh { MTarget::with(s.mesh, &md) } else { MTarget::new(s.mesh) },
            normals: PTarget::with(if s.api.is_stl() { s.points } else { PointKind::Vec }, if s.api.is_stl() { &s.initial.normals } else { none }),
        };
        for f in [&mut c.p2.fuse, &mut c.p3.fuse, &mut c.mesh.fuse, &mut c.normals.fuse] {
            f.budget = s.budget;
            f.panic_reserve = s.panic_reserve;
        }
        c.p2.fuse.panic_at = s.panic_push;
        c.p3.fuse.panic_at = s.panic_push;
        c.mesh.fuse.panic_at = s.panic_push;
        c
    }
    /// Contents after the load; points of a PLY without faces end up in p3
    pub fn data(&self, s: &Setup) -> Data {
        let m = self.mesh.dump();
        let mut points = if s.api == Api::Xy {
            self.p2.dump()
        } else if s.api.is_mesh() {
            m.verts
        } else {
            self.p3.dump()
        };
        if s.api == Api::PlyEither {
            points.extend(self.p3.dump());
        }
        Data { points, faces: m.faces, normals: self.normals.dump() }
    }
}

/// Runs one bulk load. PlyEither also says whether it found a mesh
pub fn bulk(s: &Setup, c: &mut Containers, r: &mut AnyReader) -> std::result::Result<Option<bool>, ErrInfo> {
    let f = s.stl.real();
    match s.api {
        Api::Xy => load_xy(r, &mut c.p2).map_err(e_line)?,
        Api::Xyz => load_xyz(r, &mut c.p3).map_err(e_line)?,
        Api::Pts => load_pts(r, &mut c.p3).map_err(e_line)?,
        Api::Ptx => load_ptx(r, &mut c.p3).map_err(e_line)?,
        Api::Psl => load_psl(r, &mut c.p3).map_err(e_plain)?,
        Api::ObjPoints => load_obj_points(r, &mut c.p3).map_err(e_line)?,
        Api::ObjMesh => load_obj_mesh(r, &mut c.mesh).map_err(e_line)?,
        Api::OffPoints => load_off_points(r, &mut c.p3).map_err(e_line)?,
        Api::OffMesh => load_off_mesh(r, &mut c.mesh).map_err(e_line)?,
        Api::Gcode => load_gcode_points(r, &mut c.p3).map_err(e_line)?,
        Api::StlDuped => load_stl_mesh_duped(r, f, &mut c.mesh, &mut c.normals).map_err(e_line)?,
        Api::StlUnique => load_stl_mesh_unique(r, f, &mut c.mesh, &mut c.normals).map_err(e_line)?,
        Api::StlTriplets => load_stl_triplets(r, f, &mut c.p3, &mut c.normals).map_err(e_line)?,
        Api::Las => load_las(r, &mut c.p3).map_err(e_plain)?,
        Api::PlyMesh => load_ply_mesh(r, &mut c.mesh).map_err(e_line)?,
        Api::PlyPoints => load_ply_points(r, &mut c.p3).map_err(e_line)?,
        Api::PlyEither => {
            let x = load_ply_either(r, &mut c.mesh, &mut c.p3).map_err(e_line)?;
            return Ok(Some(matches!(x, MeshOrPoints::Mesh)));
        }
    }
    Ok(None)
}

//------------------------------------------------------------------------------
// Incremental readers

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Point(P3),
    Face([usize; 3]),
    Tri([P3; 4]),
    Reserve(usize, usize),
}
pub type IterItem = std::result::Result<Item, ErrInfo>;

fn p3(p: Point3D) -> Item {
    Item::Point([p.x, p.y, p.z])
}
fn dr(d: DataReserve<Point3D>) -> Item {
    match d {
        DataReserve::Data(p) => p3(p),
        DataReserve::Reserve(n) => Item::Reserve(n, 0),
    }
}
fn fdr(d: FaceDataReserve<Point3D>) -> Item {
    match d {
        FaceDataReserve::Data(p) => p3(p),
        FaceDataReserve::Face(f) => Item::Face(f),
        FaceDataReserve::ReserveDataFaces(a, b) => Item::Reserve(a, b),
    }
}
fn stlf(d: DataReserve<StlFace<Point3D>>) -> Item {
    let a = |p: Point3D| [p.x, p.y, p.z];
    match d {
        DataReserve::Data(f) => Item::Tri([a(f.a), a(f.b), a(f.c), a(f.n)]),
        DataReserve::Reserve(n) => Item::Reserve(n, 0),
    }
}

/// What can be asked of an incremental reader besides the next record, by its own implementation
pub trait Reader {
    fn next(&mut self) -> Option<IterItem>;
    fn nth(&mut self, n: usize) -> Option<IterItem>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<IterItem>;
    fn rest(self: Box<Self>) -> Vec<IterItem>;
}
struct Via<I, F>(I, F);
impl<I: Iterator, F: FnMut(I::Item) -> IterItem> Reader for Via<I, F> {
    fn next(&mut self) -> Option<IterItem> {
        self.0.next().map(&mut self.1)
    }
    fn nth(&mut self, n: usize) -> Option<IterItem> {
        self.0.nth(n).map(&mut self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<IterItem> {
        let Via(i, f) = *self;
        i.last().map(f)
    }
    fn rest(self: Box<Self>) -> Vec<IterItem> {
        let Via(i, f) = *self;
        i.map(f).fold(vec![], |mut v, x| {
            v.push(x);
            v
        })
    }
}
fn via<'a, I: Iterator + 'a, F: FnMut(I::Item) -> IterItem + 'a>(i: I, f: F) -> Box<dyn Reader + 'a> {
    Box::new(Via(i, f))
}
pub struct Inc<'a>(pub Box<dyn Reader + 'a>);
impl Iterator for Inc<'_> {
    type Item = IterItem;
    fn next(&mut self) -> Option<IterItem> {
        self.0.next()
    }
}

/// An incremental reader over `r`; Err if it could not even be created
pub fn incremental<'a>(api: Api, stl: StlF, r: &'a mut AnyReader) -> std::result::Result<Inc<'a>, ErrInfo> {
    type T = Point3D;
    Ok(Inc(match api {
        Api::Xy => via(XyIterator::<Point2D, _>::new(r), |x| x.map(|p| Item::Point([p.x, p.y, 0.0])).map_err(e_line)),
        Api::Xyz => via(XyzIterator::<T, _>::new(r), |x| x.map(p3).map_err(e_line)),
        Api::Pts => via(PtsIterator::<T, _>::new(r), |x| x.map(dr).map_err(e_line)),
        Api::Ptx => via(PtxIterator::<T, _>::new(r), |x| x.map(dr).map_err(e_line)),
        Api::Psl => via(PslIterator::<T, _>::new(r), |x| x.map(p3).map_err(e_plain)),
        Api::ObjPoints => via(ObjPointsIterator::<T, _>::new(r), |x| x.map(p3).map_err(e_line)),
        Api::ObjMesh => via(ObjMeshIterator::<T, _>::new(r), |x| {
            x.map(|d| match d {
                io::FaceData::Data(p) => p3(p),
                io::FaceData::Face(f) => Item::Face(f),
            })
            .map_err(e_line)
        }),
        Api::OffPoints => via(OffPointsIterator::<T, _>::new(r), |x| x.map(dr).map_err(e_line)),
        Api::OffMesh => via(OffMeshIterator::<T, _>::new(r), |x| x.map(fdr).map_err(e_line)),
        Api::Gcode => via(GcodeIterator::<T, _>::new(r), |x| x.map(p3).map_err(e_line)),
        Api::StlDuped | Api::StlUnique | Api::StlTriplets => {
            via(StlIterator::<T, _>::new(r, stl.real()).map_err(e_line)?, |x| x.map(stlf).map_err(e_line))
        }
        Api::Las => via(LasIterator::<T, _>::new(r).map_err(e_plain)?, |x| x.map(dr).map_err(e_plain)),
        Api::PlyMesh | Api::PlyEither => via(PlyMeshIterator::<T, _>::new(r).map_err(e_line)?, |x| x.map(fdr).map_err(e_line)),
        Api::PlyPoints => via(PlyPointsIterator::<T, _>::new(r).map_err(e_line)?, |x| x.map(dr).map_err(e_line)),
    }))
}
