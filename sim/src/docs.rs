//! Generated documents together with what they mean: every record with its value and its exact place in the
//! byte stream, for every offset whether a stream ending there is complete in itself, the tokens whose damage
//! must be reported, and the fields that announce counts and sizes.
use crate::load::*;
use crate::tape::Tape;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    Xy,
    Xyz,
    Pts,
    Ptx,
    Psl,
    Obj,
    Off,
    Gcode,
    StlAscii,
    StlBinary,
    Las,
    PlyAscii,
    PlyLe,
    PlyBe,
}
pub const FMTS: [Fmt; 14] = [
    Fmt::Xyz,
    Fmt::Xy,
    Fmt::Pts,
    Fmt::Ptx,
    Fmt::Psl,
    Fmt::Obj,
    Fmt::Off,
    Fmt::Gcode,
    Fmt::StlAscii,
    Fmt::StlBinary,
    Fmt::Las,
    Fmt::PlyAscii,
    Fmt::PlyLe,
    Fmt::PlyBe,
];
pub const TEXT_FMTS: [Fmt; 9] = [Fmt::Xyz, Fmt::Xy, Fmt::Pts, Fmt::Ptx, Fmt::Obj, Fmt::Off, Fmt::Gcode, Fmt::StlAscii, Fmt::PlyAscii];

#[derive(Clone, Debug, PartialEq)]
pub enum RK {
    V(P3),
    F([usize; 3]),
    /// a, b, c, normal
    T([P3; 4]),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub kind: RK,
    pub start: usize,
    /// offset after the record, its line end included
    pub end: usize,
    /// the last token the record needs
    pub tok_start: usize,
    pub tok_end: usize,
}

/// What a load must make of a stream that ends at an offset
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cut {
    Ok,
    Err,
    Any,
}

/// A token which, replaced by garbage, makes its line unparsable
#[derive(Clone, Debug)]
pub struct Hard {
    pub start: usize,
    pub end: usize,
    pub line: usize,
    /// needed only by mesh loads
    pub mesh_only: bool,
    /// the number of data records (of the mesh view) before it
    pub what: &'static str,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FieldKind {
    /// decimal text
    Dec,
    U8,
    U16,
    U32,
    I32,
    U64,
    F64,
    U32Be,
}
#[derive(Clone, Debug)]
pub struct Field {
    pub start: usize,
    pub end: usize,
    pub kind: FieldKind,
    pub what: &'static str,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub fmt: Fmt,
    pub bytes: Vec<u8>,
    pub text: bool,
    pub has_faces: bool,
    pub recs: Vec<Rec>,
    /// (from offset, for point loads, for mesh loads)
    pub marks: Vec<(usize, Cut, Cut)>,
    pub hard: Vec<Hard>,
    pub fields: Vec<Field>,
    /// offset after which a point / mesh load has everything it needs; None: it has to see the end of data
    pub need_points: Option<usize>,
    pub need_mesh: Option<usize>,
    pub desc: String,
    /// longest run of lines or blocks without meaning
    pub filled: usize,
    /// STL formats under which this document may be loaded
    pub stl: Vec<StlF>,
}

impl Doc {
    pub fn apis(&self) -> Vec<Api> {
        match self.fmt {
            Fmt::Xy => vec![Api::Xy],
            Fmt::Xyz => vec![Api::Xyz],
            Fmt::Pts => vec![Api::Pts],
            Fmt::Ptx => vec![Api::Ptx],
            Fmt::Psl => vec![Api::Psl],
            Fmt::Obj => vec![Api::ObjMesh, Api::ObjPoints],
            Fmt::Off => vec![Api::OffMesh, Api::OffPoints],
            Fmt::Gcode => vec![Api::Gcode],
            Fmt::StlAscii | Fmt::StlBinary => vec![Api::StlDuped, Api::StlUnique, Api::StlTriplets],
            Fmt::Las => vec![Api::Las],
            _ if self.has_faces => vec![Api::PlyMesh, Api::PlyEither, Api::PlyPoints],
            _ => vec![Api::PlyEither, Api::PlyPoints],
        }
    }
    fn mesh_view(&self, api: Api) -> bool {
        api.is_mesh() && (self.has_faces || api != Api::PlyEither)
    }
    pub fn need(&self, api: Api) -> Option<usize> {
        if self.mesh_view(api) {
            self.need_mesh
        } else {
            self.need_points
        }
    }
    pub fn cut(&self, api: Api, at: usize) -> Cut {
        let mut r = (Cut::Any, Cut::Any);
        for (o, p, m) in &self.marks {
            if *o > at {
                break;
            }
            r = (*p, *m);
        }
        if self.mesh_view(api) {
            r.1
        } else {
            r.0
        }
    }
    /// The records a load through `api` yields, in order
    pub fn view(&self, api: Api) -> Vec<&Rec> {
        let faces = self.mesh_view(api);
        self.recs.iter().filter(|r| faces || !matches!(r.kind, RK::F(_))).collect()
    }
    pub fn boundaries(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.recs.iter().flat_map(|r| [r.start, r.tok_start, r.tok_end, r.end]).collect();
        v.extend(self.fields.iter().flat_map(|f| [f.start, f.end]));
        v.push(self.bytes.len());
        v.sort();
        v.dedup();
        v
    }
    pub fn line_of(&self, at: usize) -> usize {
        1 + self.bytes[..at].iter().filter(|b| **b == b'\n').count()
    }
    pub fn line_text(&self, line: usize) -> Vec<u8> {
        self.bytes.split(|b| *b == b'\n').nth(line - 1).unwrap_or(&[]).to_vec()
    }
}

/// What the containers of `s` must hold after the given records were added. Also returns the position of the
/// first face that must be refused, in which case nothing from there on is added
pub fn expect(s: &Setup, doc_has_faces: bool, recs: &[RK]) -> (Data, Option<usize>) {
    let r32 = |p: &P3, f: bool| -> P3 {
        if f {
            [p[0] as f32 as f64, p[1] as f32 as f64, p[2] as f32 as f64]
        } else {
            *p
        }
    };
    let pf = s.points == PointKind::Cloud32 && s.api != Api::Xy;
    let mf = s.mesh == MeshKind::F32Dyn;
    let mesh = s.api.is_mesh();
    let mut d = s.initial.clone();
    if !mesh {
        d.faces.clear();
    }
    if !s.api.is_stl() {
        d.normals.clear();
    }
    for p in d.points.iter_mut() {
        *p = r32(p, if mesh { mf } else { pf });
    }
    for p in d.normals.iter_mut() {
        *p = r32(p, pf);
    }
    let pts_f = if mesh && (doc_has_faces || s.api != Api::PlyEither) { mf } else { pf };
    let mut uniq: std::collections::BTreeMap<[u64; 3], usize> = Default::default();
    let mut n_verts = d.points.len();
    for (i, k) in recs.iter().enumerate() {
        match k {
            RK::V(p) => {
                d.points.push(r32(p, pts_f));
                n_verts += 1;
            }
            RK::F(f) => {
                if mesh {
                    if f.iter().any(|x| *x >= n_verts) || f[0] == f[1] || f[0] == f[2] || f[1] == f[2] {
                        return (d, Some(i));
                    }
                    d.faces.push(*f);
                }
            }
            RK::T(t) => match s.api {
                Api::StlTriplets => {
                    for p in &t[..3] {
                        d.points.push(r32(p, pf));
                    }
                    d.normals.push(r32(&t[3], pf));
                }
                Api::StlUnique => {
                    let mut ids = [0; 3];
                    for j in 0..3 {
// 0.0 and -0.0 are the same; there are no NaNs here
                        let key = t[j].map(|x| (x + 0.0).to_bits());
                        ids[j] = match uniq.get(&key) {
                            Some(id) => *id,
                            None => {
                                let id = d.points.len();
                                d.points.push(r32(&t[j], mf));
                                uniq.insert(key, id);
                                id
                            }
                        };
                    }
                    if ids[0] != ids[1] && ids[0] != ids[2] && ids[1] != ids[2] {
                        d.faces.push(ids);
                        d.normals.push(r32(&t[3], pf));
                    }
                }
                _ => {
                    let n = d.points.len();
                    for p in &t[..3] {
                        d.points.push(r32(p, mf));
                    }
                    d.faces.push([n, n + 1, n + 2]);
                    d.normals.push(r32(&t[3], pf));
                }
            },
        }
    }
    (d, None)
}

//------------------------------------------------------------------------------

thread_local! {
    static DEEP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// A document with a long run of lines or blocks without meaning wherever its format has a place for one
pub fn gen_deep(t: &Tape, fmt: Fmt, max: usize) -> Doc {
    DEEP.with(|d| d.set(true));
    let r = gen(t, fmt, max);
    DEEP.with(|d| d.set(false));
    r
}

struct B<'a> {
    t: &'a Tape,
    out: Vec<u8>,
    eol: &'static str,
    trail: bool,
    /// words are kept apart by more than single blanks
    gaps: bool,
    line: usize,
    /// lines or records without meaning still to be put in one place
    fill: usize,
    doc: Doc,
}

fn num_text(t: &Tape) -> String {
    match t.below(12) {
        0 => format!("{}", t.below(10)),
        1 => format!("-{}", t.below(1000)),
        2 | 3 => format!("{}.{}", t.below(100), t.below(1000)),
        4 => format!("-{}.{:03}", t.below(10), t.below(1000)),
        5 => format!("{}.{}e{}", t.below(10), t.below(100), t.below(20)),
        6 => format!("{}.{}E-{}", t.below(10), t.below(100), t.below(20)),
        7 => format!("+{}.5", t.below(50)),
        8 => ["0", "-0", "0.0", "-0.0", ".5", "5.", "-.25"][t.usize_below(7)].to_string(),
        9 => format!("{}", (t.u64() % (1 << 53)) as f64 / 4096.0),
        10 => format!("{:e}", f64::from_bits((t.u64() & 0x000F_FFFF_FFFF_FFFF) | ((1023 - 40 + t.below(80)) << 52))),
        _ => format!("{}.{}", t.below(10), "123456789".repeat(t.range(1, 5))),
    }
}
/// a number exactly representable in little precision: arithmetic on a few of them is exact in any order
fn exact(t: &Tape) -> f64 {
    (t.below(4001) as f64 - 2000.0) / 8.0
}
fn coord(t: &Tape) -> f64 {
    match t.below(4) {
        0 => t.below(10) as f64,
        1 => exact(t),
        2 => num_text(t).parse().unwrap(),
        _ => (t.below(20000) as f64 - 10000.0) / 1000.0,
    }
}

impl<'a> B<'a> {
    fn new(t: &'a Tape, fmt: Fmt, text: bool) -> Self {
        let eol = if text && t.chance(1, 4) { "\r\n" } else { "\n" };
        B {
            t,
            out: vec![],
            eol,
            trail: text && t.chance(1, 6),
            gaps: text && t.chance(1, 6),
            line: 1,
            fill: if t.chance(1, 1500) || DEEP.with(|d| d.get()) { t.range(20_000, 120_000) } else { 0 },
            doc: Doc {
                fmt,
                bytes: vec![],
                text,
                has_faces: false,
                recs: vec![],
                marks: vec![],
                hard: vec![],
                fields: vec![],
                need_points: None,
                need_mesh: None,
                desc: String::new(),
                filled: 0,
                stl: vec![StlF::Auto],
            },
        }
    }
    fn at(&self) -> usize {
        self.out.len()
    }
    fn mark(&mut self, p: Cut, m: Cut) {
        self.mark_at(self.out.len(), p, m)
    }
    fn mark_at(&mut self, at: usize, p: Cut, m: Cut) {
        self.doc.marks.push((at, p, m));
    }
    fn s(&mut self, x: impl AsRef<[u8]>) -> (usize, usize) {
        let a = self.at();
        self.out.extend_from_slice(x.as_ref());
        (a, self.at())
    }
    /// Tens of thousands of lines which mean nothing, in a few documents
    fn filler(&mut self, kinds: &[&str]) {
        if self.fill > 0 && self.t.chance(1, 2) {
            let x = *self.t.pick(kinds);
            for _ in 0..self.fill {
                let e = self.eol;
                self.s(x);
                self.s(e);
            }
            self.line += self.fill;
            self.doc.filled = self.fill;
            self.fill = 0;
        }
    }
    /// What keeps two words apart
    /// White space: one of these, seldom a lot
    fn blanks(&self, some: [&'static str; 4]) -> &'static str {
        match self.t.below(256) {
            255 => &BLANKS[..self.t.range(2, if self.t.chance(1, 4) { BLANKS.len() } else { 48 })],
            k => some[k as usize % 4],
        }
    }
    fn gap(&mut self) {
        let x = if self.gaps { self.blanks([" ", "\t", "  ", " \t "]) } else { " " };
        self.s(x);
    }
    fn sep(&mut self, sep: &str) {
        if sep == " " && !matches!(self.doc.fmt, Fmt::Xy | Fmt::Xyz) {
            self.gap()
        } else {
            self.s(sep);
        }
    }
    /// What may come before the first word of a line
    fn indent(&mut self) -> usize {
        let x = if self.gaps { self.blanks(["", "", " ", "\t"]) } else { "" };
        self.s(x);
        x.len()
    }
    fn b(&mut self, x: &[u8]) -> (usize, usize) {
        let a = self.at();
        self.out.extend_from_slice(x);
        (a, self.at())
    }
    fn nl(&mut self) {
        if self.trail && self.t.bool() {
            let w = self.blanks([" ", "\t", "   ", " \t"]);
            self.s(w);
        }
        let e = self.eol;
        self.s(e);
        self.line += 1;
    }
    fn hard(&mut self, tok: (usize, usize), mesh_only: bool, what: &'static str) {
        self.doc.hard.push(Hard { start: tok.0, end: tok.1, line: self.line, mesh_only, what });
    }
    /// Just behind the first character of the next word
    fn word(&self, at: usize) -> usize {
        self.out[at..].iter().position(|c| *c != b' ' && *c != b'\t').unwrap() + at + 1
    }
    fn dec(&mut self, tok: (usize, usize), what: &'static str) {
        self.doc.fields.push(Field { start: tok.0, end: tok.1, kind: FieldKind::Dec, what });
    }
    fn bin(&mut self, tok: (usize, usize), kind: FieldKind, what: &'static str) {
        self.doc.fields.push(Field { start: tok.0, end: tok.1, kind, what });
    }
    /// Takes out the marks behind an offset, of those added since there were `base` of them
    fn later(&mut self, base: usize, at: usize) -> Vec<(usize, Cut, Cut)> {
        let (m, k): (Vec<_>, Vec<_>) = self.doc.marks.split_off(base).into_iter().partition(|m| m.0 > at);
        self.doc.marks.extend(k);
        m
    }
    /// A coordinate as text, and its value
    fn num(&mut self) -> (f64, (usize, usize)) {
        let x = num_text(self.t);
        let v = x.parse().unwrap();
        (v, self.s(&x))
    }
    fn exact_num(&mut self) -> (f64, (usize, usize)) {
        let v = exact(self.t);
        (v, self.s(&format!("{}", v)))
    }
    /// Text without meaning, in whatever encoding
    fn noise(&mut self) -> Vec<u8> {
        let words: [&[u8]; 16] = [
            b"cloud",
            b"#1",
            b"created by",
            b"x",
            b"1 2 3",
            b"v 1 2 3",
            b"end_header",
            b"G1 X1",
            b"\t",
            b"",
            "gro\u{df}e Pl\u{e4}ne".as_bytes(),
            "\u{70b9}\u{7fa4}".as_bytes(),
            b"M\xfcller",
            b"\xff\xfe",
            b"\xc3",
            b"\0",
        ];
        let n = self.t.range(0, 3);
        let mut s: Vec<u8> = (0..n).map(|_| *self.t.pick(&words)).collect::<Vec<_>>().join(&b' ');
        if self.t.chance(1, 12) {
            s.extend(b"long ".repeat(if self.t.chance(1, 30) { self.t.range(1000, 30_000) } else { self.t.range(5, 60) }));
        }
        s
    }
    /// A line of such text
    fn remark(&mut self, lead: &str) {
        let x = self.noise();
        self.s(lead);
        self.s(x);
    }
    /// One text record: its tokens are written by `f`, which returns the value and the last needed token.
    /// `after` is the state of the document once the record is complete, `inside` while it is not
    fn rec(&mut self, inside: (Cut, Cut), after: (Cut, Cut), extras: usize, sep: &str, f: impl FnOnce(&mut Self) -> (RK, (usize, usize))) {
        let start = self.at();
        let before = self.doc.marks.last().cloned();
        let (kind, tok) = f(self);
        let first = start + 1;
        let _ = before;
        self.mark_at(first, inside.0, inside.1);
        // a line of an ASCII PLY document is complete only with every declared property
        let strict = extras > 0 && self.doc.fmt == Fmt::PlyAscii;
        if tok.1 - tok.0 > 1 && !strict {
            let any = |c: Cut, a: Cut| if c == Cut::Err && a == Cut::Err { Cut::Err } else if c == Cut::Ok && a == Cut::Ok { Cut::Ok } else { Cut::Any };
            self.mark_at(tok.0 + 1, any(inside.0, after.0), any(inside.1, after.1));
        }
        if !strict {
            self.mark_at(tok.1, after.0, after.1);
        }
        if extras > 0 {
            self.sep(sep);
            let any = |a: Cut| if a == Cut::Ok && !strict { Cut::Any } else { a };
            let (after0, after) = (after, if strict { inside } else { after });
            self.mark(any(after.0), any(after.1));
            for i in 0..extras {
                if i > 0 {
                    self.sep(sep);
                }
                let x = format!("{}", self.t.below(256));
                self.s(&x);
            }
            let after = after0;
            if strict {
                // the last property itself may be cut
                let e = self.out.iter().rposition(|b| *b == b' ' || *b == b'\t').unwrap() + 2;
                let any = |i: Cut, a: Cut| if i == a { a } else { Cut::Any };
                self.mark_at(e, any(inside.0, after.0), any(inside.1, after.1));
            }
            self.mark(after.0, after.1);
        }
        self.nl();
        let end = self.at();
        self.mark(after.0, after.1);
        self.doc.recs.push(Rec { kind, start, end, tok_start: tok.0, tok_end: tok.1 });
    }
    fn finish(mut self, desc: String) -> Doc {
        // the last line may lack its line end
        if self.doc.text && self.out.ends_with(b"\n") && self.t.chance(1, 4) && self.doc.fmt != Fmt::StlBinary {
            self.out.pop();
            if self.out.ends_with(b"\r") && self.t.bool() {
                self.out.pop();
            }
            let n = self.out.len();
            for r in self.doc.recs.iter_mut() {
                r.end = r.end.min(n);
            }
            for x in [&mut self.doc.need_points, &mut self.doc.need_mesh] {
                if let Some(x) = x {
                    *x = (*x).min(n);
                }
            }
        }
        let mut d = self.doc;
        d.bytes = self.out;
        d.marks.sort_by_key(|m| m.0); // stable: later marks at an offset win
        d.desc = format!("{:?}: {} ({} bytes, {} records)", d.fmt, desc, d.bytes.len(), d.recs.len());
        d
    }
}

/// `max`: largest number of records
pub fn gen(t: &Tape, fmt: Fmt, max: usize) -> Doc {
    match fmt {
        Fmt::Xy => columns(t, fmt, 2, max),
        Fmt::Xyz => columns(t, fmt, 3, max),
        Fmt::Pts => pts(t, max),
        Fmt::Ptx => ptx(t, max),
        Fmt::Psl => psl(t, max),
        Fmt::Obj => obj(t, max),
        Fmt::Off => off(t, max),
        Fmt::Gcode => gcode(t, max),
        Fmt::StlAscii => stl_ascii(t, max),
        Fmt::StlBinary => stl_binary(t, max),
        Fmt::Las => las(t, max),
        Fmt::PlyAscii | Fmt::PlyLe | Fmt::PlyBe => ply(t, fmt, max),
    }
}

use Cut::{Any, Err as E, Ok as O};

fn columns(t: &Tape, fmt: Fmt, dim: usize, max: usize) -> Doc {
    let mut b = B::new(t, fmt, true);
    let sep = *t.pick(&[" ", ";", ",", "\t"]);
    let n = t.size(max);
    let extras = if t.chance(1, 4) { how_many(t, n) } else { 0 };
    let lead = t.chance(1, 8);
    // repeated separators are skipped
    let wide = sep == " " && t.chance(1, 6);
    b.trail = b.trail && sep == " ";
    b.mark(O, O);
    for i in 0..n {
        let ex = if i > 0 && t.chance(1, 8) { 0 } else { extras };
        b.rec((E, E), (O, O), ex, sep, |b| {
            let mut p = [0.0; 3];
            let mut tok = (0, 0);
            if lead && sep == " " {
                b.s(" ");
            }
            for j in 0..dim {
                if j > 0 {
                    b.s(sep);
                    if wide {
                        b.s(sep);
                    }
                }
                let (v, k) = b.num();
                p[j] = v;
                b.hard(k, false, "coordinate");
                tok = k;
            }
            (RK::V(p), tok)
        });
        // the first line also decides about the separator: while it is cut before its columns are complete, error
    }
    if lead || wide {
        // a line cut down to separators only is an empty line: an error, too, but say nothing about it
    }
    b.finish(format!("separator {:?}, {} extra columns", sep, extras))
}

fn pts(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::Pts, true);
    let blocks = t.range(0, 3);
    let blank = t.chance(1, 4);
    let extras = if t.chance(1, 2) { 4 } else { 0 };
    b.mark(Any, Any);
    for k in 0..blocks {
        if blank && t.bool() {
            b.nl();
        }
        let n = t.size(max / 2 + 1);
        let start = b.at();
        let tok = {
            let x = format!("{}", n);
            b.s(&x)
        };
        b.hard(tok, false, "count");
        b.dec(tok, "point count");
        b.mark_at(start + 1, Any, Any);
        let done = if n == 0 { O } else { E };
        b.mark(done, done);
        b.nl();
        for i in 0..n {
            if blank && t.chance(1, 4) {
                b.nl();
            }
            b.filler(&[""]);
            let last = i + 1 == n;
            let after = if last { O } else { E };
            b.rec((E, E), (after, after), extras, " ", |b| {
                let mut p = [0.0; 3];
                let mut tok = (0, 0);
                for j in 0..3 {
                    if j > 0 {
                        b.gap();
                    }
                    let (v, k) = b.num();
                    p[j] = v;
                    b.hard(k, false, "coordinate");
                    tok = k;
                }
                (RK::V(p), tok)
            });
        }
        let _ = k;
    }
    b.finish(format!("{} blocks", blocks))
}

fn ptx(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::Ptx, true);
    let blocks = t.range(0, 3);
    b.mark(Any, Any);
    for _ in 0..blocks {
        let start = b.at();
        if b.fill > 0 {
            b.doc.filled = std::mem::take(&mut b.fill) / 8;
            let x = b"0\n0\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n".repeat(b.doc.filled);
            b.line += 10 * b.doc.filled;
            b.mark_at(start + 1, Any, Any);
            b.b(&x);
        }
        let start = b.at();
        let mut rows = t.range(0, if t.is_large() { 12 } else { 4 });
        let mut cols = t.range(0, (max / 4).max(1).min(if t.is_large() { 24 } else { 5 }));
        if max > 40_000 {
            // many rows, many columns or many points
            let k = *t.pick(&[1, 1, 2, 260]);
            cols = max / k;
            rows = k;
            if t.bool() {
                std::mem::swap(&mut rows, &mut cols);
            }
        }
        let n = rows * cols;
        let x = format!("{}", cols);
        let k = b.s(&x);
        b.hard(k, false, "columns");
        b.dec(k, "columns");
        b.mark_at(start + 1, E, E);
        b.nl();
        let x = format!("{}", rows);
        let k = b.s(&x);
        b.hard(k, false, "rows");
        b.dec(k, "rows");
        b.nl();
        // scanner position and axes: read past, whatever they say
        for _ in 0..4 {
            if t.chance(1, 6) {
                let x = b.noise();
                b.s(&x);
            } else {
                b.s("0 0 1");
            }
            b.nl();
        }
        let identity = t.chance(1, 3);
        let mut m = [[0.0f64; 4]; 4];
        for r in 0..4 {
            for c in 0..4 {
                m[r][c] = if r == 3 || identity {
                    if r == c {
                        1.0
                    } else {
                        0.0
                    }
                } else if c == 3 {
                    t.below(41) as f64 - 20.0
                } else {
                    t.below(7) as f64 - 3.0
                };
            }
        }
        for r in 0..4 {
            for c in 0..4 {
                if c > 0 {
                    b.gap();
                }
                let x = format!("{}", m[r][c]);
                let k = b.s(&x);
                b.hard(k, false, "matrix");
                if r == 3 && c == 3 {
                    b.mark(if n == 0 { O } else { E }, if n == 0 { O } else { E });
                }
            }
            b.nl();
        }
        let color = t.chance(1, 3);
        for i in 0..n {
            let after = if i + 1 == n { O } else { E };
            b.rec((E, E), (after, after), if color { 4 } else { 1 }, " ", |b| {
                let mut p = [0.0; 3];
                let mut tok = (0, 0);
                for j in 0..3 {
                    if j > 0 {
                        b.gap();
                    }
                    let (v, k) = if identity { b.num() } else { b.exact_num() };
                    p[j] = v;
                    b.hard(k, false, "coordinate");
                    tok = k;
                }
                let q = if identity {
                    p
                } else {
                    let mut q = [0.0; 3];
                    for r in 0..3 {
                        q[r] = m[r][0] * p[0] + m[r][1] * p[1] + m[r][2] * p[2] + m[r][3];
                    }
                    q
                };
                (RK::V(q), tok)
            });
        }
    }
    b.finish(format!("{} scans", blocks))
}

fn psl(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::Psl, false);
    b.mark(E, E);
    let passes = t.range(0, 3);
    // passes without lines, or lines without points
    let empty = if passes > 0 && b.fill > 0 { if t.bool() { b.fill } else { b.fill / 4 } } else { 0 };
    let (mut passes_empty, mut lines_empty) = if t.bool() { (empty, 0) } else { (0, empty) };
    b.doc.filled = empty;
    b.s("PSL\0");
    b.b(&(t.below(5) as i32).to_le_bytes());
    b.b(&vec![t.below(256) as u8; 128]);
    let k = b.b(&((passes + passes_empty) as i32).to_le_bytes());
    b.bin(k, FieldKind::I32, "passes");
    b.b(&1i32.to_le_bytes());
    b.b(&vec![t.below(256) as u8; 368]);
    for _ in 0..passes {
        for _ in 0..std::mem::take(&mut passes_empty) {
            b.b(&[0; 64]);
        }
        let lines = t.range(0, 3);
        let k = b.b(&((lines + lines_empty) as i32).to_le_bytes());
        b.bin(k, FieldKind::I32, "lines");
        b.b(&7i32.to_le_bytes());
        b.b(&[0x55u8; 56]);
        for _ in 0..std::mem::take(&mut lines_empty) {
            b.b(&[0; 64]);
        }
        for _ in 0..lines {
            let n = if max > 40_000 && b.doc.recs.is_empty() { max } else { t.size((max / 4).max(2)) };
            let k = b.b(&(n as i32).to_le_bytes());
            b.bin(k, FieldKind::I32, "points");
            b.b(&[1u8; 12]);
            b.b(&[2u8; 48]);
            for _ in 0..n {
                let p = [coord(t) as f32, coord(t) as f32, coord(t) as f32];
                let start = b.at();
                for x in &p {
                    b.b(&x.to_le_bytes());
                }
                let end = b.at();
                b.doc.recs.push(Rec { kind: RK::V([p[0] as f64, p[1] as f64, p[2] as f64]), start, end, tok_start: end, tok_end: end });
            }
        }
    }
    b.mark(O, O);
    b.doc.need_points = Some(b.at());
    b.doc.need_mesh = Some(b.at());
    b.finish(format!("{} passes", passes))
}

/// faces over `n` vertices
fn faces(t: &Tape, n: usize, max: usize) -> Vec<[usize; 3]> {
    if n < 3 {
        return vec![];
    }
    (0..t.size(max))
        .map(|_| {
            let a = t.usize_below(n);
            let b = (a + 1 + t.usize_below(n - 1)) % n;
            let mut c = t.usize_below(n);
            while c == a || c == b {
                c = (c + 1) % n;
            }
            [a, b, c]
        })
        .collect()
}

fn obj(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::Obj, true);
    b.doc.has_faces = true;
    let n = t.size(max);
    let fs = faces(t, n, max);
    let interleave = t.chance(1, 3);
    let w = t.chance(1, 5);
    let style = t.below(4);
    b.mark(O, O);
    let mut fi = 0;
    let other = |b: &mut B, t: &Tape| {
        if t.chance(1, 4) {
            match t.below(8) {
                0 => b.remark("# comment"),
                4 => b.remark("o "),
                5 => b.remark("usemtl v f"),
                k => {
                    b.s(["", "vn 0 0 1", "vt 0.5 0.25", "", "", "", "s off", "vp 0.3"][k as usize]);
                }
            }
            b.nl();
        }
        b.filler(&["", "#", "vn 0 0 1", "s 1"]);
    };
    let face = |b: &mut B, f: &[usize; 3]| {
        let (start, base) = (b.at(), b.doc.marks.len());
        let mut pre = 0;
        b.rec((O, E), (O, O), 0, " ", |b| {
            pre = b.indent();
            b.s("f");
            b.gap();
            let mut tok = (0, 0);
            for (j, x) in f.iter().enumerate() {
                if j > 0 {
                    b.gap();
                }
                let x = format!("{}", x + 1);
                tok = b.s(&x);
                b.hard(tok, true, "face index");
                b.dec(tok, "face index");
                match style {
                    1 => {
                        b.s("/1");
                    }
                    2 => {
                        b.s("/1/2");
                    }
                    3 => {
                        b.s("//3");
                    }
                    _ => {}
                }
            }
            (RK::F(*f), tok)
        });
        // the bare keyword is not recognised as a face line
        b.mark_at(start + 1, O, Any);
        let first = b.word(start + pre + 1);
        let m = b.later(base, first);
        b.mark_at(first, O, E);
        // keep the later marks of this line in force
        b.doc.marks.extend(m);
    };
    for i in 0..n {
        other(&mut b, t);
        let (start, base) = (b.at(), b.doc.marks.len());
        let mut pre = 0;
        b.rec((E, E), (O, O), w as usize, " ", |b| {
            let mut p = [0.0; 3];
            let mut tok = (0, 0);
            pre = b.indent();
            b.s("v");
            b.gap();
            if b.t.chance(1, 10) {
                b.s(" ");
            }
            for j in 0..3 {
                if j > 0 {
                    b.gap();
                }
                let (v, k) = b.num();
                p[j] = v;
                b.hard(k, false, "coordinate");
                tok = k;
            }
            (RK::V(p), tok)
        });
        b.mark_at(start + 1, Any, Any);
        let m = b.later(base, start + 1);
        // the line is recognised as a vertex from its first number on
        let first = b.word(start + pre + 1);
        b.mark_at(first, E, E);
        b.doc.marks.extend(m.into_iter().filter(|m| m.0 >= first));
        while interleave && fi < fs.len() && fs[fi].iter().all(|x| *x <= i) {
            face(&mut b, &fs[fi]);
            fi += 1;
        }
    }
    while fi < fs.len() {
        other(&mut b, t);
        face(&mut b, &fs[fi]);
        fi += 1;
    }
    b.finish(format!("{} vertices {} faces, style {}", n, fs.len(), style))
}

fn off(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::Off, true);
    b.doc.has_faces = true;
    let n = t.size(max);
    let fs = faces(t, n, max);
    let nf = fs.len();
    let comments = t.chance(1, 3);
    let c = |b: &mut B, t: &Tape| {
        if comments && t.chance(1, 3) {
            if t.bool() {
                b.remark("# ");
            }
            b.nl();
        }
        b.filler(&["", "#", "# 1 2 3"]);
    };
    b.mark(Any, Any);
    if t.chance(1, 8) {
        for _ in 0..t.range(1, 3) {
            b.remark("# ");
            b.nl();
        }
    }
    b.s("OFF");
    b.mark(E, E);
    if t.chance(1, 6) {
        // the counts on the line of the keyword
        if t.bool() {
            b.gap();
        }
    } else {
        b.nl();
        c(&mut b, t);
    }
    let x = format!("{}", n);
    let k = b.s(&x);
    b.hard(k, false, "vertex count");
    b.dec(k, "vertex count");
    if n == 0 {
        // a point load needs the first count only
        b.mark(Any, E);
    }
    b.gap();
    let x = format!("{}", nf);
    let k = b.s(&x);
    b.hard(k, true, "face count");
    b.dec(k, "face count");
    let done = (if n == 0 { O } else { E }, if n + nf == 0 { O } else { E });
    b.mark(done.0, done.1);
    if t.chance(2, 3) {
        b.s(" 0");
    }
    b.nl();
    if n == 0 {
        b.doc.need_points = Some(b.at());
    }
    for i in 0..n {
        c(&mut b, t);
        let after = (if i + 1 == n { O } else { E }, if i + 1 == n && nf == 0 { O } else { E });
        b.rec((E, E), after, 0, " ", |b| {
            let mut p = [0.0; 3];
            let mut tok = (0, 0);
            for j in 0..3 {
                if j > 0 {
                    b.gap();
                }
                let (v, k) = b.num();
                p[j] = v;
                b.hard(k, false, "coordinate");
                tok = k;
            }
            (RK::V(p), tok)
        });
        b.doc.need_points = Some(b.at());
    }
    for (i, f) in fs.iter().enumerate() {
        c(&mut b, t);
        let after = (O, if i + 1 == nf { O } else { E });
        b.rec((O, E), after, 0, " ", |b| {
            let k = b.s("3");
            b.hard(k, true, "face size");
            let mut tok = (0, 0);
            for x in f {
                b.gap();
                let x = format!("{}", x);
                tok = b.s(&x);
                b.hard(tok, true, "face index");
                b.dec(tok, "face index");
            }
            (RK::F(*f), tok)
        });
    }
    b.finish(format!("{} vertices {} faces", n, nf))
}

fn gcode(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::Gcode, true);
    let n = t.size(max);
    let (mut pos, mut rel) = ([0.0f64; 3], false);
    b.mark(O, O);
    for _ in 0..n {
        match t.below(8) {
            0 => {
                // something else: ignored
                let x = *t.pick(&["; comment", "M104 S200", "", "G28 X Y", "T0", "G21 ; mm", "G92", "G4 P100", "G1 F1800", "G", "G1", "M117 ", ";"]);
                b.s(x);
                if x == ";" || x == "M117 " {
                    b.remark("");
                }
                b.nl();
                b.filler(&["", ";", "T0", "G1 F1800", "G4 P100"]);
                let e = b.at();
                b.mark_at(e, O, O);
            }
            1 => {
                rel = t.bool();
                let start = b.at();
                b.indent();
                let x = if rel { "G91" } else { "G90" };
                b.s(x);
                b.s(*t.pick(&["", " ", " ; mode", " X1 Y2", "\t; mode"]));
                b.nl();
                let _ = start;
                let e = b.at();
                b.mark_at(e, O, O);
            }
            k => {
                let set = k == 2;
                let start = b.at();
                b.rec((Any, Any), (O, O), 0, " ", |b| {
                    let g = if set { "G92" } else { *b.t.pick(&["G1", "G2", "G3"]) };
                    b.indent();
                    b.s(g);
                    let mut axes = vec![0usize, 1, 2];
                    match b.t.below(4) {
                        0 => axes = vec![b.t.usize_below(3)],
                        1 => axes = vec![0, 1],
                        2 => axes = vec![2, 0, 1],
                        _ => {}
                    }
                    let mut tok = (0, 0);
                    for a in axes {
                        b.gap();
                        if b.t.chance(1, 8) {
                            b.s(" ");
                        }
                        if b.t.chance(1, 8) {
                            b.s("F1200");
                            b.gap();
                        }
                        let ax = ["X", "Y", "Z"][a];
                        b.s(ax);
                        let (v, k) = b.exact_num();
                        tok = k;
                        b.hard(k, false, "coordinate");
                        if rel && !set {
                            pos[a] += v;
                        } else {
                            pos[a] = v;
                        }
                    }
                    let e = b.at();
                    if b.t.chance(1, 5) {
                        b.s(" E0.5 ; X9 move");
                        if b.t.chance(1, 4) {
                            b.remark(" ");
                        }
                    }
                    let _ = tok;
                    (RK::V(pos), (tok.0, e))
                });
                // partial commands are commands too: say nothing about a cut inside one
                let end = b.doc.recs.last().unwrap().tok_end;
                let keep = b.doc.marks.iter().rposition(|m| m.0 <= start).map(|i| i + 1).unwrap_or(0);
                let mut m = b.doc.marks.split_off(keep);
                m.retain(|m| m.0 >= end);
                b.mark_at(start + 1, Any, Any);
                b.doc.marks.extend(m);
                b.doc.recs.last_mut().unwrap().tok_start = start;
            }
        }
    }
    b.finish(format!("{} commands", n))
}

fn sp(t: &Tape, indent: usize) -> &'static str {
    match indent {
        0 => "",
        1 => ["    ", "  ", "\t"][t.usize_below(3)],
        _ => ["        ", " ", "\t\t"][t.usize_below(3)],
    }
}

fn stl_ascii(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::StlAscii, true);
    b.doc.stl = vec![StlF::Auto, StlF::Ascii];
    let n = t.size(max);
    let grid = t.chance(1, 2);
    b.mark(E, E);
    b.s("solid");
    b.mark(Any, Any);
    if t.chance(3, 4) {
        let mut x = b.noise();
        x.retain(|x| *x != 0);
        b.s(" ");
        b.s(&x);
    }
    b.nl();
    b.mark(Any, Any);
    let indent = t.chance(3, 4);
    for _ in 0..n {
        let start = b.at();
        if t.chance(1, 8) {
            b.s(" ");
        }
        b.indent();
        let k = b.s("facet");
        b.hard(k, false, "facet");
        b.gap();
        b.s("normal");
        b.gap();
        let (x, _) = b.num();
        b.gap();
        let (y, _) = b.num();
        b.gap();
        let (z, _) = b.num();
        b.nl();
        let i1 = if indent { sp(t, 1) } else { "" };
        let i2 = if indent { sp(t, 2) } else { "" };
        b.s(i1);
        b.indent();
        let k = b.s("outer loop");
        b.hard(k, false, "outer loop");
        b.nl();
        let mut ps = [[0.0; 3]; 4];
        ps[3] = [x, y, z];
        for j in 0..3 {
            b.s(i2);
            b.indent();
            b.s("vertex");
            for c in 0..3 {
                b.gap();
                let (v, k) = if grid {
                    let x = *t.pick(&["0", "1", "2.5", "-0", "1e0"]);
                    (x.parse().unwrap(), b.s(x))
                } else {
                    b.num()
                };
                b.hard(k, false, "coordinate");
                ps[j][c] = v;
            }
            b.nl();
        }
        b.s(i1);
        b.indent();
        let k = b.s("endloop");
        b.hard(k, false, "endloop");
        b.nl();
        if t.chance(1, 8) {
            b.s(" ");
        }
        let k = b.s("endfacet");
        b.hard(k, false, "endfacet");
        b.mark_at(start + 1, E, E);
        b.mark(Any, Any);
        b.nl();
        let end = b.at();
        b.doc.recs.push(Rec { kind: RK::T(ps), start, end, tok_start: k.1, tok_end: k.1 });
    }
    b.s("endsolid");
    b.mark(O, O);
    if t.bool() {
        b.remark(" name ");
    }
    b.nl();
    b.doc.need_points = Some(b.at());
    b.doc.need_mesh = Some(b.at());
    b.finish(format!("{} facets, grid {}", n, grid))
}

fn stl_binary(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::StlBinary, false);
    let n = t.size(max);
    let grid = t.chance(1, 2);
    // nothing but triangles without area
    let flat = t.is_large() && t.chance(1, 3);
    b.mark(E, E);
    let mut header = vec![t.below(256) as u8; 80];
    let solid = t.chance(1, 3);
    if solid {
        header[..5].copy_from_slice(b"solid");
        b.doc.stl = vec![StlF::Binary];
    } else {
        header[0] = b'b';
        b.doc.stl = vec![StlF::Binary, StlF::Auto];
    }
    if t.chance(1, 4) {
        header[40] = b'\n';
    }
    b.b(&header);
    let k = b.b(&(n as u32).to_le_bytes());
    b.bin(k, FieldKind::U32, "triangle count");
    for _ in 0..n {
        let start = b.at();
        let mut ps = [[0.0f64; 3]; 4];
        for j in [3, 0, 1, 2] {
            for c in 0..3 {
                let v = if flat { 1.0 } else if grid { [0.0f32, 1.0, 2.5, -0.0][t.usize_below(4)] } else { coord(t) as f32 };
                b.b(&v.to_le_bytes());
                ps[j][c] = v as f64;
            }
        }
        b.b(&(t.below(65536) as u16).to_le_bytes());
        let end = b.at();
        b.doc.recs.push(Rec { kind: RK::T(ps), start, end, tok_start: end, tok_end: end });
    }
    b.mark(O, O);
    b.doc.need_points = Some(b.at());
    b.doc.need_mesh = Some(b.at());
    b.finish(format!("{} triangles, grid {}, solid {}", n, grid, solid))
}

fn las(t: &Tape, max: usize) -> Doc {
    let mut b = B::new(t, Fmt::Las, false);
    let n = t.size(max);
    let mut rec_len = *t.pick(&[20usize, 12, 28, 34, 13, 67]);
    if !t.is_large() && t.chance(1, 10) {
        rec_len = *t.pick(&[255usize, 256, 257, 1000, 4097, 9000, 65535]);
    }
    let gap = if b.fill > 0 { b.fill } else { *t.pick(&[0usize, 1, 54, 300]) };
    b.doc.filled = b.fill;
    // headers grew with the versions; the older ones know the legacy count only
    let minor = t.below(5) as u8;
    let size = [227, 227, 227, 235, 375][minor as usize];
    let legacy = minor < 4 || t.bool();
    // exact arithmetic: scales are powers of two, offsets integers
    let scale: Vec<f64> = (0..3).map(|_| [1.0, 0.5, 0.125, 0.0009765625][t.usize_below(4)]).collect();
    let offs: Vec<f64> = (0..3).map(|_| t.below(2001) as f64 - 1000.0).collect();
    b.mark(E, E);
    let noise = t.below(256) as u8;
    let mut h = vec![noise; size];
    h[0..4].copy_from_slice(b"LASF");
    h[24] = 1;
    h[25] = minor;
    h[94..96].copy_from_slice(&(size as u16).to_le_bytes());
    h[96..100].copy_from_slice(&((size + gap) as u32).to_le_bytes());
    h[100..104].copy_from_slice(&0u32.to_le_bytes());
    h[104] = t.below(11) as u8;
    h[105..107].copy_from_slice(&(rec_len as u16).to_le_bytes());
    let (l, m) = if legacy { (n as u32, t.below(2) * n as u64) } else { (0, n as u64) };
    h[107..111].copy_from_slice(&l.to_le_bytes());
    if minor == 4 {
        h[247..255].copy_from_slice(&m.to_le_bytes());
    }
    for i in 0..3 {
        h[131 + 8 * i..139 + 8 * i].copy_from_slice(&scale[i].to_le_bytes());
        h[155 + 8 * i..163 + 8 * i].copy_from_slice(&offs[i].to_le_bytes());
    }
    let known = if minor == 4 { 375 } else { 227 };
    b.b(&h[..known]);
    if n == 0 && minor < 4 {
        b.mark(Any, Any);
    }
    b.b(&h[known..]);
    b.bin((96, 100), FieldKind::U32, "offset to points");
    b.bin((105, 107), FieldKind::U16, "record length");
    b.bin((107, 111), FieldKind::U32, "legacy count");
    if minor == 4 {
        b.bin((247, 255), FieldKind::U64, "count");
    }
    b.bin((131, 139), FieldKind::F64, "scale");
    b.bin((24, 25), FieldKind::U8, "version");
    b.bin((104, 105), FieldKind::U8, "point format");
    // with a legacy count of zero the other count is used
    let n = if legacy && n == 0 { 0 } else { n };
    if n == 0 {
        b.mark(Any, Any);
    }
    b.b(&vec![0xAAu8; gap]);
    for _ in 0..n {
        let start = b.at();
        let mut p = [0.0; 3];
        for i in 0..3 {
            let v = t.below(1 << 21) as i32 - (1 << 20);
            b.b(&v.to_le_bytes());
            p[i] = offs[i] + v as f64 * scale[i];
        }
        b.b(&vec![0x33u8; rec_len - 12]);
        let end = b.at();
        b.doc.recs.push(Rec { kind: RK::V(p), start, end, tok_start: end, tok_end: end });
    }
    b.mark(O, O);
    // the header up to what the version promises, then the records
    let need = if n == 0 { known } else { b.at() };
    b.doc.need_points = Some(need);
    b.doc.need_mesh = Some(need);
    if t.chance(1, 4) {
        b.b(&[0xEEu8; 9]);
    }
    b.finish(format!("{} points of {} bytes after a gap of {}, legacy {}", n, rec_len, gap, legacy))
}

const PTYPES: [(&str, usize); 16] = [
    ("uchar", 1),
    ("uint8", 1),
    ("char", 1),
    ("int8", 1),
    ("short", 2),
    ("int16", 2),
    ("ushort", 2),
    ("uint16", 2),
    ("int", 4),
    ("int32", 4),
    ("uint", 4),
    ("uint32", 4),
    ("float", 4),
    ("float32", 4),
    ("double", 8),
    ("float64", 8),
];

/// 384 blanks
const BLANKS: &str = concat!(
    "                                                                \t                                                               ",
    "\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t                \t \t \t \t \t \t \t \t                                                              ",
    "                                                                                                                                "
);

/// Further properties of each of n elements: a few, seldom a lot
fn how_many(t: &Tape, n: usize) -> usize {
    if n <= 12 && t.chance(1, 20) {
        t.range(4, if t.chance(1, 3) { 300 } else { 40 })
    } else {
        t.range(1, 3)
    }
}

fn ply(t: &Tape, fmt: Fmt, max: usize) -> Doc {
    let ascii = fmt == Fmt::PlyAscii;
    let be = fmt == Fmt::PlyBe;
    let mut b = B::new(t, fmt, ascii);
    if !ascii && t.chance(1, 8) {
        b.eol = "\r\n";
    }
    let n = t.size(max);
    let with_faces = t.chance(3, 4);
    b.doc.has_faces = with_faces;
    let fs = if with_faces { faces(t, n, max) } else { vec![] };
    b.mark(E, E);
    let remark = |b: &mut B, t: &Tape| {
        if t.chance(1, 4) {
            b.remark(if t.bool() { "comment " } else { "obj_info " });
            b.nl();
        }
        b.filler(&["comment", "obj_info 1"]);
    };
    let k = b.s("ply");
    b.hard(k, false, "magic");
    b.nl();
    remark(&mut b, t);
    let k = b.s(match fmt {
        Fmt::PlyAscii => "format ascii 1.0",
        Fmt::PlyLe => "format binary_little_endian 1.0",
        _ => "format binary_big_endian 1.0",
    });
    b.hard(k, false, "format");
    b.nl();
    remark(&mut b, t);
    b.s("element vertex ");
    let x = format!("{}", n);
    let k = b.s(&x);
    b.hard(k, false, "vertex count");
    b.dec(k, "vertex count");
    b.nl();
    // properties
    let order = *t.pick(&[[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
    let order = if t.chance(2, 3) { [0, 1, 2] } else { order };
    let doubles: [bool; 3] = match t.below(4) {
        0 => [false; 3],
        1 => [true; 3],
        _ => [t.bool(), t.bool(), t.bool()],
    };
    // extra properties: [before, between, between, after]
    let swarm = t.chance(1, 2);
    let mut extra: Vec<Vec<(&str, usize)>> = vec![];
    for _ in 0..4 {
        let mut v = vec![];
        if swarm && t.chance(1, 2) {
            for _ in 0..how_many(t, n) {
                v.push(*t.pick(&PTYPES));
            }
        }
        extra.push(v);
    }
    for slot in 0..4 {
        for (i, (ty, _)) in extra[slot].iter().enumerate() {
            b.s("property ");
            let k = b.s(ty);
            b.hard(k, false, "property type");
            let x = format!(" extra{}{}", slot, i);
            b.s(&x);
            b.nl();
        }
        if slot < 3 {
            remark(&mut b, t);
            b.s("property ");
            let ty = match (doubles[slot], t.bool()) {
                (false, false) => "float",
                (false, true) => "float32",
                (true, false) => "double",
                (true, true) => "float64",
            };
            let k = b.s(ty);
            b.hard(k, false, "property type");
            let x = format!(" {}", ["x", "y", "z"][order[slot]]);
            b.s(&x);
            b.nl();
        }
    }
    let mut itypes: Vec<(&str, usize)> = PTYPES[..12].iter().cloned().filter(|(n_, s)| n <= 1 << (8 * s - if n_.starts_with('u') { 0 } else { 1 })).collect();
    itypes.rotate_left(0);
    let ctype = *t.pick(&PTYPES[..12]);
    let itype = *t.pick(&itypes);
    let mut fextra: Vec<Vec<(&str, usize)>> = vec![vec![], vec![]];
    if with_faces {
        remark(&mut b, t);
        b.s("element face ");
        let x = format!("{}", fs.len());
        let k = b.s(&x);
        b.hard(k, false, "face count");
        b.dec(k, "face count");
        b.nl();
        for slot in 0..2 {
            if t.chance(1, 3) {
                for i in 0..how_many(t, fs.len()) {
                    let ty = *t.pick(&PTYPES);
                    b.s("property ");
                    let k = b.s(ty.0);
                    b.hard(k, false, "property type");
                    let x = format!(" fextra{}{}", slot, i);
                    b.s(&x);
                    b.nl();
                    fextra[slot].push(ty);
                }
            }
            if slot == 0 {
                b.s("property list ");
                let k = b.s(ctype.0);
                b.hard(k, false, "list type");
                b.gap();
                let k = b.s(itype.0);
                b.hard(k, false, "list type");
                let x = if t.chance(2, 3) { " vertex_indices" } else { " vertex_index" };
                b.s(x);
                b.nl();
            }
        }
        remark(&mut b, t);
    }
    let k = b.s("end_header");
    b.hard(k, false, "end_header");
    let nf = fs.len();
    let state = |v: usize, f: usize| (if v == n { O } else { E }, if v == n && f == nf { O } else { E });
    {
        // without its line end the line is still the last one of the header
        let s = state(0, 0);
        let f = |c: Cut| if ascii || c == E { c } else { Cut::Any };
        b.mark(f(s.0), f(s.1));
    }
    b.nl();
    let s = state(0, 0);
    b.mark(s.0, s.1);
    b.doc.need_points = if n == 0 { Some(b.at()) } else { None };
    b.doc.need_mesh = if n + nf == 0 { Some(b.at()) } else { None };

    let scalar = |b: &mut B, ty: &(&str, usize)| {
        if ascii {
            let x = if ty.0.starts_with('f') || ty.0.starts_with('d') { format!("{}.5", t.below(9)) } else { format!("{}", t.below(100)) };
            b.s(&x);
        } else {
            let x: Vec<u8> = (0..ty.1).map(|_| t.below(256) as u8).collect();
            b.b(&x);
        }
    };
    let after_v = extra[3].clone();
    for i in 0..n {
        let vals = |b: &mut B| -> (RK, (usize, usize)) {
            let mut p = [0.0; 3];
            let mut tok = (0, 0);
            for slot in 0..3 {
                for e in &extra[slot] {
                    scalar(b, e);
                    if ascii {
                        b.gap();
                    }
                }
                if ascii {
                    let (v, k) = b.num();
                    p[order[slot]] = v;
                    b.hard(k, false, "coordinate");
                    tok = k;
                    if slot < 2 {
                        b.gap();
                    }
                } else {
                    let v = coord(t);
                    let (val, bytes) = match (doubles[slot], be) {
                        (false, false) => ((v as f32) as f64, (v as f32).to_le_bytes().to_vec()),
                        (false, true) => ((v as f32) as f64, (v as f32).to_be_bytes().to_vec()),
                        (true, false) => (v, v.to_le_bytes().to_vec()),
                        (true, true) => (v, v.to_be_bytes().to_vec()),
                    };
                    p[order[slot]] = val;
                    b.b(&bytes);
                }
            }
            (RK::V(p), tok)
        };
        let st = state(i + 1, 0);
        if ascii {
            let prev = state(i, 0);
            let inside = (if prev.0 == O { O } else { E }, E);
            b.rec(inside, st, after_v.len(), " ", vals);
        } else {
            let start = b.at();
            let (kind, _) = vals(&mut b);
            for e in &after_v {
                scalar(&mut b, e);
            }
            let end = b.at();
            b.mark(st.0, st.1);
            b.doc.recs.push(Rec { kind, start, end, tok_start: end, tok_end: end });
        }
        if i + 1 == n {
            b.doc.need_points = Some(b.at());
            if nf == 0 {
                b.doc.need_mesh = Some(b.at());
            }
        }
    }
    for (i, f) in fs.iter().enumerate() {
        let int = |b: &mut B, ty: &(&str, usize), v: usize| -> (usize, usize) {
            if ascii {
                let x = format!("{}", v);
                b.s(&x)
            } else {
                let mut x = (v as u32).to_le_bytes()[..ty.1].to_vec();
                if be {
                    x.reverse();
                }
                b.b(&x)
            }
        };
        let st = state(n, i + 1);
        if ascii {
            b.rec((O, E), st, fextra[1].len(), " ", |b| {
                for e in &fextra[0] {
                    scalar(b, e);
                    b.gap();
                }
                let k = int(b, &ctype, 3);
                b.hard(k, true, "face size");
                let mut tok = (0, 0);
                for x in f {
                    b.gap();
                    tok = int(b, &itype, *x);
                    b.hard(tok, true, "face index");
                    b.dec(tok, "face index");
                }
                (RK::F(*f), tok)
            });
        } else {
            let start = b.at();
            for e in &fextra[0] {
                scalar(&mut b, e);
            }
            let k = int(&mut b, &ctype, 3);
            b.bin(k, FieldKind::U8, "face size");
            for x in f {
                let k = int(&mut b, &itype, *x);
                b.bin(k, FieldKind::U8, "face index");
            }
            for e in &fextra[1] {
                scalar(&mut b, e);
            }
            let end = b.at();
            b.mark(st.0, st.1);
            b.doc.recs.push(Rec { kind: RK::F(*f), start, end, tok_start: end, tok_end: end });
        }
        if i + 1 == nf {
            b.doc.need_mesh = Some(b.at());
        }
    }
    let d = format!(
        "{} vertices {} faces (declared: {}), order {:?}, doubles {:?}, extra properties {:?}/{:?}, list {} {}",
        n,
        nf,
        with_faces,
        order,
        doubles,
        extra.iter().map(|e| e.len()).collect::<Vec<_>>(),
        fextra.iter().map(|e| e.len()).collect::<Vec<_>>(),
        ctype.0,
        itype.0
    );
    b.finish(d)
}
