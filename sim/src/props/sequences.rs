//! C14: documents stored back to back in one stream
use crate::docs::{self, Doc, Fmt, RK};
use crate::load::{bulk, incremental, Api, Containers, Data, Item, MeshKind, PointKind, Setup};
use crate::props::loading::{draw_doc, draw_setup, kinds, same_recs, show};
use crate::simio::{AnyReader, Fault, Plan, HARD_KINDS};
use crate::tape::mix;
use crate::world::{Ctx, Verdict};
use std::rc::Rc;

const SELF_DELIMITED: [Fmt; 6] = [Fmt::PlyAscii, Fmt::PlyLe, Fmt::PlyBe, Fmt::StlAscii, Fmt::StlBinary, Fmt::Psl];

struct Part {
    doc: Doc,
    s: Setup,
    /// one past its last byte
    end: usize,
    /// read record by record
    stepped: bool,
    want: Data,
    /// same containers as the part before
    shared: bool,
}

pub fn c14(c: &Ctx) -> Verdict {
    let t = &c.t;
    let n = t.range(1, 4);
    let mut bytes: Vec<u8> = vec![];
    let mut marks = vec![];
    let mut parts: Vec<Part> = vec![];
    for i in 0..n {
        let doc = draw_doc(c, &SELF_DELIMITED, 16);
        let mut s = draw_setup(c, &doc, true);
        if s.api == Api::PlyEither {
            s.points = PointKind::Cloud;
            if s.mesh == MeshKind::F32Dyn {
                s.mesh = MeshKind::CloudDyn;
            }
        }
        let start = bytes.len();
        let need = doc.need(s.api).expect("harness: self-delimited document");
        marks.extend(doc.boundaries().into_iter().filter(|m| *m <= need).map(|m| m + start));
        bytes.extend_from_slice(&doc.bytes[..need]);
        if doc.text && !bytes.ends_with(b"\n") && (i + 1 < n || t.bool()) {
            bytes.push(b'\n');
        }
        let end = bytes.len();
        marks.push(end);
        let stepped = t.chance(1, 3);
        let mut shared = false;
        if let Some(p) = parts.last() {
            if p.s.api == s.api && !stepped && !p.stepped && s.api != Api::PlyEither && t.chance(2, 3) {
                // added to what the documents before left in their container
                s.mesh = p.s.mesh;
                s.points = p.s.points;
                s.initial = p.want.clone();
                shared = true;
                c.hit("two documents into one container");
            }
        }
        let (want, refused) = docs::expect(&s, doc.has_faces, &kinds(&doc.view(s.api)));
        assert!(refused.is_none(), "harness: document with unacceptable faces");
        parts.push(Part { doc, s, end, stepped, want, shared });
    }
    // what follows the last document is none of its business
    let tail = match t.below(4) {
        0 => vec![],
        1 => b"ply\nformat ascii 1.0\n".to_vec(),
        2 => b"\n\n".to_vec(),
        _ => (0..t.range(1, 60)).map(|_| t.below(256) as u8).collect(),
    };
    let complete = parts.last().map(|p| !p.doc.text || bytes.ends_with(b"\n")).unwrap_or(true);
    if complete {
        bytes.extend_from_slice(&tail);
        c.hit_if(!tail.is_empty(), "more data follows");
    }
    let mut plan = Plan::draw(t, &marks);
    let fault = if t.chance(1, 3) && complete {
        // the device breaks once the first documents are read
        let k = t.usize_below(n);
        let at = parts[k].end + if t.bool() { 0 } else { t.usize_below(bytes.len() - parts[k].end + 1) };
        plan.fault = Some(Fault { at, kind: *t.pick(&HARD_KINDS), times: usize::MAX });
        Some(at)
    } else {
        None
    };
    c.event(mix(n as u64, bytes.len() as u64));
    c.note(|| format!("{} documents ending at {:?}, {} bytes in all: {}; plan {:?}", n, parts.iter().map(|p| p.end).collect::<Vec<_>>(), bytes.len(), show(&bytes), plan));
    let bytes = Rc::new(bytes);
    let mut r = AnyReader::new(bytes.clone(), &plan);
    let stats = r.stats();
    let mut k: Option<Containers> = None;
    for (i, p) in parts.iter().enumerate() {
        c.step();
        let what = format!("document {} of {} ({:?} via {:?})", i + 1, n, p.doc.fmt, p.s.api);
        let readable = fault.map(|at| p.end <= at).unwrap_or(true);
        let from = r.consumed();
        let got: Result<(), String> = if p.stepped && p.s.api != Api::PlyEither {
            let mut items = vec![];
            let o = match incremental(p.s.api, p.s.stl, &mut r) {
                Err(e) => Err(format!("{:?}", e)),
                Ok(it) => {
                    let mut o = Ok(());
                    for x in it {
                        match x {
                            Ok(Item::Reserve(..)) => {}
                            Ok(Item::Point(p)) => items.push(RK::V(p)),
                            Ok(Item::Face(f)) => items.push(RK::F(f)),
                            Ok(Item::Tri(f)) => items.push(RK::T(f)),
                            Err(e) => {
                                o = Err(format!("{:?}", e));
                                break;
                            }
                        }
                        if items.len() > bytes.len() + 64 {
                            bail!("endless", "{}: more items than bytes", what);
                        }
                    }
                    o
                }
            };
            c.hit("document read record by record");
            if o.is_ok() {
                let view = kinds(&p.doc.view(p.s.api));
                if !same_recs(&items, &view) {
                    bail!("wrong-data", "{}: records {:?} instead of {:?}", what, items, view);
                }
            }
            o
        } else {
            if !p.shared {
                k = Some(Containers::new(&p.s));
            }
            let kk = k.as_mut().expect("harness: container");
            match bulk(&p.s, kk, &mut r) {
                Err(e) => Err(format!("{:?}", e)),
                Ok(m) => {
                    if m.map(|m| m != p.doc.has_faces).unwrap_or(false) {
                        bail!("wrong-kind", "{}: found a mesh: {:?}", what, m);
                    }
                    let d = kk.data(&p.s);
                    if !d.same(&p.want) {
                        bail!("wrong-data", "{}: loaded {} instead of {}", what, d.short(), p.want.short());
                    }
                    Ok(())
                }
            }
        };
        c.event_str(&format!("{:?}", got));
        match got {
            Err(e) if readable => bail!("refused", "{} starting at byte {} is complete at byte {}, the stream is readable up to {:?}: {}", what, from, p.end, fault, e),
            Err(_) => {
                c.hit("document behind the fault");
                c.stream(&stats.borrow());
                return Ok(());
            }
            Ok(()) if !readable => bail!("fault-masked", "{}: the stream fails at byte {:?}, its end is at {}, yet it loaded", what, fault, p.end),
            Ok(()) => {}
        }
        c.hit_if(fault == Some(p.end), "fault right behind the document");
        if r.consumed() != p.end {
            bail!("position", "{}: starting at byte {} it ends at byte {}, but the stream was consumed up to byte {}", what, from, p.end, r.consumed());
        }
        c.hit_if(i > 0, "document after another");
    }
    c.stream(&stats.borrow());
    Ok(())
}
