//! C01 - C07: loading from simulated streams
use crate::alloc;
use crate::docs::{self, Cut, Doc, Field, FieldKind, Fmt, FMTS, RK, TEXT_FMTS};
use crate::load::*;
use crate::simio::{AnyReader, Plan, HARD_KINDS};
use crate::tape::{mix, mix_bytes, Tape};
use crate::world::{Ctx, Verdict};
use std::rc::Rc;

pub type Outcome = Result<Option<bool>, ErrInfo>;

pub fn draw_doc(c: &Ctx, fmts: &[Fmt], max: usize) -> Doc {
    let f = *c.t.pick(fmts);
    let large = c.t.chance(1, 120);
    let d = if large {
        let huge = c.t.chance(1, 45);
        // beyond what 16 bits hold, with or without a sign
        let n = if huge { *c.t.pick(&[74_000, 45_000]) } else { 40 + c.t.usize_below(860) };
        c.hit_if(huge, "document of more than 40000 records");
        c.t.begin_bulk();
        let d = docs::gen(&c.t, f, n);
        c.t.end_bulk();
        d
    } else {
        docs::gen(&c.t, f, max)
    };
    c.hit_if(large, "document of hundreds of records");
    c.hit_if(d.filled > 0, "thousands of lines or blocks without meaning in a row");
    c.hit_if(d.bytes.len() > 8192, "document larger than a default buffer");
    c.hit_if(d.bytes.len() > 65536, "document larger than 64 KiB");
    c.event(d.bytes.len() as u64);
    c.note(|| format!("document: {}", d.desc));
    c.note(|| format!("bytes: {}", show(&d.bytes)));
    d
}

/// Text as text, anything else in escaped form
pub fn show(b: &[u8]) -> String {
    let n = b.len().min(3000);
    let mut s = String::new();
    for x in &b[..n] {
        match *x {
            b'\n' => s.push_str("\\n"),
            b'\r' => s.push_str("\\r"),
            b'\t' => s.push_str("\\t"),
            b'\\' => s.push_str("\\\\"),
            32..=126 => s.push(*x as char),
            x => s.push_str(&format!("\\x{:02x}", x)),
        }
    }
    if n < b.len() {
        s.push_str(&format!(".. ({} bytes)", b.len()));
    }
    s
}

pub fn draw_setup(c: &Ctx, doc: &Doc, filled: bool) -> Setup {
    let t = &c.t;
    let apis = doc.apis();
    let api = *t.pick(&apis);
    let stl = *t.pick(&doc.stl);
    let points = *t.pick(&POINT_KINDS);
    let mesh = *t.pick(&MESH_KINDS);
    let mut initial = Data::default();
    if filled && t.chance(1, 3) {
        let n = t.range(1, 5);
        initial.points = (0..n).map(|i| [100.0 + i as f64, -7.0, 0.5]).collect();
        if api == Api::Xy {
            initial.points.iter_mut().for_each(|p| p[2] = 0.0);
        }
        if api.is_mesh() && n >= 3 {
            initial.faces = (0..t.range(0, 3)).map(|i| [i % n, (i + 1) % n, (i + 2) % n]).collect();
        }
        if api.is_stl() {
            initial.normals = (0..initial.faces.len()).map(|_| [0.0, 0.0, 1.0]).collect();
        }
        c.hit("filled container");
    }
    c.note(|| format!("load: {:?} as {:?} into {:?} / {:?}, previous content: {}", api, stl, points, mesh, initial.short()));
    Setup { api, stl, points, mesh, initial, panic_push: None, panic_reserve: false, budget: 2_000_000 }
}

pub fn load(c: &Ctx, s: &Setup, bytes: &Rc<Vec<u8>>, plan: &Plan) -> (Outcome, Data, crate::simio::Stats) {
    let mut r = AnyReader::new(bytes.clone(), plan);
    let stats = r.stats();
    let mut k = Containers::new(s);
    let out = bulk(s, &mut k, &mut r);
    let d = k.data(s);
    let st = stats.borrow().clone();
    c.stream(&st);
    c.event_str(&format!("{:?}", out));
    c.event(d.points.len() as u64);
    c.note(|| format!("plan {:?} -> {:?}, {} calls", plan, out, st.calls));
    (out, d, st)
}

pub fn kinds(recs: &[&docs::Rec]) -> Vec<RK> {
    recs.iter().map(|r| r.kind.clone()).collect()
}

/// a sound structure, whatever happened
pub fn sound(d: &Data) -> Verdict {
    for f in &d.faces {
        if f.iter().any(|i| *i >= d.points.len()) || f[0] == f[1] || f[0] == f[2] || f[1] == f[2] {
            bail!("unsound", "face {:?} in a mesh of {} vertices", f, d.points.len());
        }
    }
    Ok(())
}
fn sound_for(s: &Setup, d: &Data) -> Verdict {
    if s.api.is_mesh() {
        sound(d)?;
        if s.api.is_stl() && d.normals.len() != d.faces.len() {
            bail!("unsound", "{} faces but {} normals", d.faces.len(), d.normals.len());
        }
    }
    Ok(())
}

//------------------------------------------------------------------------------
// Damage

fn splice(b: &[u8], from: usize, to: usize, with: &[u8]) -> Vec<u8> {
    let mut v = b[..from].to_vec();
    v.extend_from_slice(with);
    v.extend_from_slice(&b[to..]);
    v
}

pub fn extreme(t: &Tape, b: &[u8], f: &Field) -> Vec<u8> {
    let old = &b[f.start..f.end];
    let with = match f.kind {
        FieldKind::Dec => {
            let xs: [&str; 16] = [
                "0",
                "1",
                "2",
                "-1",
                "-9223372036854775808",
                "255",
                "65536",
                "1000000",
                "4294967295",
                "4294967296",
                "1000000000000",
                "9223372036854775807",
                "18446744073709551615",
                "18446744073709551616",
                "3.5",
                "x",
            ];
            t.pick(&xs).as_bytes().to_vec()
        }
        FieldKind::F64 => {
            let xs = [0.0f64, -1.0, f64::NAN, f64::INFINITY, f64::MAX, f64::MIN_POSITIVE];
            t.pick(&xs).to_le_bytes().to_vec()
        }
        _ => {
            let n = old.len();
            match t.below(8) {
                0 => vec![0; n],
                1 => vec![0xFF; n],
                2 => {
                    let mut v = vec![0; n];
                    v[0] = 1;
                    v
                }
                3 => {
                    let mut v = vec![0; n];
                    v[n - 1] = 0x80;
                    v
                }
                4 => {
                    let mut v = vec![0xFF; n];
                    v[n - 1] = 0x7F;
                    v
                }
                5 => {
                    let mut v = old.to_vec();
                    v[0] = v[0].wrapping_add(1);
                    v
                }
                6 => {
                    let mut v = old.to_vec();
                    v[0] = v[0].wrapping_sub(1);
                    v
                }
                _ => (0..n).map(|_| t.below(256) as u8).collect(),
            }
        }
    };
    splice(b, f.start, f.end, &with)
}

/// Arbitrary damage to a document
pub fn damage(c: &Ctx, doc: &Doc) -> Vec<u8> {
    let t = &c.t;
    let mut b = doc.bytes.clone();
    let n = t.range(1, 3);
    for k in 0..n {
        if b.is_empty() {
            break;
        }
        let at = t.usize_below(b.len());
        match t.below(10) {
            // offsets of fields are valid for the undamaged document only
            0 | 1 | 2 if k == 0 && !doc.fields.is_empty() => {
                let f = t.pick(&doc.fields).clone();
                b = extreme(t, &b, &f);
                c.hit("damage: extreme field");
                c.event(f.start as u64);
            }
            3 if k == 0 && !doc.hard.is_empty() => {
                let h = t.pick(&doc.hard).clone();
                let xs: [&[u8]; 14] = [b"", b"x", b"-", b"nan", b"inf", b"1e999", b"-1", b"\xff\xfe", b"18446744073709551616", b"0", b"\xc3\xa9", b"1 1", b"\n", b"\t\t"];
                let w = *t.pick(&xs);
                b = splice(&b, h.start, h.end, w);
                c.hit("damage: token");
            }
            4 => {
                b.truncate(at);
                c.hit("damage: cut");
            }
            5 => {
                let e = (at + t.range(1, 40)).min(b.len());
                b.drain(at..e);
                c.hit("damage: bytes removed");
            }
            6 => {
                let e = (at + t.range(1, 60)).min(b.len());
                let x = b[at..e].to_vec();
                let to = t.usize_below(b.len());
                b = splice(&b, to, to, &x);
                c.hit("damage: bytes duplicated");
            }
            7 => {
                let x: Vec<u8> = (0..t.range(1, 12)).map(|_| t.below(256) as u8).collect();
                b = splice(&b, at, at, &x);
                c.hit("damage: bytes inserted");
            }
            8 => {
                let x = *t.pick(&[b'\n', b'\r', b' ', 0u8, 0xFF, b'-', b'9']);
                b[at] = x;
                c.hit("damage: byte replaced");
            }
            _ => {
                b[at] ^= 1 << t.below(8);
                c.hit("damage: bit flipped");
            }
        }
    }
    c.event(mix_bytes(0, &b));
    c.note(|| format!("damaged bytes: {}", show(&b)));
    b
}

fn draw_offset(c: &Ctx, doc: &Doc) -> usize {
    let t = &c.t;
    let len = doc.bytes.len();
    let at = match t.below(3) {
        0 => t.usize_below(len + 1),
        1 => {
            let b = doc.boundaries();
            let x = *t.pick(&b);
            let k = t.range(0, 2);
            (x + k).saturating_sub(1).min(len)
        }
        _ => {
            // within a record
            if doc.recs.is_empty() {
                t.usize_below(len + 1)
            } else {
                let r = t.pick(&doc.recs);
                t.range(r.start, r.end.max(r.start)).min(len)
            }
        }
    };
    at
}

//------------------------------------------------------------------------------

pub fn c01(c: &Ctx) -> Verdict {
    if c.t.chance(1, 60) {
        return super::layouts::run(c);
    }
    let doc = draw_doc(c, &FMTS, 60);
    let s = draw_setup(c, &doc, false);
    let marks = doc.boundaries();
    let plan = Plan::draw(&c.t, &marks);
    if c.t.chance(2, 5) {
        // any bytes: the same outcome under two deliveries
        let bytes = Rc::new(damage(c, &doc));
        let s = Setup { budget: bytes.len() + 64, ..s };
        let (o1, d1, _) = load(c, &s, &bytes, &Plan::plain());
        let (o2, d2, _) = load(c, &s, &bytes, &plan);
        if o1 != o2 {
            bail!("delivery-outcome", "{:?}: {:?} when delivered in one piece, {:?} when delivered in pieces", s.api, o1, o2);
        }
        if !d1.same(&d2) {
            bail!("delivery-data", "{:?}: {} when delivered in one piece, {} when delivered in pieces", s.api, d1.short(), d2.short());
        }
        c.hit_if(o1.is_err(), "same error under two deliveries");
        return Ok(());
    }
    let bytes = Rc::new(doc.bytes.clone());
    let (o, d, _) = load(c, &s, &bytes, &plan);
    let (want, refused) = docs::expect(&s, doc.has_faces, &kinds(&doc.view(s.api)));
    assert!(refused.is_none(), "harness: document with unacceptable faces");
    c.hit(&format!("{:?} via {:?}", doc.fmt, s.api));
    match o {
        Err(e) => bail!("refused", "{:?}: well-formed document refused: {:?}", s.api, e),
        Ok(m) => {
            if let Some(m) = m {
                if m != doc.has_faces {
                    bail!("wrong-kind", "found a mesh: {}, the document has faces: {}", m, doc.has_faces);
                }
            }
        }
    }
    if !d.same(&want) {
        bail!("wrong-data", "{:?}: loaded {} instead of {}", s.api, d.short(), want.short());
    }
    Ok(())
}

pub fn c02(c: &Ctx) -> Verdict {
    let doc = draw_doc(c, &FMTS, 40);
    let s = draw_setup(c, &doc, false);
    let marks = doc.boundaries();
    let mut plan = Plan::draw(&c.t, &marks);
    let bytes = Rc::new(doc.bytes.clone());
    let need = doc.need(s.api);
    let (want, _) = docs::expect(&s, doc.has_faces, &kinds(&doc.view(s.api)));
    if s.api == Api::Las && c.t.chance(1, 4) {
        plan.seek_fail = Some((c.t.usize_below(4), *c.t.pick(&HARD_KINDS)));
        let (o, d, st) = load(c, &s, &bytes, &plan);
        match o {
            Ok(_) if st.seek_faults > 0 => bail!("seek-masked", "{:?}: a seek failed, yet the load succeeded", s.api),
            Ok(_) if !d.same(&want) => bail!("wrong-data", "{:?}: loaded {} instead of {}", s.api, d.short(), want.short()),
            _ => return Ok(()),
        }
    }
    let at = draw_offset(c, &doc);
    plan = plan.with_fault(&c.t, at);
    let (o, d, st) = load(c, &s, &bytes, &plan);
    let must_fail = need.map(|n| at < n).unwrap_or(true);
    c.hit_if(must_fail && st.faults > 0, "fault before everything needed was read");
    c.hit_if(!must_fail, "fault after everything needed");
    c.hit_if(plan.fault.as_ref().unwrap().times != usize::MAX && st.faults > 0, "stream works again after the fault");
    match o {
        Ok(_) => {
            if must_fail {
                bail!("masked", "{:?}: the stream failed with {:?} at byte {} of {} (needed: {:?}), yet the load succeeded with {}", s.api, plan.fault, at, doc.bytes.len(), need, d.short());
            }
            if !d.same(&want) {
                bail!("wrong-data", "{:?}: loaded {} instead of {}", s.api, d.short(), want.short());
            }
        }
        Err(e) => {
            if !must_fail && st.faults == 0 {
                bail!("refused", "{:?}: error {:?} although no fault was met", s.api, e);
            }
        }
    }
    Ok(())
}

/// Data acceptable after the records with end <= `full`, where the next record may additionally be there:
/// exact if its tokens are complete at `cut`, altered if it is cut inside its last token
fn matches_prefix(s: &Setup, doc: &Doc, d: &Data, n_full: usize, optional: bool, altered: bool) -> Result<(), String> {
    let view = doc.view(s.api);
    let all = kinds(&view);
    let (want, _) = docs::expect(s, doc.has_faces, &all[..n_full]);
    if d.same(&want) {
        return Ok(());
    }
    if optional && n_full < all.len() {
        let (w2, _) = docs::expect(s, doc.has_faces, &all[..n_full + 1]);
        if d.same(&w2) {
            return Ok(());
        }
    }
    if altered {
        let more = (d.points.len() + d.faces.len()).wrapping_sub(want.points.len() + want.faces.len());
        if want.is_prefix_of(d) && more == 1 && d.normals.len() == want.normals.len() {
            return Ok(());
        }
    }
    Err(format!("{} instead of {}", d.short(), want.short()))
}

/// The whole document, but one of its counts announces far more than there is. Most of all by numbers that
/// are the true count again in fewer bits
fn announced(c: &Ctx, doc: &Doc, s: &Setup) -> Verdict {
    let counts: Vec<_> = doc
        .fields
        .iter()
        .filter(|f| match f.what {
            "point count" | "vertex count" | "triangle count" | "count" | "columns" | "rows" => true,
            "legacy count" => doc.bytes[f.start..f.end] != [0; 4],
            "face count" => s.api.is_mesh() && (s.api != Api::PlyEither || doc.has_faces),
            _ => false,
        })
        .cloned()
        .collect();
    if counts.is_empty() {
        return Ok(());
    }
    let i = c.t.usize_below(counts.len());
    let f = &counts[i];
    let old = &doc.bytes[f.start..f.end];
    let value = |b: &[u8]| -> u128 {
        match f.kind {
            FieldKind::Dec => String::from_utf8_lossy(b).trim().parse().unwrap_or(0),
            _ => b.iter().rev().fold(0, |a, x| a << 8 | *x as u128),
        }
    };
    // "count" of .las documents is of no interest with a legacy count
    if f.what == "count" && doc.fields.iter().any(|g| g.what == "legacy count" && doc.bytes[g.start..g.end] != [0; 4]) {
        return Ok(());
    }
    let n = value(old);
    let mut more: u128 = match c.t.below(4) {
        0 => 1 << c.t.pick(&[16u32, 31, 32, 33, 40, 63]),
        1 => 1 << 32,
        2 => (1 + c.t.below(1000) as u128) << 32,
        _ => 100_000 + c.t.below(1 << 40) as u128,
    };
    if more < 4 * doc.recs.len() as u128 {
        // faces may be taken for more vertices otherwise
        more = 1 << 32;
    }
    if matches!(f.what, "columns" | "rows") {
        // the product of both is what counts; nothing times many is nothing
        let g = match f.what {
            "columns" => counts.get(i + 1),
            _ => i.checked_sub(1).and_then(|i| counts.get(i)),
        };
        let other = match g {
            Some(g) => String::from_utf8_lossy(&doc.bytes[g.start..g.end]).trim().parse::<u128>().unwrap_or(0),
            None => 0,
        };
        if other == 0 {
            return Ok(());
        }
        if other.is_power_of_two() && other > 1 && c.t.chance(1, 3) {
            more = (1 << 64) / other;
        }
    }
    let with = match f.kind {
        FieldKind::Dec => format!("{}", n + more).into_bytes(),
        _ => {
            let bits = 8 * old.len() as u32;
            if more >= 1 << bits {
                more = 1 << (bits - 1 - c.t.below(2) as u32 * 15);
            }
            let x = n + more;
            if x >= 1 << bits {
                return Ok(());
            }
            x.to_le_bytes()[..old.len()].to_vec()
        }
    };
    let bytes = Rc::new(splice(&doc.bytes, f.start, f.end, &with));
    c.interesting();
    c.fault("far more announced than there is", 1);
    c.event(mix_bytes(f.start as u64, &with));
    c.note(|| format!("{} at byte {}: {} announced instead of {}", f.what, f.start, n + more, n));
    let marks = doc.boundaries();
    let plan = if c.t.bool() { Plan::draw(&c.t, &marks) } else { Plan::plain() };
    let (o, d, _) = load(c, s, &bytes, &plan);
    match o {
        Ok(_) => bail!("incomplete-accepted", "{:?}: {} {} announced, {} present, accepted with {}", s.api, n + more, f.what, n, d.short()),
        Err(_) => Ok(()),
    }
}

pub fn c03(c: &Ctx) -> Verdict {
    let doc = draw_doc(c, &FMTS, 40);
    let s = draw_setup(c, &doc, false);
    if c.t.chance(1, 24) {
        return announced(c, &doc, &s);
    }
    let at = draw_offset(c, &doc);
    let bytes = Rc::new(doc.bytes[..at].to_vec());
    let marks = doc.boundaries();
    let plan = if c.t.bool() { Plan::draw(&c.t, &marks) } else { Plan::plain() };
    if at < doc.bytes.len() {
        c.fault("document cut short", 1);
    }
    c.event(at as u64);
    c.note(|| format!("cut at byte {} of {}", at, doc.bytes.len()));
    let (o, d, _) = load(c, &s, &bytes, &plan);
    let cut = doc.cut(s.api, at);
    c.hit(&format!("{:?} cut: {:?}", doc.fmt, cut));
    match (&o, cut) {
        (Err(e), Cut::Ok) => bail!("complete-refused", "{:?}: cut at {} where the document is complete in itself, but refused: {:?}", s.api, at, e),
        (Ok(_), Cut::Err) => bail!("incomplete-accepted", "{:?}: cut at byte {} of {}, accepted with {}", s.api, at, doc.bytes.len(), d.short()),
        (Ok(_), _) => {
            let view = doc.view(s.api);
            let n = view.iter().take_while(|r| r.tok_end <= at).count();
            let altered = cut == Cut::Any && view.get(n).map(|r| r.tok_start < at && at < r.tok_end).unwrap_or(false);
            if let Err(m) = matches_prefix(&s, &doc, &d, n, false, altered) {
                bail!("wrong-data", "{:?}: cut at {}: loaded {}", s.api, at, m);
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn c04(c: &Ctx) -> Verdict {
    let doc = draw_doc(c, &FMTS, 40);
    let s = draw_setup(c, &doc, true);
    failing_load(c, &doc, &s, &mut |bytes, plan| load(c, &s, bytes, plan)).map(|_| ())
}

pub type Ran = (Outcome, Data, crate::simio::Stats);

/// Makes one load fail part-way (most of the time) and checks what is left behind. `ld` performs the load;
/// returns what it left behind (None: nothing was loaded)
pub fn failing_load(c: &Ctx, doc: &Doc, s: &Setup, ld: &mut dyn FnMut(&Rc<Vec<u8>>, &Plan) -> Ran) -> Result<Option<Data>, crate::world::Viol> {
    let marks = doc.boundaries();
    let mut plan = if c.t.chance(2, 3) { Plan::draw(&c.t, &marks) } else { Plan::plain() };
    let view = doc.view(s.api);
    let full = kinds(&view);
    let left;
    match c.t.below(5) {
        0 | 1 => {
            // the stream fails
            if s.api == Api::Las && c.t.chance(1, 4) {
                plan.seek_fail = Some((c.t.usize_below(4), *c.t.pick(&HARD_KINDS)));
                let bytes = Rc::new(doc.bytes.clone());
                let (o, d, _) = ld(&bytes, &plan);
                let (want, _) = docs::expect(s, doc.has_faces, &full);
                if o.is_err() && !d.is_prefix_of(&want) {
                    bail!("wrong-data", "{:?}: {} is no prefix of {}", s.api, d.short(), want.short());
                }
                return Ok(Some(d));
            }
            let at = draw_offset(c, doc);
            plan = plan.with_fault(&c.t, at);
            let bytes = Rc::new(doc.bytes.clone());
            let (o, d, _) = ld(&bytes, &plan);
            sound_for(s, &d)?;
            let n = view.iter().take_while(|r| r.end <= at && !(r.end == at && at == doc.bytes.len() && doc.text)).count();
            match o {
                Err(_) => {
                    c.hit_if(n > 0, "stream fault after some records");
                    let optional = view.get(n).map(|r| r.tok_end <= at).unwrap_or(false);
                    if let Err(m) = matches_prefix(s, doc, &d, n, optional, false) {
                        bail!("partial-data", "{:?}: the stream failed at byte {} ({} complete records before): the container holds {}", s.api, at, n, m);
                    }
                }
                Ok(_) => {}
            }
            left = d;
        }
        2 => {
            let at = draw_offset(c, doc);
            c.event(at as u64);
            c.note(|| format!("cut at byte {} of {}", at, doc.bytes.len()));
            let bytes = Rc::new(doc.bytes[..at].to_vec());
            let (o, d, _) = ld(&bytes, &plan);
            sound_for(s, &d)?;
            if o.is_err() {
                c.fault("document cut short", 1);
                let n = view.iter().take_while(|r| r.end <= at && (at == doc.bytes.len() || !doc.text || doc.bytes[r.end - 1] == b'\n')).count();
                c.hit_if(n > 0, "cut after some records");
                let (optional, altered) = match view.get(n) {
                    Some(r) => (r.tok_end <= at, r.tok_start < at && at < r.tok_end),
                    None => (false, false),
                };
                if let Err(m) = matches_prefix(s, doc, &d, n, optional, altered) {
                    bail!("partial-data", "{:?}: cut at byte {} ({} complete records before): the container holds {}", s.api, at, n, m);
                }
            }
            left = d;
        }
        3 => {
            // an unparsable token
            let hard: Vec<_> = doc.hard.iter().filter(|h| !h.mesh_only || (s.api.is_mesh())).cloned().collect();
            if hard.is_empty() {
                return Ok(None);
            }
            let h = c.t.pick(&hard).clone();
            let bytes = Rc::new(garble(c, doc, &h));
            let (o, d, _) = ld(&bytes, &plan);
            sound_for(s, &d)?;
            if o.is_ok() {
                bail!("damage-accepted", "{:?}: the {} at byte {} is unreadable, yet the load succeeded", s.api, h.what, h.start);
            }
            c.fault("unreadable token", 1);
            let n = view.iter().take_while(|r| r.end <= h.start).count();
            c.hit_if(n > 0, "unreadable token after some records");
            if let Err(m) = matches_prefix(s, doc, &d, n, false, false) {
                bail!("partial-data", "{:?}: the {} at byte {} is unreadable ({} complete records before): the container holds {}", s.api, h.what, h.start, n, m);
            }
            left = d;
        }
        _ => {
            // a face that has to be refused
            let idx: Vec<_> = doc.fields.iter().filter(|f| f.what == "face index").cloned().collect();
            if idx.is_empty() || !s.api.is_mesh() {
                return Ok(None);
            }
            let f = c.t.pick(&idx).clone();
            let total = s.initial.points.len() + doc.recs.iter().filter(|r| matches!(r.kind, RK::V(_))).count();
            let r = doc.recs.iter().position(|r| r.start <= f.start && f.end <= r.end).expect("harness: face of the field");
            let with = if c.t.bool() {
                // the same vertex twice
                let other = idx.iter().find(|g| g.start != f.start && doc.recs[r].start <= g.start && g.end <= doc.recs[r].end).unwrap();
                c.hit("face with a repeated vertex");
                doc.bytes[other.start..other.end].to_vec()
            } else if f.kind == FieldKind::Dec {
                c.hit("face with an unknown vertex");
                let k = if doc.fmt == Fmt::Obj { 1 } else { 0 };
                let xs = [total + k, total + k + 1, 1_000_000, u32::MAX as usize, 300 + total];
                format!("{}", c.t.pick(&xs)).into_bytes()
            } else if total < 255 {
                c.hit("face with an unknown vertex");
                vec![0xFF; f.end - f.start]
            } else {
                return Ok(None);
            };
            let bytes = Rc::new(splice(&doc.bytes, f.start, f.end, &with));
            let (o, d, _) = ld(&bytes, &plan);
            sound_for(s, &d)?;
            if o.is_ok() {
                bail!("bad-face-accepted", "{:?}: a face with an unknown or repeated vertex was accepted", s.api);
            }
            c.fault("face to be refused", 1);
            let n = doc.recs[..r].len();
            if let Err(m) = matches_prefix(s, doc, &d, n, false, false) {
                bail!("partial-data", "{:?}: face record {} is to be refused: the container holds {}", s.api, r, m);
            }
            left = d;
        }
    }
    c.event(mix(3, full.len() as u64));
    Ok(Some(left))
}

/// Replaces a token by something unreadable that stays one token on its line
fn garble(c: &Ctx, doc: &Doc, h: &docs::Hard) -> Vec<u8> {
    let xs: [&[u8]; 8] = [b"bogus", b"?", b"x1", b"1..5", b"--2", b"1x", b"\xff", b"0x10"];
    let w = *c.t.pick(&xs);
    let b = splice(&doc.bytes, h.start, h.end, w);
    c.event(mix_bytes(h.start as u64, w));
    c.note(|| format!("{} at byte {} (line {}) replaced by {:?}", h.what, h.start, h.line, show(w)));
    b
}

pub fn c05(c: &Ctx) -> Verdict {
    // the simulator built without optimisation does this more often
    let deep = (1..=if option_env!("SIM_PLAIN").is_some() { 1000 } else { 2 }).contains(&c.t.below(3000));
    let doc = if deep {
        let f = *c.t.pick(&[Fmt::Obj, Fmt::Off, Fmt::Gcode, Fmt::Pts, Fmt::Ptx, Fmt::Psl, Fmt::PlyAscii, Fmt::PlyLe, Fmt::Las, Fmt::StlBinary, Fmt::StlAscii]);
        let huge = matches!(f, Fmt::StlBinary | Fmt::StlAscii);
        if huge {
            c.t.begin_bulk();
        }
        let d = docs::gen_deep(&c.t, f, if huge { 20_000 } else { 20 });
        c.t.end_bulk();
        c.hit("thousands of lines, blocks or records in a row");
        c.event(d.bytes.len() as u64);
        c.note(|| format!("document: {}", d.desc));
        d
    } else {
        draw_doc(c, &FMTS, 40)
    };
    let s = draw_setup(c, &doc, true);
    let bytes = if deep && c.t.bool() {
        doc.bytes.clone()
    } else if c.t.chance(1, 20) {
        let n = c.t.range(0, 700);
        let b: Vec<u8> = (0..n).map(|_| c.t.below(256) as u8).collect();
        c.hit("damage: arbitrary bytes");
        c.note(|| format!("arbitrary bytes: {}", show(&b)));
        b
    } else {
        damage(c, &doc)
    };
    c.interesting();
    c.fault("damaged bytes delivered", 1);
    let len = bytes.len();
    let s = Setup { budget: len + 64, ..s };
    let bytes = Rc::new(bytes);
    let mut plan = if c.t.bool() { Plan::draw(&c.t, &[]) } else { Plan::plain() };
    if c.t.chance(1, 6) {
        plan = plan.with_fault(&c.t, c.t.usize_below(len + 1));
    }
    let limit = (32 << 20) + 512 * len;
    let mut r = AnyReader::new(bytes.clone(), &plan);
    let mut k = Containers::new(&s);
    let stats = r.stats();
    let (o, peak, total) = alloc::measure(|| bulk(&s, &mut k, &mut r));
    let d = k.data(&s);
    c.stream(&stats.borrow());
    c.event_str(&format!("{:?}", o));
    c.note(|| format!("plan {:?} -> {:?}, peak {} bytes", plan, o, peak));
    c.hit(if o.is_ok() { "damaged document accepted" } else { "damaged document refused" });
    if peak > limit {
        bail!("memory", "{:?}: {} bytes of memory requested for a document of {} bytes", s.api, peak, len);
    }
    // a container copied over and over again
    if total > (512 << 20) + 16_384 * len {
        bail!("memory", "{:?}: {} bytes of memory requested altogether for a document of {} bytes", s.api, total, len);
    }
    sound_for(&s, &d)?;
    // one by one as well
    if c.t.chance(1, 3) {
        let mut r = AnyReader::new(bytes.clone(), &plan);
        let (n, peak, _) = alloc::measure(|| {
            let mut n = 0usize;
            if let Ok(it) = incremental(s.api, s.stl, &mut r) {
                for x in it {
                    n += 1;
                    if n > 2 * len + 64 {
                        break;
                    }
                    if x.is_err() {
                        break;
                    }
                }
            }
            n
        });
        if n > 2 * len + 64 {
            bail!("endless", "{:?}: an incremental reader yields more than {} items from {} bytes", s.api, n, len);
        }
        if peak > limit {
            bail!("memory", "{:?}: {} bytes of memory requested for a document of {} bytes", s.api, peak, len);
        }
    }
    Ok(())
}

//------------------------------------------------------------------------------

struct Subject {
    s: Setup,
    has_faces: bool,
    bytes: Rc<Vec<u8>>,
    plan: Plan,
}

pub fn c06(c: &Ctx) -> Verdict {
    let k = if c.t.chance(1, 2) { 1 } else { c.t.range(2, 3) };
    let mut subs = vec![];
    let mut docs_ = vec![];
    for _ in 0..k {
        let doc = draw_doc(c, &FMTS, 24);
        let mut s = draw_setup(c, &doc, false);
        if s.api == Api::PlyEither {
            s.api = if doc.has_faces { Api::PlyMesh } else { Api::PlyPoints };
        }
        let damaged = c.t.chance(1, 3);
        let bytes = Rc::new(if damaged { damage(c, &doc) } else { doc.bytes.clone() });
        s.budget = bytes.len() + 64;
        let marks = doc.boundaries();
        let mut plan = if c.t.chance(2, 3) { Plan::draw(&c.t, &marks) } else { Plan::plain() };
        if c.t.chance(1, 3) {
            plan = plan.with_fault(&c.t, draw_offset(c, &doc).min(bytes.len()));
            c.hit("incremental reader meets a fault");
        }
        subs.push(Subject { has_faces: doc.has_faces, s, bytes, plan });
        docs_.push((doc, damaged));
    }
    if k > 1 {
        c.interesting();
        c.hit("several readers interleaved");
    }
    if k == 1 && c.t.chance(1, 4) {
        return consumed(c, &subs[0]);
    }
    // what the bulk load of the same stream does
    let bulks: Vec<(Outcome, Data)> = subs
        .iter()
        .map(|x| {
            let (o, d, _) = load(c, &x.s, &x.bytes, &x.plan);
            (o, d)
        })
        .collect();
    let mut readers: Vec<AnyReader> = subs.iter().map(|x| AnyReader::new(x.bytes.clone(), &x.plan)).collect();
    let stats: Vec<_> = readers.iter().map(|r| r.stats()).collect();
    let mut got: Vec<Vec<RK>> = vec![vec![]; k];
    let mut ends: Vec<Option<Result<(), ErrInfo>>> = vec![None; k];
    let mut gone = vec![false; k];
    {
        let mut its: Vec<Option<Inc>> = vec![];
        for (i, r) in readers.iter_mut().enumerate() {
            match incremental(subs[i].s.api, subs[i].s.stl, r) {
                Ok(it) => its.push(Some(it)),
                Err(e) => {
                    ends[i] = Some(Err(e));
                    its.push(None);
                }
            }
        }
        let total: usize = subs.iter().map(|s| s.bytes.len() + 16).sum();
        let mut steps = 0;
        let abandon = c.t.chance(1, 4);
        while its.iter().any(|i| i.is_some()) {
            steps += 1;
            if steps > 4 * total {
                bail!("endless", "an incremental reader does not come to an end");
            }
            let open: Vec<usize> = (0..k).filter(|i| its[*i].is_some()).collect();
            let i = if open.len() == 1 { open[0] } else { *c.t.pick(&open) };
            if abandon && c.t.chance(1, 20) {
                its[i] = None;
                gone[i] = true;
                c.hit("reader abandoned");
                c.event(77 + i as u64);
                continue;
            }
            c.step();
            match its[i].as_mut().unwrap().next() {
                Some(Ok(Item::Reserve(_, _))) => {}
                Some(Ok(Item::Point(p))) => got[i].push(RK::V(p)),
                Some(Ok(Item::Face(f))) => got[i].push(RK::F(f)),
                Some(Ok(Item::Tri(f))) => got[i].push(RK::T(f)),
                end => {
                    ends[i] = Some(match end {
                        Some(Err(e)) => Err(e),
                        _ => Ok(()),
                    });
                    // ended for good
                    let calls = stats[i].borrow().calls + stats[i].borrow().seeks;
                    for _ in 0..c.t.range(1, 4) {
                        if let Some(x) = its[i].as_mut().unwrap().next() {
                            bail!("after-end", "{:?}: after {:?} a further request yields {:?}", subs[i].s.api, ends[i], x);
                        }
                    }
                    let now = stats[i].borrow().calls + stats[i].borrow().seeks;
                    if now != calls {
                        bail!("touched-after-end", "{:?}: after {:?} further requests touch the stream", subs[i].s.api, ends[i]);
                    }
                    its[i] = None;
                }
            }
        }
    }
    for i in 0..k {
        c.stream(&stats[i].borrow());
        let x = &subs[i];
        c.note(|| format!("reader {}: {} records, end {:?}, abandoned {}", i, got[i].len(), ends[i], gone[i]));
        let (emu, refused) = docs::expect(&x.s, x.has_faces, &got[i]);
        let (bo, bd) = &bulks[i];
        if gone[i] {
            // what was obtained is how the bulk load starts (a face it refuses ends the bulk load)
            if refused.is_none() && !emu.is_prefix_of(bd) {
                bail!("prefix", "{:?}: records obtained before abandoning: {}, bulk load: {}", x.s.api, emu.short(), bd.short());
            }
            continue;
        }
        if !emu.same(bd) {
            bail!("data", "{:?}: one by one {}, in bulk {}", x.s.api, emu.short(), bd.short());
        }
        let end = ends[i].clone().unwrap();
        match (refused, &end, bo) {
            (Some(_), _, Err(_)) => c.hit("bulk load refuses a face the reader reports"),
            (Some(j), _, Ok(_)) => bail!("outcome", "{:?}: record {} cannot be added, but the bulk load succeeded", x.s.api, j),
            (None, Ok(()), Ok(_)) => {}
            (None, Err(a), Err(b)) if a == b => {}
            (None, a, b) => bail!("outcome", "{:?}: one by one {:?}, in bulk {:?}", x.s.api, a, b),
        }
        // an undamaged, unfaulted stream: the document itself
        if !docs_[i].1 && x.plan.fault.is_none() {
            let want = kinds(&docs_[i].0.view(x.s.api));
            if !same_recs(&got[i], &want) {
                bail!("records", "{:?}: {} records instead of {}", x.s.api, got[i].len(), want.len());
            }
        }
    }
    Ok(())
}

/// The same stream read record by record, and by whatever else an iterator offers
fn consumed(c: &Ctx, x: &Subject) -> Verdict {
    let cap = 4 * x.bytes.len() + 64;
    let mut r = AnyReader::new(x.bytes.clone(), &x.plan);
    let stats = r.stats();
    let all: Vec<String> = match incremental(x.s.api, x.s.stl, &mut r) {
        Ok(it) => it.take(cap).map(|x| format!("{:?}", x)).collect(),
        Err(_) => return Ok(()),
    };
    c.stream(&stats.borrow());
    if all.len() == cap {
        bail!("endless", "an incremental reader does not come to an end");
    }
    let mut r = AnyReader::new(x.bytes.clone(), &x.plan);
    let mut it = match incremental(x.s.api, x.s.stl, &mut r) {
        Ok(it) => it.0,
        Err(e) => bail!("outcome", "{:?}: a reader over the same stream cannot be created: {:?}", x.s.api, e),
    };
    c.interesting();
    let text = |x: &Option<IterItem>| x.as_ref().map(|x| format!("{:?}", x));
    let mut at = 0usize;
    loop {
        let left = all.len() - at;
        let (lo, hi) = it.size_hint();
        if lo > left || hi.map(|h| h < left).unwrap_or(false) {
            bail!("size-hint", "{:?}: {:?} records announced, {} follow", x.s.api, (lo, hi), left);
        }
        let (what, got, want) = match c.t.below(if left == 0 { 2 } else { 8 }) {
            0..=3 => {
                let g = it.next();
                at += 1;
                ("next", text(&g), all.get(at - 1).cloned())
            }
            4 | 5 => {
                let n = c.t.range(0, 5);
                c.hit("records skipped by nth");
                let g = it.nth(n);
                at += n + 1;
                ("nth", text(&g), all.get(at - 1).cloned())
            }
            k => {
                c.hit("reader consumed as a whole");
                let rest = &all[at..];
                match (k, c.t.below(3)) {
                    (_, 0) => {
                        let n = it.count();
                        if n != rest.len() {
                            bail!("count", "{:?}: count() is {}, {} records are left", x.s.api, n, rest.len());
                        }
                    }
                    (_, 1) => {
                        let l = text(&it.last());
                        if l != rest.last().cloned() {
                            bail!("last", "{:?}: last() is {:?} instead of {:?}", x.s.api, l, rest.last());
                        }
                    }
                    _ => {
                        let l: Vec<String> = it.rest().iter().map(|x| format!("{:?}", x)).collect();
                        if l != rest {
                            bail!("rest", "{:?}: {} further records instead of {}, or others", x.s.api, l.len(), rest.len());
                        }
                    }
                }
                return Ok(());
            }
        };
        c.step();
        if got != want {
            bail!("consumed", "{:?}: {} yields {:?} instead of {:?}", x.s.api, what, got, want);
        }
        if at >= all.len() + 2 {
            return Ok(());
        }
        at = at.min(all.len());
        if got.is_none() {
            return Ok(());
        }
    }
}

pub fn same_recs(a: &[RK], b: &[RK]) -> bool {
    let key = |r: &RK| -> Vec<u64> {
        match r {
            RK::V(p) => bits3(p).to_vec(),
            RK::F(f) => f.iter().map(|x| *x as u64).collect(),
            RK::T(t) => t.iter().flat_map(|p| bits3(p)).collect(),
        }
    };
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| std::mem::discriminant(x) == std::mem::discriminant(y) && key(x) == key(y))
}

pub fn c07(c: &Ctx) -> Verdict {
    // lines beyond 65535
    let far = c.t.chance(1, 2000);
    let doc = if far {
        let f = *c.t.pick(&[Fmt::Xy, Fmt::Xyz, Fmt::Pts, Fmt::Ptx, Fmt::Obj, Fmt::Off, Fmt::Gcode, Fmt::PlyAscii, Fmt::StlAscii]);
        c.t.begin_bulk();
        let d = docs::gen(&c.t, f, if f == Fmt::StlAscii { 12_000 } else { 74_000 });
        c.t.end_bulk();
        c.event(d.bytes.len() as u64);
        c.note(|| format!("document: {}", d.desc));
        d
    } else {
        draw_doc(c, &TEXT_FMTS, 40)
    };
    let s = draw_setup(c, &doc, false);
    let hard: Vec<_> = doc.hard.iter().filter(|h| !h.mesh_only || s.api.is_mesh()).cloned().collect();
    if hard.is_empty() {
        return Ok(());
    }
    // towards the end every other time
    let from = if c.t.chance(1, if far { 2 } else { 8 }) { hard.len() - 1 - (hard.len() - 1).min(20) } else { 0 };
    let h = c.t.pick(&hard[from..]).clone();
    c.hit_if(h.line > 65535, "error beyond line 65535");
    let b = garble(c, &doc, &h);
    let text = b.split(|x| *x == b'\n').nth(h.line - 1).unwrap_or(&[]).to_vec();
    let text = String::from_utf8_lossy(&text).trim().to_string();
    let bytes = Rc::new(b);
    let marks = doc.boundaries();
    let plan = Plan::draw(&c.t, &marks);
    let (o, _, _) = load(c, &s, &bytes, &plan);
    c.hit(&format!("{:?}: {}", doc.fmt, h.what));
    c.hit_if(h.line > 1, "error beyond the first line");
    c.hit_if(h.line == doc.line_of(doc.bytes.len()), "error on a last line without line end");
    let e = match o {
        Ok(_) => bail!("damage-accepted", "{:?}: the {} in line {} is unreadable, yet the load succeeded", s.api, h.what, h.line),
        Err(e) => e,
    };
    match e.line {
        None => bail!("no-line", "{:?}: unreadable {} in line {}: {:?} names no line", s.api, h.what, h.line, e),
        Some(l) if l != h.line => bail!("wrong-line", "{:?}: unreadable {} in line {}: reported as line {} ({:?})", s.api, h.what, h.line, l, e),
        _ => {}
    }
    if let Some(ref x) = e.text {
        if x.trim() != text {
            bail!("wrong-text", "{:?}: line {} is {:?}, reported as {:?}", s.api, h.line, text, x);
        }
    }
    c.hit_if(e.text.is_some(), "line text reported");
    // the message a user sees names the same line and text
    let mut shown = e.shown.clone();
    if let Some(ref x) = e.text {
        match shown.find(x.as_str()) {
            Some(i) => shown.replace_range(i..i + x.len(), ""),
            None => bail!("wrong-message", "{:?}: line {} is {:?}, the message {:?} does not contain it", s.api, h.line, text, e.shown),
        }
    }
    let line = format!("{}", h.line);
    if !shown.split(|x: char| !x.is_ascii_digit()).any(|x| x == line) {
        bail!("wrong-message", "{:?}: unreadable {} in line {}: the message {:?} does not name that line", s.api, h.what, h.line, e.shown);
    }
    Ok(())
}
