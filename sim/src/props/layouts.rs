//! C01: documents that use a feature of their format the library may or may not support. Either they load as
//! what they say, or the load reports an error: it never succeeds with anything else
use super::loading::{load, show};
use crate::docs::Fmt;
use crate::load::*;
use crate::simio::Plan;
use crate::tape::Tape;
use crate::world::{Ctx, Verdict};
use std::rc::Rc;

struct Laid {
    fmt: Fmt,
    what: &'static str,
    bytes: Vec<u8>,
    points: Vec<[f64; 3]>,
    /// polygons, of any number of corners
    faces: Vec<Vec<usize>>,
    /// must be accepted by a load of the points / of the mesh
    must: (bool, bool),
    stl: StlF,
}

/// A face as the triangles of a fan
fn fan(f: &[usize]) -> Vec<[usize; 3]> {
    (1..f.len() - 1).map(|i| [f[0], f[i], f[i + 1]]).collect()
}

fn polygons(t: &Tape, n: usize, any: bool) -> Vec<Vec<usize>> {
    (0..t.range(1, 4))
        .map(|i| {
            let k = if any { t.range(3, n.min(6)) } else { 3 };
            (0..k).map(|j| (i + j) % n).collect()
        })
        .collect()
}

fn words(v: &[usize]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

fn ply(t: &Tape, points: Vec<[f64; 3]>) -> Laid {
    let what = *t.pick(&["faces before vertices", "another list before the indices", "another list behind the indices", "two index lists", "polygons", "another element", "an element in between"]);
    let faces = polygons(t, points.len(), what == "polygons");
    let fmt = *t.pick(&[Fmt::PlyAscii, Fmt::PlyLe, Fmt::PlyBe]);
    let ascii = fmt == Fmt::PlyAscii;
    let be = fmt == Fmt::PlyBe;
    let mut head = format!("ply\nformat {} 1.0\n", if ascii { "ascii" } else if be { "binary_big_endian" } else { "binary_little_endian" });
    let hv = format!("element vertex {}\nproperty float x\nproperty float y\nproperty float z\n", points.len());
    let list = "property list uchar int vertex_indices\n";
    let other = *t.pick(&["property list uchar int neighbours\n", "property list uchar int texcoord\n"]);
    let he = "element edge 1\nproperty int vertex1\nproperty int vertex2\n";
    let (before, behind) = (what == "another list before the indices", what == "another list behind the indices" || what == "two index lists");
    let second = if what == "two index lists" { "property list uchar int vertex_index\n" } else { other };
    let hf = format!("element face {}\n{}{}{}", faces.len(), if before { other } else { "" }, list, if behind { second } else { "" });
    match what {
        "faces before vertices" => head += &format!("{}{}", hf, hv),
        "another element" => head += &format!("{}{}{}", hv, hf, he),
        "an element in between" => head += &format!("{}{}{}", hv, he, hf),
        _ => head += &format!("{}{}", hv, hf),
    }
    head += "end_header\n";
    let int = |x: usize| if be { (x as i32).to_be_bytes() } else { (x as i32).to_le_bytes() };
    let mut vs = vec![];
    for p in &points {
        if ascii {
            vs.extend(format!("{} {} {}\n", p[0], p[1], p[2]).bytes());
        } else {
            for x in p {
                vs.extend(&if be { (*x as f32).to_be_bytes() } else { (*x as f32).to_le_bytes() });
            }
        }
    }
    let mut fs: Vec<u8> = vec![];
    for f in &faces {
        // what the other list says looks like a face, or does not
        let o: Vec<usize> = (0..*t.pick(&[3usize, 3, 0, 2, 6])).map(|i| (i + 1) % points.len()).collect();
        let mut lists = vec![];
        if before {
            lists.push(&o);
        }
        lists.push(f);
        if behind {
            lists.push(&o);
        }
        if ascii {
            let l: Vec<String> = lists.iter().map(|l| if l.is_empty() { "0".to_string() } else { format!("{} {}", l.len(), words(l)) }).collect();
            fs.extend(format!("{}\n", l.join(" ")).bytes());
        } else {
            for l in lists {
                fs.push(l.len() as u8);
                for x in l {
                    fs.extend(&int(*x));
                }
            }
        }
    }
    let es: Vec<u8> = if ascii { b"0 1\n".to_vec() } else { [int(0), int(1)].concat() };
    let mut bytes = head.into_bytes();
    for part in match what {
        "faces before vertices" => vec![&fs, &vs],
        "another element" => vec![&vs, &fs, &es],
        "an element in between" => vec![&vs, &es, &fs],
        _ => vec![&vs, &fs],
    } {
        bytes.extend(part);
    }
    let lists = before || behind;
    Laid { fmt, what, bytes, points, faces, must: (lists || what == "polygons", behind && ascii), stl: StlF::Auto }
}

fn obj(t: &Tape, points: Vec<[f64; 3]>) -> Laid {
    let what = *t.pick(&["polygons", "indices relative to the end", "a remark behind a face", "continued lines"]);
    let faces = polygons(t, points.len(), what == "polygons");
    let mut s = String::new();
    for p in &points {
        s += &if what == "continued lines" { format!("v {} \\\n{} {}\n", p[0], p[1], p[2]) } else { format!("v {} {} {}\n", p[0], p[1], p[2]) };
    }
    let suffix = *t.pick(&["", "/1", "//1", "/1/1"]);
    for f in &faces {
        s += "f";
        for i in f {
            s += &match what {
                "indices relative to the end" => format!(" {}{}", *i as i64 - points.len() as i64, suffix),
                _ => format!(" {}{}", i + 1, suffix),
            };
        }
        s += if what == "a remark behind a face" { " # 4 5\n" } else { "\n" };
    }
    Laid { fmt: Fmt::Obj, what, bytes: s.into_bytes(), points, faces, must: (what != "continued lines", what == "a remark behind a face"), stl: StlF::Auto }
}

fn off(t: &Tape, points: Vec<[f64; 3]>) -> Laid {
    let what = *t.pick(&["polygons", "counts behind the keyword", "colours behind the faces", "colours behind the vertices"]);
    let faces = polygons(t, points.len(), what == "polygons");
    let mut s = match what {
        "counts behind the keyword" => format!("OFF{}{} {} 0\n", *t.pick(&["", " ", "\t"]), points.len(), faces.len()),
        "colours behind the vertices" => format!("COFF\n{} {} 0\n", points.len(), faces.len()),
        _ => format!("OFF\n{} {} 0\n", points.len(), faces.len()),
    };
    let colours = what == "colours behind the vertices";
    for p in &points {
        s += &format!("{} {} {}{}\n", p[0], p[1], p[2], if colours { " 255 0 0 255" } else { "" });
    }
    for f in &faces {
        s += &format!("{} {}{}\n", f.len(), words(f), if what == "colours behind the faces" { " 1 0 0" } else { "" });
    }
    let must = what == "counts behind the keyword" || what == "colours behind the faces";
    Laid { fmt: Fmt::Off, what, bytes: s.into_bytes(), points, faces, must: (must || what == "polygons", must), stl: StlF::Auto }
}

/// Binary documents may start like ASCII ones
fn stl(t: &Tape) -> Laid {
    let n = *t.pick(&[1usize, 2, 3, 10, 0, 12]);
    let fill = *t.pick(&[0u8, b' ', b'x']);
    let mut bytes = vec![fill; 80];
    let name = *t.pick(&["solid", "solid model", "solid a b c", "solid\n"]);
    bytes[..name.len()].copy_from_slice(name.as_bytes());
    bytes.extend(&(n as u32).to_le_bytes());
    let mut points = vec![];
    for i in 0..n {
        for x in &[0.0f32, 0.0, 1.0] {
            bytes.extend(&x.to_le_bytes());
        }
        for j in 0..3 {
            let p = [i as f32, (j % 2) as f32, (j / 2) as f32 * *t.pick(&[1.0f32, 2.5, 10.0])];
            for x in &p {
                bytes.extend(&x.to_le_bytes());
            }
            points.push([p[0] as f64, p[1] as f64, p[2] as f64]);
        }
        bytes.extend(&(*t.pick(&[0u16, 0x0a00, 1])).to_le_bytes());
    }
    let auto = t.chance(2, 3);
    Laid {
        fmt: Fmt::StlBinary,
        what: "solid at its start",
        bytes,
        points,
        faces: (0..n).map(|i| vec![3 * i, 3 * i + 1, 3 * i + 2]).collect(),
        must: (!auto, !auto),
        stl: if auto { StlF::Auto } else { StlF::Binary },
    }
}

pub fn run(c: &Ctx) -> Verdict {
    let t = &c.t;
    let n = t.range(3, 8);
    let points: Vec<[f64; 3]> = (0..n)
        .map(|i| if t.bool() { [i as f64, t.below(9) as f64, t.below(9) as f64] } else { [i as f64 + 0.5, -(t.below(99) as f64) / 4.0, 1.0] })
        .collect();
    let mut d = match t.below(4) {
        0 => ply(t, points),
        1 => obj(t, points),
        2 => stl(t),
        _ => off(t, points),
    };
    if !matches!(d.fmt, Fmt::PlyLe | Fmt::PlyBe | Fmt::StlBinary) && t.chance(1, 4) {
        d.bytes = String::from_utf8(d.bytes).unwrap().replace('\n', "\r\n").into_bytes();
    }
    let api = *t.pick(match d.fmt {
        Fmt::Obj => &[Api::ObjMesh, Api::ObjPoints][..],
        Fmt::StlBinary => &[Api::StlDuped, Api::StlTriplets][..],
        Fmt::Off => &[Api::OffMesh, Api::OffPoints][..],
        _ => &[Api::PlyMesh, Api::PlyPoints, Api::PlyEither][..],
    });
    let s = Setup {
        api,
        stl: d.stl,
        points: *t.pick(&POINT_KINDS),
        mesh: *t.pick(&MESH_KINDS),
        initial: Data::default(),
        panic_push: None,
        panic_reserve: false,
        budget: 100_000,
    };
    c.note(|| format!("{:?} with {}, {:?}: {}", d.fmt, d.what, api, show(&d.bytes)));
    c.hit(&format!("{:?} with {}", d.fmt, d.what));
    let plan = Plan::draw(t, &[]);
    let (o, got, _) = load(c, &s, &Rc::new(d.bytes.clone()), &plan);
    let must = if api.is_mesh() { d.must.1 } else { d.must.0 };
    let mesh = match o {
        Err(e) => {
            if must {
                bail!("refused", "{:?} with {}, {:?}: refused: {:?}", d.fmt, d.what, api, e);
            }
            c.hit("unsupported layout reported");
            return Ok(());
        }
        Ok(Some(m)) => m,
        Ok(None) => api.is_mesh(),
    };
    if got.points != d.points {
        bail!("wrong-data", "{:?} with {}, {:?}: loaded {} instead of the points {:?}", d.fmt, d.what, api, got.short(), d.points);
    }
    let want: Vec<[usize; 3]> = d.faces.iter().flat_map(|f| fan(f)).collect();
    if mesh && got.faces != want {
        bail!("wrong-data", "{:?} with {}, {:?}: loaded {} instead of the faces {:?}", d.fmt, d.what, api, got.short(), d.faces);
    }
    Ok(())
}
