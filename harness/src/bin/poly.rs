//! Histories of operations on polyhedral meshes (C22, and restriction for C10).
use fenris::mesh::Tet4Mesh;
use fenris_geometry::polymesh::{PolyMesh, PolyMesh3d};
use fenris_geometry::{ConvexPolyhedron, HalfSpace, Hexahedron, Tetrahedron};
use fenris_nested_vec::NestedVec;
use nalgebra::{OPoint, OVector, Point3, Unit, Vector3, U2, U3};
use std::convert::TryFrom;
use vh::anymesh::{jconn, jverts, pts, AnyMesh};
use vh::*;

#[derive(Clone)]
enum P {
    D2(PolyMesh<f64, U2>),
    D3(PolyMesh3d<f64>),
}
fn nested(v: &Value) -> NestedVec<usize> {
    let mut n = NestedVec::new();
    for r in uvecs(v) {
        n.push(&r);
    }
    n
}
macro_rules! on {
    ($p:expr, $m:ident => $e:expr) => {
        match $p {
            P::D2($m) => $e,
            P::D3($m) => $e,
        }
    };
}
macro_rules! map {
    ($p:expr, $m:ident => $e:expr) => {
        match $p {
            P::D2($m) => P::D2($e),
            P::D3($m) => P::D3($e),
        }
    };
}
fn fields(p: &P, ev: &mut Value) {
    on!(p, m => {
        ev["V"] = jverts(m.vertices());
        ev["F"] = json!(m.face_connectivity_iter().map(|f| f.to_vec()).collect::<Vec<_>>());
        ev["C"] = json!(m.cell_connectivity_iter().map(|f| f.to_vec()).collect::<Vec<_>>());
        // the accessors by index agree with the iterators
        if (0..m.num_faces()).any(|i| json!(m.get_face_connectivity(i).unwrap()) != ev["F"][i]) || m.get_face_connectivity(m.num_faces()).is_some()
            || (0..m.num_cells()).any(|i| json!(m.get_cell_connectivity(i).unwrap()) != ev["C"][i]) || m.get_cell_connectivity(m.num_cells()).is_some()
            || (0..m.num_faces()).any(|i| m.face_vertices(i).count() != m.get_face_connectivity(i).unwrap().len()
                || m.face_vertices(i).zip(m.get_face_connectivity(i).unwrap()).any(|(v, k)| v != &m.vertices()[*k])) {
            ev["op"] = json!("accessors");
        }
    })
}
fn build(dim: usize, v: &Value, f: &Value, c: &Value) -> P {
    if dim == 2 {
        P::D2(PolyMesh::from_poly_data(pts::<U2>(v), nested(f), nested(c)))
    } else {
        P::D3(PolyMesh::from_poly_data(pts::<U3>(v), nested(f), nested(c)))
    }
}
fn half_space(n: &[i64], p: &[i64]) -> HalfSpace<f64> {
    let f = |v: &[i64]| Vector3::new(v[0] as f64, v[1] as f64, v[2] as f64);
    HalfSpace::from_point_and_normal(Point3::from(f(p) * sc()), Unit::new_normalize(f(n)))
}
fn ip(p: &Point3<f64>) -> [i64; 3] {
    [(p.x / sc()).round() as i64, (p.y / sc()).round() as i64, (p.z / sc()).round() as i64]
}
fn dot(a: &[i64], b: &[i64]) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// The signed distance of a point of the plane is exactly zero in floating point, in any order of summation.
fn robust_zero(n: &[i64], p: &[i64], x: &Point3<f64>) -> bool {
    let u = Unit::new_normalize(Vector3::new(n[0] as f64, n[1] as f64, n[2] as f64));
    let d: Vec<f64> = (0..3).map(|k| u[k] * (x[k] - p[k] as f64 * sc())).collect();
    d[0] + d[1] + d[2] == 0.0 && d[1] + d[2] + d[0] == 0.0 && d[2] + d[0] + d[1] == 0.0
}
/// All intersections of edges with the plane are on the integer grid, and edges inside the plane are recognised as such.
fn on_grid(m: &PolyMesh3d<f64>, n: &[i64], p: &[i64]) -> bool {
    let d = dot(n, p);
    m.face_connectivity_iter().all(|f| {
        (0..f.len()).all(|i| {
            let (va, vb) = (&m.vertices()[f[i]], &m.vertices()[f[(i + 1) % f.len()]]);
            let (a, b) = (ip(va), ip(vb));
            let (sa, sb) = (dot(n, &a) - d, dot(n, &b) - d);
            if sa == 0 && sb == 0 {
                return a == b || (robust_zero(n, p, va) && robust_zero(n, p, vb));
            }
            sa * sb >= 0 || (0..3).all(|k| ((b[k] - a[k]) * sa) % (sa - sb) == 0)
        })
    })
}
fn even_edges(p: &P) -> bool {
    on!(p, m => m.face_connectivity_iter().all(|f| (0..f.len()).all(|i| {
        let (a, b) = (&m.vertices()[f[i]], &m.vertices()[f[(i + 1) % f.len()]]);
        a.coords.iter().zip(b.coords.iter()).all(|(x, y)| ((x + y) / sc()).round() as i64 % 2 == 0)
    })))
}
fn cross(a: [i64; 3], b: [i64; 3]) -> [i64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn sub(a: &[i64], b: &[i64]) -> [i64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
/// half-spaces of a convex polyhedron in the face order of the specification
fn half_spaces(kind: &str, v: &[Vec<i64>]) -> Vec<([i64; 3], Vec<i64>)> {
    let faces: Vec<Vec<usize>> = if kind == "tet4" {
        vec![vec![0, 2, 1], vec![0, 1, 3], vec![1, 2, 3], vec![0, 3, 2]]
    } else {
        vec![vec![3, 2, 1, 0], vec![0, 1, 5, 4], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![4, 7, 3, 0], vec![5, 6, 7, 4]]
    };
    faces
        .iter()
        .map(|f| {
            let mut n = cross(sub(&v[f[1]], &v[f[0]]), sub(&v[f[2]], &v[f[0]]));
            let g = n.iter().fold(0, |g, x| gcd(g, x.abs()));
            n.iter_mut().for_each(|x| *x /= g.max(1));
            (n, v[f[0]].clone())
        })
        .collect()
}
fn vol(x: f64) -> f64 {
    x / sc() / sc() / sc()
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn p3(v: &[i64]) -> Point3<f64> {
    Point3::new(v[0] as f64 * sc(), v[1] as f64 * sc(), v[2] as f64 * sc())
}

fn op(o: &Value, cur: &mut P, base: &mut P, out: &mut Out) -> Result<(), String> {
    let name = st(&o[0]);
    let set = |k: usize| o[k].as_i64().unwrap_or(0) == 1;
    let emit = |p: P, mut ev: Value, s: bool, cur: &mut P, out: &mut Out| {
        ev["set"] = json!(s as i32);
        fields(&p, &mut ev);
        out.ev(ev);
        if s {
            *cur = p;
        }
    };
    match name {
        "bnd" => {
            let l = guard(|| on!(&*cur, m => m.find_boundary_faces()))?;
            out.ev(json!({"op": "bnd", "list": l}));
        }
        "fcc" => {
            let l = guard(|| on!(&*cur, m => m.compute_face_cell_connectivity()))?;
            out.ev(json!({"op": "fcc", "list": l.iter().map(|x| x.to_vec()).collect::<Vec<_>>()}));
        }
        "vol" => {
            if let P::D3(m) = &*cur {
                let v = guard(|| m.compute_volume())?;
                out.ev(json!({"op": "vol", "v": near(vol(v) * 6.0, 1.0, 1e-2)}));
            }
        }
        "clip" => {
            if let P::D3(m) = &*cur {
                let (n, p) = (ivec(&o[1]), ivec(&o[2]));
                let h = half_space(&n, &p);
                if on_grid(m, &n, &p) {
                    let r = guard(|| m.intersect_half_space(&h))?;
                    emit(P::D3(r), json!({"op": "clip", "n": n, "p": p}), set(3), cur, out);
                } else {
                    let (a, b) = guard(|| (m.intersect_half_space(&h), m.intersect_half_space(&h.complement())))?;
                    let f = |m: &PolyMesh3d<f64>| json!(m.face_connectivity_iter().map(|f| f.to_vec()).collect::<Vec<_>>());
                    let c = |m: &PolyMesh3d<f64>| json!(m.cell_connectivity_iter().map(|f| f.to_vec()).collect::<Vec<_>>());
                    let inside = a.vertices().iter().all(|x| h.signed_distance_to_point(x) < 1e-6 * sc())
                        && b.vertices().iter().all(|x| h.signed_distance_to_point(x) > -1e-6 * sc());
                    let (v1, v2) = guard(|| (a.compute_volume(), b.compute_volume()))?;
                    out.ev(json!({"op": "parts", "n": n, "p": p, "nv1": a.vertices().len(), "F1": f(&a), "C1": c(&a), "nv2": b.vertices().len(), "F2": f(&b), "C2": c(&b),
                        "inside": inside as i32, "v1": grid(vol(v1) * 6.0, 1.0), "v2": grid(vol(v2) * 6.0, 1.0)}));
                }
            }
        }
        "poly" => {
            if let P::D3(m) = cur.clone() {
                let (kind, v) = (st(&o[1]), ivecs(&o[2]));
                let hs = half_spaces(kind, &v);
                let mut x = m.clone();
                let mut evs = vec![];
                for (n, p) in &hs {
                    if !on_grid(&x, n, p) {
                        return Ok(());
                    }
                    x = guard(|| x.intersect_half_space(&half_space(n, p)))?;
                    let mut ev = json!({"op": "clip", "n": n, "p": p, "set": 1});
                    fields(&P::D3(x.clone()), &mut ev);
                    evs.push(ev);
                }
                let r = guard(|| {
                    if kind == "tet4" {
                        m.intersect_convex_polyhedron(&Tetrahedron::from_vertices([p3(&v[0]), p3(&v[1]), p3(&v[2]), p3(&v[3])]))
                    } else {
                        let q: Vec<_> = v.iter().map(|x| p3(x)).collect();
                        let h = Hexahedron::from_vertices(<[Point3<f64>; 8]>::try_from(q).unwrap());
                        let _ = h.num_faces();
                        m.intersect_convex_polyhedron(&h)
                    }
                })?;
                let mut b = json!({"op": "new", "ok": 1});
                fields(&P::D3(m.clone()), &mut b);
                for k in ["V", "F", "C"] {
                    b[format!("in{k}")] = b[k].clone();
                }
                out.ev(b);
                evs.into_iter().for_each(|e| out.ev(e));
                let mut ev = json!({"op": "polyclip", "kind": kind, "pv": v});
                fields(&P::D3(r), &mut ev);
                out.ev(ev);
                *cur = P::D3(x);
                *base = cur.clone();
            }
        }
        "keep" => {
            if let P::D3(m) = &*cur {
                let l = uvec(&o[1]);
                let l: Vec<_> = if m.num_cells() == 0 { vec![] } else { l.iter().map(|i| i % m.num_cells()).collect() };
                let r = guard(|| m.keep_cells(&l))?;
                emit(P::D3(r), json!({"op": "keep", "list": l}), set(2), cur, out);
            }
        }
        "concat" => {
            let d = if let P::D2(_) = cur { 2 } else { 3 };
            let others: Vec<P> = arr(&o[1]).iter().map(|j| if j["F"] == "self" { cur.clone() } else { build(d, &j["V"], &j["F"], &j["C"]) }).collect();
            let r = guard(|| {
                if d == 2 {
                    P::D2(PolyMesh::concatenate(others.iter().map(|p| if let P::D2(m) = p { m } else { unreachable!() })))
                } else {
                    P::D3(PolyMesh::concatenate(others.iter().map(|p| if let P::D3(m) = p { m } else { unreachable!() })))
                }
            })?;
            emit(r, json!({"op": "concat", "of": o[1]}), set(2), cur, out);
        }
        "dedup" => {
            let r = guard(|| map!(cur.clone(), m => { let mut m = m; m.dedup_faces(); m }))?;
            emit(r, json!({"op": "dedup"}), set(1), cur, out);
        }
        "split" => {
            // n edge splittings one at a time, then at once from the same mesh
            let n = us(&o[1]);
            *base = cur.clone();
            let mut b = json!({"op": "new", "ok": 1});
            fields(cur, &mut b);
            for k in ["V", "F", "C"] {
                b[format!("in{k}")] = b[k].clone();
            }
            out.ev(b);
            let mut k = 0;
            while k < n && even_edges(cur) {
                let r = guard(|| map!(cur.clone(), m => { let mut m = m; m.split_edges(); m }))?;
                emit(r, json!({"op": "split"}), true, cur, out);
                k += 1;
            }
            let r = guard(|| map!(base.clone(), m => { let mut m = m; m.split_edges_n_times(k); m }))?;
            emit(r, json!({"op": "splitn", "n": k}), false, cur, out);
        }
        "tri" => {
            if let P::D3(m) = &*cur {
                match guard(|| m.triangulate().map_err(|e| e.to_string()))? {
                    Ok(r) => emit(P::D3(r), json!({"op": "tri", "ok": 1}), set(1), cur, out),
                    Err(_) => out.ev(json!({"op": "tri", "ok": 0})),
                }
            }
        }
        "tet" => {
            if let P::D3(m) = &*cur {
                match guard(|| Tet4Mesh::try_from(m).map_err(|e| e.to_string()))? {
                    Ok(r) => out.ev(json!({"op": "tet", "ok": 1, "V": jverts(r.vertices()), "C": jconn(r.connectivity())})),
                    Err(_) => out.ev(json!({"op": "tet", "ok": 0})),
                }
            }
        }
        "translate" => {
            if let P::D3(m) = cur.clone() {
                let t = ivec(&o[1]);
                let tv = OVector::<f64, U3>::from_iterator(t.iter().map(|x| *x as f64 * sc()));
                let r = guard(|| { let mut a = m.clone(); a.translate(&tv); let b = m.translated(&tv); if a == b { Some(a) } else { None } })?;
                match r {
                    Some(r) => emit(P::D3(r), json!({"op": "translate", "t": t}), set(2), cur, out),
                    None => out.ev(json!({"op": "translate_differs"})),
                }
            }
        }
        x => die(&format!("unknown op {x}")),
    }
    Ok(())
}

fn main() {
    let _: Option<OPoint<f64, U3>> = None;
    run(|case, out| {
        set_scale(case);
        let mut cur;
        if case["ct"].is_string() {
            let m = AnyMesh::from_json(st(&case["ct"]), &case["V"], &case["C"]);
            let p = guard(|| match &m {
                AnyMesh::Tri3(m) => P::D2(PolyMesh::from(m)),
                AnyMesh::Quad4(m) => P::D2(PolyMesh::from(m)),
                AnyMesh::Tet4(m) => P::D3(PolyMesh::from(m)),
                AnyMesh::Hex8(m) => P::D3(PolyMesh::from(m)),
                _ => die("cell type"),
            });
            match p {
                Ok(p) => {
                    let mut ev = json!({"op": "from", "new": 1, "ct": m.ct(), "mV": m.verts(), "mC": m.cells()});
                    fields(&p, &mut ev);
                    out.ev(ev);
                    cur = p;
                }
                Err(e) => return out.ev(json!({"op": "panic", "new": 1, "msg": e})),
            }
        } else {
            let d = us(&case["d"]);
            let r = guard(|| build(d, &case["V"], &case["F"], &case["C"]));
            let mut ev = json!({"op": "new", "new": 1, "inV": case["V"], "inF": case["F"], "inC": case["C"], "ok": r.is_ok() as i32});
            match r {
                Ok(p) => {
                    fields(&p, &mut ev);
                    out.ev(ev);
                    cur = p;
                }
                Err(_) => return out.ev(ev),
            }
        }
        let mut base = cur.clone();
        for o in arr(&case["ops"]) {
            if let Err(e) = op(o, &mut cur, &mut base, out) {
                return out.ev(json!({"op": "panic", "at": o, "msg": e}));
            }
        }
    });
}
