//! Histories of mesh operations (C09-C14).
use fenris::mesh::procedural::*;
use fenris::mesh::reorder::{cuthill_mckee, reverse_cuthill_mckee, Permutation};
use nalgebra::Vector2;
use nalgebra_sparse::pattern::SparsityPattern;
use vh::anymesh::AnyMesh;
use vh::*;

fn procedural(kind: &str, a: &Value) -> AnyMesh {
    let u = |i: usize| us(&a[i]);
    // unit length: integer
    let len = || int(&a[0]) as f64 * sc();
    match kind {
        "rect_quad" => AnyMesh::Quad4(create_rectangular_uniform_quad_mesh_2d(len(), u(1), u(2), u(3), &Vector2::new(int(&a[4]) as f64 * sc(), int(&a[5]) as f64 * sc()))),
        "rect_hex" => AnyMesh::Hex8(create_rectangular_uniform_hex_mesh(len(), u(1), u(2), u(3), u(4))),
        "rect_tet" => AnyMesh::Tet4(create_rectangular_uniform_tet_mesh(len(), u(1), u(2), u(3), u(4))),
        // unit meshes are scaled by the (integer) resolution so that coordinates stay integers
        "unit_quad" => AnyMesh::Quad4(scaled(create_unit_square_uniform_quad_mesh_2d(u(0)), int(&a[1]))),
        "unit_tri" => AnyMesh::Tri3(scaled(create_unit_square_uniform_tri_mesh_2d(u(0)), int(&a[1]))),
        "unit_hex" => AnyMesh::Hex8(scaled(create_unit_box_uniform_hex_mesh_3d(u(0)), int(&a[1]))),
        "unit_tet" => AnyMesh::Tet4(scaled(create_unit_box_uniform_tet_mesh_3d(u(0)), int(&a[1]))),
        o => die(&format!("unknown mesh kind {o}")),
    }
}
fn scaled<D: nalgebra::DimName, C>(mut m: fenris::mesh::Mesh<f64, D, C>, s: i64) -> fenris::mesh::Mesh<f64, D, C>
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<f64, D>,
{
    m.transform_vertices(|p| p.coords *= s as f64 * sc());
    m
}

fn op(op: &Value, cur: &mut Option<AnyMesh>, base: &mut Option<AnyMesh>, out: &mut Out) -> Result<(), String> {
    let name = st(&op[0]);
    let emit = |new: AnyMesh, mut ev: Value, set: bool, cur: &mut Option<AnyMesh>, out: &mut Out| {
        ev["ct"] = json!(new.ct());
        ev["V"] = new.verts();
        ev["C"] = new.cells();
        ev["set"] = json!(set as i32);
        out.ev(ev);
        if set {
            *cur = Some(new);
        }
    };
    let flag = |k: usize| op[k].as_i64().unwrap_or(0) == 1;
    match name {
        "boundary" => {
            let mut ev = guard(|| cur.as_ref().unwrap().boundary())?;
            ev["op"] = json!("boundary");
            out.ev(ev);
        }
        "surface" => {
            if let Some((ct, v, c)) = guard(|| cur.as_ref().unwrap().surface())? {
                out.ev(json!({"op": "surface", "ct": ct, "V": v, "C": c, "set": flag(1) as i32}));
                if flag(1) {
                    *cur = Some(AnyMesh::from_json(&ct, &v, &c));
                }
            }
        }
        "keep" => {
            let l = uvec(&op[1]);
            let new = guard(|| cur.as_ref().unwrap().keep(&l))?;
            emit(new, json!({"op": "keep", "list": l}), flag(2), cur, out);
        }
        "refine" => {
            let new = guard(|| cur.as_ref().unwrap().refine(None))?;
            emit(new, json!({"op": "refine"}), true, cur, out);
        }
        "repeat" => {
            let n = us(&op[1]);
            let new = guard(|| base.as_ref().unwrap().refine(Some(n)))?;
            emit(new, json!({"op": "repeat", "n": n}), false, cur, out);
        }
        "convert" => {
            let to = st(&op[1]);
            let new = guard(|| cur.as_ref().unwrap().convert(to))?;
            emit(new, json!({"op": "convert", "to": to}), flag(2), cur, out);
        }
        "reorder" => {
            let (v, c, new) = guard(|| cur.as_ref().unwrap().reorder())?;
            emit(new, json!({"op": "reorder", "vp": v, "cp": c}), flag(1), cur, out);
        }
        "translate" => {
            let t = ivec(&op[1]);
            let c = cur.as_ref().unwrap();
            let mut n = AnyMesh::from_json(c.ct(), &c.verts(), &c.cells());
            guard(|| n.translate(&t))?;
            emit(n, json!({"op": "translate", "t": t}), flag(2), cur, out);
        }
        "proc" => {
            let new = guard(|| procedural(st(&op[1]), &op[2]))?;
            emit(new, json!({"op": "proc", "kind": op[1], "args": op[2]}), true, cur, out);
        }
        "perm" => {
            let l = uvec(&op[1]);
            let data = uvec(&op[2]);
            let ev = guard(|| match Permutation::from_vec(l.clone()) {
                Err(_) => json!({"op": "perm", "list": l, "ok": 0}),
                Ok(p) => {
                    let inv = p.inverse();
                    let mut rev = p.clone();
                    rev.reverse();
                    let app = p.apply_to_slice(&data);
                    json!({"op": "perm", "list": l, "ok": 1, "len": p.len(), "perm": p.perm(), "inv": inv.perm(), "rev": rev.perm(),
                           "src": (0..l.len()).map(|i| p.source_index(i)).collect::<Vec<_>>(),
                           "data": data, "app": app, "back": inv.apply_to_slice(&app),
                           "back2": p.apply_to_slice(&inv.apply_to_slice(&data))})
                }
            })?;
            out.ev(ev);
        }
        "rcm" => {
            let lanes = uvecs(&op[1]);
            let mut offs = vec![0];
            let mut idx = vec![];
            for r in &lanes {
                idx.extend(r.iter().copied());
                offs.push(idx.len());
            }
            let p = SparsityPattern::try_from_offsets_and_indices(lanes.len(), lanes.len(), offs, idx).unwrap_or_else(|e| die(&format!("{e}")));
            let (a, b) = guard(|| (cuthill_mckee(&p).perm().to_vec(), reverse_cuthill_mckee(&p).perm().to_vec()))?;
            out.ev(json!({"op": "rcm", "lanes": lanes, "cm": a, "rcm": b}));
        }
        o => die(&format!("unknown op {o}")),
    }
    Ok(())
}

fn main() {
    run(|case, out| {
        set_scale(case);
        let (mut cur, mut base) = (None, None);
        if case["ct"].is_string() {
            let m = AnyMesh::from_json(st(&case["ct"]), &case["V"], &case["C"]);
            out.ev(json!({"op": "mesh", "new": 1, "ct": m.ct(), "V": m.verts(), "C": m.cells()}));
            cur = Some(m);
        } else {
            out.ev(json!({"op": "none", "new": 1}));
        }
        let none = json!(["none"]);
        let mut prev = &none;
        for o in arr(&case["ops"]) {
            if st(&o[0]) == "refine" && st(&prev[0]) != "refine" {
                base = cur.as_ref().map(|c: &AnyMesh| AnyMesh::from_json(c.ct(), &c.verts(), &c.cells()));
            }
            if st(&o[0]) != "repeat" {
                prev = o;
            }
            if let Err(e) = op(o, &mut cur, &mut base, out) {
                out.ev(json!({"op": "panic", "at": o, "msg": e}));
                return;
            }
        }
    });
}
