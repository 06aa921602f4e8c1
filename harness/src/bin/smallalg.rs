//! Small dense algebra and matrix files (C33).
use fenris::connectivity::*;
use fenris::mesh::*;
use fenris::util::*;
use nalgebra::*;
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use vh::anymesh::pts;
use vh::{arr, die, exact, grid, guard, int, ivec, ivecs, json, run, sc, set_scale, st, us, uvec, uvecs, Out, Value};

const F: f64 = 10000.0;
fn fm<R: Dim, C: Dim, S: storage::Storage<f64, R, C>>(m: &Matrix<f64, R, C, S>, f: f64) -> Value {
    json!((0..m.nrows()).map(|i| (0..m.ncols()).map(|j| grid(m[(i, j)], f)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn em<R: Dim, C: Dim, S: storage::Storage<f64, R, C>>(m: &Matrix<f64, R, C, S>) -> Value {
    json!((0..m.nrows()).map(|i| (0..m.ncols()).map(|j| exact(m[(i, j)] / sc(), 1.0)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn dm(v: &Value, c: usize) -> DMatrix<f64> {
    let r = ivecs(v);
    DMatrix::from_fn(r.len(), r.first().map(|x| x.len()).unwrap_or(c), |i, j| r[i][j] as f64 * sc())
}
fn put(out: &mut Out, mut e: Value, r: Result<Value, String>) {
    e["new"] = json!(1);
    e["ok"] = json!(r.is_ok() as i32);
    e["r"] = r.unwrap_or_else(|x| json!(x));
    out.ev(e);
}
fn lines(p: &str) -> Vec<Vec<String>> {
    let t = std::fs::read_to_string(p).unwrap_or_default();
    let nl = t.is_empty() || t.ends_with('\n');
    let mut v: Vec<Vec<String>> = t.lines().map(|l| l.split(' ').map(|x| x.to_string()).collect()).collect();
    if !nl {
        v.push(vec!["no newline".into()]);
    }
    v
}
fn num(s: &str) -> i64 {
    s.parse::<f64>().map(|x| exact(x / sc(), 64.0)).unwrap_or(vh::NOT_EXACT)
}
// a matrix market file: header, sizes, entries
fn mm(p: &str) -> Value {
    let l = lines(p);
    if l.len() < 2 {
        return json!({"head": "", "dims": [], "ent": []});
    }
    let i = |s: &String| s.parse::<i64>().unwrap_or(-1);
    json!({"head": l[0].join(" "), "dims": l[1].iter().map(i).collect::<Vec<_>>(),
        "ent": l[2..].iter().map(|t| if t.len() == 3 { json!([i(&t[0]), i(&t[1]), num(&t[2])]) } else { json!([]) }).collect::<Vec<_>>()})
}

fn main() {
    run(|c, out| {
        set_scale(c);
        let kind = st(&c["do"]);
        match kind {
            "svd" => {
                let a = dm(&c["A"], 0);
                let r = guard(|| {
                    macro_rules! go {
                        ($d:ident) => {{
                            let a = OMatrix::<f64, $d, $d>::from_fn(|i, j| a[(i, j)]);
                            let (u, s, vt) = rotation_svd(&a);
                            json!({"U": fm(&u, F), "S": s.iter().map(|x| grid(*x / sc(), F)).collect::<Vec<_>>(), "Vt": fm(&vt, F)})
                        }};
                    }
                    if a.nrows() == 2 { go!(U2) } else { go!(U3) }
                });
                put(out, json!({"op": "svd", "A": c["A"]}), r);
            }
            "apd" => {
                // F = (M / N) P, from a guess that is off by a rotation
                let (n, m, p) = (int(&c["N"]) as f64, ivecs(&c["M"]), ivecs(&c["P"]));
                let rot = Matrix3::from_fn(|i, j| m[i][j] as f64 / n);
                let pm = Matrix3::from_fn(|i, j| p[i][j] as f64 * 0.125);
                let g = ivec(&c["guess"]);
                let (axis, angle) = (Vector3::new(g[0] as f64, g[1] as f64, g[2] as f64), g[3] as f64 / 1000.0);
                let k = ivec(&c["q"]);
                let exactq = UnitQuaternion::from_quaternion(Quaternion::new(k[0] as f64, k[1] as f64, k[2] as f64, k[3] as f64));
                let q0 = exactq * UnitQuaternion::from_axis_angle(&Unit::new_normalize(axis), angle);
                let r = guard(|| {
                    let q = apd(&(rot * pm), &q0, us(&c["it"]), 1e-10);
                    let q0r = apd(&(rot * pm), &q0, 0, 1e-10);
                    json!({"R": fm(&q.to_rotation_matrix().matrix(), F), "zero": (q0r == q0) as i32})
                });
                put(out, json!({"op": "apd", "N": c["N"], "M": c["M"], "P": c["P"]}), r);
            }
            "diag" => {
                let (d, a) = (ivec(&c["d"]), dm(&c["A"], 0));
                let r = guard(|| {
                    macro_rules! go {
                        ($r:ident $c:ident) => { em(&diag_left_mul(&OVector::<f64, $r>::from_iterator(d.iter().map(|x| *x as f64)), &OMatrix::<f64, $r, $c>::from_fn(|i, j| a[(i, j)]))) };
                    }
                    match (a.nrows(), a.ncols()) {
                        (1, 1) => go!(U1 U1), (2, 2) => go!(U2 U2), (3, 3) => go!(U3 U3), (2, 3) => go!(U2 U3), (3, 2) => go!(U3 U2), (4, 1) => go!(U4 U1),
                        _ => die("shape"),
                    }
                });
                put(out, json!({"op": "diag", "d": c["d"], "A": c["A"]}), r);
            }
            "cross" => {
                let x = ivec(&c["x"]);
                let r = guard(|| em(&cross_product_matrix(&Vector3::new(x[0] as f64 * sc(), x[1] as f64 * sc(), x[2] as f64 * sc()))));
                put(out, json!({"op": "cross", "x": c["x"]}), r);
            }
            "ortho" => {
                let x = ivec(&c["x"]);
                let r = guard(|| {
                    let v = compute_orthonormal_vectors_3d(&Unit::new_normalize(Vector3::new(x[0] as f64, x[1] as f64, x[2] as f64)));
                    json!([v[0].iter().map(|x| grid(*x, F)).collect::<Vec<_>>(), v[1].iter().map(|x| grid(*x, F)).collect::<Vec<_>>()])
                });
                put(out, json!({"op": "ortho", "x": c["x"]}), r);
            }
            "eig" => {
                // A = M diag(L) M^T / N^2
                let (n, m, l) = (int(&c["N"]) as f64, ivecs(&c["M"]), ivec(&c["L"]));
                let d = l.len();
                let q = DMatrix::from_fn(d, d, |i, j| m[i][j] as f64 / n);
                let a = &q * DMatrix::from_diagonal(&DVector::from_iterator(d, l.iter().map(|x| *x as f64 * sc()))) * q.transpose();
                let a = (&a + a.transpose()) * 0.5;
                let r = guard(|| {
                    let (mn, (lo, hi), cond) = match (d, us(&c["via"])) {
                        (2, 1) => { let a = Matrix2::from_fn(|i, j| a[(i, j)]); (min_eigenvalue_symmetric(&a), min_max_symmetric_eigenvalues(&a), condition_number_symmetric(&a)) }
                        (3, 1) => { let a = Matrix3::from_fn(|i, j| a[(i, j)]); (min_eigenvalue_symmetric(&a), min_max_symmetric_eigenvalues(&a), condition_number_symmetric(&a)) }
                        _ => (min_eigenvalue_symmetric(&a), min_max_symmetric_eigenvalues(&a), condition_number_symmetric(&a)),
                    };
                    json!({"min": grid(mn / sc(), F), "lo": grid(lo / sc(), F), "hi": grid(hi / sc(), F), "cond": grid(cond, F)})
                });
                put(out, json!({"op": "eig", "N": c["N"], "M": c["M"], "L": c["L"]}), r);
            }
            "extract" => {
                let (u, idx, d) = (ivec(&c["u"]), uvec(&c["idx"]), us(&c["d"]));
                let u: Vec<f64> = u.into_iter().map(|x| x as f64).collect();
                let r = guard(|| {
                    let v = match d { 1 => extract_by_node_index::<f64, U1>(&u, &idx), 2 => extract_by_node_index::<f64, U2>(&u, &idx), _ => extract_by_node_index::<f64, U3>(&u, &idx) };
                    json!(v.iter().map(|x| exact(*x, 1.0)).collect::<Vec<_>>())
                });
                put(out, json!({"op": "extract", "u": c["u"], "idx": c["idx"], "d": d}), r);
            }
            "coerce" => {
                // a matrix, a part of a larger matrix, a transposed layout: reinterpreted with other dimension types
                let a = dm(&c["A"], 0);
                let (nr, nc) = (a.nrows(), a.ncols());
                let (i, j) = (us(&c["at"][0]), us(&c["at"][1]));
                let w = int(&c["w"]) as f64 * sc();
                let form = st(&c["form"]);
                let r = guard(|| {
                    let mut big = DMatrix::from_element(nr + 2, nc + 1, 0.0);
                    big.view_mut((0, 1), (nr, nc)).copy_from(&a);
                    let mut own = a.clone();
                    let mut tr = a.transpose();
                    let seen;
                    let after;
                    match form {
                        "own" => {
                            seen = em(&coerce_col_major_slice(&own, Dyn(nr), Dyn(nc)));
                            { let mut v = coerce_col_major_slice_mut(&mut own, Dyn(nr), Dyn(nc)); v[(i, j)] = w; }
                            after = em(&own);
                        }
                        "static" => {
                            let mut s = Matrix3x2::from_fn(|i, j| a[(i, j)]);
                            seen = em(&coerce_col_major_slice(&s, Dyn(nr), U2::name()));
                            { let mut v = coerce_col_major_slice_mut(&mut s, U3::name(), Dyn(nc)); v[(i, j)] = w; }
                            after = em(&s);
                        }
                        "part" => {
                            // not contiguous: other rows lie between the columns
                            let mut p = big.view_mut((0, 1), (nr, nc));
                            let a = em(&p);
                            if us(&c["mut"]) == 0 {
                                seen = em(&coerce_col_major_slice(&p, Dyn(nr), Dyn(nc)));
                            } else {
                                seen = a;
                            }
                            if us(&c["mut"]) == 1 { let mut v = coerce_col_major_slice_mut(&mut p, Dyn(nr), Dyn(nc)); v[(i, j)] = w; }
                            after = em(&p);
                        }
                        "rows" => {
                            // a row-major view
                            let t: MatrixViewMut<f64, Dyn, Dyn, Dyn, U1> = MatrixViewMut::from_slice_with_strides_generic(tr.as_mut_slice(), Dyn(nr), Dyn(nc), Dyn(nc), U1::name());
                            seen = em(&coerce_col_major_slice(&t, Dyn(nr), Dyn(nc)));
                            after = em(&t);
                        }
                        "shape" => {
                            seen = em(&coerce_col_major_slice(&own, Dyn(nc), Dyn(nr)));
                            after = em(&own);
                        }
                        f => die(f),
                    }
                    json!({"seen": seen, "after": after})
                });
                put(out, json!({"op": "coerce", "form": form, "A": c["A"], "at": c["at"], "w": c["w"], "mut": c["mut"]}), r);
            }
            "cast" => {
                let v: Vec<f64> = ivec(&c["v"]).into_iter().map(|x| x as f64).collect();
                let r = guard(|| {
                    let mut w = v.clone();
                    let s = try_transmute_slice::<f64, f64>(&v).map(|s| s.iter().map(|x| exact(*x, 1.0)).collect::<Vec<_>>());
                    let other = try_transmute_slice::<f64, f32>(&v).is_some() as i32 + try_transmute_slice::<f64, u64>(&v).is_some() as i32 + try_transmute_ref::<f64, i64>(&1.0).is_some() as i32
                        + try_transmute_ref::<Vec<f64>, Vec<u64>>(&v).is_some() as i32 + try_transmute_ref_mut::<Vec<f64>, Vec<u64>>(&mut w).is_some() as i32 + try_transmute_ref_mut::<[u8; 8], u64>(&mut [0; 8]).is_some() as i32;
                    let rf = try_transmute_ref::<Vec<f64>, Vec<f64>>(&v).map(|s| s.iter().map(|x| exact(*x, 1.0)).collect::<Vec<_>>());
                    let pushed = try_transmute_ref_mut::<Vec<f64>, Vec<f64>>(&mut w).map(|s| s.push(77.0)).is_some() as i32;
                    json!({"slice": s, "other": other, "ref": rf, "pushed": pushed, "after": w.iter().map(|x| exact(*x, 1.0)).collect::<Vec<_>>()})
                });
                put(out, json!({"op": "cast", "v": c["v"]}), r);
            }
            "text" => {
                let a = dm(&c["A"], us(&c["nc"])) / 64.0;
                let p = format!("d{}.txt", std::process::id());
                let _ = std::fs::write(&p, "old contents\nof the file\nthat are longer than what comes next, perhaps\n");
                let r = guard(|| {
                    let res = dump_matrix_to_file(&p, &a);
                    json!({"ok": res.is_ok() as i32, "rows": lines(&p).iter().map(|l| l.iter().map(|s| num(s)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                        "bad": dump_matrix_to_file("no/such/dir/file", &a).is_err() as i32})
                });
                let _ = std::fs::remove_file(&p);
                put(out, json!({"op": "text", "A": c["A"]}), r);
            }
            "csr" => {
                let mut coo = CooMatrix::new(us(&c["nr"]), us(&c["nc"]));
                for t in arr(&c["ent"]) {
                    coo.push(us(&t[0]), us(&t[1]), int(&t[2]) as f64 * sc() / 64.0);
                }
                let csr = CsrMatrix::from(&coo);
                let p = format!("m{}.mm", std::process::id());
                let _ = std::fs::write(&p, "old contents\n".repeat(40));
                let r = guard(|| {
                    let res = dump_csr_matrix_to_mm_file(&p, &csr);
                    json!({"ok": res.is_ok() as i32, "file": mm(&p), "bad": dump_csr_matrix_to_mm_file("no/such/dir/file", &csr).is_err() as i32})
                });
                let _ = std::fs::remove_file(&p);
                put(out, json!({"op": "csr", "nr": c["nr"], "nc": c["nc"], "ent": c["ent"]}), r);
            }
            "mesh" => {
                set_scale(&json!({}));
                let (p, q) = (format!("n{}.mm", std::process::id()), format!("e{}.mm", std::process::id()));
                let r = guard(|| {
                    macro_rules! go {
                        ($c:ident $d:ident) => {{
                            let m = Mesh::<f64, $d, $c>::from_vertices_and_connectivity(pts::<$d>(&c["V"]), uvecs(&c["C"]).into_iter().map(|v| $c(v.try_into().unwrap())).collect());
                            dump_mesh_connectivity_matrices(&p, &q, &m).is_ok() as i32
                        }};
                    }
                    let ok = match st(&c["ct"]) {
                        "tri3" => go!(Tri3d2Connectivity U2), "quad4" => go!(Quad4d2Connectivity U2), "tri6" => go!(Tri6d2Connectivity U2), "quad9" => go!(Quad9d2Connectivity U2),
                        "tet4" => go!(Tet4Connectivity U3), "tet10" => go!(Tet10Connectivity U3), "hex8" => go!(Hex8Connectivity U3), "hex20" => go!(Hex20Connectivity U3), "hex27" => go!(Hex27Connectivity U3),
                        x => die(x),
                    };
                    json!({"ok": ok, "nodes": mm(&p), "cells": mm(&q)})
                });
                let _ = std::fs::remove_file(&p);
                let _ = std::fs::remove_file(&q);
                put(out, json!({"op": "mesh", "nv": arr(&c["V"]).len(), "C": c["C"]}), r);
            }
            k => die(k),
        }
    });
}
