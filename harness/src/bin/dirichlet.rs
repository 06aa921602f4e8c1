//! Homogeneous Dirichlet conditions on sparse and dense matrices and right-hand sides (C06).
use fenris::assembly::global::*;
use nalgebra::{DMatrix, DVector, DVectorViewMut, U1, U2, U3};
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use vh::*;

fn trip(m: &CsrMatrix<f64>) -> Vec<[i64; 3]> {
    m.triplet_iter()
        .map(|(i, j, v)| [i as i64, j as i64, exact(*v, 1.0)])
        .collect()
}
fn rows(m: &DMatrix<f64>) -> Vec<Vec<i64>> {
    m.row_iter()
        .map(|r| r.iter().map(|x| exact(*x, 1.0)).collect())
        .collect()
}
fn vals(v: &DVector<f64>) -> Vec<i64> {
    v.iter().map(|x| exact(*x, 1.0)).collect()
}

fn main() {
    run(|case, out| {
        let (s, dim) = (us(&case["s"]), us(&case["dim"]));
        let mut coo = CooMatrix::new(dim, dim);
        let sparse_only = case.get("sparse").is_some();
        let mut dense = if sparse_only {
            DMatrix::zeros(0, 0)
        } else {
            DMatrix::zeros(dim, dim)
        };
        for t in arr(&case["m"]) {
            let (i, j, v) = (us(&t[0]), us(&t[1]), int(&t[2]) as f64);
            coo.push(i, j, v);
            if !sparse_only {
                dense[(i, j)] = v;
            }
        }
        let mut csr = CsrMatrix::from(&coo);
        let mut rhs = DVector::from_fn(dim, |i, _| ((i * 7 + 3) % 11) as f64 - 5.0);
        out.ev(json!({"op": "new", "new": 1, "s": s, "m": trip(&csr), "rows": rows(&dense), "v": vals(&rhs)}));
        for nodes in arr(&case["steps"]) {
            let nodes = uvec(nodes);
            let r = guard(|| apply_homogeneous_dirichlet_bc_csr(&mut csr, &nodes, s));
            out.ev(match r {
                Ok(()) => json!({"op": "csr", "nodes": nodes, "m": trip(&csr)}),
                Err(e) => json!({"op": "panic", "at": "csr", "msg": e}),
            });
            let r = if sparse_only {
                Ok(())
            } else {
                guard(|| match s {
                    1 => apply_homogeneous_dirichlet_bc_matrix::<f64, U1>(&mut dense, &nodes),
                    2 => apply_homogeneous_dirichlet_bc_matrix::<f64, U2>(&mut dense, &nodes),
                    3 => apply_homogeneous_dirichlet_bc_matrix::<f64, U3>(&mut dense, &nodes),
                    _ => die("solution dimension"),
                })
            };
            if !sparse_only {
                out.ev(match r {
                    Ok(()) => json!({"op": "dense", "nodes": nodes, "rows": rows(&dense)}),
                    Err(e) => json!({"op": "panic", "at": "dense", "msg": e}),
                });
            }
            let r = guard(|| {
                apply_homogeneous_dirichlet_bc_rhs(DVectorViewMut::from(&mut rhs), &nodes, s)
            });
            out.ev(match r {
                Ok(()) => json!({"op": "rhs", "nodes": nodes, "v": vals(&rhs)}),
                Err(e) => json!({"op": "panic", "at": "rhs", "msg": e}),
            });
        }
    });
}
