//! Composed element assemblers (C21).
use fenris::assembly::local::*;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut};
use vh::mock::*;
use vh::*;

trait All: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64> {}
impl<A: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64>> All for A {}
/// Any composition (aggregates need parts of one type)
struct Any(Box<dyn All>);
impl ElementConnectivityAssembler for Any {
    fn solution_dim(&self) -> usize {
        self.0.solution_dim()
    }
    fn num_elements(&self) -> usize {
        self.0.num_elements()
    }
    fn num_nodes(&self) -> usize {
        self.0.num_nodes()
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.0.element_node_count(e)
    }
    fn populate_element_nodes(&self, o: &mut [usize], e: usize) {
        self.0.populate_element_nodes(o, e)
    }
}
impl ElementScalarAssembler<f64> for Any {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.0.assemble_element_scalar(e)
    }
}
impl ElementVectorAssembler<f64> for Any {
    fn assemble_element_vector_into(&self, e: usize, o: DVectorViewMut<f64>) -> eyre::Result<()> {
        self.0.assemble_element_vector_into(e, o)
    }
}
impl ElementMatrixAssembler<f64> for Any {
    fn assemble_element_matrix_into(&self, e: usize, o: DMatrixViewMut<f64>) -> eyre::Result<()> {
        self.0.assemble_element_matrix_into(e, o)
    }
}

#[derive(Debug)]
struct Refused(i64);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "refused {}", self.0)
    }
}
impl std::error::Error for Refused {}

fn build(t: &Value) -> Any {
    let (a, c, m, r) = match st(&t["k"]) {
        "ts" | "tv" | "tm" => (int(&t["a"]), int(&t["c"]), int(&t["m"]), int(&t["r"])),
        _ => (0, 0, 0, 0),
    };
    let fails = move |x: f64| m > 0 && (x as i64).rem_euclid(m) == r;
    match st(&t["k"]) {
        "leaf" => {
            let mut k = Mock::new(us(&t["n"]), us(&t["s"]), uvecs(&t["el"]));
            k.tag = int(&t["tag"]);
            k.fail = ivec(&t["fail"]).iter().map(|x| *x == 1).collect();
            Any(Box::new(k))
        }
        "agg" => {
            let parts: &'static Vec<Any> = Box::leak(Box::new(arr(&t["of"]).iter().map(build).collect()));
            Any(Box::new(AggregateElementAssembler::from_assemblers(parts)))
        }
        "map" => {
            let f = uvec(&t["f"]);
            Any(Box::new(build(&t["of"]).map_element_nodes(us(&t["n"]), move |i| f[i])))
        }
        "ts" => Any(Box::new(build(&t["of"]).transform_element_scalar(move |x: f64| {
            if fails(x) {
                return Err(eyre::Report::new(Refused(r)));
            }
            Ok(a as f64 * x + c as f64)
        }))),
        "tv" => Any(Box::new(build(&t["of"]).transform_element_vector(move |mut v: DVectorViewMut<f64>| {
            let n = v.len();
            if n > 0 && fails(v[0]) {
                return Err(eyre::Report::new(Refused(r)));
            }
            let o: Vec<f64> = v.iter().copied().collect();
            (0..n).for_each(|i| v[i] = a as f64 * o[n - 1 - i] + (c * i as i64) as f64);
            Ok(())
        }))),
        "tm" => Any(Box::new(build(&t["of"]).transform_element_matrix(move |mut v: DMatrixViewMut<f64>| {
            let n = v.nrows();
            assert_eq!(n, v.ncols());
            if n > 0 && fails(v[(0, 0)]) {
                return Err(eyre::Report::new(Refused(r)));
            }
            let o = DMatrix::from_fn(n, n, |i, j| v[(i, j)]);
            for i in 0..n {
                for j in 0..n {
                    v[(i, j)] = a as f64 * o[(j, i)] + (c * (i as i64 - 2 * j as i64)) as f64;
                }
            }
            Ok(())
        }))),
        o => die(o),
    }
}

fn error(e: eyre::Report) -> Value {
    if let Some(s) = e.downcast_ref::<Scripted>() {
        json!([s.elem, s.tag])
    } else if let Some(r) = e.downcast_ref::<Refused>() {
        json!([-1, r.0])
    } else {
        json!([-2, 0])
    }
}
fn record(out: &mut Out, op: &str, e: usize, r: Result<eyre::Result<Value>, String>) {
    let (ok, v) = match r {
        Err(_) => (2, json!(0)),
        Ok(Err(e)) => (0, error(e)),
        Ok(Ok(v)) => (1, v),
    };
    out.ev(json!({"op": op, "e": e, "ok": ok, "v": v}));
}

fn main() {
    run(|c, out| {
        let t = &c["tree"];
        let a = match guard(|| build(t)) {
            Ok(a) => a,
            Err(_) => {
                out.ev(json!({"new": 1, "op": "new", "tree": t, "ok": 0}));
                return;
            }
        };
        out.ev(json!({"new": 1, "op": "new", "tree": t, "ok": 1}));
        let a = &a;
        let ex = |x: &f64| exact(*x, 1.0);
        let ne = match guard(|| (a.solution_dim(), a.num_elements(), a.num_nodes())) {
            Ok((s, ne, n)) => {
                out.ev(json!({"op": "shape", "s": s, "ne": ne, "n": n}));
                ne
            }
            Err(m) => return out.ev(json!({"op": "panic", "msg": m})),
        };
        for q in arr(&c["ask"]) {
            let e = us(&q[1]);
            if e >= ne && st(&t["k"]) == "leaf" {
                continue;
            }
            let dirty = q[2] == 1;
            let size = |k: &Any| k.solution_dim() * k.element_node_count(e);
            match st(&q[0]) {
                "nodes" => {
                    let r = guard(|| {
                        let n = a.element_node_count(e);
                        let mut v = vec![77; n];
                        a.populate_element_nodes(&mut v, e);
                        (n, v)
                    });
                    match r {
                        Ok((n, v)) => out.ev(json!({"op": "nodes", "e": e, "ok": 1, "count": n, "v": v})),
                        Err(_) => out.ev(json!({"op": "nodes", "e": e, "ok": 2, "count": 0, "v": []})),
                    }
                }
                "scalar" => record(out, "scalar", e, guard(|| a.assemble_element_scalar(e).map(|x| json!(ex(&x))))),
                "vector" => record(out, "vector", e, guard(|| {
                    let v = if dirty {
                        let mut v = DVector::from_element(size(a), f64::NAN);
                        a.assemble_element_vector_into(e, DVectorViewMut::from(&mut v))?;
                        v
                    } else {
                        a.assemble_element_vector(e)?
                    };
                    Ok(json!(v.iter().map(ex).collect::<Vec<_>>()))
                })),
                "matrix" => record(out, "matrix", e, guard(|| {
                    let m = if dirty {
                        let mut m = DMatrix::from_element(size(a), size(a), 1.0e3);
                        a.assemble_element_matrix_into(e, DMatrixViewMut::from(&mut m))?;
                        m
                    } else {
                        a.assemble_element_matrix(e)?
                    };
                    Ok(json!(m.row_iter().map(|r| r.iter().map(ex).collect::<Vec<_>>()).collect::<Vec<_>>()))
                })),
                o => die(o),
            }
        }
    });
}
