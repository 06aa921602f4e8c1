//! Finite difference approximations of scripted functions, recording every evaluation (C30).
use fenris_optimize::calculus::*;
use nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use std::cell::RefCell;
use std::collections::HashMap;
use std::error::Error;
use vh::*;

const GARBAGE: f64 = 7.0e5;
// points in units of 1/64
fn pt<'a>(x: impl IntoIterator<Item = &'a f64>) -> Vec<i64> {
    x.into_iter().map(|v| exact(*v, 64.0)).collect()
}
struct Fun {
    m: usize,
    kind: i64,
    seed: u64,
    co: Vec<Vec<i64>>,
    memo: HashMap<Vec<i64>, Vec<i64>>,
    calls: Vec<Value>,
    rng: Rng,
}
impl Fun {
    fn new(case: &Value) -> Self {
        let seed = case["seed"].as_u64().unwrap();
        Fun { m: us(&case["m"]), kind: int(&case["kind"]), seed, co: ivecs(&case["co"]), memo: HashMap::new(), calls: vec![], rng: Rng(seed) }
    }
    // values in units of 1/4096
    fn at<'a>(&mut self, x: impl IntoIterator<Item = &'a f64>) -> Vec<i64> {
        let p = pt(x);
        let (m, kind, rng, co) = (self.m, self.kind, &mut self.rng, &self.co);
        let _ = self.seed;
        let v = self
            .memo
            .entry(p.clone())
            .or_insert_with(|| {
                (0..m)
                    .map(|i| {
                        if kind == 0 {
                            (rng.below(2001) as i64 - 1000) * 4096
                        } else {
                            // c + a . x + sum_j b_j x_j^2 + w x_1 x_n
                            let c = &co[i];
                            let n = p.len();
                            let mut s = c[0] * 4096;
                            for j in 0..n {
                                s += c[1 + j] * p[j] * 64 + c[1 + n + j] * p[j] * p[j];
                            }
                            if n > 0 {
                                s += c[1 + 2 * n] * p[0] * p[n - 1];
                            }
                            s
                        }
                    })
                    .collect()
            })
            .clone();
        self.calls.push(json!([p, v]));
        v
    }
}
fn fl(v: i64) -> f64 {
    v as f64 / 4096.0
}
impl VectorFunction<f64> for Fun {
    fn dimension(&self) -> usize {
        self.m
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        let v = self.at(x.iter());
        assert_eq!(f.len(), v.len());
        f.iter_mut().zip(v).for_each(|(f, v)| *f = fl(v));
    }
}

trait IntoDyn<'a> {
    fn into_dynv(self) -> DVectorViewMut<'a, f64>;
}
impl<'a> IntoDyn<'a> for nalgebra::MatrixViewMut<'a, f64, nalgebra::Dyn, nalgebra::U1, nalgebra::U1, nalgebra::Dyn> {
    fn into_dynv(self) -> DVectorViewMut<'a, f64> {
        self
    }
}

// a column (or block) of a larger array whose other entries must stay as they are
fn big(r: usize, c: usize) -> DMatrix<f64> {
    DMatrix::from_element(r + 2, c + 2, GARBAGE)
}
fn frame(m: &DMatrix<f64>, rows: std::ops::Range<usize>, cols: std::ops::Range<usize>) -> i32 {
    (0..m.ncols()).all(|j| (0..m.nrows()).all(|i| (rows.contains(&i) && cols.contains(&j)) || m[(i, j)] == GARBAGE)) as i32
}

fn main() {
    run(|case, out| {
        if st(&case["do"]) == "kept" {
            // values for which moving there and back loses digits
            let fr = |v: &Value| int(&v[0]) as f64 / int(&v[1]) as f64;
            let x0 = DVector::from_iterator(arr(&case["x"]).len(), arr(&case["x"]).iter().map(fr));
            let h = fr(&case["h"]);
            let bits = |x: &DVector<f64>| x.iter().map(|v| format!("{:x}", v.to_bits())).collect::<Vec<_>>();
            let mut x = x0.clone();
            let r = guard(|| {
                match int(&case["via"]) {
                    0 => drop(approximate_gradient_fd(|x: DVectorView<f64>| x.sum(), &mut x, h)),
                    _ => drop(approximate_jacobian_fd(2, |x: DVectorView<f64>, mut f: DVectorViewMut<f64>| f.fill(x.sum()), &mut x, h)),
                }
            });
            out.ev(json!({"op": "kept", "new": 1, "ok": r.is_ok() as i32, "before": bits(&x0), "after": bits(&x)}));
            return;
        }
        let mut fun = Fun::new(case);
        let x = ivec(&case["x"]);
        let n = x.len();
        let m = us(&case["m"]);
        let h = 2.0f64.powi(int(&case["h"]) as i32);
        let x0 = DVector::from_iterator(n, x.iter().map(|v| *v as f64 / 64.0));
        let mut ev = json!({"op": case["do"], "new": 1, "n": n, "m": m, "x": x, "h": exact(h, 64.0), "kind": case["kind"], "co": case["co"]});
        let mut keep = 1;
        let r = guard(|| -> (Vec<Vec<i64>>, Vec<i64>) {
            // the point as a column of a larger matrix
            let mut xs = big(n, 1);
            xs.view_mut((0, 1), (n, 1)).copy_from(&x0);
            let res: DMatrix<f64> = match st(&case["do"]) {
                "jac" => match int(&case["via"]) {
                    0 => approximate_jacobian(&mut fun, &x0, &h),
                    _ => {
                        let cell = RefCell::new(&mut fun);
                        let f = VectorFunctionBuilder::with_dimension(m).with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| {
                            cell.borrow_mut().eval_into(f, x)
                        });
                        approximate_jacobian(f, &x0, &h)
                    }
                },
                "jacfd" => {
                    let f = |x: DVectorView<f64>, mut f: DVectorViewMut<f64>| fun.eval_into(&mut f, &x);
                    if int(&case["via"]) == 0 {
                        let mut xc = x0.clone();
                        let r = approximate_jacobian_fd(m, f, &mut xc, h);
                        xs.view_mut((0, 1), (n, 1)).copy_from(&xc);
                        r
                    } else {
                        let mut j = big(m, n);
                        approximate_jacobian_fd_into(j.view_mut((1, 1), (m, n)), f, xs.view_mut((0, 1), (n, 1)).column_mut(0).into_dynv(), h);
                        keep = keep.min(frame(&j, 1..m + 1, 1..n + 1));
                        j.view((1, 1), (m, n)).clone_owned()
                    }
                }
                "grad" => {
                    let f = |x: DVectorView<f64>| fl(fun.at(x.iter())[0]);
                    if int(&case["via"]) == 0 {
                        let mut xc = x0.clone();
                        let r = approximate_gradient_fd(f, &mut xc, h);
                        xs.view_mut((0, 1), (n, 1)).copy_from(&xc);
                        DMatrix::from_iterator(1, n, r.iter().copied())
                    } else {
                        let mut j = big(n, 1);
                        {
                            let mut jc = j.view_mut((0, 1), (n, 1));
                            let mut xc = xs.view_mut((0, 1), (n, 1));
                            let jv: DVectorViewMut<f64> = jc.column_mut(0).into_dynv();
                            let xv: DVectorViewMut<f64> = xc.column_mut(0).into_dynv();
                            approximate_gradient_fd_into(jv, f, xv, h);
                        }
                        keep = keep.min(frame(&j, 0..n, 1..2));
                        DMatrix::from_iterator(1, n, j.view((0, 1), (n, 1)).iter().copied())
                    }
                }
                d => die(d),
            };
            keep = keep.min(frame(&xs, 0..n, 1..2));
            let xa = pt(xs.view((0, 1), (n, 1)).iter());
            ((0..res.nrows()).map(|i| (0..res.ncols()).map(|j| exact(res[(i, j)], 4096.0)).collect()).collect(), xa)
        });
        ev["calls"] = json!(fun.calls);
        match r {
            Ok((r, xa)) => {
                ev["ok"] = json!(1);
                ev["r"] = json!(r);
                ev["after"] = json!(xa);
                ev["keep"] = json!(keep);
            }
            Err(e) => {
                ev["ok"] = json!(0);
                ev["err"] = json!(e);
            }
        }
        out.ev(ev);
        // the parts of a function put together from closures are called as they are
        let log = RefCell::new(vec![]);
        let fail = int(&case["fail"]) == 1;
        let r = guard(|| {
            let mut f = VectorFunctionBuilder::with_dimension(m)
                .with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| {
                    log.borrow_mut().push(json!(["f", pt(x.iter())]));
                    f.iter_mut().enumerate().for_each(|(i, f)| *f = i as f64 + 1.0);
                })
                .with_jacobian_solver(|s: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, b: &DVectorView<f64>| -> Result<(), Box<dyn Error>> {
                    log.borrow_mut().push(json!(["j", pt(x.iter()), pt(b.iter())]));
                    s.iter_mut().enumerate().for_each(|(i, s)| *s = 10.0 + i as f64);
                    if fail { Err("scripted".into()) } else { Ok(()) }
                });
            let mut fv = DVector::from_element(m, GARBAGE);
            let mut sv = DVector::from_element(n, GARBAGE);
            let b = DVector::from_iterator(m, (0..m).map(|i| i as f64 * 2.0));
            // through a reference, and directly
            fn go<F: DifferentiableVectorFunction<f64>>(mut f: F, fv: &mut DVector<f64>, sv: &mut DVector<f64>, x: &DVector<f64>, b: &DVector<f64>) -> (usize, String) {
                f.eval_into(&mut DVectorViewMut::from(&mut *fv), &DVectorView::from(x));
                let r = f.solve_jacobian_system(&mut DVectorViewMut::from(&mut *sv), &DVectorView::from(x), &DVectorView::from(b));
                (f.dimension(), r.map(|_| String::new()).unwrap_or_else(|e| e.to_string()))
            }
            let a = if int(&case["via"]) == 0 { go(&mut f, &mut fv, &mut sv, &x0, &b) } else { go(f, &mut fv, &mut sv, &x0, &b) };
            json!({"dim": a.0, "err": a.1, "f": fv.iter().map(|v| exact(*v, 1.0)).collect::<Vec<_>>(), "s": sv.iter().map(|v| exact(*v, 1.0)).collect::<Vec<_>>(), "b": pt(b.iter())})
        });
        let mut e = json!({"op": "built", "n": n, "m": m, "x": x, "fail": fail as i32, "ok": r.is_ok() as i32, "log": *log.borrow()});
        if let Ok(r) = r {
            e["r"] = r;
        }
        out.ev(e);
    });
}
