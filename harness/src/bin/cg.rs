//! Conjugate gradient solves against scripted or real operators, recording every call (C17).
use fenris_sparse::cg::*;
use nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use std::cell::RefCell;
use std::error::Error;
use vh::*;

const U: f64 = 64.0;
type Log = RefCell<Vec<Value>>;
fn jv<'a>(v: impl IntoIterator<Item = &'a f64>) -> Value {
    json!(v.into_iter().map(|x| exact(*x, U)).collect::<Vec<_>>())
}
fn vec_of(v: &Value) -> DVector<f64> {
    DVector::from_vec(ivec(v).into_iter().map(|x| x as f64 / U).collect())
}
enum Kind {
    Script(Vec<Value>),
    Dense(DMatrix<f64>),
    Csr(CsrMatrix<f64>),
    Identity,
}
struct Op<'a> {
    name: &'static str,
    kind: Kind,
    calls: RefCell<usize>,
    log: &'a Log,
}
impl<'a> LinearOperator<f64> for Op<'a> {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        let k = *self.calls.borrow();
        *self.calls.borrow_mut() += 1;
        let input = jv(x.iter());
        let res: Result<(), Box<dyn Error>> = match &self.kind {
            Kind::Script(s) => match s.get(k) {
                Some(v) if arr(v).is_empty() => Err(self.name.into()),
                Some(v) => {
                    y.copy_from(&vec_of(v));
                    Ok(())
                }
                // calls beyond the script: any answer will do, the call itself is out of order
                None => Err("unexpected call".into()),
            },
            Kind::Dense(m) => m.apply(y.as_view_mut(), x),
            Kind::Csr(m) => (&m).apply(y.as_view_mut(), x),
            Kind::Identity => IdentityOperator.apply(y.as_view_mut(), x),
        };
        let out = if res.is_ok() { jv(y.iter()) } else { json!([]) };
        self.log.borrow_mut().push(json!({"op": self.name, "in": input, "out": out, "ok": res.is_ok() as i32}));
        res
    }
}
struct Crit<'a> {
    script: Option<Vec<Value>>,
    real: RelativeResidualCriterion<f64>,
    calls: RefCell<usize>,
    log: &'a Log,
}
impl<'a> CgStoppingCriterion<f64> for Crit<'a> {
    fn reset(&self, _a: &dyn LinearOperator<f64>, x: DVectorView<f64>, b: DVectorView<f64>) {
        self.log.borrow_mut().push(json!({"op": "R", "x": jv(x.iter()), "b": jv(b.iter())}));
    }
    fn has_converged(
        &self,
        a: &dyn LinearOperator<f64>,
        x: DVectorView<f64>,
        b: DVectorView<f64>,
        b_norm: f64,
        iteration: usize,
        r: DVectorView<f64>,
    ) -> Result<bool, SolveErrorKind> {
        let k = *self.calls.borrow();
        *self.calls.borrow_mut() += 1;
        let res = match &self.script {
            Some(s) => match s.get(k).map(st) {
                Some("yes") => Ok(true),
                Some("no") => Ok(false),
                Some("fail") => Err(SolveErrorKind::StoppingCriterionError("C".into())),
                _ => Err(SolveErrorKind::StoppingCriterionError("unexpected call".into())),
            },
            None => self.real.has_converged(a, x, b, b_norm, iteration, r),
        };
        let ans = match &res {
            Ok(true) => "yes",
            Ok(false) => "no",
            Err(_) => "fail",
        };
        self.log.borrow_mut().push(json!({"op": "C", "x": jv(x.iter()), "b": jv(b.iter()), "bn2": near(b_norm * b_norm, U * U, 1e-6),
            "it": iteration, "r": jv(r.iter()), "ans": ans}));
        res
    }
}

fn matrix(kind: &str, a: &Value) -> Kind {
    let rows = ivecs(a);
    let n = rows.len();
    match kind {
        "dense" => Kind::Dense(DMatrix::from_fn(n, n, |i, j| rows[i][j] as f64)),
        "csr" => {
            let mut coo = CooMatrix::new(n, n);
            for (i, r) in rows.iter().enumerate() {
                for (j, v) in r.iter().enumerate() {
                    if *v != 0 {
                        coo.push(i, j, *v as f64);
                    }
                }
            }
            Kind::Csr(CsrMatrix::from(&coo))
        }
        o => die(o),
    }
}

fn main() {
    run(|case, out| {
        let mut ws = CgWorkspace::default();
        let mut first = true;
        for s in arr(&case["solves"]) {
            let mut ev = json!({"op": "solve", "b": s["b"], "x": s["x"], "max": s["max"],
                "A": if s["kind"].is_string() { s["A"].clone() } else { json!([]) },
                "tol2": if s["tol2"].is_array() { s["tol2"].clone() } else { json!([]) }});
            if first {
                ev["new"] = json!(1);
                first = false;
            }
            out.ev(ev);
            let log = Log::default();
            let (ak, pk) = if s["kind"].is_string() {
                (matrix(st(&s["kind"]), &s["A"]), Kind::Identity)
            } else {
                (Kind::Script(arr(&s["A"]).clone()), Kind::Script(arr(&s["P"]).clone()))
            };
            let a = Op { name: "A", kind: ak, calls: RefCell::new(0), log: &log };
            let p = Op { name: "P", kind: pk, calls: RefCell::new(0), log: &log };
            let tol = if s["tol2"].is_array() { (int(&s["tol2"][0]) as f64 / int(&s["tol2"][1]) as f64).sqrt() } else { 0.0 };
            let c = Crit {
                script: if s["tol2"].is_array() { None } else { Some(arr(&s["C"]).clone()) },
                real: RelativeResidualCriterion::new(tol),
                calls: RefCell::new(0),
                log: &log,
            };
            let b = vec_of(&s["b"]);
            let mut x = vec_of(&s["x"]);
            let max = int(&s["max"]);
            let res = guard(|| {
                let cg = if int(&s["fresh"]) == 1 { ConjugateGradient::new() } else { ConjugateGradient::with_workspace(&mut ws) };
                let cg = cg.with_operator(&a).with_preconditioner(&p).with_stopping_criterion(c);
                let mut cg = if max >= 0 { cg.with_max_iter(max as usize) } else { cg };
                cg.solve_with_guess(&b, &mut x)
            });
            for e in log.borrow().iter() {
                out.ev(e.clone());
            }
            let (kind, iters, m) = match &res {
                Err(e) => {
                    out.ev(json!({"op": "panic", "msg": e}));
                    return;
                }
                Ok(Ok(o)) => ("ok", o.num_iterations, 0),
                Ok(Err(e)) => {
                    let it = e.output.num_iterations;
                    let named = |err: &Box<dyn Error>, n: &'static str, k: &'static str| if err.to_string() == n { k } else { "other" };
                    match &e.kind {
                        SolveErrorKind::OperatorError(err) => (named(err, "A", "operator"), it, 0),
                        SolveErrorKind::PreconditionerError(err) => (named(err, "P", "preconditioner"), it, 0),
                        SolveErrorKind::StoppingCriterionError(err) => (named(err, "C", "criterion"), it, 0),
                        SolveErrorKind::IndefiniteOperator => ("indefinite_op", it, 0),
                        SolveErrorKind::IndefinitePreconditioner => ("indefinite_prec", it, 0),
                        SolveErrorKind::MaxIterationsReached { max_iter } => ("max", it, *max_iter),
                        _ => ("other", it, 0),
                    }
                }
            };
            out.ev(json!({"op": "return", "kind": kind, "iters": iters, "max": m, "x": jv(x.iter())}));
        }
    });
}
