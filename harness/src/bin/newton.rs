//! Newton's method against a scripted function and Jacobian solver, recording every call (C18).
use fenris_optimize::calculus::*;
use fenris_optimize::newton::*;
use nalgebra::{DVector, DVectorView, DVectorViewMut};
use std::cell::RefCell;
use std::collections::HashMap;
use std::error::Error;
use vh::*;

const Q: f64 = 4194304.0;
fn jv<'a>(v: impl IntoIterator<Item = &'a f64>) -> Value {
    json!(v.into_iter().map(|x| exact(*x, 1.0)).collect::<Vec<_>>())
}
fn jf<'a>(v: impl IntoIterator<Item = &'a f64>) -> Value {
    let v: Vec<f64> = v.into_iter().copied().collect();
    if v.iter().any(|x| x.is_nan()) {
        json!([])
    } else {
        jv(v.iter())
    }
}

struct Script<'a> {
    n: usize,
    f: &'a Vec<Value>,
    j: &'a Vec<Value>,
    memo: HashMap<Vec<u64>, Vec<f64>>,
    evals: usize,
    jacs: usize,
    calls: usize,
    log: &'a RefCell<Vec<Value>>,
}
impl<'a> Script<'a> {
    fn tick(&mut self) {
        self.calls += 1;
        if self.calls > 500 {
            panic!("too many calls");
        }
    }
}
impl<'a> VectorFunction<f64> for Script<'a> {
    fn dimension(&self) -> usize {
        self.n
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        self.tick();
        let key: Vec<u64> = x.iter().map(|v| (v + 0.0).to_bits()).collect();
        let n = self.n;
        let (script, evals) = (self.f, &mut self.evals);
        let v = self.memo.entry(key).or_insert_with(|| {
            let s = ivec(&script[(*evals).min(script.len() - 1)]);
            *evals += 1;
            if s.is_empty() {
                // only one entry is not a number, and it need not be the first
                let mut v = vec![1.0; n];
                v[n - 1] = f64::NAN;
                v
            } else {
                s.into_iter().map(|v| v as f64).collect()
            }
        });
        f.copy_from_slice(v);
        self.log.borrow_mut().push(json!({"op": "eval", "x": jv(x.iter()), "f": jf(v.iter())}));
    }
}
impl<'a> DifferentiableVectorFunction<f64> for Script<'a> {
    fn solve_jacobian_system(
        &mut self,
        sol: &mut DVectorViewMut<f64>,
        x: &DVectorView<f64>,
        rhs: &DVectorView<f64>,
    ) -> Result<(), Box<dyn Error>> {
        self.tick();
        let e = ivec(&self.j[self.jacs.min(self.j.len() - 1)]);
        self.jacs += 1;
        self.log.borrow_mut().push(json!({"op": "jac", "x": jv(x.iter()), "rhs": jf(rhs.iter()), "e": e, "ok": !e.is_empty() as i32}));
        if e.is_empty() {
            return Err("scripted Jacobian failure".into());
        }
        for (s, e) in sol.iter_mut().zip(&e) {
            *s = *e as f64 * Q;
        }
        Ok(())
    }
}

fn main() {
    run(|case, out| {
        let mut ev = case.clone();
        for k in ["F", "J"] {
            ev.as_object_mut().unwrap().remove(k);
        }
        ev["op"] = json!("newton");
        ev["new"] = json!(1);
        out.ev(ev);
        let log = RefCell::new(vec![]);
        let x0 = ivec(&case["x"]);
        let n = x0.len();
        let script = Script {
            n,
            f: arr(&case["F"]),
            j: arr(&case["J"]),
            memo: HashMap::new(),
            evals: 0,
            jacs: 0,
            calls: 0,
            log: &log,
        };
        let mut x = DVector::from_vec(x0.into_iter().map(|v| v as f64).collect());
        // contents of the work vectors are irrelevant
        let mut f = DVector::from_element(n, 77.0);
        let mut dx = DVector::from_element(n, -55.0);
        let max = int(&case["max"]);
        let t2 = int(&case["tol2"]);
        // a tolerance whose comparison with an integer norm square is safe from rounding
        let tol = if t2 == 0 { 0.0 } else { (t2 as f64).sqrt() * (1.0 + 1e-9) };
        let settings = NewtonSettings {
            max_iterations: if max >= 0 { Some(max as usize) } else { None },
            tolerance: tol,
        };
        let via = int(&case["via"]);
        let res = guard(|| match (st(&case["ls"]), via) {
            ("none", 0) => newton(script, &mut x, &mut f, &mut dx, settings),
            ("none", _) => newton_line_search(script, &mut x, &mut f, &mut dx, settings, &mut NoLineSearch),
            ("bt", _) => newton_line_search(script, &mut x, &mut f, &mut dx, settings, &mut BacktrackingLineSearch),
            (o, _) => die(o),
        });
        for e in log.borrow().iter() {
            out.ev(e.clone());
        }
        let (kind, iters) = match res {
            Err(m) => {
                out.ev(json!({"op": "panic", "msg": m}));
                return;
            }
            Ok(Ok(i)) => ("ok", i),
            Ok(Err(NewtonError::MaximumIterationsReached(i))) => ("max", i),
            Ok(Err(NewtonError::JacobianError(e))) => (if e.to_string() == "scripted Jacobian failure" { "jacobian" } else { "other" }, 0),
            Ok(Err(NewtonError::LineSearchError(_))) => ("linesearch", 0),
        };
        out.ev(json!({"op": "return", "kind": kind, "iters": iters, "x": jv(x.iter()), "f": jf(f.iter())}));
    });
}
