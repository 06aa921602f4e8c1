//! C29: material models. Case: {"d","n","M","mu","lam","ops":[...]}
use fenris::allocators::DimAllocator;
use fenris::assembly::local::{Density, SourceFunction};
use fenris::assembly::operators::*;
use fenris::SmallDim;
use fenris_solid::materials::*;
use fenris_solid::*;
use nalgebra::{DMatrix, DVector, DefaultAllocator, DimName, OMatrix, OPoint, OVector, U1, U2, U3};
use vh::*;

/// A user's own material that only has the required methods: the quadratic energy in the Green strain.
struct Custom;
impl<D: DimName> HyperelasticMaterial<f64, D> for Custom where DefaultAllocator: DimAllocator<f64, D> {
    type Parameters = LameParameters<f64>;
    fn compute_energy_density(&self, f: &OMatrix<f64, D, D>, p: &Self::Parameters) -> f64 {
        let e = (f.transpose() * f - OMatrix::<f64, D, D>::identity()) * 0.5;
        p.mu * e.dot(&e) + 0.5 * p.lambda * e.trace() * e.trace()
    }
    fn compute_stress_tensor(&self, f: &OMatrix<f64, D, D>, p: &Self::Parameters) -> OMatrix<f64, D, D> {
        let e = (f.transpose() * f - OMatrix::<f64, D, D>::identity()) * 0.5;
        let tr = e.trace();
        f * (e * (2.0 * p.mu) + OMatrix::<f64, D, D>::identity() * (p.lambda * tr))
    }
    fn compute_stress_contraction(&self, f: &OMatrix<f64, D, D>, a: &OVector<f64, D>, b: &OVector<f64, D>, p: &Self::Parameters) -> OMatrix<f64, D, D> {
        let e = (f.transpose() * f - OMatrix::<f64, D, D>::identity()) * 0.5;
        let (fa, fb) = (f * a, f * b);
        let s = 2.0 * p.mu * a.dot(&(&e * b)) + p.lambda * e.trace() * a.dot(b);
        OMatrix::<f64, D, D>::identity() * s + (&fb * fa.transpose()) * p.mu + (&fa * fb.transpose()) * p.lambda + f * f.transpose() * (p.mu * a.dot(b))
    }
}

fn mat<D: SmallDim>(v: &Value, n: f64) -> OMatrix<f64, D, D> where DefaultAllocator: DimAllocator<f64, D> {
    let m = ivecs(v);
    OMatrix::<f64, D, D>::from_fn(|i, j| m[i][j] as f64 / n)
}
fn vect<D: SmallDim>(v: &Value) -> OVector<f64, D> where DefaultAllocator: DimAllocator<f64, D> {
    let m = ivec(v);
    OVector::<f64, D>::from_fn(|i, _| m[i] as f64)
}
fn rows<D: SmallDim>(m: &OMatrix<f64, D, D>, q: impl Fn(f64) -> i64) -> Value where DefaultAllocator: DimAllocator<f64, D> {
    json!((0..D::dim()).map(|i| (0..D::dim()).map(|j| q(m[(i, j)])).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn call<D: SmallDim, Mt>(m: &Mt, kind: &str, det: f64, n: f64, f: &OMatrix<f64, D, D>, p: &LameParameters<f64>, o: &Value) -> Value
where
    Mt: HyperelasticMaterial<f64, D, Parameters = LameParameters<f64>>,
    DefaultAllocator: DimAllocator<f64, D>,
{
    let op = MaterialEllipticOperator::new(m);
    let du = u_grad_from_F(f);
    let via = st(&o["via"]);
    let nh = kind == "nh";
    let u = 10000.0;
    let e = |x: f64| if nh { grid(x, u) } else { exact(x, 8.0 * n.powi(4)) };
    let s = |x: f64| if nh { grid(x, u * n * det) } else { exact(x, 2.0 * n.powi(3)) };
    let c = |x: f64| if nh { grid(x, u * det * det) } else { exact(x, 2.0 * n.powi(2)) };
    match st(&o["op"]) {
        "energy" | "barrier" => {
            let x = match via {
                "F" => m.compute_energy_density(f, p),
                "du" => m.compute_energy_density_du(&du, p),
                _ => op.compute_energy(&du, p),
            };
            if st(&o["op"]) == "barrier" { json!(if x == f64::INFINITY { "inf" } else { "no" }) } else { json!(e(x)) }
        }
        "stress" => {
            let x = match via {
                "F" => m.compute_stress_tensor(f, p),
                "du" => m.compute_stress_tensor_du(&du, p),
                "op" => op.compute_elliptic_operator(&du, p).transpose(),
                _ => op.compute_elliptic_operator_transpose(&du, p),
            };
            rows(&x, s)
        }
        "contract" => {
            let (a, b) = (vect(&o["a"]), vect(&o["b"]));
            let x = match via {
                "F" => m.compute_stress_contraction(f, &a, &b, p),
                "du" => m.compute_stress_contraction_du(&du, &a, &b, p),
                _ => op.contract(&du, &a, &b, p),
            };
            rows(&x, c)
        }
        "batch" => {
            let flat = |v: &Value| DVector::from_vec(ivecs(v).concat().into_iter().map(|x| x as f64).collect::<Vec<f64>>());
            let (a, b) = (flat(&o["as"]), flat(&o["bs"]));
            let base = ivecs(&o["out"]);
            let (nr, nc) = (base.len(), base.first().map_or(0, |r| r.len()));
            let start = DMatrix::from_fn(nr, nc, |i, j| base[i][j] as f64);
            let mut out = start.clone();
            let alpha = int(&o["alpha"]) as f64;
            match via {
                "F" => m.accumulate_stress_contractions_into((&mut out).into(), alpha, f, (&a).into(), (&b).into(), p),
                "du" => m.accumulate_stress_contractions_du_into((&mut out).into(), alpha, &du, (&a).into(), (&b).into(), p),
                _ => op.accumulate_contractions_into((&mut out).into(), alpha, &du, (&a).into(), (&b).into(), p),
            }
            // the contract leaves the lower triangle open
            json!((0..nr).map(|i| (0..nc).map(|j| if i <= j { c(out[(i, j)] - start[(i, j)]) } else { 0 }).collect::<Vec<_>>()).collect::<Vec<_>>())
        }
        "sym" => json!(if matches!(EllipticContraction::<f64, D>::symmetry(&op), fenris::Symmetry::Symmetric) { "yes" } else { "no" }),
        x => die(x),
    }
}
fn session<D: PhysicalDim>(case: &Value, out: &mut Out)
where
    DefaultAllocator: DimAllocator<f64, D>,
    LinearElasticMaterial: HyperelasticMaterial<f64, D, Parameters = LameParameters<f64>>,
{
    let n = int(&case["n"]) as f64;
    let p = LameParameters { mu: int(&case["mu"]) as f64, lambda: int(&case["lam"]) as f64 };
    let f: OMatrix<f64, D, D> = mat(&case["M"], n);
    let mi = ivecs(&case["M"]);
    let det = match D::dim() {
        1 => mi[0][0],
        2 => mi[0][0] * mi[1][1] - mi[0][1] * mi[1][0],
        _ => (0..3).map(|j| mi[0][j] * (mi[1][(j + 1) % 3] * mi[2][(j + 2) % 3] - mi[1][(j + 2) % 3] * mi[2][(j + 1) % 3])).sum(),
    } as f64;
    out.ev(json!({"op":"F","new":1,"M":case["M"],"n":case["n"],"mu":case["mu"],"lam":case["lam"]}));
    for o in arr(&case["ops"]) {
        let mut e = o.clone();
        let r = guard(|| match st(&o["op"]) {
            "grad" => {
                let g: OMatrix<f64, D, D> = mat(&o["G"], n);
                let x = deformation_gradient(&g);
                json!([rows(&x, |x| exact(x, n)), rows(&u_grad_from_F(&f), |x| exact(x, n))])
            }
            "logdet" => match log_det_F(&(&f - OMatrix::<f64, D, D>::identity())) { Some(x) => json!([grid(x, 10000.0)]), None => json!([]) },
            "logsmall" => {
                let t = 2f64.powi(-(int(&o["exp"]) as i32));
                match log_det_F(&(mat::<D>(&o["H"], 1.0) * t)) { Some(x) => json!([grid(x, 1e6 / t)]), None => json!([]) }
            }
            "gravity" => {
                let g = GravitySource::from_acceleration(vect::<D>(&o["g"]));
                let x = g.evaluate(&OPoint::<f64, D>::from(vect::<D>(&o["x"])), &Density(int(&o["rho"]) as f64 / 4.0));
                json!((0..D::dim()).map(|i| exact(x[i], 4.0)).collect::<Vec<_>>())
            }
            "lame" => {
                let y = YoungPoisson { young: int(&o["young"]) as f64, poisson: int(&o["pn"]) as f64 / int(&o["pd"]) as f64 };
                let l = LameParameters::from(y);
                json!([grid(l.mu, 1e5), grid(l.lambda, 1e5)])
            }
            "default" => { let l = LameParameters::<f64>::default(); json!([exact(l.mu, 1.0), exact(l.lambda, 1.0)]) }
            _ => match st(&o["kind"]) {
                "le" => call(&LinearElasticMaterial, "le", det, n, &f, &p, o),
                "stvk" => call(&StVKMaterial, "stvk", det, n, &f, &p, o),
                "nh" => call(&NeoHookeanMaterial, "nh", det, n, &f, &p, o),
                _ => call(&Custom, "custom", det, n, &f, &p, o),
            },
        });
        match r {
            Ok(v) => { e["ok"] = json!(1); e["r"] = v }
            Err(_) => { e["ok"] = json!(0) }
        }
        out.ev(e);
    }
}
fn main() {
    run(|case, out| match ivecs(&case["M"]).len() {
        1 => session::<U1>(case, out),
        2 => session::<U2>(case, out),
        _ => session::<U3>(case, out),
    });
}
