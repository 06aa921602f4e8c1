//! C26: quadrature rules. Case: {"kind":"select","dom","ss"} | {"kind":"gauss","dom","k"} | {"kind":"lobatto","k"} | {"kind":"canonical","el","what"} | {"kind":"subdiv","dom","s","k"}; all with "t":"f64"|"f32"
use fenris::connectivity::*;
use fenris::element::*;
use fenris::mesh::Mesh;
use fenris::quadrature::subdivide::*;
use fenris::quadrature::*;
use nalgebra::{DefaultAllocator, DimName, OPoint};
use vh::*;

type R = (Vec<f64>, Vec<Vec<f64>>);
fn plain<T: fenris::Real, D: DimName>(q: &impl Quadrature<T, D>) -> R where DefaultAllocator: nalgebra::allocator::Allocator<T, D> {
    (q.weights().iter().map(|w| w.to_subset().unwrap()).collect(), q.points().iter().map(|p| p.coords.iter().map(|x| x.clone().to_subset().unwrap()).collect()).collect())
}
/// the domain's own coordinates
fn coords(dom: &str, x: &[f64]) -> Vec<f64> {
    match dom {
        "tri" | "tet" => x.iter().map(|x| (1.0 + x) / 2.0).collect(),
        "pri" => vec![(1.0 + x[0]) / 2.0, (1.0 + x[1]) / 2.0, x[2]],
        "pyr" => vec![x[0], x[1], (1.0 - x[2]) / 2.0],
        _ => x.to_vec(),
    }
}
fn inside(dom: &str, x: &[f64], eps: f64) -> bool {
    let c = coords(dom, x);
    let cube = |c: &[f64]| c.iter().all(|x| x.abs() <= 1.0 + eps);
    let simplex = |c: &[f64]| c.iter().all(|&p| p >= -eps) && c.iter().sum::<f64>() <= 1.0 + eps;
    match dom {
        "tri" | "tet" => simplex(&c),
        "pri" => simplex(&c[..2]) && cube(&c[2..]),
        "pyr" => c[2] >= -eps && c[2] <= 1.0 + eps && c[0].abs() <= c[2] + eps && c[1].abs() <= c[2] + eps,
        _ => cube(x),
    }
}
/// the exact integral of the absolute monomial (odd powers of signed coordinates: of the next even one)
fn norm(dom: &str, e: &[usize]) -> f64 {
    let m1 = |a: usize| 1.0 / ((a + a % 2) as f64 + 1.0);
    let simplex = |e: &[usize]| { // D! prod(a!) / (sum + D)!
        let d = e.len();
        let (mut x, mut k) = (1.0, 0);
        for &a in e { for i in 1..=a { k += 1; x *= i as f64 / k as f64 } }
        for i in 1..=d { x *= i as f64 / (k + i) as f64 }
        x
    };
    let vol = match dom { "seg" | "tri" => 2.0, "quad" | "pri" => 4.0, "tet" => 4.0 / 3.0, "hex" => 8.0, "pyr" => 8.0 / 3.0, _ => die("domain") };
    vol * match dom {
        "tri" | "tet" => simplex(e),
        "pri" => simplex(&e[..2]) * m1(e[2]),
        "pyr" => 3.0 * m1(e[0]) * m1(e[1]) / ((e[0] + e[1] + e[2]) as f64 + 3.0),
        _ => e.iter().map(|&a| m1(a)).product(),
    }
}
fn exps(d: usize, kind: &str, s: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..d {
        out = out.iter().flat_map(|e: &Vec<usize>| {
            let used: usize = e.iter().sum();
            (0..=(if kind == "total" { s - used } else { s })).map(move |a| { let mut e = e.clone(); e.push(a); e })
        }).collect();
    }
    out
}
fn dim(dom: &str) -> usize { match dom { "seg" => 1, "tri" | "quad" => 2, _ => 3 } }
fn moments(dom: &str, kind: &str, s: usize, w: &[f64], c: &[Vec<f64>], scale: f64) -> Value {
    json!(exps(dim(dom), kind, s).iter().map(|e| {
        let m: f64 = w.iter().zip(c).map(|(w, c)| w * c.iter().zip(e).map(|(x, &a)| x.powi(a as i32)).product::<f64>()).sum();
        let mut r: Vec<i64> = e.iter().map(|&a| a as i64).collect();
        let x = m / (norm(dom, e) * scale);
        r.push(grid(x, 1e8));
        r.push(((x - x.round()) * 1e14).clamp(-1e9, 1e9).round() as i64);
        r
    }).collect::<Vec<_>>())
}
fn describe<T: fenris::Real, D: DimName>(dom: &str, kind: &str, s: usize, q: &impl Quadrature<T, D>) -> Value where DefaultAllocator: nalgebra::allocator::Allocator<T, D> {
    let (w, p) = plain(q);
    let eps = if T::default_epsilon().to_subset().unwrap() > 1e-10 { 1e-6 } else { 1e-12 };
    let c: Vec<Vec<f64>> = p.iter().map(|p| coords(dom, p)).collect();
    // the provided method integrates with the same points and weights
    let f = |x: &[f64]| 1.0 + x.iter().enumerate().map(|(i, x)| (i as f64 + 1.0) * x * x * x).sum::<f64>();
    let by: T = q.integrate(|x: &OPoint<T, D>| T::from_f64(f(&x.coords.iter().map(|x| x.clone().to_subset().unwrap()).collect::<Vec<f64>>())).unwrap());
    let direct: f64 = w.iter().zip(&p).map(|(w, p)| w * f(p)).sum();
    let integ = (by.to_subset().unwrap() - direct).abs() <= 1e3 * eps;
    let it = q.iter().map(|(w, p, _)| (w.clone(), p.clone())).collect::<Vec<_>>();
    let same = it.len() == w.len() && it.iter().zip(q.weights().iter().zip(q.points())).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1) && q.data().len() == w.len();
    json!({"n": w.len(), "np": p.len(), "inside": p.iter().all(|p| p.len() == dim(dom) && inside(dom, p, eps)) as i64, "pos": w.iter().all(|&w| w > 0.0) as i64,
        "integ": (integ && same) as i64, "m": moments(dom, kind, s, &w, &c, 1.0)})
}
fn ev(mut d: Value, more: Value) -> Value {
    for (k, v) in more.as_object().unwrap() { d[k] = v.clone() }
    d
}
fn none() -> Value { json!({"n": 0, "np": 0, "inside": 1, "pos": 1, "integ": 1, "m": []}) }

fn go<T: fenris::Real>(c: &Value, out: &mut Out) {
    let t = st(&c["t"]);
    out.ev(json!({"op": "session", "new": 1}));
    match st(&c["kind"]) {
        "select" => {
            let dom = st(&c["dom"]);
            for s in uvec(&c["ss"]) {
                macro_rules! sel { ($f:ident) => { match guard(|| total_order::$f::<T>(s).map(|q| describe(dom, "total", s, &q))) {
                    Ok(Ok(d)) => ev(d, json!({"res": "ok"})), Ok(Err(_)) => ev(none(), json!({"res": "none"})), Err(_) => ev(none(), json!({"res": "panic"})) } } }
                let d = match dom { "tri" => sel!(triangle), "quad" => sel!(quadrilateral), "tet" => sel!(tetrahedron), "hex" => sel!(hexahedron), "pri" => sel!(prism), "pyr" => sel!(pyramid), _ => die("domain") };
                out.ev(ev(d, json!({"op": "select", "dom": dom, "s": s, "t": t})));
            }
        }
        "gauss" => {
            let (dom, k) = (st(&c["dom"]), us(&c["k"]));
            let s = (2 * k).max(1) - 1;
            let r = guard(|| match dom {
                "seg" => describe(dom, "box", s, &univariate::gauss::<T>(k)),
                "quad" => describe(dom, "box", s, &tensor::quadrilateral_gauss::<T>(k)),
                _ => describe(dom, "box", s, &tensor::hexahedron_gauss::<T>(k)),
            });
            let d = match r { Ok(d) => ev(d, json!({"res": "ok"})), Err(_) => ev(none(), json!({"res": "panic"})) };
            out.ev(ev(d, json!({"op": "gauss", "dom": dom, "k": k, "s": s, "t": t})));
        }
        "lobatto" => {
            let k = us(&c["k"]);
            let s = (2 * k).max(3) - 3;
            let d = match guard(|| univariate::try_gauss_lobatto::<T>(k)) {
                Ok(Some(q)) => {
                    let (lo, hi) = q.1.iter().fold((f64::MAX, f64::MIN), |(l, h), p| { let x = p.x.clone().to_subset().unwrap(); (x.min(l), x.max(h)) });
                    ev(describe("seg", "box", s, &q), json!({"res": "ok", "ends": (lo == -1.0 && hi == 1.0) as i64}))
                }
                Ok(None) => ev(none(), json!({"res": "none", "ends": 1})),
                Err(_) => ev(none(), json!({"res": "panic", "ends": 1})),
            };
            out.ev(ev(d, json!({"op": "lobatto", "k": k, "s": s, "t": t})));
        }
        "canonical" => {
            let (el, what, dom, s) = (st(&c["el"]), st(&c["what"]), st(&c["dom"]), us(&c["s"]));
            let kind = if dom == "tri" || dom == "tet" { "total" } else { "box" };
            macro_rules! can { ($conn:ident, $e:expr, $d:ty) => {{
                let m: Mesh<T, $d, $conn> = Mesh::from_vertices_and_connectivity(vec![], vec![]);
                guard(|| {
                    let (q, u) = if what == "mass" { ($e.canonical_mass_quadrature(), m.canonical_mass_quadrature()) } else { ($e.canonical_stiffness_quadrature(), m.canonical_stiffness_quadrature()) };
                    // the table of the mesh hands out the same rule to every element
                    let same = [0, 3].iter().all(|&e| {
                        use fenris::assembly::local::QuadratureTable;
                        let n = u.element_quadrature_size(e);
                        let (mut w, mut p) = (vec![T::zero(); n], vec![OPoint::<T, $d>::origin(); n]);
                        u.populate_element_quadrature(e, &mut p, &mut w);
                        w == q.0 && p == q.1
                    });
                    ev(describe(dom, kind, s, &q), json!({"res": "ok", "same": same as i64}))
                })
            }} }
            use nalgebra::{U2, U3};
            let r = match el {
                "tri3" => can!(Tri3d2Connectivity, Tri3d2Element::<T>::reference(), U2),
                "tri6" => can!(Tri6d2Connectivity, Tri6d2Element::<T>::reference(), U2),
                "quad4" => can!(Quad4d2Connectivity, Quad4d2Element::<T>::reference(), U2),
                "quad9" => can!(Quad9d2Connectivity, Quad9d2Element::<T>::reference(), U2),
                "tet4" => can!(Tet4Connectivity, Tet4Element::<T>::reference(), U3),
                "tet10" => can!(Tet10Connectivity, Tet10Element::<T>::reference(), U3),
                "tet20" => can!(Tet20Connectivity, Tet20Element::<T>::reference(), U3),
                "hex8" => can!(Hex8Connectivity, Hex8Element::<T>::reference(), U3),
                "hex20" => can!(Hex20Connectivity, Hex20Element::<T>::reference(), U3),
                "hex27" => can!(Hex27Connectivity, Hex27Element::<T>::reference(), U3),
                o => die(&format!("element {o}")),
            };
            let d = r.unwrap_or_else(|_| ev(none(), json!({"res": "panic", "same": 0})));
            out.ev(ev(d, json!({"op": "canonical", "el": el, "what": what, "dom": dom, "s": s, "t": t})));
        }
        "subdiv" => {
            let (dom, s, k) = (st(&c["dom"]), us(&c["s"]), us(&c["k"]));
            let r = guard(|| {
                let kf = k as f64;
                if dom == "seg" {
                    let b = univariate::gauss::<T>(s / 2 + 1);
                    let q = subdivide_univariate(&b, k);
                    let (w, p) = plain(&q);
                    let at: Vec<usize> = p.iter().map(|p| (((p[0] + 1.0) * kf / 2.0).floor().max(0.0) as usize).min(k.max(1) - 1)).collect();
                    let pieces: Vec<Value> = (0..k).map(|i| {
                        let ix: Vec<usize> = (0..p.len()).filter(|&j| at[j] == i).collect();
                        let ws: Vec<f64> = ix.iter().map(|&j| w[j]).collect();
                        let cs: Vec<Vec<f64>> = ix.iter().map(|&j| vec![(p[j][0] + 1.0) * kf - (2 * i) as f64 - 1.0]).collect();
                        json!({"n": ix.len(), "m": moments(dom, "total", s, &ws, &cs, 1.0 / kf)})
                    }).collect();
                    (describe(dom, "total", s, &q), b.0.len(), pieces)
                } else {
                    let b = total_order::triangle::<T>(s).unwrap();
                    let q = subdivide_triangle(&b, k);
                    let (w, p) = plain(&q);
                    let loc = |x: f64| { let y = (x + 1.0) * kf / 2.0; let i = y.floor().max(0.0).min(kf - 1.0); (i as usize, y - i) };
                    let mut pieces = vec![];
                    for i in 0..k { for j in 0..k { for up in [false, true] {
                        if i + j + (up as usize) >= k { continue }
                        let mut ws = vec![]; let mut cs = vec![];
                        for (w, p) in w.iter().zip(&p) {
                            let ((a, u), (b, v)) = (loc(p[0]), loc(p[1]));
                            if (a, b) == (i, j) && (u + v > 1.0) == up { ws.push(*w); cs.push(if up { vec![1.0 - u, 1.0 - v] } else { vec![u, v] }) }
                        }
                        pieces.push(json!({"n": ws.len(), "m": moments(dom, "total", s, &ws, &cs, 1.0 / (kf * kf))}));
                    } } }
                    (describe(dom, "total", s, &q), b.0.len(), pieces)
                }
            });
            let d = match r { Ok((d, b, pc)) => ev(d, json!({"res": "ok", "base": b, "pieces": pc})), Err(_) => ev(none(), json!({"res": "panic", "base": 0, "pieces": []})) };
            out.ev(ev(d, json!({"op": "subdivided", "dom": dom, "s": s, "k": k, "t": t})));
        }
        o => die(&format!("kind {o}")),
    }
}
fn main() {
    run(|c, out| if st(&c["t"]) == "f32" { go::<f32>(c, out) } else { go::<f64>(c, out) })
}
