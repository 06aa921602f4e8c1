//! C27: assembled operators. Case: {"el","V","C" (corners),"nodes" (over 24),"conn","m","d","ops":[...]}
use fenris::allocators::{BiDimAllocator, TriDimAllocator};
use fenris::assembly::global::{assemble_scalar, CsrAssembler, VectorAssembler};
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::connectivity::*;
use fenris::error::*;
use fenris::integrate::dependency::*;
use fenris::integrate::*;
use fenris::mesh::Mesh;
use fenris_nested_vec::NestedVec;
use fenris::quadrature::*;
use fenris::space::*;
use fenris::{SmallDim, Symmetry};
use nalgebra::allocator::Allocator;
use nalgebra::{DVector, DVectorView, DefaultAllocator, OMatrix, OPoint, OVector, Vector1, U1, U2, U3};
use nalgebra_sparse::CsrMatrix;
use std::marker::PhantomData;
use vh::*;

const P: f64 = 46337.0;
type Poly = Vec<(f64, Vec<i32>)>;
fn poly(v: &Value) -> Poly { ivecs(v).into_iter().map(|t| (t[0] as f64, t[1..].iter().map(|&e| e as i32).collect())).collect() }
fn polys(v: &Value) -> Vec<Poly> { arr(v).iter().map(poly).collect() }
fn ev(p: &Poly, x: &[f64]) -> f64 { p.iter().map(|(c, e)| c * e.iter().zip(x).map(|(&e, x)| x.powi(e)).product::<f64>()).sum() }
fn evd(p: &Poly, k: usize, x: &[f64]) -> f64 {
    p.iter().map(|(c, e)| if e[k] == 0 { 0.0 } else { c * e[k] as f64 * e.iter().zip(x).enumerate().map(|(i, (&e, x))| x.powi(if i == k { e - 1 } else { e })).product::<f64>() }).sum()
}
/// residue of a number that is an integer when multiplied by `f`
fn res(x: f64, f: f64) -> i64 {
    let y = x * f;
    if std::env::var("VH_DEV").is_ok() { eprintln!("dev {:e} {:e}", (y - y.round()).abs(), y); }
    if y.is_finite() && y.abs() < 1e14 && (y - y.round()).abs() <= 0.2 { y.round().rem_euclid(P) as i64 } else { -1 }
}
fn fss(v: &Value) -> Vec<Vec<f64>> { ivecs(v).into_iter().map(|r| r.into_iter().map(|x| x as f64).collect()).collect() }

#[derive(Clone, Copy, Default, Debug)]
struct K(f64);
/// g = k A G N
struct Lin<S> { a: Vec<Vec<f64>>, n: Vec<Vec<f64>>, sym: bool, s: PhantomData<S> }
impl<S: SmallDim, D> Operator<f64, D> for Lin<S> { type SolutionDim = S; type Parameters = K; }
impl<S: SmallDim> Lin<S> {
    fn g<D: SmallDim>(&self, g: &OMatrix<f64, D, S>, k: f64) -> OMatrix<f64, D, S> where DefaultAllocator: BiDimAllocator<f64, D, S> {
        OMatrix::<f64, D, S>::from_fn(|r, c| { let mut t = 0.0; for p in 0..D::dim() { for q in 0..S::dim() { t += self.a[r][p] * g[(p, q)] * self.n[q][c] } } k * t })
    }
}
impl<S: SmallDim, D: SmallDim> EllipticEnergy<f64, D> for Lin<S> where DefaultAllocator: BiDimAllocator<f64, D, S> {
    fn compute_energy(&self, g: &OMatrix<f64, D, S>, k: &K) -> f64 { 0.5 * g.dot(&self.g(g, k.0)) }
}
impl<S: SmallDim, D: SmallDim> EllipticOperator<f64, D> for Lin<S> where DefaultAllocator: BiDimAllocator<f64, D, S> {
    fn compute_elliptic_operator(&self, g: &OMatrix<f64, D, S>, k: &K) -> OMatrix<f64, D, S> { self.g(g, k.0) }
}
impl<S: SmallDim, D: SmallDim> EllipticContraction<f64, D> for Lin<S> where DefaultAllocator: BiDimAllocator<f64, D, S> {
    fn contract(&self, _: &OMatrix<f64, D, S>, a: &OVector<f64, D>, b: &OVector<f64, D>, k: &K) -> OMatrix<f64, S, S> {
        let mut t = 0.0;
        for i in 0..D::dim() { for j in 0..D::dim() { t += a[i] * self.a[i][j] * b[j] } }
        OMatrix::<f64, S, S>::from_fn(|i, j| k.0 * t * self.n[j][i])
    }
    fn symmetry(&self) -> Symmetry { if self.sym { Symmetry::Symmetric } else { Symmetry::NonSymmetric } }
}
/// |G|^4 / 4
struct Quartic;
impl<D> Operator<f64, D> for Quartic { type SolutionDim = U1; type Parameters = K; }
impl<D: SmallDim> EllipticEnergy<f64, D> for Quartic where DefaultAllocator: BiDimAllocator<f64, D, U1> {
    fn compute_energy(&self, g: &OMatrix<f64, D, U1>, k: &K) -> f64 { 0.25 * k.0 * g.dot(g).powi(2) }
}
impl<D: SmallDim> EllipticOperator<f64, D> for Quartic where DefaultAllocator: BiDimAllocator<f64, D, U1> {
    fn compute_elliptic_operator(&self, g: &OMatrix<f64, D, U1>, k: &K) -> OMatrix<f64, D, U1> { g * (k.0 * g.dot(g)) }
}
impl<D: SmallDim> EllipticContraction<f64, D> for Quartic where DefaultAllocator: BiDimAllocator<f64, D, U1> {
    fn contract(&self, g: &OMatrix<f64, D, U1>, a: &OVector<f64, D>, b: &OVector<f64, D>, k: &K) -> OMatrix<f64, U1, U1> {
        OMatrix::<f64, U1, U1>::new(k.0 * (g.dot(g) * a.dot(b) + 2.0 * g.dot(a) * g.dot(b)))
    }
    fn symmetry(&self) -> Symmetry { Symmetry::Symmetric }
}
struct Src<S> { f: Vec<Poly>, s: PhantomData<S> }
impl<S: SmallDim, D> Operator<f64, D> for Src<S> { type SolutionDim = S; type Parameters = K; }
impl<S: SmallDim, D: SmallDim> SourceFunction<f64, D> for Src<S> where DefaultAllocator: BiDimAllocator<f64, D, S> {
    fn evaluate(&self, x: &OPoint<f64, D>, k: &K) -> OVector<f64, S> { OVector::<f64, S>::from_fn(|i, _| k.0 * ev(&self.f[i], x.coords.as_slice())) }
}

type Uni<D, X = ()> = UniformQuadratureTable<f64, D, X>;
struct Rules<D: SmallDim> where DefaultAllocator: Allocator<f64, D> { mass: Uni<D>, stiff: Uni<D>, table: Uni<D>, strong: QuadraturePair<f64, D> }
struct State<D: SmallDim, C> where DefaultAllocator: Allocator<f64, D> {
    mesh: Mesh<f64, D, C>,
    rules: Rules<D>,
    cell: Vec<f64>,
    kap: Poly,
    uniform: bool,
    scale: f64,
}
impl<D: SmallDim, C> State<D, C>
where
    C: Clone,
    Mesh<f64, D, C>: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
    fn rule(&self, which: &str) -> &Uni<D> { match which { "mass" => &self.rules.mass, "stiff" => &self.rules.stiff, _ => &self.rules.table } }
    /// table with the data (coefficient of the cell times the polynomial) at every point
    fn gen<X: Clone>(&self, which: &str, mk: impl Fn(f64) -> X) -> GeneralQuadratureTable<f64, D, X> {
        let t = self.rule(which);
        let n = t.element_quadrature_size(0);
        let (mut w, mut p) = (vec![0.0; n], vec![OPoint::<f64, D>::origin(); n]);
        t.populate_element_quadrature(0, &mut p, &mut w);
        let (mut ps, mut ws, mut ds) = (NestedVec::new(), NestedVec::new(), NestedVec::new());
        for c in 0..self.mesh.num_elements() {
            ps.push(&p);
            ws.push(&w);
            let d: Vec<X> = p.iter().map(|xi| mk(self.cell[c] * ev(&self.kap, self.mesh.map_element_reference_coords(c, xi).coords.as_slice()))).collect();
            ds.push(&d);
        }
        GeneralQuadratureTable::from_points_weights_and_data(ps, ws, ds)
    }
    fn uni<X: Clone>(&self, which: &str, mk: impl Fn(f64) -> X) -> UniformQuadratureTable<f64, D, X> {
        self.rule(which).clone().with_uniform_data(mk(self.cell[0]))
    }
    fn nodal(&self, u: &[Poly]) -> DVector<f64> {
        DVector::from_vec(self.mesh.vertices().iter().flat_map(|x| u.iter().map(|p| ev(p, x.coords.as_slice())).collect::<Vec<_>>()).collect())
    }
}
fn symm(k: &CsrMatrix<f64>) -> i64 {
    let m = k.values().iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let get = |i, j| k.get_entry(i, j).map(|e| e.into_value()).unwrap_or(0.0);
    k.triplet_iter().all(|(i, j, &x)| (x - get(j, i)).abs() <= 1e-12 * m) as i64
}
fn form(k: &CsrMatrix<f64>, v: &DVector<f64>, w: &DVector<f64>) -> f64 { v.dot(&(k * w)) }

macro_rules! variations {
    ($st:expr, $e:expr, $u:expr, $op:expr, $table:expr, $what:expr) => {{
        let u = $st.nodal($u);
        let table = $table;
        let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&$st.mesh).with_operator(&$op).with_quadrature_table(&table).with_u(&u).build();
        match $what {
            "hess" => CsrAssembler::default().assemble(&a).map(|k| (res(form(&k, &$st.nodal(&polys(&$e["v"])), &$st.nodal(&polys(&$e["w"]))), $st.scale), symm(&k))).ok(),
            "grad" => VectorAssembler::<f64>::default().assemble_vector(&a).map(|b| (res(b.dot(&$st.nodal(&polys(&$e["v"]))), $st.scale), 1)).ok(),
            _ => assemble_scalar(&a).map(|x| (res(4.0 * x, $st.scale), 1)).ok(),
        }
    }};
}

fn oper<S: SmallDim, D: SmallDim, C>(st: &State<D, C>, e: &Value, u: &[Poly]) -> Option<(i64, i64)>
where
    C: Clone,
    Mesh<f64, D, C>: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D> + TriDimAllocator<f64, U1, D, D>,
{
    let (o, rule) = (&e["oper"], vh::st(&e["rule"]));
    match vh::st(&o["kind"]) {
        "laplace" => variations!(st, e, u, LaplaceOperator, st.rule(rule).clone(), vh::st(&e["op"])),
        "linear" => {
            let op = Lin::<S> { a: fss(&o["A"]), n: fss(&o["N"]), sym: int(&o["sym"]) == 1, s: PhantomData };
            if st.uniform { variations!(st, e, u, op, st.uni(rule, K), vh::st(&e["op"])) } else { variations!(st, e, u, op, st.gen(rule, K), vh::st(&e["op"])) }
        }
        _ => variations!(st, e, u, Quartic, st.gen(rule, K), vh::st(&e["op"])),
    }
}
fn mass<D: SmallDim, C>(st: &State<D, C>, e: &Value, u: &[Poly]) -> Option<(i64, i64)>
where
    C: Clone,
    Mesh<f64, D, C>: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
    let rule = vh::st(&e["rule"]);
    let k = if st.uniform {
        let t = st.uni(rule, Density);
        CsrAssembler::default().assemble(&ElementMassAssembler::with_solution_dim(u.len()).with_space(&st.mesh).with_quadrature_table(&t))
    } else {
        let t = st.gen(rule, Density);
        CsrAssembler::default().assemble(&ElementMassAssembler::with_solution_dim(u.len()).with_space(&st.mesh).with_quadrature_table(&t))
    };
    k.ok().map(|k| (res(form(&k, &st.nodal(&polys(&e["v"])), &st.nodal(u)), st.scale), symm(&k)))
}
fn source<S: SmallDim, D: SmallDim, C>(st: &State<D, C>, e: &Value) -> Option<(i64, i64)>
where
    C: Clone,
    Mesh<f64, D, C>: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D>,
{
    let src = Src::<S> { f: polys(&e["f"]), s: PhantomData };
    let t = st.gen(vh::st(&e["rule"]), K);
    let a = ElementSourceAssemblerBuilder::new().with_finite_element_space(&st.mesh).with_source(&src).with_quadrature_table(&t).build::<f64>();
    VectorAssembler::<f64>::default().assemble_vector(&a).ok().map(|b| (res(b.dot(&st.nodal(&polys(&e["v"]))), st.scale), 1))
}
fn value<F, S, G, Sp>(sp: &Sp, q: &QuadraturePair<f64, Sp::ReferenceDim>, u: &DVector<f64>, f: F, _: PhantomData<(S, G)>, scale: f64) -> Option<(i64, i64)>
where
    Sp: FiniteElementSpace<f64, GeometryDim = G>,
    S: SmallDim,
    G: SmallDim,
    F: UFunction<f64, G, S, OutputDim = U1>,
    DefaultAllocator: TriDimAllocator<f64, S, Sp::GeometryDim, Sp::ReferenceDim> + TriDimAllocator<f64, Sp::GeometryDim, Sp::ReferenceDim, S>,
{
    let t = UniformQuadratureTable::from_quadrature(q.clone());
    let a = ElementIntegralAssemblerBuilder::<f64, F, S, Sp, _>::new().with_space(sp).with_quadrature_table(&t).with_interpolation_weights(u).with_integrand(f).build_integrator();
    assemble_scalar(&a).ok().map(|x| (res(x, scale), 1))
}
fn integ<S: SmallDim, G: SmallDim, Sp>(sp: &Sp, q: &QuadraturePair<f64, Sp::ReferenceDim>, u: &DVector<f64>, e: &Value, scale: f64) -> Option<(i64, i64)>
where
    Sp: FiniteElementSpace<f64, GeometryDim = G>,
    DefaultAllocator: TriDimAllocator<f64, S, Sp::GeometryDim, Sp::ReferenceDim> + TriDimAllocator<f64, Sp::GeometryDim, Sp::ReferenceDim, S>,
{
    let f = poly(&e["q"]);
    let (i, j) = (us(&e["i"]) - 1, us(&e["j"]) - 1);
    match st(&e["dep"]) {
        "x" => value::<_, S, G, _>(sp, q, u, FnFunction::new(|x: &OPoint<f64, G>| Vector1::new(ev(&f, x.coords.as_slice()))).with_dependencies::<NoDeps<S>>(), PhantomData, scale),
        _ => value::<_, S, G, _>(sp, q, u, FnFunction::new(|x: &OPoint<f64, G>, u: &OVector<f64, S>| Vector1::new(ev(&f, x.coords.as_slice()) + u[i] * u[j])), PhantomData, scale),
    }
}
fn volume<S: SmallDim, D: SmallDim, C>(st: &State<D, C>, u: &DVector<f64>, e: &Value) -> Option<(i64, i64)>
where
    C: Clone,
    Mesh<f64, D, C>: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D>,
{
    let f = poly(&e["q"]);
    let (i, j, k, l) = (us(&e["i"]) - 1, us(&e["j"]) - 1, us(&e["k"]) - 1, us(&e["l"]) - 1);
    let t = st.rules.table.clone();
    macro_rules! go { ($f:expr) => { {
        let a = ElementIntegralAssemblerBuilder::<f64, _, S, _, _>::new().with_space(&st.mesh).with_quadrature_table(&t).with_interpolation_weights(u).with_integrand($f).build_volume_integrator();
        let r = assemble_scalar(&a);
        r.ok().map(|x| (res(x, st.scale), 1))
    } } }
    match vh::st(&e["dep"]) {
        "vu" => go!(FnFunction::new(|x: &OPoint<f64, D>, u: &OVector<f64, S>| Vector1::new(ev(&f, x.coords.as_slice()) + u[i] * u[j])).with_dependencies::<DependsOnU>()),
        "vg" => go!(FnFunction::new(|x: &OPoint<f64, D>, g: &OMatrix<f64, D, S>| Vector1::new(ev(&f, x.coords.as_slice()) + g[(k, i)] * g[(l, j)])).with_dependencies::<DependsOnGrad>()),
        _ => go!(FnFunction::new(|x: &OPoint<f64, D>, u: &OVector<f64, S>, g: &OMatrix<f64, D, S>| Vector1::new(ev(&f, x.coords.as_slice()) + u[i] * g[(k, j)]))),
    }
}
/// error norms: over the space, its square root, and the sums of the norms over the elements
fn errors<S: SmallDim, D: SmallDim, C>(st: &State<D, C>, u: &DVector<f64>, e: &Value) -> Option<(i64, i64)>
where
    C: Clone,
    Mesh<f64, D, C>: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D>,
{
    let w = polys(&e["w"]);
    let q = &st.rules.strong;
    let t = st.rules.table.clone();
    let val = |x: &OPoint<f64, D>| OVector::<f64, S>::from_fn(|i, _| ev(&w[i], x.coords.as_slice()));
    let grad = |x: &OPoint<f64, D>| OMatrix::<f64, D, S>::from_fn(|k, i| evd(&w[i], k, x.coords.as_slice()));
    let (mut a, mut b) = (0.0, 0.0);
    let mut ws = IntegrationWorkspace::default();
    let l2 = vh::st(&e["norm"]) == "L2";
    for c in 0..st.mesh.num_elements() {
        let n = st.mesh.element_node_count(c);
        let mut nodes = vec![0; n];
        st.mesh.populate_element_nodes(&mut nodes, c);
        let s = S::dim();
        let ul = DVector::from_fn(n * s, |i, _| u[nodes[i / s] * s + i % s]);
        let el = ElementInSpace::from_space_and_element_index(&st.mesh, c);
        let v = DVectorView::from(&ul);
        if l2 {
            a += estimate_element_L2_error_squared::<_, _, S>(&el, &val, v, &q.0, &q.1, &mut ws);
            b += estimate_element_L2_error::<_, _, S>(&el, &val, v, &q.0, &q.1, &mut ws).powi(2);
        } else {
            a += estimate_element_H1_seminorm_error_squared::<_, _, S>(&el, &grad, v, &q.0, &q.1, &mut ws);
            b += estimate_element_H1_seminorm_error::<_, _, S>(&el, &grad, v, &q.0, &q.1, &mut ws).powi(2);
        }
    }
    let (x, y) = if l2 {
        (estimate_L2_error_squared::<_, S, _, _>(&st.mesh, &val, u, &t).ok()?, estimate_L2_error::<_, S, _, _>(&st.mesh, &val, u, &t).ok()?)
    } else {
        (estimate_H1_seminorm_error_squared::<_, S, _, _>(&st.mesh, &grad, u, &t).ok()?, estimate_H1_seminorm_error::<_, S, _, _>(&st.mesh, &grad, u, &t).ok()?)
    };
    let r: Vec<i64> = [x, y.powi(2), a, b].iter().map(|&x| res(x, st.scale)).collect();
    Some((if r.iter().all(|&x| x == r[0]) { r[0] } else { -2 }, 1))
}

fn done(out: &mut Out, e: &Value, r: Result<Option<(i64, i64)>, String>) {
    let mut e = e.clone();
    match r {
        Ok(Some((r, s))) => { e["res"] = json!("ok"); e["r"] = json!(r); e["symm"] = json!(s) }
        Ok(None) => { e["res"] = json!("err"); e["r"] = json!(-1); e["symm"] = json!(0) }
        Err(m) => { e["res"] = json!("panic"); e["msg"] = json!(m) }
    }
    out.ev(e)
}
fn ops<S: SmallDim, D: SmallDim, C>(c: &Value, st: &mut State<D, C>, out: &mut Out)
where
    C: Clone,
    Mesh<f64, D, C>: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, S, D, D> + TriDimAllocator<f64, U1, D, D>,
{
    let mut u: Vec<Poly> = vec![];
    for e in arr(&c["ops"]) {
        match vh::st(&e["op"]) {
            "data" => { st.cell = ivec(&e["cell"]).into_iter().map(|x| x as f64).collect(); st.kap = poly(&e["poly"]); st.uniform = int(&e["uni"]) == 1; out.ev(e.clone()) }
            "u" => { u = polys(&e["u"]); out.ev(e.clone()) }
            "hess" | "grad" | "energy" => done(out, e, guard(|| oper::<S, D, C>(st, e, &u))),
            "mass" => done(out, e, guard(|| mass(st, e, &u))),
            "source" => done(out, e, guard(|| source::<S, D, C>(st, e))),
            "int" => done(out, e, guard(|| {
                let mut v = st.nodal(&u);
                if int(&e["bad"]) != 0 { let k = (v.len() as i64 + int(&e["bad"])).max(0) as usize; v = v.resize_vertically(k, 0.0) }
                if vh::st(&e["dep"]).starts_with('v') { volume::<S, D, C>(st, &v, e) } else { integ::<S, D, _>(&st.mesh, &st.rules.strong, &v, e, st.scale) }
            })),
            "err" => done(out, e, guard(|| errors::<S, D, C>(st, &st.nodal(&u), e))),
            x => die(x),
        }
    }
}
fn mesh<D: SmallDim, C: Clone>(c: &Value, mk: &dyn Fn(Vec<usize>) -> C) -> Mesh<f64, D, C>
where
    DefaultAllocator: Allocator<f64, D>,
    Mesh<f64, D, C>: Sized,
    C: Connectivity,
{
    let v = ivecs(&c["nodes"]).into_iter().map(|x| OPoint::from(OVector::<f64, D>::from_iterator(x.into_iter().map(|x| x as f64 / 24.0)))).collect();
    Mesh::from_vertices_and_connectivity(v, uvecs(&c["conn"]).into_iter().map(mk).collect())
}
fn start(c: &Value, out: &mut Out) { out.ev(json!({"op": "mesh", "new": 1, "el": c["el"], "V": c["V"], "C": c["C"], "m": c["m"], "d": c["d"], "s": c["s"], "F": c["F"]})) }
fn go<D: SmallDim, C>(c: &Value, out: &mut Out, mesh: Mesh<f64, D, C>, rules: Rules<D>)
where
    C: Clone + Connectivity,
    Mesh<f64, D, C>: VolumetricFiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: TriDimAllocator<f64, U1, D, D> + TriDimAllocator<f64, U2, D, D> + TriDimAllocator<f64, U3, D, D>,
{
    start(c, out);
    let mut st = State { mesh, rules, cell: vec![], kap: vec![], uniform: false, scale: us(&c["F"]) as f64 };
    match us(&c["s"]) { 1 => ops::<U1, D, C>(c, &mut st, out), 2 => ops::<U2, D, C>(c, &mut st, out), _ => ops::<U3, D, C>(c, &mut st, out) }
}
fn surface<S: SmallDim, G: SmallDim, Sp>(c: &Value, sp: &Sp, verts: &[OPoint<f64, G>], q: QuadraturePair<f64, Sp::ReferenceDim>, out: &mut Out)
where
    Sp: FiniteElementSpace<f64, GeometryDim = G>,
    DefaultAllocator: Allocator<f64, G> + TriDimAllocator<f64, S, Sp::GeometryDim, Sp::ReferenceDim> + TriDimAllocator<f64, Sp::GeometryDim, Sp::ReferenceDim, S>,
{
    let mut u: Vec<Poly> = vec![];
    for e in arr(&c["ops"]) {
        match st(&e["op"]) {
            "u" => { u = polys(&e["u"]); out.ev(e.clone()) }
            "int" => done(out, e, guard(|| {
                let mut v: DVector<f64> = DVector::from_vec(verts.iter().flat_map(|x| u.iter().map(|p| ev(p, x.coords.as_slice())).collect::<Vec<_>>()).collect());
                if int(&e["bad"]) != 0 { let k = (v.len() as i64 + int(&e["bad"])).max(0) as usize; v = v.resize_vertically(k, 0.0) }
                integ::<S, G, Sp>(sp, &q, &v, e, us(&c["F"]) as f64)
            })),
            x => die(x),
        }
    }
}

fn main() {
    run(|c, out| {
        let d = us(&c["d"]);
        let n = d / 2 + 1;
        macro_rules! conn { ($c:ident) => { &|v: Vec<usize>| $c(v.try_into().unwrap_or_else(|_| die("nodes"))) } }
        macro_rules! vol { ($c:ident, $d:ident, $strong:expr) => { {
            let m = mesh::<$d, _>(c, conn!($c));
            let strong = $strong;
            let rules = Rules { table: Uni::from_quadrature(strong.clone()), mass: m.canonical_mass_quadrature(), stiff: m.canonical_stiffness_quadrature(), strong };
            go::<$d, $c>(c, out, m, rules)
        } } }
        let (tri, tet) = (|| total_order::triangle::<f64>(d).unwrap(), || total_order::tetrahedron::<f64>(d).unwrap());
        let (quad, hex) = (|| tensor::quadrilateral_gauss::<f64>(n), || tensor::hexahedron_gauss::<f64>(n));
        match st(&c["el"]) {
            "tri3" => vol!(Tri3d2Connectivity, U2, tri()),
            "tri6" => vol!(Tri6d2Connectivity, U2, tri()),
            "quad4" => vol!(Quad4d2Connectivity, U2, quad()),
            "quad9" => vol!(Quad9d2Connectivity, U2, quad()),
            "tet4" => vol!(Tet4Connectivity, U3, tet()),
            "tet10" => vol!(Tet10Connectivity, U3, tet()),
            "tet20" => vol!(Tet20Connectivity, U3, tet()),
            "hex8" => vol!(Hex8Connectivity, U3, hex()),
            "hex20" => vol!(Hex20Connectivity, U3, hex()),
            "hex27" => vol!(Hex27Connectivity, U3, hex()),
            "seg2s" => { start(c, out); let m = mesh::<U2, _>(c, conn!(Segment2d2Connectivity)); let q = univariate::gauss::<f64>(4);
                match us(&c["s"]) { 1 => surface::<U1, U2, _>(c, &m, m.vertices(), q, out), _ => surface::<U2, U2, _>(c, &m, m.vertices(), q, out) } }
            "tri3s" => { start(c, out); let m = mesh::<U3, _>(c, conn!(Tri3d3Connectivity)); let q = total_order::triangle::<f64>(7).unwrap();
                match us(&c["s"]) { 1 => surface::<U1, U3, _>(c, &m, m.vertices(), q, out), _ => surface::<U2, U3, _>(c, &m, m.vertices(), q, out) } }
            x => die(x),
        }
    })
}
