//! C20: interpolation. Case: {"kind":"script","D","nodes","at","ops"} | {"kind":"raw",...} | {"kind":"p1","ct","V","C","pts","f"}
use fenris::connectivity::*;
use fenris::mesh::Mesh;
use fenris::space::*;
use fenris::SmallDim;
use nalgebra::allocator::Allocator;
use nalgebra::{DVector, DVectorView, DefaultAllocator, Dyn, MatrixViewMut, OMatrix, OPoint, OVector, U1, U2, U3};
use std::marker::PhantomData;
use vh::*;

struct Ans { e: i64, b: Vec<f64>, g: Vec<Vec<f64>>, j: Vec<Vec<f64>> }
struct Script<D> { nodes: Vec<Vec<usize>>, nn: usize, at: Vec<Ans>, d: PhantomData<D> }
fn fs(v: &Value) -> Vec<f64> { ivec(v).into_iter().map(|x| x as f64).collect() }
fn fss(v: &Value) -> Vec<Vec<f64>> { arr(v).iter().map(fs).collect() }

impl<D: SmallDim> FiniteElementConnectivity for Script<D> {
    fn num_elements(&self) -> usize { self.nodes.len() }
    fn num_nodes(&self) -> usize { self.nn }
    fn element_node_count(&self, e: usize) -> usize { self.nodes[e].len() }
    fn populate_element_nodes(&self, n: &mut [usize], e: usize) { n.copy_from_slice(&self.nodes[e]) }
}
impl<D: SmallDim> Script<D> where DefaultAllocator: Allocator<f64, D> {
    fn a(&self, e: usize, xi: &OPoint<f64, D>) -> Option<&Ans> {
        let i = xi.coords[0];
        let a = self.at.get((i as usize).wrapping_sub(1))?;
        (i == i.trunc() && a.e == e as i64 && xi.coords.iter().skip(1).all(|&x| x == -1.0)).then_some(a)
    }
}
const POISON: f64 = 12345677.0;
impl<D: SmallDim> FiniteElementSpace<f64> for Script<D>
where
    DefaultAllocator: fenris_traits::allocators::BiDimAllocator<f64, D, D>,
{
    type GeometryDim = D;
    type ReferenceDim = D;
    fn populate_element_basis(&self, e: usize, b: &mut [f64], xi: &OPoint<f64, D>) {
        match self.a(e, xi) { Some(a) => b.copy_from_slice(&a.b), None => b.fill(POISON) }
    }
    fn populate_element_gradients(&self, e: usize, mut g: MatrixViewMut<f64, D, Dyn>, xi: &OPoint<f64, D>) {
        match self.a(e, xi) {
            Some(a) => { assert_eq!(g.ncols(), a.g.len()); for (c, v) in a.g.iter().enumerate() { for (r, x) in v.iter().enumerate() { g[(r, c)] = *x } } }
            None => g.fill(POISON),
        }
    }
    fn element_reference_jacobian(&self, e: usize, xi: &OPoint<f64, D>) -> OMatrix<f64, D, D> {
        match self.a(e, xi) { Some(a) => OMatrix::<f64, D, D>::from_fn(|r, c| a.j[r][c]), None => OMatrix::<f64, D, D>::identity() }
    }
    fn map_element_reference_coords(&self, _: usize, xi: &OPoint<f64, D>) -> OPoint<f64, D> { xi.clone() }
    fn diameter(&self, _: usize) -> f64 { 1.0 }
}
impl<D: SmallDim> FindClosestElement<f64> for Script<D>
where
    DefaultAllocator: fenris_traits::allocators::BiDimAllocator<f64, D, D>,
{
    fn find_closest_element_and_reference_coords(&self, p: &OPoint<f64, D>) -> Option<(usize, OPoint<f64, D>)> {
        let i = p.coords[0] as usize;
        let a = &self.at[i - 1];
        if a.e < 0 { return None }
        // answers do not come in the order of the questions
        std::thread::sleep(std::time::Duration::from_micros((i as u64 * 37) % 5));
        let mut xi = OVector::<f64, D>::from_element(-1.0);
        xi[0] = i as f64;
        Some((a.e as usize, OPoint::from(xi)))
    }
}

fn what(k: usize) -> ValuesOrGradients { [ValuesOrGradients::Both, ValuesOrGradients::OnlyValues, ValuesOrGradients::OnlyGradients][k] }
fn jv<S: SmallDim>(v: &[OVector<f64, S>]) -> Value where DefaultAllocator: Allocator<f64, S> {
    json!(v.iter().map(|x| x.iter().map(|&x| exact(x, 1.0)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn jm<D: SmallDim, S: SmallDim>(v: &[OMatrix<f64, D, S>]) -> Value where DefaultAllocator: Allocator<f64, D, S> {
    json!(v.iter().map(|m| m.row_iter().map(|r| r.iter().map(|&x| exact(x, 16.0)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn used<D: SmallDim, S: SmallDim>(sp: &Script<D>, ix: &Option<FixedInterpolator<f64>>, op: &Value) -> Option<Value>
where
    DefaultAllocator: fenris_traits::allocators::TriDimAllocator<f64, D, D, S>,
{
    let u = DVector::from_vec(fs(&op["u"]));
    let u: DVectorView<f64> = (&u).into();
    let into = int(&op["into"]);
    let pts: Vec<OPoint<f64, D>> = op.get("pts").map(|p| mk_pts(p)).unwrap_or_default();
    let junk = OVector::<f64, S>::from_element(77.0);
    let gjunk = OMatrix::<f64, D, S>::from_element(77.0);
    guard(|| match st(&op["op"]) {
        "values" if into < 0 => jv(&ix.as_ref().unwrap().interpolate::<S>(u)),
        "values" => { let mut r = vec![junk; into as usize]; ix.as_ref().unwrap().interpolate_into(&mut r, u); jv(&r) }
        "grads" if into < 0 => jm(&ix.as_ref().unwrap().interpolate_gradients::<D, S>(u)),
        "grads" => { let mut r = vec![gjunk; into as usize]; ix.as_ref().unwrap().interpolate_gradients_into(&mut r, u); jm(&r) }
        "direct" => { let mut r = vec![junk; if into < 0 { pts.len() } else { into as usize }]; interpolate_at_points(sp, &pts, u, &mut r); jv(&r) }
        "directgrads" => { let mut r = vec![gjunk; if into < 0 { pts.len() } else { into as usize }]; interpolate_gradient_at_points(sp, &pts, u, &mut r); jm(&r) }
        x => die(x),
    }).ok()
}
fn mk_pts<D: SmallDim>(v: &Value) -> Vec<OPoint<f64, D>> where DefaultAllocator: Allocator<f64, D> {
    uvec(v).into_iter().map(|i| { let mut x = OVector::<f64, D>::from_element(5.0); x[0] = i as f64; OPoint::from(x) }).collect()
}

fn script<D: SmallDim>(c: &Value, out: &mut Out)
where
    DefaultAllocator: fenris_traits::allocators::TriDimAllocator<f64, D, D, U1> + fenris_traits::allocators::TriDimAllocator<f64, D, D, U2> + fenris_traits::allocators::TriDimAllocator<f64, D, D, U3>,
    OPoint<f64, D>: Sync + Send,
{
    let sp = Script::<D> { nodes: uvecs(&c["nodes"]), nn: us(&c["nn"]), d: PhantomData,
        at: arr(&c["at"]).iter().map(|a| Ans { e: int(&a["e"]), b: fs(&a["b"]), g: fss(&a["g"]), j: fss(&a["J"]) }).collect() };
    out.ev(json!({"op": "space", "new": 1, "D": D::dim(), "nodes": c["nodes"], "at": c["at"]}));
    let mut ix = None;
    for op in arr(&c["ops"]) {
        let mut e = op.clone();
        if st(&op["op"]) == "build" {
            let p = mk_pts::<D>(&op["pts"]);
            let w = what(us(&op["what"]));
            let a = guard(|| FixedInterpolator::from_space_and_points(&sp, &p, w));
            let b = guard(|| FixedInterpolator::from_space_and_points_par(&sp, &p, w));
            e["res"] = json!(if a.is_ok() && b.is_ok() { "ok" } else { "panic" });
            e["same"] = json!(matches!((&a, &b), (Ok(x), Ok(y)) if x == y) as i64);
            out.ev(e);
            ix = if us(&op["par"]) == 1 { b.ok() } else { a.ok() };
            if ix.is_none() { return }
            continue;
        }
        let r = match us(&op["s"]) { 1 => used::<D, U1>(&sp, &ix, op), 2 => used::<D, U2>(&sp, &ix, op), _ => used::<D, U3>(&sp, &ix, op) };
        e["res"] = json!(if r.is_some() { "ok" } else { "panic" });
        e["out"] = r.unwrap_or(json!([]));
        out.ev(e);
    }
}

fn p1<D: SmallDim, C>(c: &Value, out: &mut Out, mk: impl Fn(Vec<usize>) -> C)
where
    C: fenris::element::ElementConnectivity<f64, GeometryDim = D, ReferenceDim = D> + Clone + Sync,
    C::Element: fenris::element::ClosestPointInElement<f64> + fenris::element::BoundsForElement<f64>,
    DefaultAllocator: fenris::allocators::ElementConnectivityAllocator<f64, C> + fenris_traits::allocators::TriDimAllocator<f64, D, D, U1>,
    SpatiallyIndexed<f64, Mesh<f64, D, C>>: Sync,
    OPoint<f64, D>: Sync + Send,
{
    let v = anymesh::pts::<D>(&c["V"]);
    let m: Mesh<f64, D, C> = Mesh::from_vertices_and_connectivity(v, uvecs(&c["C"]).into_iter().map(mk).collect());
    out.ev(json!({"op": "mesh", "new": 1, "ct": c["ct"], "V": c["V"], "C": c["C"]}));
    let pts = anymesh::pts::<D>(&c["pts"]);
    let f = fs(&c["f"]);
    let u = DVector::from_iterator(m.vertices().len(), m.vertices().iter().map(|p| f[0] + p.coords.iter().zip(&f[1..]).map(|(x, c)| x / sc() * c).sum::<f64>()));
    let g = |x: f64| grid(x, 10000.0);
    let r = guard(|| {
        let ix = SpatiallyIndexed::<f64, _>::from_space(m.clone());
        let a = FixedInterpolator::from_space_and_points(&ix, &pts, ValuesOrGradients::Both);
        let b = FixedInterpolator::from_space_and_points_par(&ix, &pts, ValuesOrGradients::Both);
        let v: Vec<OVector<f64, U1>> = a.interpolate(&u);
        let w: Vec<OVector<f64, U1>> = ix.interpolate_at_points(&pts, (&u).into());
        let gv: Vec<OMatrix<f64, D, U1>> = a.interpolate_gradients(&u);
        let gw: Vec<OMatrix<f64, D, U1>> = ix.interpolate_gradient_at_points(&pts, (&u).into());
        let one = pts.iter().enumerate().all(|(i, p)| {
            let x: OVector<f64, U1> = ix.interpolate_at_point(p, (&u).into());
            let y: OMatrix<f64, D, U1> = ix.interpolate_gradient_at_point(p, (&u).into());
            (x - &w[i]).norm() < 1e-9 && ((y - &gw[i]) * sc()).norm() < 1e-9
        });
        let close = v.iter().zip(&w).all(|(a, b)| (a - b).norm() < 1e-9) && gv.iter().zip(&gw).all(|(a, b)| ((a - b) * sc()).norm() < 1e-9);
        json!({"same": (a == b && one && close) as i64, "values": v.iter().map(|x| g(x[0])).collect::<Vec<_>>(),
            "grads": gv.iter().map(|x| x.iter().map(|&x| g(x * sc())).collect::<Vec<_>>()).collect::<Vec<_>>()})
    });
    let mut e = r.map(|mut r| { r["res"] = json!("ok"); r }).unwrap_or(json!({"res": "panic", "same": 0, "values": [], "grads": []}));
    e["op"] = json!("p1"); e["pts"] = c["pts"].clone(); e["f"] = c["f"].clone();
    out.ev(e);
}

fn main() {
    vh::run(|c, out| { set_scale(c); match st(&c["kind"]) {
        "script" => match us(&c["D"]) { 1 => script::<U1>(c, out), 2 => script::<U2>(c, out), _ => script::<U3>(c, out) },
        "raw" => {
            out.ev(json!({"op": "space", "new": 1, "D": 1, "nodes": [], "at": []}));
            let opt = |v: &Value| { let x = fs(v); if x == [-1.0] { None } else { Some(x) } };
            let u = DVector::from_vec(fs(&c["u"]));
            let r = guard(|| FixedInterpolator::from_compressed_values(opt(&c["val"]), opt(&c["grad"]), uvec(&c["idx"]), uvec(&c["off"])));
            let mut e = c.clone();
            e["op"] = json!("raw");
            e["out"] = json!([]);
            e["res"] = json!("panic");
            if let Ok(ix) = r {
                if let Ok(v) = guard(|| match us(&c["s"]) { 1 => jv(&ix.interpolate::<U1>(&u)), 2 => jv(&ix.interpolate::<U2>(&u)), _ => jv(&ix.interpolate::<U3>(&u)) }) {
                    e["res"] = json!("ok");
                    e["out"] = v;
                } else { e["res"] = json!("use") }
            }
            out.ev(e);
        }
        _ => match st(&c["ct"]) {
            "tri3" => p1::<U2, _>(c, out, |v| Tri3d2Connectivity(v.try_into().unwrap())),
            _ => p1::<U3, _>(c, out, |v| Tet4Connectivity(v.try_into().unwrap())),
        },
    }});
}
