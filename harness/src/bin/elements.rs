//! C25: finite elements. Case: {"ct","V" (nodes over 24),"via":"nodes"|"lower","ks","inv","pm","conns":[{"idx","all"}],"u","s"}
use fenris::allocators::{BiDimAllocator, ElementConnectivityAllocator};
use fenris::connectivity::*;
use fenris::element::*;
use fenris::mesh::Mesh;
use fenris::space::FiniteElementSpace;
use fenris::SmallDim;
use nalgebra::{DVector, DefaultAllocator, DimMin, DimName, Dyn, MatrixViewMut, OMatrix, OPoint, OVector, U1, U2, U3};
use vh::*;

const Q: f64 = 12.0;
const M: f64 = 24.0;
fn p<D: DimName>(v: &[i64], m: f64) -> OPoint<f64, D> where DefaultAllocator: nalgebra::allocator::Allocator<f64, D> {
    OPoint::from(OVector::<f64, D>::from_iterator(v.iter().map(|&x| x as f64 / m)))
}
fn ps<D: DimName>(v: &Value) -> Vec<OPoint<f64, D>> where DefaultAllocator: nalgebra::allocator::Allocator<f64, D> {
    ivecs(v).iter().map(|x| p(x, M / sc())).collect()
}
fn jp<D: DimName>(x: &OPoint<f64, D>, m: f64) -> Value where DefaultAllocator: nalgebra::allocator::Allocator<f64, D> {
    json!(x.coords.iter().map(|&x| near(x, m, 1e-3)).collect::<Vec<_>>())
}
fn jps<D: DimName>(v: &[OPoint<f64, D>], m: f64) -> Value where DefaultAllocator: nalgebra::allocator::Allocator<f64, D> {
    json!(v.iter().map(|x| jp(x, m)).collect::<Vec<_>>())
}
fn jm<R: DimName, C: nalgebra::Dim>(m: &OMatrix<f64, R, C>, den: f64) -> Value where DefaultAllocator: nalgebra::allocator::Allocator<f64, R, C> {
    json!(m.row_iter().map(|r| r.iter().map(|&x| near(x, den, 1e-3)).collect::<Vec<_>>()).collect::<Vec<_>>())
}

struct How<'a, C, E, D: SmallDim, R: SmallDim> where DefaultAllocator: BiDimAllocator<f64, D, R> {
    den: f64,
    base: f64,
    conn: &'a dyn Fn(Vec<usize>) -> C,
    verts: &'a dyn Fn(&E) -> Vec<OPoint<f64, D>>,
    lower: Option<&'a dyn Fn(&[OPoint<f64, D>]) -> E>,
    invert: Option<&'a dyn Fn(&E, &OPoint<f64, D>) -> Result<OPoint<f64, R>, String>>,
    normal: Option<&'a dyn Fn(&E, &OPoint<f64, R>) -> OVector<f64, D>>,
    reference: Option<&'a dyn Fn() -> E>,
}

fn go<C, D: SmallDim, R: SmallDim>(c: &Value, out: &mut Out, h: How<C, C::Element, D, R>)
where
    C: ElementConnectivity<f64, GeometryDim = D, ReferenceDim = R> + Clone,
    R: DimMin<R, Output = R>,
    DefaultAllocator: ElementConnectivityAllocator<f64, C> + BiDimAllocator<f64, D, R> + BiDimAllocator<f64, R, R>,
{
    let v = ps::<D>(&c["V"]);
    let n = v.len();
    let el = match guard(|| match st(&c["via"]) {
        "lower" => h.lower.unwrap()(&v),
        "ref" => h.reference.unwrap()(),
        _ => (h.conn)((0..n).collect()).element(&v).unwrap(),
    }) { Ok(e) => e, Err(e) => return out.ev(json!({"op": "panic", "new": 1, "msg": e})) };
    let nn = el.num_nodes();
    out.ev(json!({"op": "element", "new": 1, "ct": c["ct"], "V": c["V"], "via": c["via"], "n": nn, "nodes": jps(&(h.verts)(&el), M / sc()),
        "diam2": near((el.diameter() / sc()).powi(2), M * M, 1e-3)}));
    // the same element as the second cell of a mesh
    let mut cv = (h.verts)(&el);
    cv.reverse();
    cv.extend((h.verts)(&el));
    let mesh: Mesh<f64, D, C> = Mesh::from_vertices_and_connectivity(cv, vec![(h.conn)((0..nn).collect()), (h.conn)((nn..2 * nn).collect())]);
    for k in ivecs(&c["ks"]) {
        let xi = p::<R>(&k, Q);
        let r = guard(|| {
            let mut b = vec![f64::NAN; nn];
            el.populate_basis(&mut b, &xi);
            let mut g = OMatrix::<f64, R, Dyn>::from_element(nn, f64::NAN);
            el.populate_basis_gradients(MatrixViewMut::from(&mut g), &xi);
            let (x, j) = (el.map_reference_coords(&xi), el.reference_jacobian(&xi));
            let mut b2 = vec![f64::NAN; nn];
            let mut g2 = OMatrix::<f64, R, Dyn>::from_element(nn, f64::NAN);
            mesh.populate_element_basis(1, &mut b2, &xi);
            mesh.populate_element_gradients(1, MatrixViewMut::from(&mut g2), &xi);
            let same = b == b2 && g == g2 && x == mesh.map_element_reference_coords(1, &xi) && j == mesh.element_reference_jacobian(1, &xi)
                && el.diameter() == mesh.diameter(1);
            json!({"op": "at", "k": k, "b": b.iter().map(|&x| near(x, h.den, 1e-3)).collect::<Vec<_>>(), "g": jm(&g, h.den),
                "x": jp(&x, h.base * M / sc()), "J": jm(&j, h.base * M / sc()), "same": same as i64})
        });
        out.ev(r.unwrap_or_else(|e| json!({"op": "panic", "msg": e})));
        // from the image (and from any point of the perpendicular) back
        let how = st(&c["inv"]);
        if how != "no" {
            let mut x = el.map_reference_coords(&xi);
            let t = int(&c["perp"]) as f64;
            if t != 0.0 { if let Some(f) = h.normal { x += f(&el, &xi) * (t * sc()) } }
            let r = guard(|| match h.invert {
                Some(f) if how == "map" => f(&el, &x),
                _ => project_physical_coordinates(&el, &x).map_err(|e| e.to_string()),
            });
            let (res, xi, d) = match r {
                Ok(Ok(y)) => ("ok", json!(y.coords.iter().map(|&x| grid(x, Q * 1e6)).collect::<Vec<_>>()), grid((el.map_reference_coords(&y) - &x).norm() / sc(), 1e6)),
                Ok(Err(_)) => ("err", json!([]), 0),
                Err(_) => ("panic", json!([]), 0),
            };
            out.ev(json!({"op": "inverse", "k": k, "how": how, "perp": t as i64, "res": res, "xi": xi, "d": d}));
        }
        if let Some(f) = h.normal {
            let r = guard(|| json!({"op": "normal", "n": f(&el, &xi).iter().map(|&x| grid(x, 1e4)).collect::<Vec<_>>()}));
            out.ev(r.unwrap_or_else(|e| json!({"op": "panic", "msg": e})));
        }
    }
    for q in arr(&c["conns"]) {
        let all = ps::<D>(&q["all"]);
        let conn = (h.conn)(uvec(&q["idx"]));
        let r = match guard(|| conn.element(&all)) {
            Ok(Some(e)) => json!({"op": "lookup", "res": "ok", "nodes": jps(&(h.verts)(&e), M / sc()), "idx": q["idx"], "all": q["all"]}),
            _ => json!({"op": "lookup", "res": "none", "nodes": [], "idx": q["idx"], "all": q["all"]}),
        };
        out.ev(r);
        let u = DVector::from_vec(ivec(&q["u"]).iter().map(|&x| x as f64).collect());
        macro_rules! vars { ($s:ty) => {{
            guard(|| {
                let mut l = OMatrix::<f64, $s, Dyn>::from_element(nn, f64::NAN);
                conn.populate_element_variables::<$s>(MatrixViewMut::from(&mut l), &u);
                l.column_iter().map(|c| c.iter().map(|&x| exact(x, 1.0)).collect::<Vec<_>>()).collect::<Vec<_>>()
            })
        }}}
        let r = match us(&q["s"]) { 1 => vars!(U1), 2 => vars!(U2), _ => vars!(U3) };
        out.ev(match r {
            Ok(l) => json!({"op": "vars", "res": "ok", "idx": q["idx"], "u": q["u"], "s": q["s"], "out": l}),
            Err(_) => json!({"op": "vars", "res": "panic", "idx": q["idx"], "u": q["u"], "s": q["s"], "out": []}),
        });
    }
}

fn a<const N: usize, T>(v: Vec<T>) -> [T; N] { v.try_into().unwrap_or_else(|_| die("number of nodes")) }
fn f<const N: usize, T: Clone>(v: &[T]) -> [T; N] { a(v[..N].to_vec()) }

fn main() {
    run(|c, out| {
        set_scale(c);
        let d1 = 2.0 * Q;
        let (d2, d3) = (d1 * d1, d1 * d1 * d1);
        let q2 = 2.0 * Q * Q;
        macro_rules! el {
            ($c:ident, $e:ident, $d:ty, $r:ty, $den:expr, $base:expr, inv: $inv:expr, lower: $low:expr, normal: $nor:expr, reference: $ref:expr) => {
                go::<$c, $d, $r>(c, out, How { den: $den, base: $base, conn: &|v| $c(a(v)), verts: &|e: &$e<f64>| e.vertices().to_vec(), lower: $low, invert: $inv, normal: $nor, reference: $ref })
            };
        }
        macro_rules! vol { ($e:ident, $d:ty) => { Some(&|e: &$e<f64>, x: &OPoint<f64, $d>| map_physical_coordinates(e, x).map_err(|e| e.to_string())) } }
        match st(&c["ct"]) {
            "seg2" => el!(Segment2d1Connectivity, Segment2d1Element, U1, U1, d1, d1, inv: vol!(Segment2d1Element, U1), lower: None, normal: None, reference: None),
            "seg2s" => el!(Segment2d2Connectivity, Segment2d2Element, U2, U1, d1, d1, inv: None, lower: None, normal: Some(&|e, x| e.normal(x)), reference: None),
            "tri3" => el!(Tri3d2Connectivity, Tri3d2Element, U2, U2, d1, d1, inv: vol!(Tri3d2Element, U2), lower: None, normal: None, reference: Some(&|| Tri3d2Element::reference())),
            "tri3s" => el!(Tri3d3Connectivity, Tri3d3Element, U3, U2, d1, d1, inv: None, lower: None, normal: Some(&|e, x| e.normal(x)), reference: None),
            "tri6" => el!(Tri6d2Connectivity, Tri6d2Element, U2, U2, d2 * 2.0, d1, inv: vol!(Tri6d2Element, U2),
                lower: Some(&|v| Tri6d2Element::from(&Tri3d2Element::from_vertices(f(v)))), normal: None, reference: Some(&|| Tri6d2Element::reference())),
            "quad4" => el!(Quad4d2Connectivity, Quad4d2Element, U2, U2, d2, d2, inv: vol!(Quad4d2Element, U2), lower: None, normal: None, reference: Some(&|| Quad4d2Element::reference())),
            "quad9" => el!(Quad9d2Connectivity, Quad9d2Element, U2, U2, q2 * q2, d2, inv: vol!(Quad9d2Element, U2),
                lower: Some(&|v| Quad9d2Element::from(&Quad4d2Element::from_vertices(f(v)))), normal: None, reference: Some(&|| Quad9d2Element::reference())),
            "tet4" => el!(Tet4Connectivity, Tet4Element, U3, U3, d1, d1, inv: vol!(Tet4Element, U3), lower: None, normal: None, reference: Some(&|| Tet4Element::reference())),
            "tet10" => el!(Tet10Connectivity, Tet10Element, U3, U3, d2 * 2.0, d1, inv: vol!(Tet10Element, U3),
                lower: Some(&|v| Tet10Element::from(&Tet4Element::from_vertices(f(v)))), normal: None, reference: Some(&|| Tet10Element::reference())),
            "tet20" => el!(Tet20Connectivity, Tet20Element, U3, U3, d3 * 6.0, d1, inv: vol!(Tet20Element, U3),
                lower: Some(&|v| if v[0].x < v[1].x { Tet20Element::from(&Tet4Element::from_vertices(f(v))) } else { Tet20Element::from_tet4_vertices(f(v)) }), normal: None, reference: Some(&|| Tet20Element::reference())),
            "hex8" => el!(Hex8Connectivity, Hex8Element, U3, U3, d3, d3, inv: vol!(Hex8Element, U3), lower: None, normal: None, reference: Some(&|| Hex8Element::reference())),
            "hex20" => el!(Hex20Connectivity, Hex20Element, U3, U3, 8.0 * Q.powi(4), d3, inv: vol!(Hex20Element, U3), lower: None, normal: None, reference: Some(&|| Hex20Element::reference())),
            "hex27" => el!(Hex27Connectivity, Hex27Element, U3, U3, q2 * q2 * q2, d3, inv: vol!(Hex27Element, U3), lower: None, normal: None, reference: Some(&|| Hex27Element::reference())),
            o => die(&format!("unknown element {o}")),
        }
    })
}
