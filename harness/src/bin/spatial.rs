//! C19: closest elements. Case: {"ct","V","C","qs":[...],"float":0|1}
use fenris::connectivity::*;
use fenris::element::{BoundsForElement, ClosestPoint, ClosestPointInElement, ElementConnectivity};
use fenris::mesh::Mesh;
use fenris::space::*;
use fenris::SmallDim;
use fenris::allocators::{BiDimAllocator, ElementConnectivityAllocator};
use nalgebra::{DefaultAllocator, OMatrix, OPoint, OVector, U2, U3};
use vh::*;

fn fpts<D: SmallDim>(v: &Value) -> Vec<OPoint<f64, D>>
where
    DefaultAllocator: nalgebra::allocator::Allocator<f64, D>,
{
    arr(v).iter().map(|p| OPoint::from(OVector::<f64, D>::from_iterator(arr(p).iter().map(|x| x.as_f64().unwrap() * sc())))).collect()
}

fn go<D: SmallDim, C>(c: &Value, out: &mut Out, mk: impl Fn(Vec<usize>) -> C)
where
    C: ElementConnectivity<f64, GeometryDim = D> + Clone + Sync,
    C::ReferenceDim: SmallDim,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    DefaultAllocator: ElementConnectivityAllocator<f64, C> + BiDimAllocator<f64, D, C::ReferenceDim>,
{
    let v = fpts::<D>(&c["V"]);
    let m: Mesh<f64, D, C> = Mesh::from_vertices_and_connectivity(v, uvecs(&c["C"]).into_iter().map(mk).collect());
    let float = us(&c["float"]) == 1;
    let none: [Vec<i64>; 0] = [];
    if float {
        out.ev(json!({"op": "mesh", "new": 1, "ct": c["ct"], "V": none, "C": none}));
    } else {
        out.ev(json!({"op": "mesh", "new": 1, "ct": c["ct"], "V": c["V"], "C": c["C"]}));
    }
    let ix = match guard(|| SpatiallyIndexed::<f64, _>::from_space(m.clone())) {
        Ok(i) => i,
        Err(e) => return out.ev(json!({"op": "panic", "msg": e})),
    };
    let gx = |p: &OPoint<f64, C::ReferenceDim>| p.coords.iter().map(|&x| grid(x, 10000.0)).collect::<Vec<_>>();
    let ne = m.connectivity().len();
    if !float {
        let b: Vec<Value> = m.bounds_for_all_elements().iter().map(|b| json!({"lo": b.min().coords.iter().map(|&x| exact(x / sc(), 1.0)).collect::<Vec<_>>(), "hi": b.max().coords.iter().map(|&x| exact(x / sc(), 1.0)).collect::<Vec<_>>()})).collect();
        out.ev(json!({"op": "bounds", "b": b}));
        let nodes: Vec<Vec<usize>> = (0..ix.num_elements()).map(|e| { let mut n = vec![0; ix.element_node_count(e)]; ix.populate_element_nodes(&mut n, e); n }).collect();
        let xi = OPoint::<f64, C::ReferenceDim>::from(OVector::<f64, C::ReferenceDim>::from_fn(|i, _| -0.5 - 0.125 * i as f64));
        let dele = (0..ne).all(|e| {
            let n = nodes[e].len();
            let (mut a, mut b) = (vec![0.0; n], vec![0.0; n]);
            ix.populate_element_basis(e, &mut a, &xi);
            m.populate_element_basis(e, &mut b, &xi);
            let (mut g, mut h) = (OMatrix::<f64, C::ReferenceDim, nalgebra::Dyn>::zeros(n), OMatrix::<f64, C::ReferenceDim, nalgebra::Dyn>::zeros(n));
            ix.populate_element_gradients(e, nalgebra::MatrixViewMut::from(&mut g), &xi);
            m.populate_element_gradients(e, nalgebra::MatrixViewMut::from(&mut h), &xi);
            let (p, q) = (ix.bounds_for_element(e), m.bounds_for_element(e));
            a == b && g == h && ix.element_reference_jacobian(e, &xi) == m.element_reference_jacobian(e, &xi)
                && ix.map_element_reference_coords(e, &xi) == m.map_element_reference_coords(e, &xi) && ix.diameter(e) == m.diameter(e)
                && p.min() == q.min() && p.max() == q.max()
        });
        out.ev(json!({"op": "space", "ne": ix.num_elements(), "nn": ix.num_nodes(), "nodes": nodes, "delegates": dele as i64}));
    }
    let size = sc() + m.vertices().iter().map(|p| p.coords.norm()).fold(0.0, f64::max);
    for (i, p) in fpts::<D>(&c["qs"]).iter().enumerate() {
        let jp = p.coords.iter().map(|&x| exact(x / sc(), 1.0)).collect::<Vec<_>>();
        let r = guard(|| ix.find_closest_element_and_reference_coords(p));
        let r = match r { Ok(r) => r, Err(e) => { out.ev(json!({"op": "panic", "msg": e})); continue } };
        if float {
            let d2 = |k: usize, xi: &OPoint<f64, C::ReferenceDim>| (m.map_element_reference_coords(k, xi) - p).norm_squared();
            let tol = 1e-12 * (size + p.coords.norm()).powi(2);
            match &r {
                None => out.ev(json!({"op": "rank", "none": 1, "ne": ne, "better": 0, "claimed": 0, "xi": none})),
                Some((k, xi)) => {
                    let mine = d2(*k, xi);
                    let mut better = 0;
                    let mut claimed = 0;
                    for e in 0..ne {
                        let q = m.closest_point_in_element(e, p);
                        if d2(e, q.point()) < mine - tol { better += 1 }
                        if matches!(q, ClosestPoint::InElement(_)) && d2(e, q.point()) > tol { claimed += 1 }
                    }
                    out.ev(json!({"op": "rank", "none": 0, "ne": ne, "better": better, "claimed": claimed, "xi": gx(xi)}));
                }
            }
            continue;
        }
        match &r {
            None => out.ev(json!({"op": "find", "p": jp, "none": 1, "k": 0, "xi": none})),
            Some((k, xi)) => out.ev(json!({"op": "find", "p": jp, "none": 0, "k": k, "xi": gx(xi)})),
        }
        for k in (0..ne).filter(|k| (k + i) % 3 == 0).take(3) {
            match guard(|| m.closest_point_in_element(k, p)) {
                Err(e) => out.ev(json!({"op": "panic", "msg": e})),
                Ok(q) => out.ev(json!({"op": "one", "p": jp, "k": k, "xi": gx(q.point()), "inside": matches!(q, ClosestPoint::InElement(_)) as i64})),
            }
        }
    }
}

fn main() {
    vh::run(|c, out| { set_scale(c); match st(&c["ct"]) {
        "tri3" => go::<U2, Tri3d2Connectivity>(c, out, |v| Tri3d2Connectivity(v.try_into().unwrap())),
        "tri3s" => go::<U3, Tri3d3Connectivity>(c, out, |v| Tri3d3Connectivity(v.try_into().unwrap())),
        "tet4" => go::<U3, Tet4Connectivity>(c, out, |v| Tet4Connectivity(v.try_into().unwrap())),
        x => die(x),
    }});
}
