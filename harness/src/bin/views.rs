//! What a mesh shows of itself while its vertices move: cells, faces, boxes (C32).
use fenris::connectivity::*;
use fenris::geometry::*;
use fenris::mesh::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, DimName, OPoint, OVector, Point2, Point3, U2, U3};
use vh::anymesh::{jconn, jverts, pts};
use vh::*;

trait Corners<D: DimName>
where
    DefaultAllocator: Allocator<f64, D>,
{
    fn corners(&self) -> Vec<OPoint<f64, D>>;
}
impl Corners<U2> for LineSegment2d<f64> {
    fn corners(&self) -> Vec<Point2<f64>> {
        vec![self.start().clone(), self.end().clone()]
    }
}
impl Corners<U2> for Triangle2d<f64> {
    fn corners(&self) -> Vec<Point2<f64>> {
        self.0.to_vec()
    }
}
impl Corners<U3> for Triangle3d<f64> {
    fn corners(&self) -> Vec<Point3<f64>> {
        self.0.to_vec()
    }
}
impl Corners<U2> for Quad2d<f64> {
    fn corners(&self) -> Vec<Point2<f64>> {
        self.0.to_vec()
    }
}
// the vertices of solids are only visible in what they print
fn printed(x: &impl std::fmt::Debug) -> Vec<Point3<f64>> {
    let s = format!("{x:?}");
    let s = s.split_once("vertices:").unwrap_or_else(|| die("Debug format")).1;
    let nums: Vec<f64> = s.split(|c: char| !(c.is_ascii_digit() || ".-+einfNa".contains(c))).filter_map(|t| t.parse().ok()).collect();
    nums.chunks(3).map(|c| Point3::new(c[0], c[1], c[2])).collect()
}
impl Corners<U3> for Tetrahedron<f64> {
    fn corners(&self) -> Vec<Point3<f64>> {
        printed(self)
    }
}
impl Corners<U3> for Hexahedron<f64> {
    fn corners(&self) -> Vec<Point3<f64>> {
        printed(self)
    }
}
trait Low {
    fn low(&self) -> Value;
}
macro_rules! low {
    ($($c:ident => $l:ident),*) => { $(impl Low for $c { fn low(&self) -> Value { json!($l::from(self).vertex_indices()) } })* };
}
macro_rules! nolow {
    ($($c:ident),*) => { $(impl Low for $c { fn low(&self) -> Value { json!([]) } })* };
}
low!(Quad9d2Connectivity => Quad4d2Connectivity, Tri6d2Connectivity => Tri3d2Connectivity, Tet10Connectivity => Tet4Connectivity, Tet20Connectivity => Tet4Connectivity);
nolow!(Segment2d2Connectivity, Tri3d2Connectivity, Quad4d2Connectivity, Tri3d3Connectivity, Tri6d3Connectivity, Tet4Connectivity, Hex8Connectivity, Hex20Connectivity, Hex27Connectivity);

fn cell<D: DimName, X: Corners<D>>(c: &X) -> Value
where
    DefaultAllocator: Allocator<f64, D>,
{
    jverts(&c.corners())
}
fn look<D, C>(m: &Mesh<f64, D, C>, boxed: impl Fn(&Mesh<f64, D, C>) -> Value) -> Value
where
    D: DimName,
    C: CellConnectivity<f64, D> + Low,
    C::Cell: Corners<D>,
    DefaultAllocator: Allocator<f64, D>,
{
    let n = m.connectivity().len();
    let past: i32 = [n, n + 1, n + 1000, usize::MAX].iter().map(|i| m.get_cell(*i).is_some() as i32 + m.get_geometry(*i).is_some() as i32).sum();
    let fpast: usize = m.connectivity().iter().map(|c| [c.num_faces(), c.num_faces() + 1, 100, usize::MAX].iter().filter(|i| c.get_face_connectivity(**i).is_some()).count()).sum();
    json!({
        "V": jverts(m.vertices()), "C": jconn(m.connectivity()),
        "cells": (0..n).map(|i| m.get_cell(i).map(|c| cell(&c)).unwrap_or(json!("none"))).collect::<Vec<_>>(),
        "iter": m.cell_iter().map(|c| cell(&c)).collect::<Vec<_>>(),
        "num": m.num_geometries(),
        "geo": (0..n).map(|i| m.get_geometry(i).map(|c| cell(&c)).unwrap_or(json!("none"))).collect::<Vec<_>>(),
        "past": past,
        "box": boxed(m),
        "faces": m.connectivity().iter().map(|c| (0..c.num_faces()).map(|i| c.get_face_connectivity(i).map(|f| json!(f.vertex_indices())).unwrap_or(json!("none"))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "each": m.connectivity().iter().map(|c| { let mut v = vec![]; c.for_each_face(|f| v.push(f.vertex_indices().to_vec())); v }).collect::<Vec<_>>(),
        "fpast": fpast,
        "low": m.connectivity().iter().map(|c| c.low()).collect::<Vec<_>>(),
    })
}

fn go<D, C>(case: &Value, out: &mut Out, mk: impl Fn(Vec<usize>) -> C, boxed: impl Fn(&Mesh<f64, D, C>) -> Value)
where
    D: DimName,
    C: CellConnectivity<f64, D> + Low,
    C::Cell: Corners<D>,
    DefaultAllocator: Allocator<f64, D>,
{
    let mut m = Mesh::<f64, D, C>::from_vertices_and_connectivity(pts::<D>(&case["V"]), uvecs(&case["C"]).into_iter().map(&mk).collect());
    let vec = |v: &Value| OVector::<f64, D>::from_iterator(ivec(v).into_iter().map(|x| x as f64 * sc()));
    let show = |out: &mut Out, mut e: Value, m: &Mesh<f64, D, C>, ok: bool| {
        let r = guard(|| look(m, &boxed));
        e["ok"] = json!((ok && r.is_ok()) as i32);
        e["r"] = r.unwrap_or_else(|x| json!(x));
        out.ev(e);
    };
    show(out, json!({"new": 1, "op": "mesh", "ct": case["ct"], "V": case["V"], "C": case["C"]}), &m, true);
    for op in arr(&case["ops"]) {
        let mut e = json!({"op": op[0], "a": op.get(1).cloned().unwrap_or(json!(0)), "b": op.get(2).cloned().unwrap_or(json!(0))});
        let mut seen = 0;
        let ok = guard(|| match st(&op[0]) {
            "translate" => m.translate(&vec(&op[1])),
            "translated" => m = std::mem::replace(&mut m, Mesh::from_vertices_and_connectivity(vec![], vec![])).translated(&vec(&op[1])),
            "map" => {
                // p -> A p + b
                let (a, b) = (ivecs(&op[1]), ivec(&op[2]));
                m.transform_vertices(|p| {
                    seen += 1;
                    let q = OVector::<f64, D>::from_iterator((0..D::dim()).map(|i| (0..D::dim()).map(|j| a[i][j] as f64 * p[j]).sum::<f64>() + b[i] as f64 * sc()));
                    *p = OPoint::from(q);
                })
            }
            "all" => {
                // all at once: positions are rotated among the vertices
                let k = us(&op[1]);
                m.transform_all_vertices(|v| {
                    seen += v.len();
                    if !v.is_empty() { v.rotate_left(k % v.len()) }
                })
            }
            "poke" => {
                let i = us(&op[1]);
                seen = m.vertices_mut().len();
                m.vertices_mut()[i] = OPoint::from(vec(&op[2]));
            }
            "clone" => m = m.clone(),
            o => die(o),
        });
        e["seen"] = json!(seen);
        let ok = ok.is_ok();
        show(out, e, &m, ok);
        if !ok {
            return;
        }
    }
    // a cell that refers to vertices that do not exist
    if let Some(bad) = case.get("bad") {
        let m = Mesh::<f64, D, C>::from_vertices_and_connectivity(m.vertices().to_vec(), vec![mk(uvec(bad))]);
        let r = guard(|| m.get_cell(0).map(|c| cell(&c)));
        out.ev(json!({"op": "bad", "a": bad, "r": match r { Err(_) => json!("panic"), Ok(None) => json!("none"), Ok(Some(c)) => c }}));
    }
}

fn main() {
    run(|case, out| {
        set_scale(case);
        macro_rules! t {
            ($($n:literal $c:ident $d:ident $b:tt);* $(;)?) => { match st(&case["ct"]) {
                $($n => go::<$d, $c>(case, out, |v| $c(v.try_into().unwrap_or_else(|_| die("node count"))), t!(@ $b))),*,
                o => die(o),
            } };
            (@ b) => { |m| { let b = m.bounding_box(); jverts(&[b.min().clone(), b.max().clone()]) } };
            (@ n) => { |_| json!([]) };
        }
        t! {
            "seg2" Segment2d2Connectivity U2 n;
            "tri3" Tri3d2Connectivity U2 b;
            "tri6" Tri6d2Connectivity U2 b;
            "quad4" Quad4d2Connectivity U2 b;
            "quad9" Quad9d2Connectivity U2 b;
            "tri3s" Tri3d3Connectivity U3 b;
            "tri6s" Tri6d3Connectivity U3 b;
            "tet4" Tet4Connectivity U3 b;
            "tet10" Tet10Connectivity U3 b;
            "tet20" Tet20Connectivity U3 b;
            "hex8" Hex8Connectivity U3 b;
            "hex20" Hex20Connectivity U3 b;
            "hex27" Hex27Connectivity U3 b;
        }
    });
}
