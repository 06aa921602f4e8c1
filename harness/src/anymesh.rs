//! A mesh of any of the supported cell types, convertible from and to JSON.
use crate::*;
use fenris::connectivity::*;
use fenris::mesh::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, DimName, OPoint, U2, U3};

/// Coordinates of the models are integers; anything that is not (up to rounding) an integer is reported as a marker.
pub fn jverts<D: DimName>(v: &[OPoint<f64, D>]) -> Value
where
    DefaultAllocator: Allocator<f64, D>,
{
    json!(v.iter().map(|p| p.coords.iter().map(|x| near(*x / sc(), 1.0, 1e-6)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
pub fn jconn<C: Connectivity>(c: &[C]) -> Value {
    json!(c.iter().map(|c| c.vertex_indices().to_vec()).collect::<Vec<_>>())
}
pub fn pts<D: DimName>(v: &Value) -> Vec<OPoint<f64, D>>
where
    DefaultAllocator: Allocator<f64, D>,
{
    arr(v).iter().map(|p| OPoint::from(nalgebra::OVector::<f64, D>::from_iterator(ivec(p).into_iter().map(|x| x as f64 * sc())))).collect()
}

macro_rules! any_mesh {
    ($($v:ident, $name:literal, $c:ident, $d:ident, $faces:tt);* $(;)?) => {
        pub enum AnyMesh { $($v(Mesh<f64, $d, $c>)),* }
        impl AnyMesh {
            pub fn from_json(ct: &str, v: &Value, c: &Value) -> Self {
                match ct {
                    $($name => AnyMesh::$v(Mesh::from_vertices_and_connectivity(
                        pts::<$d>(v),
                        uvecs(c).into_iter().map(|x| $c(x.try_into().unwrap_or_else(|_| die("node count")))).collect())),)*
                    o => die(&format!("unknown cell type {o}")),
                }
            }
            pub fn ct(&self) -> &'static str { match self { $(AnyMesh::$v(_) => $name),* } }
            pub fn verts(&self) -> Value { match self { $(AnyMesh::$v(m) => jverts(m.vertices())),* } }
            pub fn cells(&self) -> Value { match self { $(AnyMesh::$v(m) => jconn(m.connectivity())),* } }
            pub fn keep(&self, l: &[usize]) -> AnyMesh { match self { $(AnyMesh::$v(m) => AnyMesh::$v(m.keep_cells(l))),* } }
            pub fn boundary(&self) -> Value {
                match self { $(AnyMesh::$v(m) => {
                    let f: Vec<Value> = m.find_boundary_faces().iter().map(|(c, i, k)| json!([c.vertex_indices(), i, k])).collect();
                    json!({"faces": f, "cells": m.find_boundary_cells(), "verts": m.find_boundary_vertices()})
                })* }
            }
            pub fn reorder(&self) -> (Vec<usize>, Vec<usize>, AnyMesh) {
                match self { $(AnyMesh::$v(m) => {
                    let p = fenris::mesh::reorder::reorder_mesh_par(m);
                    (p.vertex_permutation().perm().to_vec(), p.connectivity_permutation().perm().to_vec(), AnyMesh::$v(p.apply(m)))
                })* }
            }
            pub fn translate(&mut self, t: &[i64]) {
                match self { $(AnyMesh::$v(m) => {
                    m.translate(&nalgebra::OVector::<f64, $d>::from_iterator(t.iter().map(|x| *x as f64 * sc())))
                })* }
            }
            pub fn surface(&self) -> Option<(String, Value, Value)> {
                match self { $(AnyMesh::$v(m) => any_mesh!(@surf $faces, m)),* }
            }
        }
    };
    (@surf (), $m:ident) => {{ let _ = $m; None }};
    (@surf $f:literal, $m:ident) => {{ let s = $m.extract_surface_mesh(); Some(($f.to_string(), jverts(s.vertices()), jconn(s.connectivity()))) }};
}
any_mesh! {
    Seg2, "seg2", Segment2d2Connectivity, U2, ();
    Tri3, "tri3", Tri3d2Connectivity, U2, "seg2";
    Tri6, "tri6", Tri6d2Connectivity, U2, "seg3";
    Quad4, "quad4", Quad4d2Connectivity, U2, "seg2";
    Quad9, "quad9", Quad9d2Connectivity, U2, "seg3";
    Tri3s, "tri3s", Tri3d3Connectivity, U3, "seg2s";
    Tri6s, "tri6s", Tri6d3Connectivity, U3, "seg3s";
    Quad4s, "quad4s", Quad4d3Connectivity, U3, "seg2s";
    Quad8s, "quad8s", Quad8d3Connectivity, U3, "seg3s";
    Quad9s, "quad9s", Quad9d3Connectivity, U3, "seg3s";
    Tet4, "tet4", Tet4Connectivity, U3, "tri3s";
    Tet10, "tet10", Tet10Connectivity, U3, "tri6s";
    Tet20, "tet20", Tet20Connectivity, U3, ();
    Hex8, "hex8", Hex8Connectivity, U3, "quad4s";
    Hex20, "hex20", Hex20Connectivity, U3, "quad8s";
    Hex27, "hex27", Hex27Connectivity, U3, "quad9s";
}
impl AnyMesh {
    pub fn convert(&self, to: &str) -> AnyMesh {
        use AnyMesh::*;
        match (self, to) {
            (Tri3(m), "tri6") => Tri6(m.clone().into()),
            (Quad4(m), "quad9") => Quad9(m.clone().into()),
            (Quad4(m), "tri3") => Tri3(m.clone().split_into_triangles()),
            (Tet4(m), "tet10") => Tet10(m.into()),
            (Tet10(m), "tet4") => Tet4(m.into()),
            (Tet4(m), "tet20") => Tet20(m.into()),
            (Hex8(m), "hex27") => Hex27(m.into()),
            (Hex8(m), "hex20") => Hex20(m.into()),
            (Hex8(m), "tet4") => Tet4(m.into()),
            (m, t) => die(&format!("no conversion {} -> {t}", m.ct())),
        }
    }
    pub fn refine(&self, n: Option<usize>) -> AnyMesh {
        match (self, n) {
            (AnyMesh::Tri3(m), None) => AnyMesh::Tri3(fenris::mesh::refinement::refine_uniformly(m)),
            (AnyMesh::Tri3(m), Some(n)) => AnyMesh::Tri3(fenris::mesh::refinement::refine_uniformly_repeat(m, n)),
            (m, _) => die(&format!("no refinement of {}", m.ct())),
        }
    }
}
