//! Regular grids around shapes given by signed distance functions, and meshes made from them (C31).
use fenris::connectivity::*;
use fenris::mesh::procedural::*;
use fenris::mesh::*;
use fenris_geometry::sdf::*;
use fenris_geometry::{AxisAlignedBoundingBox2d, BoundedGeometry};
use nalgebra::{Point2, Vector2, U2};
use vh::*;

#[derive(Clone)]
enum Shape {
    C(SdfCircle<f64>),
    B(SdfAxisAlignedBox<f64>),
    U(Box<SdfUnion<Shape, Shape>>),
}
fn shape(v: &Value) -> Shape {
    let p = |v: &Value| {
        let c = ivec(v);
        Point2::new(c[0] as f64 * sc(), c[1] as f64 * sc())
    };
    match st(&v[0]) {
        "c" => Shape::C(SdfCircle { center: p(&v[1]).coords, radius: int(&v[2]) as f64 * sc() }),
        "b" => Shape::B(SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox2d::new(p(&v[1]), p(&v[2])) }),
        "u" => Shape::U(Box::new(shape(&v[1]).union(shape(&v[2])))),
        k => die(k),
    }
}
impl SignedDistanceFunction2d<f64> for Shape {
    fn eval(&self, x: &Point2<f64>) -> f64 {
        match self {
            Shape::C(s) => s.eval(x),
            Shape::B(s) => s.eval(x),
            Shape::U(s) => s.eval(x),
        }
    }
    fn gradient(&self, x: &Point2<f64>) -> Option<Vector2<f64>> {
        match self {
            Shape::C(s) => s.gradient(x),
            Shape::B(s) => s.gradient(x),
            Shape::U(s) => s.gradient(x),
        }
    }
}
impl BoundedGeometry<f64> for Shape {
    type Dimension = U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<f64> {
        match self {
            Shape::C(s) => s.bounding_box(),
            Shape::B(s) => s.bounding_box(),
            Shape::U(s) => s.bounding_box(),
        }
    }
}

const G: f64 = 1000.0;
fn p3(p: &Point2<f64>) -> Value {
    json!([grid(p.x / sc(), G), grid(p.y / sc(), G)])
}
fn jm<C: Connectivity>(m: &Mesh<f64, U2, C>) -> Value {
    json!({"V": m.vertices().iter().map(p3).collect::<Vec<_>>(), "C": m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect::<Vec<_>>()})
}

fn main() {
    run(|case, out| {
        set_scale(case);
        let h = int(&case["h"]) as f64 * sc() / 4.0;
        match st(&case["do"]) {
            "vox" => {
                let l = ivecs(&case["box"]);
                let q = |p: &Vec<i64>| Point2::new(p[0] as f64 * sc(), p[1] as f64 * sc());
                let r = guard(|| jm(&voxelize_bounding_box_2d(&AxisAlignedBoundingBox2d::new(q(&l[0]), q(&l[1])), h)));
                out.ev(json!({"new": 1, "op": "vox", "lo": l[0], "hi": l[1], "h": case["h"], "ok": r.is_ok() as i32, "r": r.unwrap_or_else(|e| json!(e))}));
            }
            "sdf" => {
                let s = shape(&case["shape"]);
                let r = guard(|| {
                    let b = s.bounding_box();
                    json!({"lo": p3(b.min()), "hi": p3(b.max()), "at": arr(&case["at"]).iter().map(|p| {
                        let c = ivec(p);
                        let x = Point2::new(c[0] as f64 * sc() / 1000.0, c[1] as f64 * sc() / 1000.0);
                        grid(s.eval(&x) / sc(), G)
                    }).collect::<Vec<_>>()})
                });
                out.ev(json!({"new": 1, "op": "shape", "shape": case["shape"], "ex": case["ex"].as_i64().unwrap_or(0), "at": case["at"], "ok": r.is_ok() as i32, "r": r.unwrap_or_else(|e| json!(e))}));
                let r = guard(|| jm(&voxelize_bounding_box_2d(&s.bounding_box(), h)));
                out.ev(json!({"op": "grid", "h": case["h"], "ok": r.is_ok() as i32, "r": r.unwrap_or_else(|e| json!(e))}));
                let r = guard(|| jm(&voxelize_sdf_2d(&s, h)));
                out.ev(json!({"op": "voxsdf", "ok": r.is_ok() as i32, "r": r.unwrap_or_else(|e| json!(e))}));
                let r = guard(|| jm(&approximate_quad_mesh_for_sdf_2d(&s, h)));
                out.ev(json!({"op": "quads", "ok": r.is_ok() as i32, "r": r.unwrap_or_else(|e| json!(e))}));
                if case["tri"] == json!(1) {
                    let r = guard(|| jm(&approximate_triangle_mesh_for_sdf_2d(&s, h)));
                    out.ev(json!({"op": "tris", "ok": r.is_ok() as i32, "r": r.unwrap_or_else(|e| json!(e))}));
                }
            }
            k => die(k),
        }
    });
}
