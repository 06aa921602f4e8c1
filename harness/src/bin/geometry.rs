//! C28: geometric primitives and queries. Case: {"kind": ..., integer input}; one session per case.
use fenris_geometry::predicates::orient2d_inexact as orient2d;
use fenris_geometry::sdf::{SdfAxisAlignedBox, SdfCircle, SignedDistanceFunction2d};
use fenris_geometry::util::slices_are_equal_shift_invariant;
use fenris_geometry::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, DimName, OPoint, OVector, Point2, Point3, Unit, Vector2, U2, U3};
use std::convert::TryFrom;
use vh::*;

const F: f64 = 1.0e5;
const G: f64 = 1.0e3;

fn len(x: f64) -> f64 {
    x / sc()
}
fn area(x: f64) -> f64 {
    x / (sc() * sc())
}

fn pt<D: DimName>(v: &Value) -> OPoint<f64, D>
where
    DefaultAllocator: Allocator<f64, D>,
{
    let x = ivec(v);
    if x.len() != D::dim() { die("dimension") }
    OPoint::from(OVector::<f64, D>::from_iterator(x.into_iter().map(|x| x as f64 * sc())))
}
fn pts<D: DimName>(v: &Value) -> Vec<OPoint<f64, D>>
where
    DefaultAllocator: Allocator<f64, D>,
{
    arr(v).iter().map(pt::<D>).collect()
}
fn gp<D: DimName>(p: &OPoint<f64, D>) -> Vec<i64>
where
    DefaultAllocator: Allocator<f64, D>,
{
    p.coords.iter().map(|&x| grid(len(x), F)).collect()
}
fn gv<D: DimName>(p: &OVector<f64, D>, s: f64) -> Vec<i64>
where
    DefaultAllocator: Allocator<f64, D>,
{
    p.iter().map(|&x| grid(x, s)).collect()
}
fn ev<D: DimName>(p: &OVector<f64, D>, s: f64) -> Vec<i64>
where
    DefaultAllocator: Allocator<f64, D>,
{
    p.iter().map(|&x| exact(len(x), s)).collect()
}
fn eva(p: &OVector<f64, U3>, s: f64) -> Vec<i64> {
    p.iter().map(|&x| exact(area(x), s)).collect()
}
fn ep<D: DimName>(p: &OPoint<f64, D>, s: f64) -> Vec<i64>
where
    DefaultAllocator: Allocator<f64, D>,
{
    ev::<D>(&p.coords, s)
}
fn sg(x: f64) -> i64 {
    if x > 0.0 { 1 } else if x < 0.0 { -1 } else if x == 0.0 { 0 } else { NOT_EXACT }
}
/// squared distance
fn d2(x: f64) -> i64 {
    if x < 0.0 { -NOT_EXACT } else { grid(len(x) * len(x), G) }
}
fn b(x: bool) -> i64 {
    x as i64
}
fn ori(o: Orientation) -> i64 {
    match o { Orientation::Counterclockwise => 1, Orientation::Clockwise => -1 }
}
fn bx<D: DimName>(x: &AxisAlignedBoundingBox<f64, D>, s: f64) -> Value
where
    DefaultAllocator: Allocator<f64, D>,
{
    json!({"lo": ep::<D>(x.min(), s), "hi": ep::<D>(x.max(), s)})
}
fn opt<T>(x: Option<T>, f: impl FnOnce(T) -> Value) -> Value {
    match x { Some(x) => json!([f(x)]), None => json!([]) }
}
fn put(out: &mut Out, first: &mut bool, op: &str, c: &Value, f: impl FnOnce() -> Value) {
    let mut e = Map::new();
    e.insert("op".into(), json!(op));
    if let Some(o) = c.as_object() { for (k, v) in o { e.insert(k.clone(), v.clone()); } }
    if *first { e.insert("new".into(), json!(1)); }
    *first = false;
    match guard(f) {
        Ok(v) => { e.insert("ok".into(), json!(1)); e.insert("r".into(), v); }
        Err(m) => { e.insert("ok".into(), json!(0)); e.insert("msg".into(), json!(m)); }
    }
    out.ev(Value::Object(e));
}

fn boxes<D: DimName>(c: &Value, out: &mut Out)
where
    DefaultAllocator: Allocator<f64, D> + Allocator<usize, D>,
{
    let mut first = true;
    type B<D> = AxisAlignedBoundingBox<f64, D>;
    for (lo, hi) in arr(&c["new"]).iter().map(|x| (&x[0], &x[1])) {
        put(out, &mut first, "boxnew", &json!({"lo": lo, "hi": hi}), || bx(&B::<D>::new(pt(lo), pt(hi)), 1.0));
    }
    let a = pts::<D>(&c["a"]);
    put(out, &mut first, "boxof", &json!({"a": c["a"]}), || opt(B::<D>::from_points(&a), |x| bx(&x, 1.0)));
    let Some(x) = B::<D>::from_points(&a) else { return };
    put(out, &mut first, "boxinfo", &json!({"a": c["a"]}), || json!({
        "ext": ev::<D>(&x.extents(), 1.0), "mx": exact(len(x.max_extent()), 1.0), "cen": ep::<D>(&x.center(), 2.0),
        "cor": x.corners_iter().map(|p| ep::<D>(&p, 1.0)).collect::<Vec<_>>(), "self": bx(&x.bounding_box(), 1.0),
        "from": bx(&B::<D>::from(a[0].clone()), 1.0)}));
    for (q, p) in pts::<D>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "boxask", &json!({"a": c["a"], "p": p}), || json!({
            "has": b(x.contains_point(q)), "near": ep::<D>(&x.closest_point_to(q), 1.0), "d2": exact(area(x.dist2_to(q)), 1.0), "d": grid(len(x.dist_to(q)), G),
            "far": ep::<D>(&x.furthest_point_to(q), 1.0), "m2": exact(area(x.max_dist2_to(q)), 1.0), "m": grid(len(x.max_dist_to(q)), G)}));
    }
    for s in arr(&c["others"]) {
        let y = B::<D>::from_points(&pts::<D>(s)).unwrap();
        put(out, &mut first, "boxpair", &json!({"a": c["a"], "b": s}), || json!({"meet": b(x.intersects(&y)), "join": bx(&x.enclose(&y), 1.0)}));
    }
    // successive changes, in units of 1/64
    let mut y = x;
    put(out, &mut first, "walk", &json!({"a": c["a"]}), || bx(&y, 64.0));
    for s in arr(&c["walk"]) {
        let r = match st(&s["do"]) {
            "enclose" => guard(|| y.enclose(&B::<D>::from_points(&pts::<D>(&s["a"])).unwrap())),
            "scale" => guard(|| y.uniformly_scale(int(&s["k"]) as f64 / 2.0)),
            _ => guard(|| y.grow_uniformly(int(&s["k"]) as f64 * sc())),
        };
        match r {
            Ok(z) => { y = z; put(out, &mut first, "step", s, || bx(&y, 64.0)) }
            Err(m) => return put(out, &mut first, "step", s, || panic!("{}", m)),
        }
    }
}

fn segs<D: DimName>(c: &Value, out: &mut Out)
where
    DefaultAllocator: Allocator<f64, D>,
{
    let mut first = true;
    let s = LineSegment::<f64, D>::from_end_points(pt(&c["a"]), pt(&c["b"]));
    let ab = json!({"a": c["a"], "b": c["b"]});
    put(out, &mut first, "seginfo", &ab, || {
        let r = s.reverse();
        json!({"l2": d2(s.length()), "mid": ep::<D>(&s.midpoint(), 2.0), "tan": ev::<D>(&s.tangent_dir(), 1.0), "rev": [ep::<D>(r.start(), 1.0), ep::<D>(r.end(), 1.0)],
               "dir": ev::<D>(s.to_line().dir(), 1.0), "org": ep::<D>(s.to_line().point(), 1.0),
               "at": (-2..7).map(|k| ep::<D>(&s.point_from_parameter(k as f64 / 4.0), 4.0)).collect::<Vec<_>>(),
               "lat": (-2..7).map(|k| ep::<D>(&s.to_line().point_from_parameter(k as f64 / 4.0), 4.0)).collect::<Vec<_>>()})
    });
    if s.start() != s.end() {
        put(out, &mut first, "unit", &ab, || json!({"t": gv::<D>(&s.to_line().tangent(), G), "thru": ev::<D>(Line::<f64, D>::from_point_through_point(s.start().clone(), s.end()).dir(), 1.0)}));
    }
    for (q, p) in pts::<D>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "segask", &json!({"a": c["a"], "b": c["b"], "p": p}), || json!({
            "t": grid(s.closest_point_parametric(q), F), "pt": gp::<D>(&s.closest_point(q)),
            "lt": grid(s.to_line().project_point_parametric(q), F), "lpt": gp::<D>(&s.to_line().project_point(q))}));
    }
}

fn seg2(c: &Value, out: &mut Out) {
    let mut first = true;
    let s = LineSegment2d::from_end_points(pt::<U2>(&c["a"]), pt::<U2>(&c["b"]));
    let with = |x: Value| { let mut m = json!({"a": c["a"], "b": c["b"]}); m.as_object_mut().unwrap().extend(x.as_object().unwrap().clone()); m };
    put(out, &mut first, "segn", &with(json!({})), || json!({"n": ev::<U2>(&s.normal_dir(), 1.0)}));
    for o in arr(&c["segs"]) {
        let t = LineSegment2d::from_end_points(pt::<U2>(&o[0]), pt::<U2>(&o[1]));
        put(out, &mut first, "segseg", &with(json!({"c": o[0], "d": o[1]})), || {
            let (l, k) = (s.to_line(), t.to_line());
            json!({"line": opt(l.intersect_line_parametric(&k), |(x, y)| json!([grid(x, F), grid(y, F)])), "sl": opt(s.intersect_line_parametric(&k), |x| json!(grid(x, F))),
                   "pt": opt(l.intersect(&k), |p| json!(gp::<U2>(&p))), "seg": opt(s.intersect_segment_parametric(&t), |x| json!(grid(x, F)))})
        });
    }
    for o in arr(&c["disks"]) {
        let d = Disk::from_center_and_radius(pt::<U2>(&o[0]), int(&o[1]) as f64 * sc());
        put(out, &mut first, "disk", &with(json!({"c": o[0], "rad": o[1]})), || {
            let two = |x: [f64; 2]| json!([grid(x[0], G), grid(x[1], G)]);
            let ends = |x: LineSegment2d<f64>| json!([gp::<U2>(x.start()), gp::<U2>(x.end())]);
            json!({"line": opt(s.to_line().intersect_disk_parametric(&d), two), "ls": opt(s.to_line().intersect_disk(&d), ends),
                   "seg": opt(s.intersect_disk_parametric(&d), two), "ss": opt(s.intersect_disk(&d), ends)})
        });
    }
    for o in arr(&c["polys"]) {
        let p = ConvexPolygon::from_vertices(pts::<U2>(o));
        put(out, &mut first, "segpoly", &with(json!({"V": o})), || opt(s.intersect_polygon(&p), |x| json!([gp::<U2>(x.start()), gp::<U2>(x.end())])));
    }
}

fn planes(c: &Value, out: &mut Out) {
    let mut first = true;
    let n = Unit::new_normalize(pt::<U3>(&c["N"]).coords);
    let x = pt::<U3>(&c["x"]);
    let (p, h) = (Plane::from_point_and_normal(x, n), HalfSpace::from_point_and_normal(x, n));
    let nx = json!({"N": c["N"], "x": c["x"]});
    put(out, &mut first, "plane", &nx, || {
        let (f, k, g) = (p.flipped(), h.complement(), HalfSpace::from_plane(&p));
        json!({"n": gv::<U3>(&p.normal(), G), "fn": gv::<U3>(&f.normal(), G), "kn": gv::<U3>(k.normal(), G), "gn": gv::<U3>(g.normal(), G), "hn": gv::<U3>(&h.plane().normal(), G),
               "pts": [ep::<U3>(p.point(), 1.0), ep::<U3>(f.point(), 1.0), ep::<U3>(k.point(), 1.0), ep::<U3>(g.point(), 1.0), ep::<U3>(h.plane().point(), 1.0)],
               "tan": p.compute_tangent_vectors().iter().map(|t| gv::<U3>(t, 1.0e4)).collect::<Vec<_>>()})
    });
    for (q, v) in pts::<U3>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "side", &json!({"N": c["N"], "x": c["x"], "p": v}), || {
            let (s, t) = (h.signed_distance_to_point(q), h.complement().signed_distance_to_point(q));
            json!({"s": sg(s), "d2": d2(s.abs()), "has": b(h.contains_point(q)), "cs": sg(t), "cd2": d2(t.abs())})
        });
    }
    for o in arr(&c["segs"]) {
        let s = LineSegment3d::from_end_points(pt::<U3>(&o[0]), pt::<U3>(&o[1]));
        put(out, &mut first, "segplane", &json!({"N": c["N"], "x": c["x"], "a": o[0], "b": o[1]}), || json!({
            "t": grid(s.closest_point_to_plane_parametric(&p), F), "pt": gp::<U3>(&s.closest_point_to_plane(&p)),
            "cut": opt(s.intersect_plane_parametric(&p), |t| json!(grid(t, F)))}));
    }
}

fn tri2(c: &Value, out: &mut Out) {
    let mut first = true;
    let v = pts::<U2>(&c["V"]);
    let t = Triangle([v[0], v[1], v[2]]);
    put(out, &mut first, "tri2", &json!({"V": c["V"]}), || {
        let mut w = t.clone();
        w.swap_vertices(0, 2);
        json!({"a2": exact(area(t.signed_area()), 2.0), "abs": exact(area(t.area()), 2.0), "o": ori(t.orientation()), "c": gp::<U2>(&t.centroid()), "sides": t.sides().iter().map(|s| ev::<U2>(s, 1.0)).collect::<Vec<_>>(),
               "edges": (0..3).map(|i| { let e = t.edge(i); json!([ep::<U2>(e.start(), 1.0), ep::<U2>(e.end(), 1.0)]) }).collect::<Vec<_>>(),
               "box": bx(&t.bounding_box(), 1.0), "or": exact(area(orient2d(&v[0], &v[1], &v[2])), 1.0), "swap": w.0.iter().map(|p| ep::<U2>(p, 1.0)).collect::<Vec<_>>(),
               "poly": ConvexPolygon::from(t.clone()).vertices().iter().map(|p| ep::<U2>(p, 1.0)).collect::<Vec<_>>()})
    });
    for (q, p) in pts::<U2>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "tri2ask", &json!({"V": c["V"], "p": p}), || {
            let r = t.query_signed_distance(q).unwrap();
            json!({"s": sg(r.signed_distance), "d2": d2(r.signed_distance.abs()), "pt": gp::<U2>(&r.point), "f": r.feature_id, "dd": d2(t.distance(q))})
        });
    }
}

fn faces3<'a, P: ConvexPolygon3d<'a, f64>>(p: &P, q: &Point3<f64>) -> Value {
    let r = p.closest_point(q);
    json!({"pt": gp::<U3>(&r.closest_point), "d2": d2(r.distance)})
}
fn face3<'a, P: ConvexPolygon3d<'a, f64>>(p: &P) -> Value {
    json!({"nv": p.num_vertices(), "vs": (0..p.num_vertices() + 1).map(|i| opt(p.get_vertex(i), |x| json!(ep::<U3>(&x, 1.0)))).collect::<Vec<_>>(), "av": eva(&p.compute_area_vector(), 2.0),
           "n": gv::<U3>(&p.compute_normal(), G), "pn": gv::<U3>(&p.compute_plane().unwrap().normal(), G), "pp": ep::<U3>(p.compute_plane().unwrap().point(), 1.0),
           "hn": gv::<U3>(p.compute_half_space().unwrap().normal(), G), "hp": ep::<U3>(p.compute_half_space().unwrap().point(), 1.0)})
}

fn flat3(c: &Value, out: &mut Out) {
    let mut first = true;
    let v = pts::<U3>(&c["V"]);
    if v.len() == 3 {
        let t = Triangle([v[0], v[1], v[2]]);
        put(out, &mut first, "face3", &json!({"V": c["V"]}), || face3(&t));
        put(out, &mut first, "tri3", &json!({"V": c["V"]}), || json!({"nd": eva(&t.normal_dir(), 1.0), "n": gv::<U3>(&t.normal(), G), "a2": d2(t.area() / sc()), "c": gp::<U3>(&t.centroid()), "sides": t.sides().iter().map(|s| ev::<U3>(s, 1.0)).collect::<Vec<_>>(),
               "edges": (0..3).map(|i| { let e = t.edge(i); json!([ep::<U3>(e.start(), 1.0), ep::<U3>(e.end(), 1.0)]) }).collect::<Vec<_>>(), "box": bx(&t.bounding_box(), 1.0)}));
        for (q, p) in pts::<U3>(&c["qs"]).iter().zip(arr(&c["qs"])) {
            put(out, &mut first, "face3ask", &json!({"V": c["V"], "p": p}), || {
                let mut x = faces3(&t, q);
                x["dd"] = json!(d2(t.distance(q)));
                x["or"] = json!(match t.point_orientation(q) { OrientationTestResult::Positive => 1, OrientationTestResult::Negative => -1, OrientationTestResult::Zero => 0 });
                x
            });
            put(out, &mut first, "solid", &json!({"V": c["V"], "p": p, "c": c["mid"]}), || {
                let m = pt::<U3>(&c["mid"]);
                let w = |a, b, c| grid(Triangle([a, b, c]).compute_solid_angle(q), F);
                json!({"all": w(v[0], v[1], v[2]), "parts": [w(v[0], v[1], m), w(v[1], v[2], m), w(v[2], v[0], m)], "turn": w(v[1], v[2], v[0]), "flip": w(v[1], v[0], v[2])})
            });
        }
    } else {
        let t = Quad3d::from_vertices([v[0], v[1], v[2], v[3]]);
        put(out, &mut first, "face3", &json!({"V": c["V"]}), || face3(&t));
        for (q, p) in pts::<U3>(&c["qs"]).iter().zip(arr(&c["qs"])) {
            put(out, &mut first, "face3ask", &json!({"V": c["V"], "p": p}), || faces3(&t, q));
        }
    }
}

fn poly_body<'a, P: ConvexPolyhedron<'a, f64> + Distance<f64, Point3<f64>> + BoundedGeometry<f64, Dimension = U3>>(x: &'a P, c: &Value, out: &mut Out, sd: impl Fn(&Point3<f64>) -> SignedDistanceResult<f64, U3>) {
    let mut first = true;
    let fv = |f: P::Face| json!((0..f.num_vertices()).map(|i| ep::<U3>(&f.get_vertex(i).unwrap(), 1.0)).collect::<Vec<_>>());
    put(out, &mut first, "body", &json!({"body": c["body"], "V": c["V"]}), || json!({"vol": grid(area(len(x.compute_volume())) * 6.0, G), "box": bx(&x.bounding_box(), 1.0),
        "faces": (0..x.num_faces()).map(|i| fv(x.get_face(i).unwrap())).collect::<Vec<_>>(), "more": b(x.get_face(x.num_faces()).is_some())}));
    for (q, p) in pts::<U3>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "bodyask", &json!({"body": c["body"], "V": c["V"], "p": p}), || {
            let r = sd(q);
            json!({"s": sg(r.signed_distance), "d2": d2(r.signed_distance.abs()), "pt": gp::<U3>(&r.point), "f": r.feature_id, "dd": d2(x.distance(q)), "has": b(x.contains_point(q))})
        });
    }
}

fn body(c: &Value, out: &mut Out) {
    let v = pts::<U3>(&c["V"]);
    if v.len() == 4 {
        let x = Tetrahedron::from_vertices([v[0], v[1], v[2], v[3]]);
        poly_body(&x, c, out, |q| x.compute_signed_distance(q));
    } else {
        let x = Hexahedron::from_vertices([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]]);
        poly_body(&x, c, out, |q| x.query_signed_distance(q).unwrap());
    }
    // the surface as a list of triangles
    let tri: Vec<Triangle3d<f64>> = uvecs(&c["tris"]).iter().map(|t| Triangle([v[t[0]], v[t[1]], v[t[2]]])).collect();
    let mut first = false;
    for (q, p) in pts::<U3>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "winding", &json!({"body": c["body"], "V": c["V"], "p": p, "tris": c["tris"]}), || json!({"w": grid(compute_winding_number_for_triangles_3d(tri.iter().cloned(), q), F)}));
    }
}

fn quad2(c: &Value, out: &mut Out) {
    let mut first = true;
    let v = pts::<U2>(&c["V"]);
    let q = Quad2d([v[0], v[1], v[2], v[3]]);
    put(out, &mut first, "quad2", &json!({"V": c["V"]}), || json!({"a2": exact(area(q.area()), 2.0), "box": bx(&q.bounding_box(), 1.0)}));
    for (x, p) in pts::<U2>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "quad2ask", &json!({"V": c["V"], "p": p}), || json!({"dd": d2(q.distance(x))}));
    }
    if us(&c["corner"]) == 1 {
        put(out, &mut first, "corner", &json!({"V": c["V"], "note": c["note"]}), || json!({"k": opt(q.concave_corner(), |k| json!(k)),
            "poly": opt(ConvexPolygon::try_from(q).ok(), |p| json!(p.vertices().iter().map(|p| ep::<U2>(p, 1.0)).collect::<Vec<_>>()))}));
    }
}

fn spoly(c: &Value, out: &mut Out) {
    let mut first = true;
    let p = SimplePolygon2d::from_vertices(pts::<U2>(&c["V"]));
    let ends = |e: LineSegment2d<f64>| json!([ep::<U2>(e.start(), 1.0), ep::<U2>(e.end(), 1.0)]);
    put(out, &mut first, "poly", &json!({"V": c["V"]}), || json!({"a2": exact(area(p.signed_area()), 2.0), "abs": exact(area(p.area()), 2.0), "o": ori(p.orientation()), "ne": Polygon2d::num_edges(&p), "nv": Polygon2d::num_vertices(&p),
        "edges": (0..p.num_edges() + 1).map(|i| opt(p.get_edge(i), ends)).collect::<Vec<_>>(), "none": b(p.closest_edge(&Point2::new(0.5, 0.5)).is_none()),
        "hit": b(p.intersects_segment(&LineSegment2d::from_end_points(Point2::new(0.0, 0.0), Point2::new(1.0, 0.0))))}));
    if p.num_vertices() == 0 { return }
    put(out, &mut first, "polybox", &json!({"V": c["V"]}), || json!({"box": bx(&p.bounding_box(), 1.0), "it": p.edge_iter().map(ends).collect::<Vec<_>>()}));
    for (q, x) in pts::<U2>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "polyask", &json!({"V": c["V"], "p": x}), || {
            let r = p.closest_edge(q).unwrap();
            json!({"s": sg(r.signed_distance), "d2": d2(r.signed_distance.abs()), "t": grid(r.edge_parameter, F), "pt": gp::<U2>(&r.edge_point), "k": r.edge_index, "dd": d2(p.distance(q))})
        });
    }
    for s in arr(&c["segs"]) {
        let l = LineSegment2d::from_end_points(pt::<U2>(&s[0]), pt::<U2>(&s[1]));
        put(out, &mut first, "polyseg", &json!({"V": c["V"], "a": s[0], "b": s[1]}), || json!({"hit": b(p.intersects_segment(&l))}));
    }
}

fn cpoly(c: &Value, out: &mut Out) {
    let mut first = true;
    let p = ConvexPolygon::from_vertices(pts::<U2>(&c["V"]));
    let tris = |v: Vec<Triangle2d<f64>>| json!(v.iter().map(|t| t.0.iter().map(|x| ep::<U2>(x, 1.0)).collect::<Vec<_>>()).collect::<Vec<_>>());
    put(out, &mut first, "cpoly", &json!({"V": c["V"], "q": c["mid"]}), || {
        let s = SimplePolygon2d::from(p.clone());
        json!({"ne": p.num_edges(), "edges": p.edges().map(|(a, b)| json!([ep::<U2>(a, 1.0), ep::<U2>(b, 1.0)])).collect::<Vec<_>>(), "is": [b(p.is_empty()), b(p.is_point()), b(p.is_line_segment())],
               "hp": p.half_planes().map(|h| json!([ep::<U2>(h.point(), 1.0), gv::<U2>(h.normal(), G)])).collect::<Vec<_>>(), "tri": tris(p.triangulate().collect()), "tri2": tris(p.triangulate_into_vec()),
               "fan": tris(s.assume_convex().triangulate()), "at": tris(s.assume_convex().triangulate_at_point(&pt::<U2>(&c["mid"]))), "simple": s.vertices().iter().map(|x| ep::<U2>(x, 1.0)).collect::<Vec<_>>()})
    });
    for (q, x) in pts::<U2>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "cpolyask", &json!({"V": c["V"], "p": x}), || json!({"has": b(p.contains_point(q))}));
    }
    let show = |p: &ConvexPolygon<f64>| json!(p.vertices().iter().map(gp::<U2>).collect::<Vec<_>>());
    for o in arr(&c["others"]) {
        let r = ConvexPolygon::from_vertices(pts::<U2>(o));
        put(out, &mut first, "meet", &json!({"V": c["V"], "W": o}), || show(&p.intersect_polygon(&r)));
        put(out, &mut first, "meet", &json!({"V": o, "W": c["V"]}), || show(&r.intersect_polygon(&p)));
    }
    let mut p = p;
    put(out, &mut first, "cut0", &json!({"V": c["V"]}), || show(&p));
    for h in arr(&c["cuts"]) {
        let hp = HalfPlane::from_point_and_normal(pt::<U2>(&h[1]), Unit::new_normalize(pt::<U2>(&h[0]).coords));
        let r = guard(|| p.intersect_halfplane(&hp));
        let bad = r.is_err();
        put(out, &mut first, "cut", &json!({"N": h[0], "x": h[1]}), || { p = r.unwrap(); show(&p) });
        if bad { return }
    }
}

fn cutseg(c: &Value, out: &mut Out) {
    let mut first = true;
    let mut s = Some(LineSegment2d::from_end_points(pt::<U2>(&c["V"][0]), pt::<U2>(&c["V"][1])));
    let show = |s: &Option<LineSegment2d<f64>>| match s { None => json!([]), Some(s) => json!([gp::<U2>(s.start()), gp::<U2>(s.end())]) };
    put(out, &mut first, "cut0", &json!({"V": c["V"]}), || show(&s));
    for h in arr(&c["cuts"]) {
        let hp = HalfPlane::from_point_and_normal(pt::<U2>(&h[1]), Unit::new_normalize(pt::<U2>(&h[0]).coords));
        let r = guard(|| s.clone().and_then(|s| s.intersect_half_plane(&hp)));
        let bad = r.is_err();
        put(out, &mut first, "cutseg", &json!({"N": h[0], "x": h[1]}), || { s = r.unwrap(); show(&s) });
        if bad { return }
    }
}

fn cut3(c: &Value, out: &mut Out) {
    let mut first = true;
    let mut p = SimplePolygon3d::from_vertices(pts::<U3>(&c["V"]));
    let show = |p: &SimplePolygon3d<f64>| json!(p.vertices().iter().map(gp::<U3>).collect::<Vec<_>>());
    put(out, &mut first, "space", &json!({"V": c["V"]}), || json!({"av": eva(&p.area_vector(), 2.0), "a2": d2(p.area() / sc()), "box": bx(&p.bounding_box(), 1.0)}));
    put(out, &mut first, "cut0", &json!({"V": c["V"]}), || show(&p));
    for h in arr(&c["cuts"]) {
        let hs = HalfSpace::from_point_and_normal(pt::<U3>(&h[1]), Unit::new_normalize(pt::<U3>(&h[0]).coords));
        let r = guard(|| p.intersect_half_space(&hs));
        let bad = r.is_err();
        put(out, &mut first, "cut3", &json!({"N": h[0], "x": h[1]}), || { p = r.unwrap(); show(&p) });
        if bad { return }
    }
}

fn sdf(c: &Value, out: &mut Out) {
    let mut first = true;
    let cir = SdfCircle { center: pt::<U2>(&c["c"]).coords, radius: int(&c["rad"]) as f64 * sc() };
    let bo = SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox2d::from_points(&pts::<U2>(&c["a"])).unwrap() };
    let un = cir.union(bo);
    let cc = json!({"c": c["c"], "rad": c["rad"], "a": c["a"]});
    put(out, &mut first, "sdfbox", &cc, || {
        let g = |x: AxisAlignedBoundingBox2d<f64>| json!({"lo": gp::<U2>(x.min()), "hi": gp::<U2>(x.max())});
        json!({"cir": g(cir.bounding_box()), "box": g(bo.bounding_box()), "un": g(un.bounding_box())})
    });
    for (q, x) in pts::<U2>(&c["qs"]).iter().zip(arr(&c["qs"])) {
        put(out, &mut first, "sdf", &json!({"c": c["c"], "rad": c["rad"], "a": c["a"], "p": x}), || {
            let gr = |v: Option<Vector2<f64>>| opt(v, |v| json!(gv::<U2>(&v, G)));
            json!({"cir": grid(len(cir.eval(q)), G), "box": grid(len(bo.eval(q)), G), "un": grid(len(un.eval(q)), G), "gc": gr(cir.gradient(q)), "gb": gr(bo.gradient(q)), "gu": gr(un.gradient(q))})
        });
    }
}

fn main() {
    run(|c, out| {
        let dim = c["dim"].as_u64().unwrap_or(2);
        set_scale(c);
        match st(&c["kind"]) {
            "box" if dim == 2 => boxes::<U2>(c, out),
            "box" => boxes::<U3>(c, out),
            "seg" if dim == 2 => segs::<U2>(c, out),
            "seg" => segs::<U3>(c, out),
            "seg2" => seg2(c, out),
            "plane" => planes(c, out),
            "tri2" => tri2(c, out),
            "flat3" => flat3(c, out),
            "body" => body(c, out),
            "quad2" => quad2(c, out),
            "spoly" => spoly(c, out),
            "cpoly" => cpoly(c, out),
            "cutseg" => cutseg(c, out),
            "cut3" => cut3(c, out),
            "sdf" => sdf(c, out),
            "shift" => {
                let (x, y) = (ivec(&c["x"]), ivec(&c["y"]));
                let mut first = true;
                put(out, &mut first, "shift", &json!({"x": x, "y": y}), || json!({"eq": b(slices_are_equal_shift_invariant(&x, &y, |a, b| a == b))}));
            }
            k => die(k),
        }
    });
}
