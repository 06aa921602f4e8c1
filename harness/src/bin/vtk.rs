//! C24: building and exporting data sets. Case: {"T","D","ct","V","C","steps":[...]}
use fenris::connectivity::*;
use fenris::io::vtk::{FiniteElementMeshDataSetBuilder, VtkCellConnectivity};
use fenris::mesh::Mesh;
use fenris::vtkio::model::*;
use fenris::Real;
use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, OPoint, OVector, U1, U2, U3};
use vh::*;

trait Enc: nalgebra::Scalar + num_traits::ToPrimitive + Copy { fn enc(self) -> String; fn of(v: f64) -> Self; }
macro_rules! enc { ($($t:ident $f:expr),*) => { $(impl Enc for $t { fn enc(self) -> String { let f: fn($t) -> String = $f; format!("{}:{}", stringify!($t), f(self)) } fn of(v: f64) -> Self { v as $t } })* } }
enc!(f64 |x| format!("{:016x}", x.to_bits()), f32 |x| format!("{:08x}", x.to_bits()), i32 |x| x.to_string(), u32 |x| x.to_string(), u64 |x| x.to_string(), i64 |x| x.to_string(), u8 |x| x.to_string(), i8 |x| x.to_string(), u16 |x| x.to_string());

fn buf(b: &IOBuffer) -> Vec<String> {
    match b {
        IOBuffer::F64(v) => v.iter().map(|x| x.enc()).collect(),
        IOBuffer::F32(v) => v.iter().map(|x| x.enc()).collect(),
        IOBuffer::I32(v) => v.iter().map(|x| x.enc()).collect(),
        IOBuffer::U32(v) => v.iter().map(|x| x.enc()).collect(),
        IOBuffer::U64(v) => v.iter().map(|x| x.enc()).collect(),
        IOBuffer::I64(v) => v.iter().map(|x| x.enc()).collect(),
        IOBuffer::U8(v) => v.iter().map(|x| x.enc()).collect(),
        IOBuffer::I8(v) => v.iter().map(|x| x.enc()).collect(),
        IOBuffer::U16(v) => v.iter().map(|x| x.enc()).collect(),
        _ => vec!["other".to_string()],
    }
}
fn attr(a: &Attribute) -> Value {
    match a {
        Attribute::DataArray(d) => json!({"name": d.name, "nc": d.num_comp(), "data": buf(&d.data)}),
        Attribute::Field { .. } => json!("field"),
    }
}
fn show(d: &DataSet) -> Value {
    let DataSet::UnstructuredGrid { pieces, .. } = d else { return json!({"res": "kind"}) };
    if pieces.len() != 1 { return json!({"res": "pieces"}) }
    let Piece::Inline(p) = &pieces[0] else { return json!({"res": "piece"}) };
    let mut cells: Vec<Vec<i64>> = vec![];
    match &p.cells.cell_verts {
        VertexNumbers::Legacy { num_cells, vertices } => {
            let mut i = 0;
            while i < vertices.len() {
                let n = vertices[i] as usize;
                if i + 1 + n > vertices.len() { return json!({"res": "overrun"}) }
                cells.push(vertices[i + 1..i + 1 + n].iter().map(|&x| x as i64).collect());
                i += 1 + n;
            }
            if cells.len() != *num_cells as usize { return json!({"res": "num_cells"}) }
        }
        VertexNumbers::XML { connectivity, offsets } => {
            let mut i = 0;
            for &o in offsets {
                let o = o as usize;
                if o < i || o > connectivity.len() { return json!({"res": "offsets"}) }
                cells.push(connectivity[i..o].iter().map(|&x| x as i64).collect());
                i = o;
            }
            if i != connectivity.len() { return json!({"res": "offsets"}) }
        }
    }
    let types: Vec<String> = p.cells.types.iter().map(|t| format!("{t:?}")).collect();
    json!({"res": "ok", "points": buf(&p.points), "cells": cells, "types": types,
        "pa": p.data.point.iter().map(attr).collect::<Vec<_>>(), "ca": p.data.cell.iter().map(attr).collect::<Vec<_>>()})
}
fn failed(r: &str) -> Value { json!({"res": r, "points": [], "cells": [], "types": [], "pa": [], "ca": []}) }

type B<'a, T, D, C> = FiniteElementMeshDataSetBuilder<'a, T, D, C>;
fn add<'a, T: Real + num_traits::ToPrimitive, D: DimName, C, S: Enc + num_traits::Zero>(b: B<'a, T, D, C>, s: &Value) -> (B<'a, T, D, C>, Vec<String>, String)
where DefaultAllocator: Allocator<T, D>
{
    let data: Vec<S> = arr(&s["data"]).iter().map(|x| S::of(x.as_f64().unwrap())).collect();
    let nc = us(&s["nc"]);
    let name = st(&s["name"]);
    let b = match (st(&s["at"]), st(&s["kind"])) {
        ("point", "vectors") => b.with_point_vector_attributes(name, nc, &data),
        ("point", _) => b.with_point_scalar_attributes(name, nc, &data),
        _ => b.with_cell_scalar_attributes(name, nc, &data),
    };
    (b, vec![], String::new())
}
fn encoded<S: Enc>(s: &Value) -> (Vec<String>, String) {
    (arr(&s["data"]).iter().map(|x| S::of(x.as_f64().unwrap()).enc()).collect(), S::of(0.0).enc())
}
macro_rules! by_type { ($s:expr, $f:ident) => { match st(&$s["S"]) { "f64" => $f!(f64), "f32" => $f!(f32), "i32" => $f!(i32), "u32" => $f!(u32), "u64" => $f!(u64), "i64" => $f!(i64), "u8" => $f!(u8), "i8" => $f!(i8), "u16" => $f!(u16), x => die(x) } } }

fn go<T: Real + Enc, D: DimName, C: VtkCellConnectivity>(c: &Value, out: &mut Out, mk: impl Fn(Vec<usize>) -> C)
where
    DefaultAllocator: Allocator<T, D>,
{
    let v: Vec<OPoint<T, D>> = arr(&c["V"]).iter().map(|p| OPoint::from(OVector::<T, D>::from_iterator(arr(p).iter().map(|x| <T as Enc>::of(x.as_f64().unwrap()))))).collect();
    let m: Mesh<T, D, C> = Mesh::from_vertices_and_connectivity(v.clone(), uvecs(&c["C"]).into_iter().map(mk).collect());
    out.ev(json!({"op": "mesh", "new": 1, "ct": c["ct"], "D": D::dim(), "zero": <T as Enc>::of(0.0).enc(), "C": c["C"],
        "V": v.iter().map(|p| p.coords.iter().map(|x| x.enc()).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    let mut accepted: Vec<&Value> = vec![];
    fn apply<'a, T: Real + Enc, D: DimName, C>(b: B<'a, T, D, C>, s: &Value) -> B<'a, T, D, C> where DefaultAllocator: Allocator<T, D> {
        if st(&s["op"]) == "title" { return b.with_title(st(&s["title"])) }
        macro_rules! f { ($s:ident) => { add::<T, D, C, $s>(b, s).0 } }
        by_type!(s, f)
    }
    for s in arr(&c["steps"]) {
        let make = || accepted.iter().fold(B::from_mesh(&m), |b, s| apply(b, s));
        match st(&s["op"]) {
            "title" => { out.ev(s.clone()); accepted.push(s) }
            "add" => {
                let r = guard(|| { apply(make(), s); });
                macro_rules! e { ($s:ident) => { encoded::<$s>(s) } }
                let (data, zero) = by_type!(s, e);
                out.ev(json!({"op": "add", "at": s["at"], "kind": s["kind"], "name": s["name"], "nc": s["nc"], "data": data, "zero": zero, "res": if r.is_ok() { "ok" } else { "panic" }}));
                if r.is_ok() { accepted.push(s) }
            }
            "build" => {
                let mut r = match guard(|| make().try_build()) { Ok(Ok(d)) => show(&d), Ok(Err(_)) => failed("err"), Err(_) => failed("panic") };
                r["op"] = json!("build");
                out.ev(r);
            }
            "export" => {
                let (ext, stem) = (st(&s["ext"]), st(&s["stem"]));
                let dir = format!("vtk{}", std::process::id());
                let p = format!("{dir}/{}{stem}.{ext}", st(&s["sub"]));
                let mut r = match guard(|| make().try_export(&p)) {
                    Ok(Ok(())) => match guard(|| Vtk::import(&p)) {
                        Ok(Ok(v)) => { let mut r = show(&v.data); r["title"] = json!(v.title); r }
                        Ok(Err(e)) => failed(&format!("unreadable {e:?}")),
                        Err(_) => failed("unreadable"),
                    },
                    Ok(Err(e)) => failed(&format!("err {e:?}")),
                    Err(e) => failed(&format!("panic {e}")),
                };
                let _ = std::fs::remove_dir_all(&dir);
                r["op"] = json!("export"); r["ext"] = json!(ext); r["stem"] = json!(stem);
                out.ev(r);
            }
            x => die(x),
        }
    }
}

fn main() {
    vh::run(|c, out| {
        macro_rules! d { ($c:ident, $mk:expr) => { match (st(&c["T"]), us(&c["D"])) {
            ("f64", 1) => go::<f64, U1, $c>(c, out, $mk), ("f64", 2) => go::<f64, U2, $c>(c, out, $mk), ("f64", _) => go::<f64, U3, $c>(c, out, $mk),
            (_, 1) => go::<f32, U1, $c>(c, out, $mk), (_, 2) => go::<f32, U2, $c>(c, out, $mk), _ => go::<f32, U3, $c>(c, out, $mk) } } }
        macro_rules! t { ($c:ident) => { d!($c, |v: Vec<usize>| $c(v.try_into().unwrap_or_else(|_| die("nodes")))) } }
        match st(&c["ct"]) {
            "seg2" => t!(Segment2d2Connectivity), "seg2s" => t!(Segment2d3Connectivity),
            "tri3" => t!(Tri3d2Connectivity), "tri3s" => t!(Tri3d3Connectivity), "tri6" => t!(Tri6d2Connectivity),
            "quad4" => t!(Quad4d2Connectivity), "quad9" => t!(Quad9d2Connectivity),
            "tet4" => t!(Tet4Connectivity), "tet10" => t!(Tet10Connectivity), "tet20" => t!(Tet20Connectivity),
            "hex8" => t!(Hex8Connectivity), "hex20" => t!(Hex20Connectivity), "hex27" => t!(Hex27Connectivity),
            x => die(x),
        }
    });
}
