//! Reused buffers and workspaces (C16): every computation answers what it answers with fresh storage.
use fenris::assembly::buffers::{BasisFunctionBuffer, BufferUpdate, InterpolationBuffer, QuadratureBuffer};
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::connectivity::*;
use fenris::error::{estimate_element_H1_seminorm_error_squared, estimate_element_L2_error_squared};
use fenris::integrate::{integrate_over_element, integrate_over_volume_element, ElementIntegralAssemblerBuilder, FnFunction, IntegrationWorkspace};
use fenris::mesh::*;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorView, DVectorViewMut, OMatrix, OPoint, OVector, Point2, Point3, U1, U2, U3};
use fenris::quadrature::total_order;
use fenris::space::*;
use davenport::{with_thread_local_workspace, Workspace};
use fenris_nested_vec::NestedVec;
use fenris_solid::materials::*;
use fenris_solid::MaterialEllipticOperator;
use fenris_sparse::cg::*;
use std::hash::Hasher;
use std::sync::Arc;
use vh::*;

#[derive(Default)]
struct Bufs {
    iw: IntegrationWorkspace<f64>,
    ib: InterpolationBuffer<f64>,
    bb: BasisFunctionBuffer<f64>,
    q2: QuadratureBuffer<f64, U2, Density<f64>>,
    q3: QuadratureBuffer<f64, U3, Density<f64>>,
    cgw: CgWorkspace<f64>,
    csr: CsrAssembler<f64>,
    csrp: CsrParAssembler<f64>,
    va: VectorAssembler<f64>,
    vp: VectorParAssembler<f64>,
}
type Answer = Result<Vec<f64>, String>;
struct Job {
    key: String,
    f: Box<dyn Fn(&mut Bufs, f64) -> Answer + Send + Sync>,
}

fn answer(r: Result<Answer, String>) -> String {
    match r {
        Err(_) => "panic".into(),
        Ok(Err(_)) => "err".into(),
        Ok(Ok(v)) => {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            v.iter().for_each(|x| h.write_u64((*x + 0.0).to_bits()));
            format!("{}:{:016x}", v.len(), h.finish())
        }
    }
}

/// A source that panics where the data says so
struct Src<S>(bool, std::marker::PhantomData<S>);
impl<D, S: fenris::SmallDim> Operator<f64, D> for Src<S> {
    type SolutionDim = S;
    type Parameters = f64;
}
impl<D: fenris::SmallDim, S: fenris::SmallDim> SourceFunction<f64, D> for Src<S>
where
    fenris::nalgebra::DefaultAllocator: fenris::allocators::BiDimAllocator<f64, D, S>,
{
    fn evaluate(&self, x: &OPoint<f64, D>, data: &f64) -> OVector<f64, S> {
        if self.0 && *data > 4.0 {
            panic!("source failure");
        }
        OVector::<f64, S>::from_fn(|i, _| x.coords[i % x.coords.len()] * (i as f64 + 1.0) + data)
    }
}

fn e<T>(r: eyre::Result<T>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

macro_rules! family {
    ($jobs:ident, $name:literal, $D:ident, $P:ident, $d:literal, $mesh:expr, $rule:path, $str:expr, $qf:ident $(, $ip:literal)?) => {{
        type Q<T> = GeneralQuadratureTable<f64, $D, T>;
        let m = Arc::new($mesh);
        let n_el = m.connectivity().len();
        let n_nodes = m.vertices().len();
        // a different rule for every element
        let mut pts = NestedVec::new();
        let mut ws = NestedVec::new();
        for el in 0..n_el {
            let (w, p) = $rule($str[el % 3]).unwrap();
            pts.push(&p);
            ws.push(&w);
        }
        fn data<T: Clone>(w: &NestedVec<f64>, f: impl Fn(usize, usize) -> T) -> NestedVec<T> {
            let mut d = NestedVec::new();
            for i in 0..w.len() {
                d.push(&(0..w.get(i).unwrap().len()).map(|j| f(i, j)).collect::<Vec<_>>());
            }
            d
        }
        let qu: Arc<Q<()>> = Arc::new(Q::from_points_and_weights(pts.clone(), ws.clone()));
        let ql: Arc<Q<LameParameters<f64>>> = Arc::new(Q::from_points_weights_and_data(pts.clone(), ws.clone(),
            data(&ws, |i, j| LameParameters { mu: 1.0 + (i + 2 * j) as f64, lambda: 3.0 + (2 * i + j) as f64 })));
        let qd: Arc<Q<Density<f64>>> = Arc::new(Q::from_points_weights_and_data(pts.clone(), ws.clone(), data(&ws, |i, j| Density(1.0 + (i * 3 + j) as f64))));
        let qs: Arc<Q<f64>> = Arc::new(Q::from_points_weights_and_data(pts.clone(), ws.clone(), data(&ws, |i, j| (i * 2 + j) as f64)));
        let u1 = Arc::new(DVector::from_fn(n_nodes, |i, _| ((i * 7) % 11) as f64 / 4.0));
        let ud = Arc::new(DVector::from_fn(n_nodes * $d, |i, _| ((i * 5) % 13) as f64 / 8.0 - 0.5));
        let solid = &*Box::leak(Box::new(LinearElasticMaterial));
        let mut push = |k: String, f: Box<dyn Fn(&mut Bufs, f64) -> Answer + Send + Sync>| $jobs.push(Job { key: format!("{} {}", $name, k), f });
        for el in 0..n_el {
            let nn = FiniteElementConnectivity::element_node_count(&*m, el);
            for wrong in [0usize, 1] {
                // wrong output sizes fail (panic) after nothing or something has been written to the workspace
                if wrong == 1 && el > 0 { continue }
                let (m, qu, u1) = (m.clone(), qu.clone(), u1.clone());
                push(format!("laplace matrix {el} {wrong}"), Box::new(move |_, fill| {
                    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&*m).with_operator(&LaplaceOperator)
                        .with_quadrature_table(&*qu).with_u(&*u1).build();
                    let mut o = DMatrix::from_element(nn + wrong, nn, fill);
                    e(a.assemble_element_matrix_into(el, DMatrixViewMut::from(&mut o)))?;
                    Ok(o.as_slice().to_vec())
                }));
            }
            let (m2, q2, u2) = (m.clone(), qu.clone(), u1.clone());
            push(format!("laplace scalar {el}"), Box::new(move |_, _| {
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&*m2).with_operator(&LaplaceOperator)
                    .with_quadrature_table(&*q2).with_u(&*u2).build();
                Ok(vec![e(a.assemble_element_scalar(el))?])
            }));
            let (m2, q2, u2) = (m.clone(), ql.clone(), ud.clone());
            push(format!("solid vector {el}"), Box::new(move |_, fill| {
                let op = MaterialEllipticOperator::new(solid);
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&*m2).with_operator(&op)
                    .with_quadrature_table(&*q2).with_u(&*u2).build();
                let mut o = DVector::from_element(nn * $d, fill);
                e(a.assemble_element_vector_into(el, DVectorViewMut::from(&mut o)))?;
                Ok(o.as_slice().to_vec())
            }));
            let (m2, q2, u2) = (m.clone(), ql.clone(), ud.clone());
            push(format!("solid scalar {el}"), Box::new(move |_, _| {
                let op = MaterialEllipticOperator::new(solid);
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&*m2).with_operator(&op)
                    .with_quadrature_table(&*q2).with_u(&*u2).build();
                Ok(vec![e(a.assemble_element_scalar(el))?])
            }));
            if nn <= 10 {
                let (m2, q2, u2) = (m.clone(), ql.clone(), ud.clone());
                push(format!("solid matrix {el}"), Box::new(move |_, fill| {
                    let op = MaterialEllipticOperator::new(solid);
                    let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&*m2).with_operator(&op)
                        .with_quadrature_table(&*q2).with_u(&*u2).build();
                    let mut o = DMatrix::from_element(nn * $d, nn * $d, fill);
                    e(a.assemble_element_matrix_into(el, DMatrixViewMut::from(&mut o)))?;
                    Ok(o.as_slice().to_vec())
                }));
            }
            for s in 1..=2usize {
                let (m2, q2) = (m.clone(), qd.clone());
                push(format!("mass {el} {s}"), Box::new(move |_, fill| {
                    let a = ElementMassAssembler::with_solution_dim(s).with_space(&*m2).with_quadrature_table(&*q2);
                    let mut o = DMatrix::from_element(nn * s, nn * s, fill);
                    e(a.assemble_element_matrix_into(el, DMatrixViewMut::from(&mut o)))?;
                    Ok(o.as_slice().to_vec())
                }));
            }
            for bad in [false, true] {
                let (m2, q2) = (m.clone(), qs.clone());
                push(format!("source {el} {bad}"), Box::new(move |_, fill| {
                    let src = Src::<U2>(bad, Default::default());
                    let a = ElementSourceAssemblerBuilder::new().with_finite_element_space(&*m2).with_source(&src).with_quadrature_table(&*q2).build::<f64>();
                    let mut o = DVector::from_element(nn * 2, fill);
                    e(a.assemble_element_vector_into(el, DVectorViewMut::from(&mut o)))?;
                    Ok(o.as_slice().to_vec())
                }));
            }
            let (m2, q2, u2) = (m.clone(), qu.clone(), ud.clone());
            push(format!("integral {el}"), Box::new(move |_, _| {
                let f = FnFunction::new(|x: &$P<f64>, u: &OVector<f64, $D>| OVector::<f64, U1>::new(x.coords.sum() * u[1] + u[0]));
                let a = ElementIntegralAssemblerBuilder::new().with_space(&*m2).with_quadrature_table(&*q2).with_interpolation_weights(&*u2)
                    .with_integrand(f).build_integrator();
                Ok(vec![e(a.assemble_element_scalar(el))?])
            }));
            let (m2, q2, u2) = (m.clone(), qu.clone(), ud.clone());
            push(format!("volume integral {el}"), Box::new(move |_, _| {
                let f = FnFunction::new(|x: &$P<f64>, u: &OVector<f64, $D>, g: &OMatrix<f64, $D, $D>| OVector::<f64, U1>::new(x.coords.sum() * u[1] + g[(0, 1)]));
                let a = ElementIntegralAssemblerBuilder::new().with_space(&*m2).with_quadrature_table(&*q2).with_interpolation_weights(&*u2)
                    .with_integrand(f).build_volume_integrator();
                Ok(vec![e(a.assemble_element_scalar(el))?])
            }));
            for (k, wrong) in [(0usize, 0usize), (1, 0), (2, 0), (3, 0), (0, 1), (1, 1)] {
                if wrong == 1 && el > 0 { continue }
                let (m2, q2) = (m.clone(), qu.clone());
                push(format!("integrate {el} {k} {wrong}"), Box::new(move |b, _| {
                    let element = ElementInSpace::from_space_and_element_index(&*m2, el);
                    let mut qb: QuadratureBuffer<f64, $D, ()> = Default::default();
                    qb.populate_element_quadrature_from_table(el, &*q2);
                    let u = DVector::from_fn(nn * $d - wrong, |i, _| (i % 5) as f64);
                    let f2 = FnFunction::new(|x: &$P<f64>, u: &OVector<f64, $D>| OVector::<f64, U2>::new(x.coords[0] * u[1], u[0]));
                    let f3 = FnFunction::new(|x: &$P<f64>, u: &OVector<f64, $D>, g: &OMatrix<f64, $D, $D>| OVector::<f64, U2>::new(x.coords[0] * u[1], g.norm_squared()));
                    match k {
                        0 => Ok(integrate_over_element(&f2, &element, &qb, &u, &mut b.iw).as_slice().to_vec()),
                        1 => integrate_over_volume_element(&f3, &element, &qb, &u, &mut b.iw).map(|v| v.as_slice().to_vec()).map_err(|_| "failed".to_string()),
                        2 => Ok(vec![estimate_element_L2_error_squared(&element, &|x: &$P<f64>| x.coords.clone() * 2.0, DVectorView::from(&u), qb.weights(), qb.points(), &mut b.iw)]),
                        _ => Ok(vec![estimate_element_H1_seminorm_error_squared(&element, &|x: &$P<f64>| OMatrix::<f64, $D, $D>::identity() * x.coords[0],
                            DVectorView::from(&u), qb.weights(), qb.points(), &mut b.iw)]),
                    }
                }));
            }
            for s in [1usize, $d] {
                let (m2, u2) = (m.clone(), ud.clone());
                push(format!("interpolation buffer {el} {s}"), Box::new(move |b, _| {
                    let u = DVector::from_column_slice(&u2.as_slice()[..s * m2.vertices().len()]);
                    let mut o = Vec::new();
                    let mut ib = b.ib.prepare_element_in_space(el, &*m2, &u, s);
                    for (i, up) in [BufferUpdate::Both, BufferUpdate::BasisValues, BufferUpdate::BasisGradients].into_iter().enumerate() {
                        ib.update_reference_point(&OPoint::from(OVector::<f64, $D>::from_fn(|r, _| (r + i) as f64 / 8.0 - 0.25)), up.clone());
                        if s == 1 {
                            o.extend(ib.interpolate::<U1>().iter());
                            o.extend(ib.interpolate_ref_gradient::<U1>().iter());
                        } else {
                            o.extend(ib.interpolate::<$D>().iter());
                            o.extend(ib.interpolate_ref_gradient::<$D>().iter());
                        }
                        o.extend(ib.basis_values().iter());
                    }
                    Ok(o)
                }));
            }
            let m2 = m.clone();
            push(format!("basis buffer {el}"), Box::new(move |b, _| {
                let p = OPoint::from(OVector::<f64, $D>::from_fn(|r, _| r as f64 / 4.0 - 0.25));
                b.bb.resize(nn, $d);
                b.bb.populate_element_nodes_from_space(el, &*m2);
                b.bb.populate_element_basis_values_from_space(el, &*m2, &p);
                b.bb.populate_element_basis_gradients_from_space(el, &*m2, &p);
                let mut o: Vec<f64> = b.bb.element_nodes().iter().map(|i| *i as f64).collect();
                o.extend(b.bb.element_basis_values());
                o.extend(b.bb.element_gradients::<$D>().iter());
                Ok(o)
            }));
            let q2 = qd.clone();
            push(format!("quadrature buffer {el}"), Box::new(move |b, _| {
                b.$qf.populate_element_quadrature_from_table(el, &*q2);
                let mut o: Vec<f64> = b.$qf.weights().to_vec();
                b.$qf.for_each_quadrature_point(|w, p, d| { o.push(w); o.extend(p.coords.iter()); o.push(d.0); Ok(()) }).map_err(|e| e.to_string())?;
                Ok(o)
            }));
        }
        for bad in [false, true] {
            let (m2, q2) = (m.clone(), qs.clone());
            push(format!("global source {bad}"), Box::new(move |b, _| {
                let src = Src::<U2>(bad, Default::default());
                let a = ElementSourceAssemblerBuilder::new().with_finite_element_space(&*m2).with_source(&src).with_quadrature_table(&*q2).build::<f64>();
                Ok(e(b.va.assemble_vector(&a))?.as_slice().to_vec())
            }));
        }
        let good: Vec<usize> = (0..n_el - 1).collect();
        let sub = Arc::new(m.keep_cells(&good));
        let us = Arc::new(DVector::from_fn(sub.vertices().len() * $d, |i, _| ((i * 5) % 13) as f64 / 8.0 - 0.5));
        // whole assemblies with reused assemblers: the degenerate last element makes the elliptic ones fail
        for (k, par, ok) in [(0, false), (1, false), (2, false), (0, true), (1, true), (2, true)].into_iter().flat_map(|(k, p)| [(k, p, false), (k, p, true)]) {
            let (m2, q2, ql, u2) = (if ok { sub.clone() } else { m.clone() }, qd.clone(), ql.clone(), if ok { us.clone() } else { ud.clone() });
            push(format!("global {k} {par} {ok}"), Box::new(move |b, _| {
                let colors = color_nodes(&*m2);
                let mass = ElementMassAssembler::with_solution_dim(1).with_space(&*m2).with_quadrature_table(&*q2);
                let op = MaterialEllipticOperator::new(solid);
                let el = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&*m2).with_operator(&op).with_quadrature_table(&*ql).with_u(&*u2).build();
                Ok(match (k, par) {
                    (0, false) => e(b.csr.assemble(&mass))?.values().to_vec(),
                    (0, true) => e(b.csrp.assemble(&colors, &mass))?.values().to_vec(),
                    (1, false) => e(b.csr.assemble(&el))?.values().to_vec(),
                    (1, true) => e(b.csrp.assemble(&colors, &el))?.values().to_vec(),
                    (_, false) => e(b.va.assemble_vector(&el))?.as_slice().to_vec(),
                    (_, true) => e(b.vp.assemble_vector(&colors, &el))?.as_slice().to_vec(),
                })
            }));
        }
        $(for s in [1usize, $d] {
            let _ = $ip;
            let (m2, u2) = (sub.clone(), us.clone());
            push(format!("interpolate {s}"), Box::new(move |_, fill| {
                let sp = SpatiallyIndexed::from_space((*m2).clone());
                let p: Vec<$P<f64>> = m2.vertices().iter().take(3).map(|p| $P::from(p.coords.clone() * 1.25)).collect();
                if s == 1 {
                    let u = DVector::from_column_slice(&u2.as_slice()[..m2.vertices().len()]);
                    let mut o = vec![OVector::<f64, U1>::from_element(fill); 3];
                    interpolate_at_points(&sp, &p, DVectorView::from(&u), &mut o);
                    let mut g = vec![OMatrix::<f64, $D, U1>::from_element(fill); 3];
                    interpolate_gradient_at_points(&sp, &p, DVectorView::from(&u), &mut g);
                    Ok(o.iter().flat_map(|v| v.as_slice().to_vec()).chain(g.iter().flat_map(|v| v.as_slice().to_vec())).collect())
                } else {
                    let mut o = vec![OVector::<f64, $D>::from_element(fill); 3];
                    interpolate_at_points(&sp, &p, DVectorView::from(&*u2), &mut o);
                    let mut g = vec![OMatrix::<f64, $D, $D>::from_element(fill); 3];
                    interpolate_gradient_at_points(&sp, &p, DVectorView::from(&*u2), &mut g);
                    Ok(o.iter().flat_map(|v| v.as_slice().to_vec()).chain(g.iter().flat_map(|v| v.as_slice().to_vec())).collect())
                }
            }));
        })?
        for kind in 0..4 {
            let ok = kind != 1;
            let n = n_nodes;
            push(format!("solve {kind}"), Box::new(move |b, _| {
                let a: DMatrix<f64> = DMatrix::from_fn(n, n, |i, j| if i == j { if ok || i % 2 == 0 { 4.0 + i as f64 } else { -4.0 } } else { ((i * j) % 3) as f64 / n as f64 });
                let mut a = a;
                // an operator that is not a number, and one that overflows
                if kind >= 2 {
                    a[(n / 2, n / 3)] = if kind == 2 { f64::NAN } else { 1e300 };
                    a[(n / 3, n / 2)] = a[(n / 2, n / 3)];
                }
                let rhs = DVector::from_fn(n, |i, _| 1.0 + (i % 4) as f64);
                let mut x = DVector::zeros(n);
                let r = ConjugateGradient::with_workspace(&mut b.cgw).with_operator(&a).with_stopping_criterion(RelativeResidualCriterion::new(1e-6)).with_max_iter(20)
                    .solve_with_guess(&rhs, &mut x);
                let mut o = x.as_slice().to_vec();
                o.push(match r { Ok(r) => r.num_iterations as f64, Err(e) => 100.0 + e.output.num_iterations as f64 });
                Ok(o)
            }));
        }
    }};
}

fn p2(v: &[[f64; 2]]) -> Vec<Point2<f64>> {
    v.iter().map(|p| Point2::new(p[0], p[1])).collect()
}
fn p3(v: &[[f64; 3]]) -> Vec<Point3<f64>> {
    v.iter().map(|p| Point3::new(p[0], p[1], p[2])).collect()
}
fn color_nodes<S: FiniteElementConnectivity>(s: &S) -> Vec<fenris_paradis::DisjointSubsets> {
    let mut n = NestedVec::new();
    for i in 0..s.num_elements() {
        let mut v = vec![0; s.element_node_count(i)];
        s.populate_element_nodes(&mut v, i);
        n.push(&v);
    }
    fenris_paradis::coloring::sequential_greedy_coloring(&n)
}

fn jobs() -> Vec<Job> {
    let mut jobs = Vec::new();
    let tri = || Mesh2d::<f64, Tri3d2Connectivity>::from_vertices_and_connectivity(
        p2(&[[0., 0.], [2., 0.5], [0.25, 1.5], [5., 5.], [6., 5.25], [5.5, 7.], [9., 9.], [9., 9.], [9., 9.]]),
        (0..3).map(|i| Tri3d2Connectivity([3 * i, 3 * i + 1, 3 * i + 2])).collect());
    let quad = || Mesh2d::<f64, Quad4d2Connectivity>::from_vertices_and_connectivity(
        p2(&[[0., 0.], [2., 0.5], [2.25, 1.5], [0., 2.], [5., 5.], [6., 5.], [6.5, 7.], [5., 6.], [9., 9.], [9., 9.], [9., 9.], [9., 9.]]),
        (0..3).map(|i| Quad4d2Connectivity([4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3])).collect());
    let tet = || Mesh3d::<f64, Tet4Connectivity>::from_vertices_and_connectivity(
        p3(&[[0., 0., 0.], [2., 0.5, 0.], [0.25, 1.5, 0.], [0., 0.5, 3.], [5., 5., 5.], [6., 5., 5.], [5., 7., 5.5], [5., 5., 6.], [9., 9., 9.], [9., 9., 9.], [9., 9., 9.], [9., 9., 9.]]),
        (0..3).map(|i| Tet4Connectivity([4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3])).collect());
    let hex = || {
        let b = [[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.], [0., 0., 1.], [1., 0., 1.], [1., 1., 1.], [0., 1., 1.]];
        let mut v = b.to_vec();
        v.extend(b.iter().enumerate().map(|(i, p)| [5.0 + 2.0 * p[0], 5.0 + p[1] + 0.25 * p[0], 5.0 + p[2] * 1.5 + if i == 6 { 0.25 } else { 0.0 }]));
        v.extend([[9.0; 3]; 8]);
        Mesh3d::<f64, Hex8Connectivity>::from_vertices_and_connectivity(p3(&v), (0..3).map(|i| Hex8Connectivity(std::array::from_fn(|k| 8 * i + k))).collect())
    };
    family!(jobs, "tri3", U2, Point2, 2, tri(), total_order::triangle, [1, 3, 2], q2, 1);
    family!(jobs, "tri6", U2, Point2, 2, Mesh2d::<f64, Tri6d2Connectivity>::from(tri()), total_order::triangle, [4, 2, 5], q2);
    family!(jobs, "quad4", U2, Point2, 2, quad(), total_order::quadrilateral, [3, 1, 2], q2);
    family!(jobs, "quad9", U2, Point2, 2, Mesh2d::<f64, Quad9d2Connectivity>::from(quad()), total_order::quadrilateral, [2, 5, 3], q2);
    family!(jobs, "tet4", U3, Point3, 3, tet(), total_order::tetrahedron, [3, 1, 2], q3, 1);
    family!(jobs, "tet10", U3, Point3, 3, Mesh3d::<f64, Tet10Connectivity>::from(&tet()), total_order::tetrahedron, [2, 4, 3], q3);
    family!(jobs, "tet20", U3, Point3, 3, Mesh3d::<f64, Tet20Connectivity>::from(&tet()), total_order::tetrahedron, [3, 2, 1], q3);
    family!(jobs, "hex8", U3, Point3, 3, hex(), total_order::hexahedron, [1, 3, 2], q3);
    family!(jobs, "hex20", U3, Point3, 3, Mesh3d::<f64, Hex20Connectivity>::from(&hex()), total_order::hexahedron, [3, 2, 1], q3);
    family!(jobs, "hex27", U3, Point3, 3, Mesh3d::<f64, Hex27Connectivity>::from(&hex()), total_order::hexahedron, [2, 3, 1], q3);
    jobs
}

macro_rules! typed {
    ($($i:literal $t:ident $inner:ty, $from:expr, $to:expr);* $(;)?) => {
        $(#[derive(Default)] struct $t($inner);)*
        fn typed(ws: &mut Workspace, ty: usize, init: i64, set: i64) -> (i64, u64) {
            let mut created = 0;
            let got = match ty {
                $($i => {
                    let from: fn(i64) -> $inner = $from;
                    let to: fn(&$inner) -> i64 = $to;
                    let v = if init == 0 {
                        created = 2;
                        ws.get_or_default::<$t>()
                    } else {
                        ws.get_or_insert_with(|| { created = 1; $t(from(init)) })
                    };
                    let got = to(&v.0);
                    v.0 = from(set);
                    got
                })*
                _ => die("type"),
            };
            (got, created)
        }
        fn typed_local(ty: usize, set: i64, fail: bool) -> i64 {
            let got = std::cell::Cell::new(-7);
            let r = match ty {
                $($i => {
                    let from: fn(i64) -> $inner = $from;
                    let to: fn(&$inner) -> i64 = $to;
                    guard(|| with_thread_local_workspace(&LOCAL, |v: &mut $t| {
                        got.set(to(&v.0));
                        v.0 = from(set);
                        if fail { panic!("failed computation") }
                    }))
                })*
                _ => die("type"),
            };
            if r.is_err() != fail { return -8 }
            got.get()
        }
    };
}
davenport::define_thread_local_workspace!(LOCAL);
typed! {
    0 A i64, |v| v, |v| *v;
    1 B Vec<i64>, |v| vec![v; v as usize], |v| v.len() as i64;
    2 C String, |v| v.to_string(), |v| v.parse().unwrap_or(0);
    3 D (u8, i64), |v| (1, v), |v| v.1;
    4 E i64, |v| v, |v| *v;
    5 F Option<Box<i64>>, |v| Some(Box::new(v)), |v| v.as_ref().map_or(0, |b| **b);
}

fn main() {
    let jobs = Arc::new(jobs());
    run(|c, out| {
        out.ev(json!({"new": 1, "op": "new"}));
        if let Some(ws) = c.get("ws") {
            // one object (w = 0) and the thread-local workspaces of two threads (w = 1, 2)
            let mut w = Workspace::default();
            let mut evs: Vec<(usize, Value)> = Vec::new();
            let ops: Vec<Value> = arr(ws).clone();
            let local = |k: usize| {
                ops.iter().enumerate().filter(|(_, o)| us(&o["w"]) == k).map(|(i, o)| {
                    let got = typed_local(us(&o["ty"]), int(&o["set"]), o["fail"] == 1);
                    (i, json!({"op": "ws", "w": k, "ty": o["ty"], "init": 0, "got": got, "created": 2, "set": o["set"]}))
                }).collect::<Vec<_>>()
            };
            for (i, o) in ops.iter().enumerate().filter(|(_, o)| us(&o["w"]) == 0) {
                let (got, created) = typed(&mut w, us(&o["ty"]), int(&o["init"]), int(&o["set"]));
                evs.push((i, json!({"op": "ws", "w": 0, "ty": o["ty"], "init": o["init"], "got": got, "created": created, "set": o["set"]})));
            }
            std::thread::scope(|s| {
                let hs: Vec<_> = (1..=2).map(|k| { let local = &local; s.spawn(move || local(k)) }).collect();
                hs.into_iter().for_each(|h| evs.extend(h.join().unwrap_or_else(|_| die("thread"))));
            });
            evs.sort_by_key(|(i, _)| *i);
            evs.into_iter().for_each(|(_, e)| out.ev(e));
            return;
        }
        let fills = [0.0, 1.5, -3.0, f64::NAN, f64::INFINITY, 1e300];
        let steps: Vec<usize> = uvec(&c["steps"]).into_iter().map(|s| s % jobs.len()).collect();
        let mut seen = std::collections::BTreeSet::new();
        // fresh: a new thread pool of its own for each computation
        for &s in &steps {
            if seen.insert(s) {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
                let j = jobs.clone();
                let r = pool.install(move || answer(guard(|| (j[s].f)(&mut Bufs::default(), 0.0))));
                out.ev(json!({"op": "fresh", "key": jobs[s].key, "out": r}));
            }
        }
        // reused: one pool, one set of buffers, one long-lived thread
        let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
        let j = jobs.clone();
        let steps2 = steps.clone();
        let rs = pool.install(move || {
            let mut b = Bufs::default();
            steps2.iter().enumerate().map(|(i, s)| answer(guard(|| (j[*s].f)(&mut b, fills[(i + s) % 6])))).collect::<Vec<_>>()
        });
        for (s, r) in steps.iter().zip(rs) {
            out.ev(json!({"op": "reused", "key": jobs[*s].key, "out": r}));
        }
    });
}
