//! Quadrature tables and quadrature buffers (C15).
use fenris::allocators::DimAllocator;
use fenris::assembly::buffers::QuadratureBuffer;
use fenris::assembly::local::*;
use fenris::nalgebra::{DefaultAllocator, OPoint, U1, U2, U3};
use fenris::quadrature::*;
use fenris::SmallDim;
use fenris_nested_vec::NestedVec;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use vh::*;

trait Datum: Default + Clone + Debug + PartialEq + Serialize + DeserializeOwned + 'static {
    fn of(v: i64) -> Self;
    fn to(&self) -> i64;
}
impl Datum for () {
    fn of(_: i64) -> Self {}
    fn to(&self) -> i64 {
        0
    }
}
#[derive(Default, Clone, Debug, PartialEq, Serialize, serde::Deserialize)]
struct Num(i64);
impl Datum for Num {
    fn of(v: i64) -> Self {
        Num(v)
    }
    fn to(&self) -> i64 {
        self.0
    }
}

enum Table<D: SmallDim, X: Datum>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    None,
    General(GeneralQuadratureTable<f64, D, X>),
    Uniform(UniformQuadratureTable<f64, D, X>),
    Compact(CompactQuadratureTable<f64, D, X>),
}

fn point<D: SmallDim>(v: &Value) -> OPoint<f64, D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let v = ivec(v);
    let mut p = OPoint::origin();
    for i in 0..D::dim() {
        p[i] = v[i] as f64;
    }
    p
}
fn jp<D: SmallDim>(p: &[OPoint<f64, D>]) -> Value
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    json!(p.iter().map(|p| p.iter().map(|x| exact(*x, 1.0)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn jw(w: &[f64]) -> Value {
    json!(w.iter().map(|x| exact(*x, 1.0)).collect::<Vec<_>>())
}
fn jd<X: Datum>(d: &[X]) -> Value {
    json!(d.iter().map(|x| x.to()).collect::<Vec<_>>())
}
fn nested<T: Clone>(v: &Value, f: impl Fn(&Value) -> T) -> NestedVec<T> {
    let vs: Vec<Vec<T>> = arr(v).iter().map(|r| arr(r).iter().map(&f).collect()).collect();
    let mut n = NestedVec::new();
    for v in &vs {
        n.push(v);
    }
    n
}
fn each<D: SmallDim, X: Datum>(it: impl Iterator<Item = (f64, OPoint<f64, D>, X)>) -> Value
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    json!(it
        .map(|(w, p, x)| json!([exact(w, 1.0), jp(&[p])[0], x.to()]))
        .collect::<Vec<_>>())
}
fn integral<D: SmallDim, X>(q: &(impl Quadrature<f64, D, Data = X> + ?Sized)) -> i64
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    exact(q.integrate(|p| p[0] + 1.0), 1.0)
}

fn with_table<D: SmallDim, X: Datum, R>(t: &Table<D, X>, f: impl FnOnce(&dyn QuadratureTable<f64, D, Data = X>) -> R) -> R
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    match t {
        Table::None => panic!("no table"),
        Table::General(t) => f(t),
        Table::Uniform(t) => f(t),
        Table::Compact(t) => f(t),
    }
}

fn session<D: SmallDim, X: Datum>(case: &Value, out: &mut Out, unit: bool)
where
    DefaultAllocator: DimAllocator<f64, D>,
    OPoint<f64, D>: Serialize + DeserializeOwned,
    Table<D, X>: Build<D, X>,
{
    let mut t: Table<D, X> = Table::None;
    let mut buf = QuadratureBuffer::<f64, D, X>::default();
    let mut first = true;
    for o in arr(&case["ops"]) {
        let mut ev = o.clone();
        if first {
            ev["new"] = json!(1);
            first = false;
        }
        // a failed call must not be mistaken for an answer
        let zero = json!([]);
        let e = if o["e"].is_u64() { us(&o["e"]) } else { 0 };
        let mut done = true;
        match st(&o["op"]) {
            "new" => {
                t = Table::None;
                let r = guard(|| <Table<D, X> as Build<D, X>>::build(o, unit));
                match r {
                    Ok(x) => t = x,
                    Err(_) => done = false,
                }
                if unit {
                    ev["D"] = json!(arr(&o["W"]).iter().map(|r| vec![0; arr(r).len()]).collect::<Vec<_>>());
                }
            }
            "size" => match guard(|| with_table(&t, |t| t.element_quadrature_size(e))) {
                Ok(n) => ev["n"] = json!(n),
                Err(_) => {
                    ev["n"] = json!(0);
                    done = false
                }
            },
            "quad" => {
                let mut p = vec![OPoint::<f64, D>::origin(); us(&o["np"])];
                let mut w = vec![-7.0; us(&o["nw"])];
                done = guard(|| with_table(&t, |t| t.populate_element_quadrature(e, &mut p, &mut w))).is_ok();
                ev["P"] = jp(&p);
                ev["W"] = jw(&w);
            }
            "data" => {
                let mut d = vec![X::of(-9); us(&o["n"])];
                done = guard(|| with_table(&t, |t| t.populate_element_data(e, &mut d))).is_ok();
                ev["D"] = jd(&d);
            }
            "both" => {
                let n = us(&o["n"]);
                let mut p = vec![OPoint::<f64, D>::origin(); n];
                let mut w = vec![-7.0; n];
                let mut d = vec![X::of(-9); n];
                done = guard(|| with_table(&t, |t| t.populate_element_quadrature_and_data(e, &mut p, &mut w, &mut d))).is_ok();
                ev["P"] = jp(&p);
                ev["W"] = jw(&w);
                ev["D"] = jd(&d);
            }
            "buf" => {
                for k in ["P", "W", "D", "each", "iter"] {
                    ev[k] = zero.clone();
                }
                ev["integral"] = json!(0);
                done = guard(|| with_table(&t, |t| buf.populate_element_quadrature_from_table(e, t))).is_ok();
                if done {
                    ev["P"] = jp(buf.points());
                    ev["W"] = jw(buf.weights());
                    ev["D"] = jd(buf.data());
                    let mut items = vec![];
                    let res = buf.for_each_quadrature_point(|w, p, d| {
                        items.push((w, p.clone(), d.clone()));
                        Ok(())
                    });
                    done = res.is_ok();
                    ev["each"] = each(items.into_iter());
                    ev["iter"] = each(buf.iter().map(|(w, p, d)| (*w, p.clone(), d.clone())));
                    ev["integral"] = json!(integral(&buf));
                    let (w, p) = buf.weights_and_points();
                    if jw(w) != ev["W"] || jp(p) != ev["P"] {
                        ev["W"] = json!(["different"]);
                    }
                } else {
                    buf = QuadratureBuffer::default();
                }
            }
            "bufwp" => {
                done = guard(|| with_table(&t, |t| buf.populate_element_weights_and_points_from_table(e, t))).is_ok();
                ev["P"] = if done { jp(buf.points()) } else { zero.clone() };
                ev["W"] = if done { jw(buf.weights()) } else { zero.clone() };
                ev["nd"] = json!(buf.data().len());
                if !done {
                    buf = QuadratureBuffer::default();
                }
            }
            "with" => {
                t = match t {
                    Table::Uniform(u) => match guard(|| u.with_uniform_data(X::of(int(&o["d"])))) {
                        Ok(u) => Table::Uniform(u),
                        Err(_) => {
                            done = false;
                            Table::None
                        }
                    },
                    _ => die("with on other table"),
                };
                if unit {
                    ev["d"] = json!(0);
                }
            }
            "keep" => {
                let mut eq = true;
                let res = guard(|| {
                    let s = |v: String| v;
                    match &t {
                        Table::None => Table::None,
                        Table::General(t) => {
                            let c = if us(&o["how"]) == 0 { t.clone() } else { serde_json::from_str(&s(serde_json::to_string(t).unwrap())).unwrap() };
                            eq = &c == t;
                            Table::General(c)
                        }
                        Table::Uniform(t) => {
                            let c = if us(&o["how"]) == 0 { t.clone() } else { serde_json::from_str(&s(serde_json::to_string(t).unwrap())).unwrap() };
                            eq = &c == t;
                            Table::Uniform(c)
                        }
                        Table::Compact(t) => {
                            let c = if us(&o["how"]) == 0 { t.clone() } else { serde_json::from_str(&s(serde_json::to_string(t).unwrap())).unwrap() };
                            eq = &c == t;
                            Table::Compact(c)
                        }
                    }
                });
                match res {
                    Ok(x) => t = x,
                    Err(_) => done = false,
                }
                ev["eq"] = json!(eq as i32);
            }
            "parts" => match &t {
                Table::General(g) => {
                    let g = g.clone();
                    match guard(|| g.into_parts()) {
                        Ok(p) => {
                            ev["P"] = json!(p.points.iter().map(jp).collect::<Vec<_>>());
                            ev["W"] = json!(p.weights.iter().map(jw).collect::<Vec<_>>());
                            ev["D"] = json!(p.data.iter().map(jd).collect::<Vec<_>>());
                        }
                        Err(_) => done = false,
                    }
                }
                _ => die("parts of other table"),
            },
            "rule" => {
                let p: Vec<OPoint<f64, D>> = arr(&o["p"]).iter().map(point).collect();
                let w: Vec<f64> = ivec(&o["w"]).into_iter().map(|x| x as f64).collect();
                let d: Vec<X> = ivec(&o["d"]).into_iter().map(X::of).collect();
                let res = guard(|| {
                    if unit {
                        let q = (w.clone(), p.clone());
                        let a = each(q.iter().map(|(w, p, _)| (*w, p.clone(), ())));
                        let i = integral(&q);
                        // the same rule in other clothes
                        let parts: OwnedQuadratureParts<f64, D, ()> = q.clone().into();
                        let b = each(parts.to_parts().iter().map(|(w, p, _)| (*w, p.clone(), ())));
                        let nd = QuadratureParts { weights: q.0.clone(), points: q.1.clone(), data: NoData };
                        let c = each(Quadrature::<f64, D>::iter(&nd).map(|(w, p, _)| (*w, p.clone(), ())));
                        let same = integral(&nd) == i && integral(&parts) == i && integral(&&q) == i && c == b;
                        (a, if same { b } else { json!(["different"]) }, i)
                    } else {
                        let q = QuadratureParts { weights: w.clone(), points: p.clone(), data: () }.with_data(d.clone());
                        let a = each(Quadrature::<f64, D>::iter(&q).map(|(w, p, d)| (*w, p.clone(), d.clone())));
                        let bp: BorrowedQuadratureParts<f64, D, X> = Quadrature::<f64, D>::to_parts(&q);
                        let b = each(bp.iter().map(|(w, p, d): (&f64, &OPoint<f64, D>, &X)| (*w, p.clone(), d.clone())));
                        (a, b, integral::<D, X>(&q))
                    }
                });
                match res {
                    Ok((a, b, i)) => {
                        ev["each"] = a;
                        ev["parts"] = b;
                        ev["integral"] = json!(i);
                    }
                    Err(_) => done = false,
                }
                if unit {
                    ev["d"] = json!(vec![0; w.len()]);
                }
            }
            o => die(o),
        }
        ev["ok"] = json!(done as i32);
        out.ev(ev);
    }
}

trait Build<D: SmallDim, X: Datum>: Sized
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    fn build(o: &Value, unit: bool) -> Self;
}
fn flat<D: SmallDim>(o: &Value) -> (Vec<f64>, Vec<OPoint<f64, D>>)
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let p = arr(&arr(&o["P"])[0]).iter().map(point).collect();
    let w = ivec(&arr(&o["W"])[0]).into_iter().map(|x| x as f64).collect();
    (w, p)
}
impl<D: SmallDim> Build<D, Num> for Table<D, Num>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    fn build(o: &Value, _unit: bool) -> Self {
        let (p, w, d) = (nested(&o["P"], point), nested(&o["W"], |v| int(v) as f64), nested(&o["D"], |v| Num(int(v))));
        match st(&o["kind"]) {
            "general" => Table::General(GeneralQuadratureTable::from_points_weights_and_data(p, w, d)),
            "compact" => Table::Compact(CompactQuadratureTable::from_quadrature_rules_and_map(p, w, d, uvec(&o["map"]))),
            "uniform" => {
                let (w, p) = flat(o);
                let d: Vec<_> = ivec(&arr(&o["D"])[0]).into_iter().map(Num).collect();
                // the constructor for one datum per rule, where it says the same thing
                if d.len() == w.len() && w.len() == p.len() && !d.is_empty() && d.iter().all(|x| x == &d[0]) {
                    Table::Uniform(UniformQuadratureTable::from_quadrature_and_uniform_data((w, p), d[0].clone()))
                } else {
                    Table::Uniform(UniformQuadratureTable::from_points_weights_and_data(p, w, d))
                }
            }
            o => die(o),
        }
    }
}
impl<D: SmallDim> Build<D, ()> for Table<D, ()>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    fn build(o: &Value, _unit: bool) -> Self {
        let (p, w) = (nested(&o["P"], point), nested(&o["W"], |v| int(v) as f64));
        match st(&o["kind"]) {
            "general" => Table::General(GeneralQuadratureTable::from_points_and_weights(p, w)),
            "compact" => Table::Compact(CompactQuadratureTable::from_points_weights_and_map(p, w, uvec(&o["map"]))),
            "uniform" => {
                let (w, p) = flat(o);
                if us(&o["how"]) == 0 {
                    Table::Uniform(UniformQuadratureTable::from_points_and_weights(p, w))
                } else {
                    Table::Uniform(UniformQuadratureTable::from_quadrature((w, p)))
                }
            }
            o => die(o),
        }
    }
}

fn main() {
    run(|case, out| match (us(&case["dim"]), us(&case["unit"])) {
        (1, 1) => session::<U1, ()>(case, out, true),
        (2, 1) => session::<U2, ()>(case, out, true),
        (3, 1) => session::<U3, ()>(case, out, true),
        (1, 0) => session::<U1, Num>(case, out, false),
        (2, 0) => session::<U2, Num>(case, out, false),
        (3, 0) => session::<U3, Num>(case, out, false),
        _ => die("dim"),
    })
}
