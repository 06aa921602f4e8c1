//! Replays assembly histories in the real serial and parallel assemblers (C01, C04, C05, C07).
use fenris::assembly::global::*;
use fenris_nested_vec::NestedVec;
use fenris_paradis::DisjointSubsets;
use nalgebra::{DVector, DVectorView, DVectorViewMut};
use nalgebra_sparse::{pattern::SparsityPattern, CooMatrix, CsrMatrix};
use std::time::Duration;
use vh::mock::*;
use vh::*;

fn rows(p: &SparsityPattern) -> Vec<Vec<usize>> {
    let o = p.major_offsets();
    (0..p.major_dim()).map(|r| p.minor_indices()[o[r]..o[r + 1]].to_vec()).collect()
}

fn triplets(m: &CsrMatrix<f64>) -> Value {
    Value::Array(m.triplet_iter().map(|(i, j, v)| json!([i, j, exact(*v, 1.0)])).collect())
}

fn base_matrix(m: &Mock, extra: &Value) -> CsrMatrix<f64> {
    let d = m.n * m.s;
    let mut keys = std::collections::BTreeSet::new();
    for el in &m.elems {
        for a in el {
            for b in el {
                for i in 0..m.s {
                    for j in 0..m.s {
                        keys.insert((m.s * a + i, m.s * b + j));
                    }
                }
            }
        }
    }
    for x in arr(extra) {
        keys.insert((us(&x[0]), us(&x[1])));
    }
    let mut coo = CooMatrix::new(d, d);
    for (r, c) in keys {
        coo.push(r, c, base_mat(r as i64, c as i64) as f64);
    }
    CsrMatrix::from(&coo)
}

fn own_colors(m: &Mock, groups: &Value) -> Vec<DisjointSubsets> {
    arr(groups)
        .iter()
        .map(|g| {
            let labels = uvec(g);
            let mut nested = NestedVec::new();
            let mut max = None;
            for &e in &labels {
                nested.push(&m.elems[e]);
                max = max.max(m.elems[e].iter().max().copied());
            }
            unsafe { DisjointSubsets::from_disjoint_subsets_unchecked(nested, labels, max) }
        })
        .collect()
}

/// The raw call log reduced to the interval in which each element is being processed.
fn intervals(log: &[(Call, usize)], m: usize) -> Vec<Value> {
    let mut first = vec![usize::MAX; m];
    let mut last = vec![0; m];
    let mut calls = vec![0; m];
    for (k, (c, e)) in log.iter().enumerate() {
        if *c == Call::EnterAssemble {
            calls[*e] += 1;
            first[*e] = first[*e].min(k);
        }
        last[*e] = k;
    }
    let mut out = Vec::new();
    for (k, (_, e)) in log.iter().enumerate() {
        if first[*e] == k {
            out.push(json!({"op": "s", "e": e}));
        }
        if calls[*e] > 0 && last[*e] == k {
            out.push(json!({"op": "d", "e": e, "calls": calls[*e]}));
        }
    }
    out
}

fn mock_of(v: &Value) -> Mock {
    Mock::new(us(&v["n"]), us(&v["s"]), uvecs(&v["elems"]))
}

fn main() {
    run(|case, out| {
        let mut m = mock_of(case);
        let threads = case["threads"].as_u64().unwrap_or(2) as usize;
        let pool = rayon_pool(threads);
        let (cs, cp) = (CsrAssembler::<f64>::default(), CsrParAssembler::<f64>::default());
        let (vs, vp) = (VectorAssembler::<f64>::default(), VectorParAssembler::<f64>::default());
        out.ev(json!({"op": "new", "new": 1, "n": m.n, "s": m.s, "elems": m.elems, "threads": threads}));
        for op in arr(&case["ops"]) {
            let name = st(&op["op"]);
            match name {
                "mesh" => {
                    m = mock_of(op);
                    out.ev(op.clone());
                }
                "pat" => {
                    for par in [0, 1] {
                        let r = guard(|| {
                            let p = if par == 1 { pool.install(|| cp.assemble_pattern(&m)) } else { cs.assemble_pattern(&m) };
                            json!({"op": "pat", "par": par, "nrows": p.major_dim(), "ncols": p.minor_dim(), "rows": rows(&p)})
                        });
                        out.ev(r.unwrap_or_else(|e| json!({"op": "panic", "at": "pat", "par": par, "msg": e})));
                    }
                }
                "mat" | "vec" | "sca" => {
                    let par = us(&op["par"]);
                    let into = us(&op["into"]);
                    m.tag = int(&op["tag"]);
                    for e in 0..m.elems.len() {
                        m.fail[e] = false;
                        m.slow[e] = false;
                        m.pred[e] = None;
                    }
                    for e in uvec(&op["fail"]) {
                        m.fail[e] = true;
                    }
                    if par == 1 {
                        for e in uvec(&op["slow"]) {
                            m.slow[e] = true;
                        }
                        for g in uvecs(&op["order"]) {
                            for w in g.windows(2) {
                                m.pred[w[1]] = Some(w[0]);
                            }
                        }
                    }
                    m.patience = Duration::from_micros(op["patience"].as_u64().unwrap_or(1500));
                    m.logging = true;
                    *m.sched.lock().unwrap() = Sched { log: vec![], entered: vec![false; m.elems.len()], exited: vec![false; m.elems.len()] };
                    let mut begin = json!({"op": "begin", "kind": name, "par": par, "into": into, "tag": m.tag, "fail": op["fail"]});
                    if !op["extra"].is_null() {
                        begin["extra"] = op["extra"].clone();
                    }
                    out.ev(begin);
                    let r = guard(|| -> Result<Value, eyre::Report> {
                        let colors = if par == 1 && name != "sca" {
                            if op["colors"].is_null() { color_nodes(&m) } else { own_colors(&m, &op["colors"]) }
                        } else {
                            vec![]
                        };
                        Ok(match (name, par, into) {
                            ("mat", 0, 0) => triplets(&cs.assemble(&m)?),
                            ("mat", 1, 0) => triplets(&pool.install(|| cp.assemble(&colors, &m))?),
                            ("mat", _, _) => {
                                let mut a = base_matrix(&m, &op["extra"]);
                                if par == 1 {
                                    pool.install(|| cp.assemble_into_csr(&mut a, &colors, &m))?
                                } else {
                                    cs.assemble_into_csr(&mut a, &m)?
                                }
                                triplets(&a)
                            }
                            ("vec", _, _) => {
                                let v = if into == 1 {
                                    let mut v = DVector::from_fn(m.n * m.s, |i, _| base_vec(i as i64) as f64);
                                    if par == 1 {
                                        let v = &mut v;
                                        pool.install(|| vp.assemble_vector_into(DVectorViewMut::from(v), &colors, &m))?
                                    } else {
                                        vs.assemble_vector_into(&mut v, &m)?
                                    }
                                    v
                                } else if par == 1 {
                                    pool.install(|| vp.assemble_vector(&colors, &m))?
                                } else {
                                    vs.assemble_vector(&m)?
                                };
                                json!(v.iter().map(|x| exact(*x, 1.0)).collect::<Vec<_>>())
                            }
                            _ => {
                                let x = if par == 1 { pool.install(|| par_assemble_scalar(&m))? } else { assemble_scalar(&m)? };
                                json!([exact(x, 1.0)])
                            }
                        })
                    });
                    m.logging = false;
                    let log = std::mem::take(&mut m.sched.lock().unwrap().log);
                    for ev in intervals(&log, m.elems.len()) {
                        out.ev(ev);
                    }
                    out.ev(match r {
                        Ok(Ok(v)) => json!({"op": "end", "ok": 1, "val": v}),
                        Ok(Err(e)) => match e.downcast_ref::<Scripted>() {
                            Some(s) => json!({"op": "end", "ok": 0, "who": s.elem, "tag": s.tag}),
                            None => json!({"op": "end", "ok": 2, "msg": format!("{e}")}),
                        },
                        Err(p) => json!({"op": "panic", "at": name, "msg": p}),
                    });
                }
                "gather" => {
                    let (idx, s, global) = (uvec(&op["idx"]), us(&op["s"]), ivec(&op["global"]));
                    let r = guard(|| {
                        let g = DVector::from_iterator(global.len(), global.iter().map(|x| *x as f64));
                        let mut loc = DVector::from_element(idx.len() * s, 777.0);
                        gather_global_to_local(DVectorView::from(&g), DVectorViewMut::from(&mut loc), &idx, s);
                        let loc: Vec<i64> = loc.iter().map(|x| exact(*x, 1.0)).collect();
                        let mut g2 = g.clone();
                        let add = DVector::from_fn(idx.len() * s, |i, _| (3 * i + 1) as f64);
                        add_local_to_global(DVectorView::from(&add), DVectorViewMut::from(&mut g2), &idx, s);
                        let add: Vec<i64> = add.iter().map(|x| *x as i64).collect();
                        let after: Vec<i64> = g2.iter().map(|x| exact(*x, 1.0)).collect();
                        (
                            json!({"op": "gather", "idx": idx, "s": s, "global": global, "local": loc}),
                            json!({"op": "scatter", "idx": idx, "s": s, "global": global, "local": add, "after": after}),
                        )
                    });
                    match r {
                        Ok((a, b)) => {
                            out.ev(a);
                            out.ev(b);
                        }
                        Err(p) => out.ev(json!({"op": "panic", "at": "gather", "msg": p})),
                    }
                }
                other => die(&format!("unknown op {other}")),
            }
        }
    });
}

fn rayon_pool(threads: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap_or_else(|e| die(&format!("{e}")))
}
