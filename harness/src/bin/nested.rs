//! Replays behaviours of NestedVec.tla in fenris_nested_vec::NestedVec and records what is visible.
use fenris_nested_vec::NestedVec;
use vh::*;

fn observe(n: &mut NestedVec<i64>) -> Value {
    let len = n.len();
    let iter: Vec<Vec<i64>> = n.iter().map(|s| s.to_vec()).collect();
    let get: Vec<Vec<i64>> = (0..len).map(|i| n.get(i).map(|s| s.to_vec()).unwrap_or(vec![-999])).collect();
    let getmut: Vec<Vec<i64>> = (0..len).map(|i| n.get_mut(i).map(|s| s.to_vec()).unwrap_or(vec![-999])).collect();
    let flat: Vec<i64> = n.iter_array_elements().cloned().collect();
    let vecs: Vec<Vec<i64>> = (&*n).into();
    let mut firsts: Vec<Vec<i64>> = Vec::new();
    firsts.extend(n.first().map(|s| s.to_vec()));
    firsts.extend(n.first_mut().map(|s| s.to_vec()));
    let mut lasts: Vec<Vec<i64>> = Vec::new();
    lasts.extend(n.last().map(|s| s.to_vec()));
    lasts.extend(n.last_mut().map(|s| s.to_vec()));
    let beyond = (0..3).any(|k| n.get(len + k).is_some() || n.get_mut(len + k).is_some()) || n.get(usize::MAX).is_some();
    let rebuilt = {
        let other = NestedVec::from(&iter);
        let mut third = NestedVec::new();
        for a in &iter {
            let mut app = third.begin_array();
            for x in a {
                app.push_single(*x);
            }
        }
        other == *n && third == *n && format!("{:?}", n) == format!("{:?}", iter)
    };
    json!({"len": len, "total": n.total_num_elements(), "iter": iter, "get": get, "getmut": getmut, "flat": flat,
           "vecs": vecs, "firsts": firsts, "lasts": lasts, "beyond": beyond, "rebuilt": rebuilt})
}

fn main() {
    run(|case, out| {
        let mut n: NestedVec<i64> = NestedVec::new();
        let mut copies = 0;
        let first = observe(&mut n);
        out.ev(json!({"op": "new", "new": 1, "obs": first}));
        let ops = arr(case);
        let mut k = 0;
        // `f` runs the next operations on the real object and records each
        while k < ops.len() {
            let op = &ops[k];
            k += 1;
            let name = st(&op["op"]).to_string();
            let mut ev = op.clone();
            let res = guard(|| match name.as_str() {
                "push" => {
                    n.push(&ivec(&op["a"]));
                    Some(observe(&mut n))
                }
                "clear" => {
                    n.clear();
                    Some(observe(&mut n))
                }
                "set" => {
                    let (i, j) = (us(&op["i"]), us(&op["j"]));
                    n.get_mut(i).map(|s| s[j] = int(&op["x"]));
                    Some(observe(&mut n))
                }
                "copy" => {
                    copies += 1;
                    n = match copies % 4 {
                        0 => n.clone(),
                        1 => NestedVec::from(Vec::<Vec<i64>>::from(n.clone())),
                        2 => serde_json::from_str(&serde_json::to_string(&n).unwrap()).unwrap(),
                        _ => NestedVec::from(&Vec::<Vec<i64>>::from(&n)),
                    };
                    Some(observe(&mut n))
                }
                _ => None,
            });
            match res {
                Ok(Some(o)) => {
                    // exercise first_mut/last_mut as additional mutation paths
                    ev["obs"] = o;
                    out.ev(ev);
                    if name == "set" {
                        let last = n.len() - 1;
                        for (tag, idx) in [("setfirst", 0usize), ("setlast", last)] {
                            let r = guard(|| {
                                let s = if idx == 0 && tag == "setfirst" { n.first_mut() } else { n.last_mut() };
                                let s = s.unwrap();
                                if s.is_empty() {
                                    return None;
                                }
                                let j = s.len() - 1;
                                s[j] += 10;
                                Some((j, s[j]))
                            });
                            match r {
                                Ok(Some((j, x))) => {
                                    let o = observe(&mut n);
                                    out.ev(json!({"op": tag, "a": [], "i": 0, "j": j, "x": x, "obs": o}));
                                }
                                Ok(None) => {}
                                Err(e) => out.ev(json!({"op": "panic", "msg": e})),
                            }
                        }
                    }
                }
                Ok(None) if name == "begin" => {
                    let mut pend = Vec::new();
                    let r = guard(|| {
                        let mut app = n.begin_array();
                        pend.push(json!({"op": "begin", "obs": {"count": app.count()}}));
                        let mut ended = false;
                        while k < ops.len() {
                            let op = &ops[k];
                            match st(&op["op"]) {
                                "single" => {
                                    k += 1;
                                    app.push_single(int(&op["x"]));
                                    pend.push(json!({"op": "single", "x": op["x"], "obs": {"count": app.count()}}));
                                }
                                "end" => {
                                    k += 1;
                                    ended = true;
                                    break;
                                }
                                other => die(&format!("unexpected {other} while appender is open")),
                            }
                        }
                        drop(app);
                        let _ = ended; // a behaviour that stops with an open appender still drops it here
                        pend.push(json!({"op": "end"}));
                    });
                    match r {
                        Ok(()) => {
                            let o = observe(&mut n);
                            pend.last_mut().unwrap()["obs"] = o;
                            for p in pend {
                                out.ev(p);
                            }
                        }
                        Err(e) => out.ev(json!({"op": "panic", "msg": e})),
                    }
                }
                Ok(None) => die(&format!("unknown op {name}")),
                Err(e) => {
                    out.ev(json!({"op": "panic", "msg": e, "at": name}));
                    return;
                }
            }
        }
    });
}
