//! Colorings (C02) and iteration over disjoint subsets under scripted splits (C03).
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::DisjointSubsets;
use fenris_sparse::ParallelCsrRowCollection;
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use fenris_paradis::SubsetAccess;
use vh::*;

fn accepts(c: &DisjointSubsets, len: usize) -> bool {
    let mut data = vec![0i64; len];
    guard(|| {
        c.subsets_par_iter(data.as_mut_slice()).for_each(|mut s| {
            for i in 0..s.len() {
                *s.get_mut(i) += 1;
            }
        })
    })
    .is_ok()
}

fn color_case(case: &Value, out: &mut Out) {
    let f = uvecs(&case["F"]);
    let r = guard(|| sequential_greedy_coloring(&NestedVec::from(&f)));
    let colors = match r {
        Ok(c) => c,
        Err(e) => return out.ev(json!({"op": "panic", "new": 1, "F": f, "msg": e})),
    };
    let js: Vec<Value> = colors
        .iter()
        .map(|c| json!({"labels": c.labels(), "subsets": Vec::<Vec<usize>>::from(c.subsets())}))
        .collect();
    out.ev(json!({"op": "color", "new": 1, "F": f, "colors": js}));
    for (k, c) in colors.iter().enumerate() {
        // lengths around every index of the color (from its own subsets, so that nothing unsafe is accepted here
        // that the coloring itself does not claim to be safe: shorter storage is probed only downwards)
        let max = c.subsets().iter().flatten().max().copied();
        let top = max.map(|m| m + 1).unwrap_or(0);
        let mut lens: Vec<usize> = vec![top, top + 1, top + 7];
        lens.extend((0..top).rev().take(3));
        lens.extend(c.subsets().iter().flatten().copied().filter(|x| *x < 50).take(4));
        if top > 0 {
            lens.push(0);
        }
        // out-of-bounds writes must not happen even if a length is wrongly accepted: probe rejections without access
        let acc: Vec<i32> = lens
            .iter()
            .map(|&n| {
                if n >= top {
                    accepts(c, n) as i32
                } else {
                    let mut data = vec![0i64; n];
                    guard(|| {
                        let _it = c.subsets_par_iter(data.as_mut_slice());
                    })
                    .is_ok() as i32
                }
            })
            .collect();
        out.ev(json!({"op": "storage", "color": k, "lens": lens, "accepted": acc}));
    }
}

fn bump(label: usize, j: usize) -> i64 {
    ((label + 1) * (j + 1)) as i64
}

/// Access to the delivered subset in a storage-independent way.
trait Item {
    fn lab(&self) -> usize;
    fn ix(&self) -> Vec<usize>;
    fn reads_then_bump(&mut self) -> Vec<Vec<i64>>;
}
type SliceAcc<'a> = fenris_paradis::slice::ParallelSliceAccess<'a, i64>;
impl<'a> Item for SubsetAccess<'a, SliceAcc<'a>> {
    fn lab(&self) -> usize {
        self.label()
    }
    fn ix(&self) -> Vec<usize> {
        self.global_indices().to_vec()
    }
    fn reads_then_bump(&mut self) -> Vec<Vec<i64>> {
        let n = self.len();
        let r = (0..n).map(|i| vec![*self.get(i)]).collect();
        let l = self.label();
        for i in 0..n {
            *self.get_mut(i) += bump(l, 0);
        }
        r
    }
}
type BlockAcc<'a> = fenris_paradis::adapter::BlockAccess<SliceAcc<'a>>;
impl<'a> Item for SubsetAccess<'a, BlockAcc<'a>> {
    fn lab(&self) -> usize {
        self.label()
    }
    fn ix(&self) -> Vec<usize> {
        self.global_indices().to_vec()
    }
    fn reads_then_bump(&mut self) -> Vec<Vec<i64>> {
        let n = self.len();
        let mut r: Vec<Vec<i64>> = Vec::new();
        for i in 0..n {
            let b = self.get(i);
            let mut v: Vec<i64> = (0..b.len()).map(|j| *b.index(j)).collect();
            if b.get(b.len()).is_some() {
                v.push(-12345);
            }
            r.push(v);
        }
        let l = self.label();
        for i in 0..n {
            let mut b = self.get_mut(i);
            if b.get_mut(b.len()).is_some() || b.get(b.len()).is_some() {
                r[i].push(-12345);
            }
            for j in 0..b.len() {
                *b.index_mut(j) += bump(l, j);
            }
        }
        r
    }
}
type CsrAcc<'a> = fenris_sparse::CsrParallelRowAccess<'a, i64>;
impl<'a> Item for SubsetAccess<'a, CsrAcc<'a>> {
    fn lab(&self) -> usize {
        self.label()
    }
    fn ix(&self) -> Vec<usize> {
        self.global_indices().to_vec()
    }
    fn reads_then_bump(&mut self) -> Vec<Vec<i64>> {
        let n = self.len();
        let r = (0..n)
            .map(|i| {
                let row = self.get(i);
                // columns of row i are i, i+1, ... by construction
                let first = self.global_indices()[i];
                let ok = row.col_indices().iter().enumerate().all(|(k, c)| *c == first + k) && row.nnz() == row.values().len();
                if ok { row.values().to_vec() } else { vec![-99] }
            })
            .collect();
        let l = self.label();
        for i in 0..n {
            let mut row = self.get_mut(i);
            let nnz = row.nnz();
            let (cols, vals) = row.cols_and_values_mut();
            assert_eq!((cols.len(), vals.len()), (nnz, nnz));
            for (j, v) in vals.iter_mut().enumerate() {
                *v += bump(l, j);
            }
        }
        r
    }
}

struct Script<'a> {
    ops: &'a Value,
    out: &'a mut Out,
}
impl<'a, T: Item> ProducerCallback<T> for Script<'a> {
    type Output = ();
    fn callback<P: Producer<Item = T>>(self, producer: P) {
        let mut prods: Vec<Option<P>> = vec![Some(producer)];
        let mut iters: Vec<Option<P::IntoIter>> = vec![None];
        for op in arr(self.ops) {
            let (name, p, k) = (st(&op[0]), us(&op[1]), us(&op[2]));
            match name {
                "split" => {
                    let pr = prods[p].take().unwrap_or_else(|| die("no such piece"));
                    match guard(|| pr.split_at(k)) {
                        Ok((a, b)) => {
                            prods.push(Some(a));
                            prods.push(Some(b));
                            iters.push(None);
                            iters.push(None);
                            self.out.ev(json!({"op": "split", "p": p, "k": k}));
                        }
                        Err(e) => {
                            self.out.ev(json!({"op": "panic", "at": "split", "k": k, "msg": e}));
                            return;
                        }
                    }
                }
                "open" => {
                    let it = prods[p].take().unwrap_or_else(|| die("no such piece")).into_iter();
                    let len = it.len();
                    iters[p] = Some(it);
                    self.out.ev(json!({"op": "open", "p": p, "len": len}));
                }
                "next" | "back" => {
                    let it = iters[p].as_mut().unwrap_or_else(|| die("not open"));
                    let r = guard(|| {
                        let x = if name == "next" { it.next() } else { it.next_back() };
                        match x {
                            Some(mut item) => {
                                let reads = item.reads_then_bump();
                                json!({"op": name, "p": p, "some": 1, "label": item.lab(), "indices": item.ix(), "reads": reads, "len": it.len()})
                            }
                            None => json!({"op": name, "p": p, "some": 0, "len": it.len()}),
                        }
                    });
                    self.out.ev(r.unwrap_or_else(|e| json!({"op": "panic", "at": name, "msg": e})));
                }
                o => die(&format!("unknown op {o}")),
            }
        }
    }
}

fn drive<I, T>(it: I, how: &Value, out: &mut Out) -> Option<Value>
where
    T: Item + Send,
    I: IndexedParallelIterator<Item = T>,
{
    match st(&how[0]) {
        "script" => {
            it.with_producer(Script { ops: &how[1], out });
            None
        }
        h => {
            let k = us(&how[1]);
            let plen = it.len();
            let f = |mut x: T| {
                x.reads_then_bump();
                (x.lab(), x.ix())
            };
            let minmax = us(&how[2]);
            let it = it.with_max_len(if minmax == 0 { usize::MAX } else { minmax });
            let r: Vec<(usize, Vec<usize>)> = match h {
                "all" => it.map(f).collect(),
                "rev" => it.rev().map(f).collect(),
                "take" => it.take(k).map(f).collect(),
                "skip" => it.skip(k).map(f).collect(),
                o => die(&format!("unknown drive {o}")),
            };
            let (labels, idx): (Vec<_>, Vec<_>) = r.into_iter().unzip();
            Some(json!({"op": "whole", "how": h, "k": k, "plen": plen, "labels": labels, "idx": idx}))
        }
    }
}

fn iter_case(case: &Value, out: &mut Out) {
    let (f, labels) = (uvecs(&case["F"]), uvec(&case["labels"]));
    let (len, w) = (us(&case["len"]), us(&case["w"]));
    let kind = st(&case["kind"]);
    // records: width w for every index (csr rows have index-dependent length)
    let width = |r: usize| if kind == "csr" { r % (w + 1) } else { w };
    let mut recs: Vec<Vec<i64>> = (0..len).map(|r| (0..width(r)).map(|j| (10 * r + j) as i64).collect()).collect();
    out.ev(json!({"op": "new", "new": 1, "F": f, "labels": labels, "data": recs, "kind": kind}));
    let subsets = match guard(|| DisjointSubsets::try_from_disjoint_subsets(&f, labels.clone())) {
        Ok(Ok(s)) => s,
        Ok(Err(_)) => return out.ev(json!({"op": "try", "F": f, "ok": 0})),
        Err(e) => return out.ev(json!({"op": "panic", "at": "try", "msg": e})),
    };
    let pool = rayon::ThreadPoolBuilder::new().num_threads(us(&case["threads"])).build().unwrap();
    for how in arr(&case["runs"]) {
        let mut flat: Vec<i64> = recs.concat();
        let mut coo = CooMatrix::new(len, len + w + 2);
        for (r, rec) in recs.iter().enumerate() {
            for (j, v) in rec.iter().enumerate() {
                coo.push(r, r + j, *v);
            }
        }
        let mut csr = CsrMatrix::from(&coo);
        let res = guard(|| match kind {
            "slice" => pool.install(|| drive(subsets.subsets_par_iter(flat.as_mut_slice()), how, out)),
            "block" => {
                let mut ad = BlockAdapter::with_block_size(flat.as_mut_slice(), w);
                pool.install(|| drive(subsets.subsets_par_iter(&mut ad), how, out))
            }
            "csr" => {
                let mut c = ParallelCsrRowCollection(&mut csr);
                pool.install(|| drive(subsets.subsets_par_iter(&mut c), how, out))
            }
            o => die(&format!("unknown storage {o}")),
        });
        if kind == "csr" {
            for (r, rec) in recs.iter_mut().enumerate() {
                *rec = csr.row(r).values().to_vec();
            }
        } else {
            let mut k = 0;
            for rec in recs.iter_mut() {
                for x in rec.iter_mut() {
                    *x = flat[k];
                    k += 1;
                }
            }
        }
        match res {
            Ok(Some(mut ev)) => {
                ev["data"] = json!(recs);
                out.ev(ev);
            }
            Ok(None) => out.ev(json!({"op": "final", "data": recs})),
            Err(e) => out.ev(json!({"op": "panic", "at": how[0], "msg": e})),
        }
    }
    // families that are not disjoint are rejected at construction
    for g in arr(&case["tries"]) {
        let g = uvecs(g);
        let r = guard(|| DisjointSubsets::try_from_disjoint_subsets(&g, (0..g.len()).collect()).is_ok());
        out.ev(match r {
            Ok(b) => json!({"op": "try", "F": g, "ok": b as i32}),
            Err(e) => json!({"op": "panic", "at": "try", "F": g, "msg": e}),
        });
    }
    // storage that is too small is rejected before any access (nothing is iterated here)
    for n in uvec(&case["lens"]) {
        let blocks = if kind == "block" { w } else { 1 };
        let mut data = vec![0i64; n * blocks];
        let mut csr: CsrMatrix<i64> = CsrMatrix::zeros(n, 3);
        let r = guard(|| match kind {
            "csr" => {
                let mut c = ParallelCsrRowCollection(&mut csr);
                let _it = subsets.subsets_par_iter(&mut c);
            }
            "block" => {
                let mut ad = BlockAdapter::with_block_size(data.as_mut_slice(), w);
                let _it = subsets.subsets_par_iter(&mut ad);
            }
            _ => {
                let _it = subsets.subsets_par_iter(data.as_mut_slice());
            }
        });
        out.ev(json!({"op": "store", "len": n, "ok": r.is_ok() as i32}));
    }
}

fn main() {
    run(|case, out| match case["runs"].is_null() {
        true => color_case(case, out),
        false => iter_case(case, out),
    });
}
