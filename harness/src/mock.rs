//! A scripted element assembler: integer-valued local quantities (the formulas of Assembly.tla),
//! scripted failures, a log of every call in real-time order and a scheduler that provokes overlaps.
use fenris::assembly::local::*;
use nalgebra::{DMatrixViewMut, DVectorViewMut};
use std::fmt;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn local_mat(t: i64, e: i64, i: i64, j: i64) -> i64 {
    ((31 * (e + 1) + 17 * (i + 1) + 7 * (j + 1) + 3 * (i + 1) * (j + 1) + 13 * t) % 23) - 11
}
pub fn local_vec(t: i64, e: i64, i: i64) -> i64 {
    ((29 * (e + 1) + 11 * (i + 1) + 5 * t + (e + 1) * (i + 1)) % 19) - 9
}
pub fn local_sca(t: i64, e: i64) -> i64 {
    ((37 * (e + 1) + 7 * t) % 31) - 15
}
pub fn base_mat(r: i64, c: i64) -> i64 {
    ((5 * r + 3 * c) % 7) - 3
}
pub fn base_vec(r: i64) -> i64 {
    ((5 * r + 1) % 9) - 4
}

/// The error a scripted element fails with; carries the element and the run it belongs to.
#[derive(Debug)]
pub struct Scripted {
    pub elem: usize,
    pub tag: i64,
}
impl fmt::Display for Scripted {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "scripted failure of element {} in run {}", self.elem, self.tag)
    }
}
impl std::error::Error for Scripted {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    EnterAssemble,
    ExitAssemble,
    EnterNodes,
    ExitNodes,
}

#[derive(Default)]
pub struct Sched {
    pub log: Vec<(Call, usize)>,
    pub entered: Vec<bool>,
    pub exited: Vec<bool>,
}

pub struct Mock {
    pub n: usize,
    pub s: usize,
    pub elems: Vec<Vec<usize>>,
    pub tag: i64,
    pub fail: Vec<bool>,
    /// elements that linger until a neighbour shows up (or the patience runs out)
    pub slow: Vec<bool>,
    /// requested predecessor in completion order, if any
    pub pred: Vec<Option<usize>>,
    pub patience: Duration,
    pub logging: bool,
    pub sched: Mutex<Sched>,
    pub cv: Condvar,
}

impl Mock {
    pub fn new(n: usize, s: usize, elems: Vec<Vec<usize>>) -> Self {
        let m = elems.len();
        Mock {
            n,
            s,
            elems,
            tag: 0,
            fail: vec![false; m],
            slow: vec![false; m],
            pred: vec![None; m],
            patience: Duration::from_millis(2),
            logging: false,
            sched: Mutex::new(Sched { log: vec![], entered: vec![false; m], exited: vec![false; m] }),
            cv: Condvar::new(),
        }
    }
    fn log(&self, c: Call, e: usize) {
        if self.logging {
            let mut g = self.sched.lock().unwrap();
            g.log.push((c, e));
            if c == Call::EnterAssemble {
                g.entered[e] = true;
            }
            if c == Call::ExitAssemble {
                g.exited[e] = true;
            }
            drop(g);
            self.cv.notify_all();
        }
    }
    fn share(&self, a: usize, b: usize) -> bool {
        a != b && self.elems[a].iter().any(|x| self.elems[b].contains(x))
    }
    fn enter(&self, e: usize) {
        self.log(Call::EnterAssemble, e);
        if !self.logging {
            return;
        }
        let t0 = Instant::now();
        let mut g = self.sched.lock().unwrap();
        loop {
            let want_neighbour = self.slow[e]
                && !(0..self.elems.len()).any(|f| self.share(e, f) && g.entered[f] && !g.exited[f]);
            let want_pred = self.pred[e].map(|p| !g.exited[p]).unwrap_or(false);
            let left = self.patience.checked_sub(t0.elapsed());
            match left {
                Some(d) if (want_neighbour || want_pred) && !d.is_zero() => {
                    g = self.cv.wait_timeout(g, d).unwrap().0;
                }
                _ => break,
            }
        }
    }
    fn leave(&self, e: usize) -> eyre::Result<()> {
        self.log(Call::ExitAssemble, e);
        if self.fail[e] {
            return Err(eyre::Report::new(Scripted { elem: e, tag: self.tag }));
        }
        Ok(())
    }
}

impl ElementConnectivityAssembler for Mock {
    fn solution_dim(&self) -> usize {
        self.s
    }
    fn num_elements(&self) -> usize {
        self.elems.len()
    }
    fn num_nodes(&self) -> usize {
        self.n
    }
    fn element_node_count(&self, element_index: usize) -> usize {
        self.elems[element_index].len()
    }
    fn populate_element_nodes(&self, output: &mut [usize], element_index: usize) {
        self.log(Call::EnterNodes, element_index);
        output.copy_from_slice(&self.elems[element_index]);
        self.log(Call::ExitNodes, element_index);
    }
}

impl fenris::space::FiniteElementConnectivity for Mock {
    fn num_elements(&self) -> usize {
        self.elems.len()
    }
    fn num_nodes(&self) -> usize {
        self.n
    }
    fn element_node_count(&self, element_index: usize) -> usize {
        self.elems[element_index].len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], element_index: usize) {
        nodes.copy_from_slice(&self.elems[element_index]);
    }
}

impl ElementMatrixAssembler<f64> for Mock {
    fn assemble_element_matrix_into(&self, e: usize, mut out: DMatrixViewMut<f64>) -> eyre::Result<()> {
        self.enter(e);
        let d = self.s * self.elems[e].len();
        assert_eq!((out.nrows(), out.ncols()), (d, d), "wrong local matrix size");
        for i in 0..d {
            for j in 0..d {
                out[(i, j)] = local_mat(self.tag, e as i64, i as i64, j as i64) as f64;
            }
        }
        self.leave(e)
    }
}
impl ElementVectorAssembler<f64> for Mock {
    fn assemble_element_vector_into(&self, e: usize, mut out: DVectorViewMut<f64>) -> eyre::Result<()> {
        self.enter(e);
        let d = self.s * self.elems[e].len();
        assert_eq!(out.len(), d, "wrong local vector size");
        for i in 0..d {
            out[i] = local_vec(self.tag, e as i64, i as i64) as f64;
        }
        self.leave(e)
    }
}
impl ElementScalarAssembler<f64> for Mock {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.enter(e);
        self.leave(e)?;
        Ok(local_sca(self.tag, e as i64) as f64)
    }
}
