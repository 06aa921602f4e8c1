//! C23: loading mesh files. Case: {"op","want":{type,dim,D},"text", "file"?: document, "how": 0 bytes | 1 path}
use fenris::connectivity::*;
use fenris::io::msh::{load_msh_from_bytes, load_msh_from_file, MshConnectivity};
use fenris::mesh::Mesh;
use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, U2, U3};
use std::cell::RefCell;
use vh::*;

thread_local! { static AT: RefCell<String> = RefCell::new(String::new()); }

fn hex(x: f64) -> String { format!("{:016x}", x.to_bits()) }

fn load<D: DimName, C: MshConnectivity>(text: &[u8], how: usize, nodes: impl Fn(&C) -> Vec<usize>) -> Value
where
    DefaultAllocator: Allocator<f64, D>,
{
    let r = guard(|| -> fenris::eyre::Result<Mesh<f64, D, C>> {
        if how == 0 {
            load_msh_from_bytes::<f64, D, C>(text)
        } else {
            let p = format!("load{}.msh", std::process::id());
            std::fs::write(&p, text).unwrap_or_else(|e| die(&format!("{e}")));
            let r = load_msh_from_file::<f64, D, C, _>(&p);
            let _ = std::fs::remove_file(&p);
            r
        }
    });
    match r {
        Err(_) => json!({"res": "panic", "at": AT.with(|a| a.borrow().clone()), "verts": [], "cells": []}),
        Ok(Err(_)) => json!({"res": "err", "verts": [], "cells": []}),
        Ok(Ok(m)) => {
            let verts: Vec<Vec<String>> = m.vertices().iter().map(|p| p.coords.iter().map(|&x| hex(x)).collect()).collect();
            let cells: Vec<Vec<usize>> = m.connectivity().iter().map(|c| nodes(c)).collect();
            json!({"res": "ok", "verts": verts, "cells": cells})
        }
    }
}

fn dispatch(want: &Value, text: &[u8], how: usize) -> Value {
    macro_rules! go {
        ($c:ident) => {
            if us(&want["D"]) == 2 { load::<U2, $c>(text, how, |c| c.0.to_vec()) } else { load::<U3, $c>(text, how, |c| c.0.to_vec()) }
        };
    }
    match st(&want["conn"]) {
        "tri3" => go!(Tri3d2Connectivity),
        "tri3d3" => go!(Tri3d3Connectivity),
        "tri6" => go!(Tri6d2Connectivity),
        "quad4" => go!(Quad4d2Connectivity),
        "quad9" => go!(Quad9d2Connectivity),
        "tet4" => go!(Tet4Connectivity),
        "tet10" => go!(Tet10Connectivity),
        "hex8" => go!(Hex8Connectivity),
        "hex27" => go!(Hex27Connectivity),
        x => die(&format!("unknown connectivity {x}")),
    }
}

fn main() {
    vh::run(|c, out| {
        std::panic::set_hook(Box::new(|i| {
            let f = i.location().map(|l| l.file().to_string()).unwrap_or_default();
            let parts: Vec<&str> = f.split('/').collect();
            let krate = parts.iter().find(|p| p.starts_with("mshio")).map(|_| "mshio:").unwrap_or("");
            AT.with(|a| *a.borrow_mut() = format!("{}{}", krate, parts.last().unwrap_or(&"")));
        }));
        let mut e = match st(&c["op"]) {
            "missing" => {
                let r = guard(|| load_msh_from_file::<f64, U2, Tri3d2Connectivity, _>(st(&c["path"])).is_ok());
                json!({"res": match r { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" }})
            }
            _ => {
                let text: Vec<u8> = match &c["bytes"] {
                    Value::Array(b) => b.iter().map(|x| us(x) as u8).collect(),
                    _ => st(&c["text"]).as_bytes().to_vec(),
                };
                dispatch(&c["want"], &text, us(&c["how"]))
            }
        };
        let o = e.as_object_mut().unwrap();
        o.insert("new".into(), json!(1));
        o.insert("op".into(), c["op"].clone());
        o.insert("note".into(), c["note"].clone());
        if c["op"] == "load" {
            o.insert("want".into(), c["want"].clone());
            o.insert("file".into(), c["file"].clone());
        } else if c["op"] == "raw" {
            let nv = arr(&o["verts"]).len();
            let mr = arr(&o["cells"]).iter().flat_map(|x| uvec(x)).max().map(|x| x as i64).unwrap_or(-1).min(1 << 30);
            o.remove("verts");
            o.remove("cells");
            o.insert("nverts".into(), json!(nv));
            o.insert("maxref".into(), json!(mr));
            o.insert("text".into(), json!(c["text"].as_str().unwrap_or("").chars().take(800).collect::<String>()));
        }
        out.ev(e);
    });
}
