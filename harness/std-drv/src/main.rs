//! Driver for the arkworks-free modules: one JSON request per line, one "@@{json}" answer per line.
#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
#[path = "/repo/packages/zkenc-core/src/serializable.rs"]
pub mod core_serializable;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn hx(v: &Value, k: &str) -> Vec<u8> { hex::decode(v[k].as_str().unwrap_or("")).unwrap() }
fn st<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or_else(|| panic!("driver: no field {k}")) }
fn bytes_res(r: anyhow::Result<Vec<u8>>) -> Value { match r { Ok(b) => json!({"ok": hex::encode(b)}), Err(e) => json!({"err": format!("{e:#}")}) } }

fn lc(l: &r1cs::LinearCombination) -> Value { json!(l.factors.iter().map(|(w, b)| json!([w, hex::encode(b)])).collect::<Vec<_>>()) }
fn r1cs_json(r: &r1cs::R1csFile) -> Value {
    json!({"field_size": r.field_size, "prime": hex::encode(&r.prime), "n_wires": r.n_wires, "n_pub_out": r.n_pub_out, "n_pub_in": r.n_pub_in,
        "n_prv_in": r.n_prv_in, "n_labels": r.n_labels.to_string(), "n_constraints": r.n_constraints, "n_public": r.n_public_inputs(),
        "constraints": r.constraints.iter().map(|c| json!([lc(&c.a), lc(&c.b), lc(&c.c)])).collect::<Vec<_>>(),
        "labels": r.wire2label.iter().map(|x| x.to_string()).collect::<Vec<_>>() })
}
macro_rules! serial { ($m:ident, $v:ident) => { mod $m {
    use super::*;
    use crate::$v::*;
    // `Debug`-free structural projection: every public field, maps as sorted lists.
    pub fn lc(l: &SerializableLC) -> Value { json!(l.factors.iter().map(|f| json!([f.wire_id, hex::encode(&f.coefficient_bytes)])).collect::<Vec<_>>()) }
    pub fn circ(c: &SerializableCircuit) -> Value {
        let labels = c.wire_labels.as_ref().map(|m| { let mut v: Vec<_> = m.iter().map(|(k, s)| (*k, s.clone())).collect(); v.sort(); v });
        json!({"field_size": c.field_size, "prime": hex::encode(&c.prime_bytes), "n_wires": c.n_wires, "n_pub_out": c.n_pub_out, "n_pub_in": c.n_pub_in,
            "n_prv_in": c.n_prv_in, "n_constraints": c.n_constraints,
            "constraints": c.constraints.iter().map(|x| json!([lc(&x.a), lc(&x.b), lc(&x.c)])).collect::<Vec<_>>(), "labels": labels})
    }
    pub fn wit(w: &SerializableWitness) -> Value { let mut v: Vec<_> = w.assignments.iter().map(|(k, b)| (*k, hex::encode(b))).collect(); v.sort(); json!(v) }
    pub fn tc(t: &SerializableTestCase) -> Value { json!({"circuit": circ(&t.circuit), "witness": wit(&t.witness), "name": t.name, "description": t.description}) }
    pub fn un_lc(v: &Value) -> SerializableLC { SerializableLC { factors: v.as_array().unwrap().iter().map(|f| SerializableFactor { wire_id: f[0].as_u64().unwrap() as u32, coefficient_bytes: hex::decode(f[1].as_str().unwrap()).unwrap() }).collect() } }
    pub fn un_circ(v: &Value) -> SerializableCircuit {
        let u = |k: &str| v[k].as_u64().unwrap() as u32;
        SerializableCircuit { field_size: u("field_size"), prime_bytes: hx(v, "prime"), n_wires: u("n_wires"), n_pub_out: u("n_pub_out"), n_pub_in: u("n_pub_in"), n_prv_in: u("n_prv_in"), n_constraints: u("n_constraints"),
            constraints: v["constraints"].as_array().unwrap().iter().map(|c| SerializableConstraint { a: un_lc(&c[0]), b: un_lc(&c[1]), c: un_lc(&c[2]) }).collect(),
            wire_labels: v["labels"].as_array().map(|a| a.iter().map(|p| (p[0].as_u64().unwrap() as u32, p[1].as_str().unwrap().to_string())).collect()) }
    }
    pub fn un_wit(v: &Value) -> SerializableWitness { SerializableWitness { assignments: v.as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap() as u32, hex::decode(p[1].as_str().unwrap()).unwrap())).collect() } }
    pub fn un_tc(v: &Value) -> SerializableTestCase { SerializableTestCase { circuit: un_circ(&v["circuit"]), witness: un_wit(&v["witness"]), name: st(v, "name").to_string(), description: v["description"].as_str().map(|s| s.to_string()) } }
    fn e<T: std::fmt::Display>(x: T) -> Value { json!({"err": x.to_string()}) }
    /// op = {kind, path, act: save|load|text|parse|bin|unbin, value|text|hex}
    pub fn op(v: &Value) -> Value {
        let p = v["path"].as_str().unwrap_or("");
        match (st(v, "kind"), st(v, "act")) {
            ("circuit", "save_json") => un_circ(&v["value"]).save_json(p).map_or_else(e, |_| json!({"ok": null})),
            ("circuit", "load_json") => SerializableCircuit::load_json(p).map_or_else(e, |c| json!({"ok": circ(&c)})),
            ("circuit", "save_bin") => un_circ(&v["value"]).save_bincode(p).map_or_else(e, |_| json!({"ok": null})),
            ("circuit", "load_bin") => SerializableCircuit::load_bincode(p).map_or_else(e, |c| json!({"ok": circ(&c)})),
            ("circuit", "to_json") => un_circ(&v["value"]).to_json().map_or_else(e, |s| json!({"ok": s})),
            ("circuit", "from_json") => SerializableCircuit::from_json(st(v, "text")).map_or_else(e, |c| json!({"ok": circ(&c)})),
            ("circuit", "to_bin") => un_circ(&v["value"]).to_bincode().map_or_else(e, |b| json!({"ok": hex::encode(b)})),
            ("circuit", "from_bin") => SerializableCircuit::from_bincode(&hx(v, "hex")).map_or_else(e, |c| json!({"ok": circ(&c)})),
            ("witness", "save_json") => un_wit(&v["value"]).save_json(p).map_or_else(e, |_| json!({"ok": null})),
            ("witness", "load_json") => SerializableWitness::load_json(p).map_or_else(e, |c| json!({"ok": wit(&c)})),
            ("witness", "to_json") => un_wit(&v["value"]).to_json().map_or_else(e, |s| json!({"ok": s})),
            ("witness", "from_json") => SerializableWitness::from_json(st(v, "text")).map_or_else(e, |c| json!({"ok": wit(&c)})),
            ("testcase", "save_json") => un_tc(&v["value"]).save_json(p).map_or_else(e, |_| json!({"ok": null})),
            ("testcase", "load_json") => SerializableTestCase::load_json(p).map_or_else(e, |c| json!({"ok": tc(&c)})),
            x => panic!("driver: {x:?}"),
        }
    }
} } }
serial!(ser_cli, serializable);
serial!(ser_core, core_serializable);

fn sorted(m: std::collections::HashMap<String, u32>) -> Value { let mut v: Vec<_> = m.into_iter().collect(); v.sort(); json!(v) }

fn run(v: &Value) -> Value {
    match st(v, "op") {
        "gcm_enc" => bytes_res(crypto::encrypt_gcm(&hx(v, "key"), &hx(v, "data"))),
        "gcm_dec" => bytes_res(crypto::decrypt_gcm(&hx(v, "key"), &hx(v, "data"))),
        "ctr_enc" => bytes_res(crypto::encrypt_ctr(&hx(v, "key"), &hx(v, "data"))),
        "ctr_dec" => bytes_res(crypto::decrypt_ctr(&hx(v, "key"), &hx(v, "data"))),
        // the nonces / vectors of a history of encryptions under one key
        "prefixes" => { let (k, d) = (hx(v, "key"), hx(v, "data")); let gcm = v["kind"] == "gcm"; let n = if gcm { 12 } else { 16 };
            let mut o = Vec::new();
            for _ in 0..v["n"].as_u64().unwrap() { match if gcm { crypto::encrypt_gcm(&k, &d) } else { crypto::encrypt_ctr(&k, &d) } { Ok(b) if b.len() >= n => o.push(hex::encode(&b[..n])), _ => o.push("?".to_string()) } }
            json!({"ok": o}) }
        "r1cs" => match r1cs::R1csFile::from_file(st(v, "path")) { Ok(r) => json!({"ok": r1cs_json(&r)}), Err(e) => json!({"err": format!("{e:#}")}) },
        "r1cs_ser" => match r1cs::R1csFile::from_file(st(v, "path")) { Ok(r) => json!({"ok": r1cs_json(&r), "ser": ser_cli::circ(&r.to_serializable())}), Err(e) => json!({"err": format!("{e:#}")}) },
        "sym" => match sym_parser::parse_sym_file(st(v, "text")) {
            Ok(m) => { let maxw = v["max"].as_u64().map(|x| x as u32); let i = sym_parser::get_input_signals(&m, maxw); json!({"ok": sorted(m), "inputs": sorted(i)}) }
            Err(e) => json!({"err": format!("{e:#}")}) },
        "inputs" => match circom::parse_inputs(st(v, "path")) { Ok(m) => { let mut x: Vec<_> = m.into_iter().collect(); x.sort(); json!({"ok": x}) } Err(e) => json!({"err": format!("{e:#}")}) },
        "serial" => if v["lib"] == "core" { ser_core::op(v) } else { ser_cli::op(v) },
        "ping" => json!({"ok": "pong"}),
        o => panic!("driver: unknown op {o}"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // answers go to the descriptor ZK_FD: the code under test may print
    let fd = std::env::var("ZK_FD").expect("ZK_FD").parse().unwrap();
    let mut out: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fd) };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap(); if line.is_empty() { continue; }
        let v: Value = serde_json::from_str(&line).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&v))).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"panic": m}) });
        writeln!(out, "@@{}", r).unwrap(); out.flush().unwrap();
    }
}
