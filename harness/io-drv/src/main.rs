//! Driver for the loaders and circuit wrappers of both tools.
use ark_bn254::{Bn254, Fr};
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem};
use ark_serialize::CanonicalDeserialize;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use zkenc_core::Ciphertext;

fn hx(v: &Value, k: &str) -> Vec<u8> { hex::decode(v[k].as_str().unwrap_or("")).unwrap() }
fn st<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or_else(|| panic!("driver: no field {k}")) }
fn fr(v: &Value) -> Fr { match v { Value::String(s) => s.parse().unwrap(), _ => Fr::from(v.as_i64().expect("driver: number")) } }
fn num(f: &Fr) -> Value { if Fr::is_toy() { json!(f.to_u64()) } else { json!(f.to_dec()) } }
fn run(v: &Value) -> Value {
    match st(v, "op") {
        // the CLI's witness loader
        "wtns" => match zkenc_cli::witness::WitnessFile::from_file(st(v, "path")) {
            Ok(w) => {
                let mut raw: Vec<_> = w.assignments.iter().map(|(k, b)| (*k, hex::encode(b))).collect(); raw.sort();
                let fe = match w.to_field_elements::<Fr>() { Ok(m) => { let mut x: Vec<_> = m.into_iter().collect(); x.sort(); json!({"ok": x.iter().map(|(k, f)| json!([k, num(f)])).collect::<Vec<_>>()}) } Err(e) => json!({"err": format!("{e:#}")}) };
                json!({"ok": {"n": w.n_witness, "n_wires": w.n_wires(), "prime": hex::encode(&w.prime), "raw": raw, "field": fe}})
            }
            Err(e) => json!({"err": format!("{e:#}")}),
        },
        // the CLI's circuit: which assignments it accepts, and its shape
        "cli_circuit" => {
            let mut out = vec![]; let mut shape = Value::Null;
            for a in v["asgs"].as_array().unwrap() {
                let mut c = match zkenc_cli::circuit::CircomCircuit::from_r1cs(st(v, "path")) { Ok(c) => c, Err(e) => return json!({"err": format!("{e:#}")}) };
                shape = json!([c.n_public_inputs(), c.n_constraints()]);
                let m: HashMap<u32, Fr> = a.as_array().unwrap().iter().enumerate().filter(|(_, x)| !x.is_null()).map(|(i, x)| (i as u32, fr(x))).collect();
                c.set_witness(m);
                let cs = ConstraintSystem::<Fr>::new_ref();
                out.push(match c.generate_constraints(cs.clone()) { Ok(()) => match cs.is_satisfied() { Ok(b) => json!(b), Err(_) => json!("err") }, Err(_) => json!("err") });
                if v["vars"] == true { shape = json!([shape[0], shape[1], cs.num_instance_variables(), cs.num_witness_variables(), cs.num_constraints()]); }
            }
            json!({"ok": {"acc": out, "shape": shape}})
        }
        "js_encap" => match zkenc_js::wasm_encap(&hx(v, "r1cs"), &hx(v, "wtns")) { Ok(r) => json!({"ok": {"ct": hex::encode(r.ciphertext()), "key": hex::encode(r.key())}}), Err(e) => json!({"err": e.as_string()}) },
        // one encapsulation on a scripted system source
        "js_seed" => {
            getrandom::script(Some(hx(v, "seed")));
            let r = zkenc_js::wasm_encap(&hx(v, "r1cs"), &hx(v, "wtns"));
            let used = getrandom::used(); getrandom::script(None);
            match r { Ok(r) => json!({"ok": {"ct": hex::encode(r.ciphertext()), "key": hex::encode(r.key()), "used": used}}), Err(e) => json!({"err": e.as_string()}) }
        }
        "js_many" => {
            let (a, b) = (hx(v, "r1cs"), hx(v, "wtns"));
            json!({"ok": (0..v["n"].as_u64().unwrap()).map(|_| match zkenc_js::wasm_encap(&a, &b) {
                Ok(r) => match Ciphertext::<Bn254>::deserialize_compressed(&r.ciphertext()[..]) { Ok(c) => { let k = &c.encap_key; json!([num(&k.alpha_g1.dlog()), num(&k.beta_g2.dlog()), num(&k.delta_g2.dlog()), hex::encode(r.key())]) } Err(_) => json!(["?", "", "", ""]) },
                Err(_) => json!(["!", "", "", ""]) }).collect::<Vec<_>>()})
        }
        "js_decap" => match zkenc_js::wasm_decap(&hx(v, "r1cs"), &hx(v, "wtns"), &hx(v, "ct")) { Ok(k) => json!({"ok": {"key": hex::encode(k)}}), Err(e) => json!({"err": e.as_string()}) },
        "ct" => { let b = hx(v, "ct"); let mut rest = &b[..]; match Ciphertext::<Bn254>::deserialize_compressed(&mut rest) {
            Ok(c) => { let k = &c.encap_key; json!({"ok": {"len": b.len() - rest.len(), "pub": c.public_inputs.iter().map(num).collect::<Vec<_>>(), "alpha": num(&k.alpha_g1.dlog()), "beta": num(&k.beta_g2.dlog()), "delta": num(&k.delta_g2.dlog()), "n": [k.r_u_query_g1.len(), k.r_v_query_g2.len(), k.phi_delta_query_g1.len(), k.h_query_g1.len()]}}) }
            Err(e) => json!({"err": format!("{e:?}")}) } },
        "ping" => json!({"ok": "pong"}),
        o => panic!("driver: unknown op {o}"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // answers go to the descriptor ZK_FD: the code under test may print
    let fd = std::env::var("ZK_FD").expect("ZK_FD").parse().unwrap();
    let mut out: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fd) };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap(); if line.is_empty() { continue; }
        let v: Value = serde_json::from_str(&line).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&v))).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"panic": m}) });
        writeln!(out, "@@{}", r).unwrap(); out.flush().unwrap();
    }
}
