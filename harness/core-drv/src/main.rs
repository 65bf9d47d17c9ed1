//! Driver for zkenc-core: one JSON request per line, one "@@{json}" answer per line.
use ark_bn254::{Bn254, Fr};
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, SynthesisError, Variable, R1CS_PREDICATE_LABEL};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use rand::{RngCore, SeedableRng};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use zkenc_core::{decap, encap, verify_ciphertext, Ciphertext};

type Row = Vec<(u32, Fr)>;
/// A circuit given by its matrices; wire 0 is 1, wires 1..=n_pub public, the others private.
#[derive(Clone)]
struct Circ { n_pub: u32, n_wires: u32, cons: Vec<[Row; 3]>, asg: Vec<Option<Fr>> }
impl ConstraintSynthesizer<Fr> for Circ {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let mut vars = vec![Variable::One];
        for w in 1..self.n_wires {
            let v = self.asg.get(w as usize).copied().flatten();
            let f = || v.ok_or(SynthesisError::AssignmentMissing);
            vars.push(if w <= self.n_pub { cs.new_input_variable(f)? } else { cs.new_witness_variable(f)? });
        }
        for c in self.cons {
            let mut b: Vec<Box<dyn FnOnce() -> LinearCombination<Fr>>> = vec![];
            for r in c { let mut l = LinearCombination::<Fr>::zero(); for (w, k) in r { l = l + (k, vars[w as usize]); } b.push(Box::new(move || l)); }
            cs.enforce_constraint(R1CS_PREDICATE_LABEL, b)?;
        }
        Ok(())
    }
}
fn fr(v: &Value) -> Fr { match v { Value::String(s) => s.parse().unwrap(), _ => Fr::from(v.as_i64().expect("driver: number")) } }
fn num(f: &Fr) -> Value { if Fr::is_toy() { json!(f.to_u64()) } else { json!(f.to_dec()) } }
fn circ(v: &Value) -> Circ {
    let row = |r: &Value| r.as_array().unwrap().iter().map(|f| (f[0].as_u64().unwrap() as u32, fr(&f[1]))).collect::<Row>();
    Circ { n_pub: v["n_pub"].as_u64().unwrap() as u32, n_wires: v["n_wires"].as_u64().unwrap() as u32,
        cons: v["cons"].as_array().unwrap().iter().map(|c| [row(&c[0]), row(&c[1]), row(&c[2])]).collect(),
        asg: v["asg"].as_array().unwrap().iter().map(|x| if x.is_null() { None } else { Some(fr(x)) }).collect() }
}
/// A random source whose bytes the scenario chooses: a constant-word prefix, then a seeded stream.
struct Src { pre: Vec<u64>, pos: usize, rest: rand::rngs::StdRng, used: u64 }
impl RngCore for Src {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.used += 1; if self.pos < self.pre.len() { self.pos += 1; self.pre[self.pos - 1] } else { self.rest.next_u64() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn src(v: &Value) -> Src {
    Src { pre: v["words"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default(), pos: 0, rest: rand::rngs::StdRng::seed_from_u64(v["seed"].as_u64().unwrap_or(0)), used: 0 }
}
fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> { let mut b = vec![]; x.serialize_compressed(&mut b).unwrap(); b }
fn key_of(s: Fr) -> Vec<u8> { blake3::hash(&ser(&ark_model::group::Gt(s))).as_bytes().to_vec() }
fn ct_json(c: &Ciphertext<Bn254>) -> Value {
    let k = &c.encap_key;
    let g1 = |v: &Vec<ark_model::group::Aff<1>>| v.iter().map(|x| num(&x.dlog())).collect::<Vec<_>>();
    let g2 = |v: &Vec<ark_model::group::Aff<2>>| v.iter().map(|x| num(&x.dlog())).collect::<Vec<_>>();
    json!({"alpha": num(&k.alpha_g1.dlog()), "beta": num(&k.beta_g2.dlog()), "delta": num(&k.delta_g2.dlog()),
        "u": g1(&k.r_u_query_g1), "v": g2(&k.r_v_query_g2), "phi": g1(&k.phi_delta_query_g1), "h": g1(&k.h_query_g1),
        "pub": c.public_inputs.iter().map(num).collect::<Vec<_>>()})
}
fn un_ct(v: &Value) -> Result<Ciphertext<Bn254>, String> {
    let b = hex::decode(v["ct"].as_str().expect("driver: ct")).unwrap();
    if v["mode"] == "uncompressed" { Ciphertext::deserialize_uncompressed(&b[..]) } else { Ciphertext::deserialize_compressed(&b[..]) }.map_err(|e| format!("{e:?}"))
}
fn run(v: &Value) -> Value {
    match v["op"].as_str().unwrap() {
        "encap" => {
            let mut r = src(&v["rng"]);
            ark_model::trace::take_sampled();
            let res = encap::<Bn254, _, _>(circ(&v["circ"]), &mut r);
            let sampled: Vec<Value> = ark_model::trace::take_sampled().iter().map(num).collect();
            match res {
                Ok((ct, key)) => {
                    let kb = key.as_bytes().to_vec();
                    // toy field: the exponent of the value hashed into the key
                    let s = if Fr::is_toy() { (0..Fr::modulus_limbs()[0]).find(|x| key_of(Fr::from(*x)) == kb).map(|x| json!(x)) } else { None };
                    json!({"ok": {"ct": hex::encode(ser(&ct)), "parts": ct_json(&ct), "key": hex::encode(kb), "s": s.unwrap_or(json!(-1)), "sampled": sampled, "used": r.used}})
                }
                Err(e) => json!({"err": format!("{e:?}")}),
            }
        }
        "decap" => match un_ct(v) {
            Ok(ct) => match decap::<Bn254, _>(circ(&v["circ"]), &ct) { Ok(k) => json!({"ok": {"key": hex::encode(k.as_bytes())}}), Err(e) => json!({"err": format!("{e:?}")}) },
            Err(e) => json!({"err": format!("decode {e}")}),
        },
        "verify" => match un_ct(v) {
            Ok(ct) => { let p: Vec<Fr> = v["pub"].as_array().unwrap().iter().map(fr).collect(); json!({"ok": verify_ciphertext::<Bn254>(&ct, &p)}) }
            Err(e) => json!({"err": format!("decode {e}")}),
        },
        "recode" => match un_ct(v) {
            Ok(ct) => { let mut u = vec![]; ct.serialize_uncompressed(&mut u).unwrap(); json!({"ok": {"c": hex::encode(ser(&ct)), "u": hex::encode(u), "parts": ct_json(&ct)}}) }
            Err(e) => json!({"err": e}),
        },
        // a history of encapsulations on one random source
        "encap_many" => {
            let mut r = src(&v["rng"]);
            let c = circ(&v["circ"]);
            let o: Vec<Value> = (0..v["n"].as_u64().unwrap()).map(|_| match encap::<Bn254, _, _>(c.clone(), &mut r) {
                Ok((ct, key)) => { let k = &ct.encap_key; json!([num(&k.alpha_g1.dlog()), num(&k.beta_g2.dlog()), num(&k.delta_g2.dlog()), hex::encode(key.as_bytes())]) }
                Err(e) => json!([format!("{e:?}"), "", "", ""]) }).collect();
            ark_model::trace::take_sampled();
            json!({"ok": o})
        }
        // candidate keys: the hash of the target-group value with each given exponent
        "keys" => json!({"ok": v["exps"].as_array().unwrap().iter().map(|e| hex::encode(key_of(fr(e)))).collect::<Vec<_>>()}),
        "hash" => json!({"ok": hex::encode(blake3::hash(&hex::decode(v["hex"].as_str().unwrap()).unwrap()).as_bytes())}),
        "ping" => json!({"ok": "pong"}),
        o => panic!("driver: unknown op {o}"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // answers go to the descriptor ZK_FD: the code under test may print
    let fd = std::env::var("ZK_FD").expect("ZK_FD").parse().unwrap();
    let mut out: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fd) };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap(); if line.is_empty() { continue; }
        let v: Value = serde_json::from_str(&line).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&v))).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"panic": m}) });
        writeln!(out, "@@{}", r).unwrap(); out.flush().unwrap();
    }
}
