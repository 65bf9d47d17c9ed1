//! Runs zkenc-js/src/lib.rs natively for the JavaScript side: requests on standard input, answers on
//! descriptor 3.  A request is a command byte (1 encap, 2 decap), a count and the byte strings; an
//! answer is a status byte (0 results, 1 the message the call threw, 2 a panic, that is a trap), a
//! count and the byte strings.  Counts and lengths are 4-byte little-endian numbers.
use std::io::{Read, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(3) };
    let mut inp = std::io::stdin().lock();
    let u32 = |inp: &mut std::io::StdinLock| -> usize { let mut b = [0u8; 4]; inp.read_exact(&mut b).expect("driver: request"); u32::from_le_bytes(b) as usize };
    loop {
        let mut c = [0u8; 1];
        if inp.read_exact(&mut c).is_err() { return; }
        let n = u32(&mut inp);
        let a: Vec<Vec<u8>> = (0..n).map(|_| { let k = u32(&mut inp); let mut b = vec![0u8; k]; inp.read_exact(&mut b).expect("driver: request"); b }).collect();
        let r = std::panic::catch_unwind(|| match c[0] {
            1 => zkenc_js::wasm_encap(&a[0], &a[1]).map(|r| vec![r.ciphertext(), r.key()]),
            _ => zkenc_js::wasm_decap(&a[0], &a[1], &a[2]).map(|k| vec![k]),
        });
        let (st, v) = match r { Ok(Ok(v)) => (0u8, v), Ok(Err(e)) => (1, vec![e.as_string().unwrap_or_default().into_bytes()]), Err(_) => (2, vec![]) };
        let mut b = vec![st];
        b.extend((v.len() as u32).to_le_bytes());
        for x in &v { b.extend((x.len() as u32).to_le_bytes()); b.extend(x); }
        out.write_all(&b).expect("driver: answer");
    }
}
