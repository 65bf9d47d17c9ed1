From 97c7379c1f2b9ba9a7b7b54b14887b93869e0b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 01/14] fix: record the output wires of the statement and
 refuse missing public values

---
 packages/zkenc-cli/src/commands.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 4cb13e8..9c35b52 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -39,7 +39,7 @@ pub fn encap_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -61,6 +61,13 @@ pub fn encap_command(
         }
     }
 
+    // Without every public wire the statement would silently be a weaker one
+    for wire_id in 1..=r1cs.n_public_inputs() {
+        if !witness.contains_key(&wire_id) {
+            anyhow::bail!("No value supplied for public wire {}", wire_id);
+        }
+    }
+
     println!("\n🔐 Running Encap...");
     let mut circuit =
         CircomCircuit::from_r1cs(&circuit_path).context("Failed to create circuit")?;
@@ -176,7 +183,7 @@ pub fn encrypt_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -198,6 +205,13 @@ pub fn encrypt_command(
         }
     }
 
+    // Without every public wire the statement would silently be a weaker one
+    for wire_id in 1..=r1cs.n_public_inputs() {
+        if !witness.contains_key(&wire_id) {
+            anyhow::bail!("No value supplied for public wire {}", wire_id);
+        }
+    }
+
     let mut circuit =
         CircomCircuit::from_r1cs(&circuit_path).context("Failed to create circuit")?;
     circuit.set_witness(witness);
-- 
2.43.0


From 0f8c2d8a6d1de991f8565e5e54308063fe603d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 02/14] fix: negative JSON integers denote p - k in the
 command-line tool

---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 9c35b52..338da7d 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -433,7 +433,7 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
@@ -485,7 +485,7 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-- 
2.43.0


From eeca8039b963da303c0d9008d7417e6e786fb236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 03/14] fix: bound the memory used for malformed r1cs files

---
 packages/zkenc-cli/src/r1cs.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index f4f739b..bbb1fad 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -121,7 +121,10 @@ impl R1csFile {
             let section_size = read_u64(&mut reader)?;
             let section_pos = reader.stream_position()?;
             sections.push((section_type, section_size, section_pos));
-            reader.seek_relative(section_size as i64)?;
+            let section_end = section_pos
+                .checked_add(section_size)
+                .context("Invalid R1CS file: section too large")?;
+            reader.seek(std::io::SeekFrom::Start(section_end))?;
         }
 
         // Second pass: parse header first
@@ -174,8 +177,7 @@ impl R1csFile {
 
     fn parse_header(reader: &mut BufReader<File>) -> Result<R1csHeader> {
         let field_size = read_u32(reader)?;
-        let mut prime = vec![0u8; field_size as usize];
-        reader.read_exact(&mut prime)?;
+        let prime = read_bytes(reader, field_size as usize)?;
 
         let n_wires = read_u32(reader)?;
         let n_pub_out = read_u32(reader)?;
@@ -201,7 +203,7 @@ impl R1csFile {
         n_constraints: usize,
         field_size: usize,
     ) -> Result<Vec<Constraint>> {
-        let mut constraints = Vec::with_capacity(n_constraints);
+        let mut constraints = Vec::new();
 
         for _ in 0..n_constraints {
             let a = Self::parse_lc(reader, field_size)?;
@@ -216,12 +218,11 @@ impl R1csFile {
 
     fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
         let n_factors = read_u32(reader)?;
-        let mut factors = Vec::with_capacity(n_factors as usize);
+        let mut factors = Vec::new();
 
         for _ in 0..n_factors {
             let wire_id = read_u32(reader)?;
-            let mut value = vec![0u8; field_size];
-            reader.read_exact(&mut value)?;
+            let value = read_bytes(reader, field_size)?;
             factors.push((wire_id, value));
         }
 
@@ -229,7 +230,7 @@ impl R1csFile {
     }
 
     fn parse_wire2label(reader: &mut BufReader<File>, n_wires: usize) -> Result<Vec<u64>> {
-        let mut wire2label = Vec::with_capacity(n_wires);
+        let mut wire2label = Vec::new();
         for _ in 0..n_wires {
             wire2label.push(read_u64(reader)?);
         }
@@ -267,6 +268,16 @@ fn read_u64(reader: &mut BufReader<File>) -> Result<u64> {
     Ok(u64::from_le_bytes(buf))
 }
 
+// Reads exactly `len` bytes; memory grows only with the bytes actually present
+fn read_bytes(reader: &mut BufReader<File>, len: usize) -> Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.by_ref().take(len as u64).read_to_end(&mut buf)?;
+    if buf.len() != len {
+        bail!("Unexpected end of R1CS file");
+    }
+    Ok(buf)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From a3e6f23ee126c6c0368e900770f621d12593ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 04/14] fix: bound the memory used for malformed wtns files

---
 packages/zkenc-cli/src/witness.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index d6ee093..2ad1e4d 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -65,21 +65,18 @@ impl WitnessFile {
                     let field_size = read_u32_le(&mut reader)?;
 
                     // Read prime modulus
-                    prime = vec![0u8; field_size as usize];
-                    reader.read_exact(&mut prime)?;
+                    prime = read_bytes(&mut reader, field_size as u64)?;
 
                     // Read witness count
                     n_witness = read_u32_le(&mut reader)?;
                 }
                 2 => {
                     // Witness data section
-                    witness_data = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut witness_data)?;
+                    witness_data = read_bytes(&mut reader, section_size)?;
                 }
                 _ => {
                     // Skip unknown sections
-                    let mut skip = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut skip)?;
+                    read_bytes(&mut reader, section_size)?;
                 }
             }
         }
@@ -154,6 +151,16 @@ fn read_u64_le<R: Read>(reader: &mut R) -> Result<u64> {
     Ok(u64::from_le_bytes(buf))
 }
 
+// Reads exactly `len` bytes; memory grows only with the bytes actually present
+fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(len).read_to_end(&mut buf)?;
+    if buf.len() as u64 != len {
+        bail!("Unexpected end of wtns file");
+    }
+    Ok(buf)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3de8e5c6cc876b6daff878e2e1111c442d2a4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 05/14] fix: the short options of encap and decap clashed

---
 packages/zkenc-cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/main.rs b/packages/zkenc-cli/src/main.rs
index c6f711f..9d46532 100644
--- a/packages/zkenc-cli/src/main.rs
+++ b/packages/zkenc-cli/src/main.rs
@@ -33,7 +33,7 @@ enum Commands {
         #[arg(short, long)]
         input: String,
         /// Output ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
@@ -48,7 +48,7 @@ enum Commands {
         #[arg(short, long)]
         witness: String,
         /// Ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
-- 
2.43.0


From 7b67cecb71b895c7236b858daf9d27691c716d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 06/14] fix: refuse missing public values in the JavaScript
 encapsulation

---
 packages/zkenc-js/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 71be291..281fcb9 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -393,7 +393,14 @@ pub fn wasm_encap(r1cs_bytes: &[u8], witness_bytes: &[u8]) -> Result<EncapResult
     // Extract only public inputs from witness
     // Wire 0 = constant 1, Wires 1..n_pub = public inputs
     let n_pub = header.n_public_inputs() as usize;
-    
+    if witness_values.len() <= n_pub {
+        return Err(JsValue::from_str(&format!(
+            "Missing public inputs: expected {}, got {}",
+            n_pub,
+            witness_values.len().saturating_sub(1)
+        )));
+    }
+
     // Create witness map with constant and public inputs only
     let mut witness_map = HashMap::new();
     for i in 0..=(n_pub as u32) {
-- 
2.43.0


From 94c789121b1da1d84371a75cff05412dd5a8e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 07/14] fix: reduce JavaScript input values into the field

---
 packages/zkenc-js/src/zkenc.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c0b384c..eb3ad24 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -12,6 +12,11 @@ import {
   mapInputsToWires,
 } from "./sym_parser.js";
 
+// BN254 scalar field modulus (Circom's default field)
+const BN254_PRIME = BigInt(
+  "21888242871839275222246405745257275088548364400416034343698204186575808495617"
+);
+
 // Initialize WASM module
 let wasmInitialized = false;
 let wasmInitPromise: Promise<void> | null = null;
@@ -102,7 +107,8 @@ export async function encap(
     const value = wireValues.get(i);
     if (value !== undefined) {
       const valueStr = Array.isArray(value) ? value[0] : value;
-      witnessArray.push(BigInt(valueStr));
+      const residue = BigInt(valueStr) % BN254_PRIME;
+      witnessArray.push(residue < 0n ? residue + BN254_PRIME : residue);
     } else {
       // This wire is not a public input, stop here
       break;
@@ -140,11 +146,6 @@ export async function encap(
  *   - Witness values (32 bytes each, little-endian)
  */
 function serializeWitnessSimple(witness: bigint[]): Uint8Array {
-  // BN254 prime
-  const bn254Prime = BigInt(
-    "21888242871839275222246405745257275088548364400416034343698204186575808495617"
-  );
-
   // Calculate sizes
   const headerSize = 4 + 32 + 4; // field_size + prime + witness_count
   const witnessDataSize = witness.length * 32;
@@ -189,7 +190,7 @@ function serializeWitnessSimple(witness: bigint[]): Uint8Array {
   offset += 4;
 
   // Prime (32 bytes, little-endian)
-  const primeBytes = bigIntToLeBytes32(bn254Prime);
+  const primeBytes = bigIntToLeBytes32(BN254_PRIME);
   bytes.set(primeBytes, offset);
   offset += 32;
 
-- 
2.43.0


From 7d832505ea2296946eae9ff4813b3b6d95fa964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 08/14] fix: keep nested arrays and large numbers of JavaScript
 inputs

---
 packages/zkenc-js/src/sym_parser.ts | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 01d6be3..2438f7d 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -95,13 +95,9 @@ export function mapInputsToWires(
     const fullKey = prefix ? `${prefix}.${key}` : key;
 
     if (Array.isArray(value)) {
-      // Handle array inputs
+      // Handle array inputs (of any depth)
       for (let i = 0; i < value.length; i++) {
-        const arrayKey = `${fullKey}[${i}]`;
-        const wireId = wireMap.get(arrayKey);
-        if (wireId !== undefined) {
-          wireValues.set(wireId, value[i].toString());
-        }
+        flattenInput(`${key}[${i}]`, value[i], prefix);
       }
     } else if (typeof value === "object" && value !== null) {
       // Recursively handle nested objects
@@ -112,7 +108,9 @@ export function mapInputsToWires(
       // Scalar value
       const wireId = wireMap.get(fullKey);
       if (wireId !== undefined) {
-        wireValues.set(wireId, value.toString());
+        // Through BigInt, so that large numbers keep their exact value
+        const exact = typeof value === "number" ? BigInt(value) : value;
+        wireValues.set(wireId, exact.toString());
       }
     }
   }
-- 
2.43.0


From 4ac0bb83dee4f358731a7584a7461f349e0c8510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 09/14] fix: concurrent witness calculations on one calculator
 mixed their results

---
 packages/zkenc-js/src/witness_calculator.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/packages/zkenc-js/src/witness_calculator.ts b/packages/zkenc-js/src/witness_calculator.ts
index 7e15528..a2c9705 100644
--- a/packages/zkenc-js/src/witness_calculator.ts
+++ b/packages/zkenc-js/src/witness_calculator.ts
@@ -56,10 +56,12 @@ export class WitnessCalculator {
     return this.version;
   }
 
-  private async _doCalculateWitness(
+  // Synchronous: setting the inputs and reading the witness must not be
+  // interleaved with another computation on the same instance
+  private _doCalculateWitness(
     input: CircuitInput,
     sanityCheck?: boolean
-  ): Promise<void> {
+  ): void {
     const exports = this.instance.exports as any;
     exports.init(this.sanityCheck || sanityCheck ? 1 : 0);
 
@@ -112,7 +114,7 @@ export class WitnessCalculator {
     const w: bigint[] = [];
     const exports = this.instance.exports as any;
 
-    await this._doCalculateWitness(input, sanityCheck);
+    this._doCalculateWitness(input, sanityCheck);
 
     for (let i = 0; i < this.witnessSize; i++) {
       exports.getWitness(i);
@@ -134,7 +136,7 @@ export class WitnessCalculator {
     const buff32 = new Uint32Array(this.witnessSize * this.n32);
     const buff = new Uint8Array(buff32.buffer);
 
-    await this._doCalculateWitness(input, sanityCheck);
+    this._doCalculateWitness(input, sanityCheck);
 
     for (let i = 0; i < this.witnessSize; i++) {
       exports.getWitness(i);
@@ -156,7 +158,7 @@ export class WitnessCalculator {
     const buff = new Uint8Array(buff32.buffer);
     const buffView = new DataView(buff32.buffer);
 
-    await this._doCalculateWitness(input, sanityCheck);
+    this._doCalculateWitness(input, sanityCheck);
 
     // "wtns" magic header
     buff[0] = "w".charCodeAt(0);
-- 
2.43.0


From 220cdb814d58cec7c4b404b56ac570431753aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 10/14] fix: bounds of section and value lengths in the
 WebAssembly r1cs reader

---
 packages/zkenc-js/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 281fcb9..29383bf 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -122,10 +122,13 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
     let mut sections = Vec::new();
     for _ in 0..n_sections {
         let section_type = read_u32(&mut pos)?;
-        let section_len = read_u64(&mut pos)? as usize;
+        let section_len = read_u64(&mut pos)?;
         let section_start = pos;
-        sections.push((section_type, section_len, section_start));
-        pos = section_start + section_len;
+        if section_len > (data.len() - section_start) as u64 {
+            return Err("Section exceeds the data".to_string());
+        }
+        sections.push((section_type, section_len as usize, section_start));
+        pos = section_start + section_len as usize;
     }
 
     // Second pass: find and parse header section first
@@ -138,7 +141,7 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let mut header_pos = header_section.2;
         let field_size = read_u32(&mut header_pos)?;
         let prime_len = field_size as usize;
-        if header_pos + prime_len > data.len() {
+        if prime_len > data.len() - header_pos {
             return Err("Invalid prime length".to_string());
         }
         header_pos += prime_len; // Skip prime bytes
@@ -215,7 +218,7 @@ fn parse_linear_combination(
         *pos += 4;
 
         let value_len = field_size as usize;
-        if *pos + value_len > data.len() {
+        if value_len > data.len() - *pos {
             return Err("Unexpected end of data reading factor value".to_string());
         }
         let value = data[*pos..*pos + value_len].to_vec();
-- 
2.43.0


From 19e6be1833db523d32c9f4a8f32e08685355b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 11/14] fix: truncated witness files crashed or hung the
 WebAssembly module

---
 packages/zkenc-js/src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 29383bf..6bafe08 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -243,6 +243,10 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     }
     pos += 4;
 
+    if data.len() < 12 {
+        return Err("Unexpected end of data".to_string());
+    }
+
     // Version
     let version = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
     pos += 4;
@@ -258,6 +262,9 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     let mut n8 = 0usize;
 
     for _ in 0..n_sections {
+        if data.len() - pos < 12 {
+            return Err("Unexpected end of data".to_string());
+        }
         let section_type =
             u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
         pos += 4;
@@ -271,18 +278,27 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
             data[pos + 5],
             data[pos + 6],
             data[pos + 7],
-        ]) as usize;
+        ]);
         pos += 8;
 
-        let section_end = pos + section_len;
+        if section_len > (data.len() - pos) as u64 {
+            return Err("Section exceeds the data".to_string());
+        }
+        let section_end = pos + section_len as usize;
 
         if section_type == 1 {
             // Header section
+            if section_len < 4 {
+                return Err("Header section too short".to_string());
+            }
             n8 = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]])
                 as usize;
         } else if section_type == 2 {
             // Witness values section - contains raw witness data (field_size * n_witness bytes)
             // Read all witness values directly
+            if n8 == 0 {
+                return Err("Missing field size before the witness values".to_string());
+            }
             while pos + n8 <= section_end {
                 let mut bytes = vec![0u8; 32];
                 let copy_len = n8.min(32);
-- 
2.43.0


From 9be2bcc1e42c5ee334779e3d1f74147d92e1b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 12/14] fix: reject constraints on wires that do not exist

---
 packages/zkenc-cli/src/r1cs.rs | 9 +++++++++
 packages/zkenc-js/src/lib.rs   | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index bbb1fad..8babcfb 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -151,6 +151,15 @@ impl R1csFile {
             )?
         };
 
+        // A factor on a wire that does not exist would silently be dropped later
+        for constraint in &constraints {
+            for lc in [&constraint.a, &constraint.b, &constraint.c] {
+                if let Some((wire_id, _)) = lc.factors.iter().find(|(w, _)| *w >= header.n_wires) {
+                    bail!("Invalid R1CS file: wire {} does not exist", wire_id);
+                }
+            }
+        }
+
         // Parse wire2label section (optional)
         let wire2label =
             if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {
diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 6bafe08..2d8b2c0 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -183,6 +183,12 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
             let c_factors =
                 parse_linear_combination(data, &mut constraints_pos, header.field_size)?;
 
+            for (wire_id, _) in a_factors.iter().chain(&b_factors).chain(&c_factors) {
+                if *wire_id >= header.n_wires {
+                    return Err(format!("Wire {} does not exist", wire_id));
+                }
+            }
+
             constraints.push(R1csConstraint {
                 a_factors,
                 b_factors,
-- 
2.43.0


From 2379700e8b5dcffb47ef47cd8a7ce47f42ff25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 13/14] fix: refuse witness values that exceed the field when
 the file's values are wider

---
 packages/zkenc-cli/src/witness.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index 2ad1e4d..d062195 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -122,9 +122,13 @@ impl WitnessFile {
 
         for (&wire_id, bytes) in &self.assignments {
             // Deserialize from little-endian bytes
-            let value = F::deserialize_uncompressed(&bytes[..]).with_context(|| {
+            let mut reader = &bytes[..];
+            let value = F::deserialize_uncompressed(&mut reader).with_context(|| {
                 format!("Failed to deserialize wire {} as field element", wire_id)
             })?;
+            if reader.iter().any(|b| *b != 0) {
+                bail!("Value of wire {} exceeds the field", wire_id);
+            }
             result.insert(wire_id, value);
         }
 
-- 
2.43.0


From a3ad45f1eff30857c4ae93881741eb045d97eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 14/14] fix: reject circuit files that announce more public
 wires than wires

---
 packages/zkenc-cli/src/r1cs.rs | 5 +++++
 packages/zkenc-js/src/lib.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index 8babcfb..0a6222b 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -137,6 +137,11 @@ impl R1csFile {
             Self::parse_header(&mut reader)?
         };
 
+        // The public wires follow the constant wire 0
+        if header.n_pub_out as u64 + header.n_pub_in as u64 >= header.n_wires as u64 {
+            bail!("Invalid R1CS file: more public wires than wires");
+        }
+
         // Parse constraints section
         let constraints = {
             let constraints_section = sections
diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 2d8b2c0..dcae1d9 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -153,6 +153,11 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let _n_labels = read_u64(&mut header_pos)?;
         let n_constraints = read_u32(&mut header_pos)?;
 
+        // The public wires follow the constant wire 0
+        if n_pub_out as u64 + n_pub_in as u64 >= n_wires as u64 {
+            return Err("More public wires than wires".to_string());
+        }
+
         R1csHeader {
             field_size,
             n_wires,
-- 
2.43.0

