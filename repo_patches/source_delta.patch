From 2e45bdca4849482ae6ac05edc7aea4a4c0d8c135 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 01/23] fix: draw CTR IVs from the operating system so a forked
 process cannot repeat them

---
 packages/zkenc-cli/src/crypto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/zkenc-cli/src/crypto.rs b/packages/zkenc-cli/src/crypto.rs
index a42b2bb..4e27cc1 100644
--- a/packages/zkenc-cli/src/crypto.rs
+++ b/packages/zkenc-cli/src/crypto.rs
@@ -108,7 +108,7 @@ pub fn encrypt_ctr(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
     // Generate random IV (16 bytes for AES)
     let mut iv = [0u8; 16];
     use rand::RngCore;
-    rand::thread_rng().fill_bytes(&mut iv);
+    OsRng.fill_bytes(&mut iv);
 
     // Create cipher
     let mut cipher = Aes256Ctr::new(key.into(), &iv.into());
-- 
2.43.0


From c79f64ca9bce7309c417fd4174aef2fd7e7ab882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 02/23] fix: reject R1CS files whose sections, counts or sizes
 exceed the file instead of panicking or exhausting memory

---
 packages/zkenc-cli/src/r1cs.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index f4f739b..ce65384 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -96,6 +96,7 @@ impl R1csFile {
     pub fn from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
         let file = File::open(path.as_ref())
             .with_context(|| format!("Failed to open R1CS file: {:?}", path.as_ref()))?;
+        let file_size = file.metadata()?.len();
         let mut reader = BufReader::new(file);
 
         // Parse magic number "r1cs"
@@ -120,6 +121,14 @@ impl R1csFile {
             let section_type = read_u32(&mut reader)?;
             let section_size = read_u64(&mut reader)?;
             let section_pos = reader.stream_position()?;
+            // A section must lie within the file: this also keeps the cast below lossless
+            if section_size > file_size.saturating_sub(section_pos) {
+                bail!(
+                    "Section of type {} ({} bytes) extends past the end of the file",
+                    section_type,
+                    section_size
+                );
+            }
             sections.push((section_type, section_size, section_pos));
             reader.seek_relative(section_size as i64)?;
         }
@@ -131,8 +140,11 @@ impl R1csFile {
                 .find(|(t, _, _)| *t == 0x01)
                 .context("Header section not found")?;
             reader.seek(std::io::SeekFrom::Start(header_section.2))?;
-            Self::parse_header(&mut reader)?
+            Self::parse_header(&mut reader, header_section.1)?
         };
+        if header.n_pub_out.checked_add(header.n_pub_in).is_none() {
+            bail!("Number of public inputs is out of range");
+        }
 
         // Parse constraints section
         let constraints = {
@@ -155,6 +167,13 @@ impl R1csFile {
                 Self::parse_wire2label(&mut reader, header.n_wires as usize)?
             } else {
                 // Generate default wire2label if not present
+                if header.n_wires as u64 > file_size {
+                    bail!(
+                        "Header declares {} wires, more than a file of {} bytes can describe",
+                        header.n_wires,
+                        file_size
+                    );
+                }
                 (0..header.n_wires as u64).collect()
             };
 
@@ -172,8 +191,11 @@ impl R1csFile {
         })
     }
 
-    fn parse_header(reader: &mut BufReader<File>) -> Result<R1csHeader> {
+    fn parse_header(reader: &mut BufReader<File>, section_size: u64) -> Result<R1csHeader> {
         let field_size = read_u32(reader)?;
+        if field_size as u64 > section_size {
+            bail!("Field size {} exceeds the header section", field_size);
+        }
         let mut prime = vec![0u8; field_size as usize];
         reader.read_exact(&mut prime)?;
 
@@ -201,7 +223,8 @@ impl R1csFile {
         n_constraints: usize,
         field_size: usize,
     ) -> Result<Vec<Constraint>> {
-        let mut constraints = Vec::with_capacity(n_constraints);
+        // Counts come from the file: let the vectors grow with the data actually read
+        let mut constraints = Vec::new();
 
         for _ in 0..n_constraints {
             let a = Self::parse_lc(reader, field_size)?;
@@ -216,7 +239,7 @@ impl R1csFile {
 
     fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
         let n_factors = read_u32(reader)?;
-        let mut factors = Vec::with_capacity(n_factors as usize);
+        let mut factors = Vec::new();
 
         for _ in 0..n_factors {
             let wire_id = read_u32(reader)?;
@@ -229,7 +252,7 @@ impl R1csFile {
     }
 
     fn parse_wire2label(reader: &mut BufReader<File>, n_wires: usize) -> Result<Vec<u64>> {
-        let mut wire2label = Vec::with_capacity(n_wires);
+        let mut wire2label = Vec::new();
         for _ in 0..n_wires {
             wire2label.push(read_u64(reader)?);
         }
-- 
2.43.0


From de2dbe65fd1a00bd045855b580fa0da653b0bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 03/23] fix: map nested input arrays such as publicKeys[i][j]
 to their wires instead of dropping them

---
 packages/zkenc-js/src/sym_parser.ts | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 01d6be3..bf708cc 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -91,22 +91,16 @@ export function mapInputsToWires(
 ): Map<number, string | string[]> {
   const wireValues = new Map<number, string | string[]>();
 
-  function flattenInput(key: string, value: any, prefix: string = ""): void {
-    const fullKey = prefix ? `${prefix}.${key}` : key;
-
+  function flattenInput(fullKey: string, value: any): void {
     if (Array.isArray(value)) {
-      // Handle array inputs
+      // Recursively handle array inputs of any depth
       for (let i = 0; i < value.length; i++) {
-        const arrayKey = `${fullKey}[${i}]`;
-        const wireId = wireMap.get(arrayKey);
-        if (wireId !== undefined) {
-          wireValues.set(wireId, value[i].toString());
-        }
+        flattenInput(`${fullKey}[${i}]`, value[i]);
       }
     } else if (typeof value === "object" && value !== null) {
       // Recursively handle nested objects
       for (const [nestedKey, nestedValue] of Object.entries(value)) {
-        flattenInput(nestedKey, nestedValue, fullKey);
+        flattenInput(`${fullKey}.${nestedKey}`, nestedValue);
       }
     } else {
       // Scalar value
-- 
2.43.0


From 30ee98464b1c40bfd61ef6c7b1bb9668f7f9df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 04/23] fix: reduce public inputs modulo the field prime so
 negative and oversized values encapsulate the value witnesses use

---
 packages/zkenc-js/src/zkenc.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c0b384c..9992136 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -121,6 +121,11 @@ export async function encap(
   };
 }
 
+// BN254 scalar field prime
+const bn254Prime = BigInt(
+  "21888242871839275222246405745257275088548364400416034343698204186575808495617"
+);
+
 /**
  * Simple witness serialization (minimal snarkjs wtns format)
  *
@@ -140,11 +145,6 @@ export async function encap(
  *   - Witness values (32 bytes each, little-endian)
  */
 function serializeWitnessSimple(witness: bigint[]): Uint8Array {
-  // BN254 prime
-  const bn254Prime = BigInt(
-    "21888242871839275222246405745257275088548364400416034343698204186575808495617"
-  );
-
   // Calculate sizes
   const headerSize = 4 + 32 + 4; // field_size + prime + witness_count
   const witnessDataSize = witness.length * 32;
@@ -205,7 +205,9 @@ function serializeWitnessSimple(witness: bigint[]): Uint8Array {
 
   // Witness values
   for (const value of witness) {
-    const valueBytes = bigIntToLeBytes32(value);
+    // Reduce modulo the prime (also for negative values), as witness calculation does
+    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;
+    const valueBytes = bigIntToLeBytes32(reduced);
     bytes.set(valueBytes, offset);
     offset += 32;
   }
-- 
2.43.0


From 1363045264f20350f7dbcd74c07bc031ce3499fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 05/23] fix: reject R1CS data whose sections or counts overflow
 in the WebAssembly bindings instead of trapping

---
 packages/zkenc-js/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 71be291..9518f91 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -122,8 +122,12 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
     let mut sections = Vec::new();
     for _ in 0..n_sections {
         let section_type = read_u32(&mut pos)?;
-        let section_len = read_u64(&mut pos)? as usize;
+        let section_len = read_u64(&mut pos)?;
         let section_start = pos;
+        if section_len > (data.len() - section_start) as u64 {
+            return Err("Section exceeds the data".to_string());
+        }
+        let section_len = section_len as usize;
         sections.push((section_type, section_len, section_start));
         pos = section_start + section_len;
     }
@@ -138,7 +142,7 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let mut header_pos = header_section.2;
         let field_size = read_u32(&mut header_pos)?;
         let prime_len = field_size as usize;
-        if header_pos + prime_len > data.len() {
+        if prime_len > data.len() - header_pos {
             return Err("Invalid prime length".to_string());
         }
         header_pos += prime_len; // Skip prime bytes
@@ -150,6 +154,10 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let _n_labels = read_u64(&mut header_pos)?;
         let n_constraints = read_u32(&mut header_pos)?;
 
+        if n_pub_out.checked_add(n_pub_in).is_none() {
+            return Err("Too many public inputs".to_string());
+        }
+
         R1csHeader {
             field_size,
             n_wires,
@@ -215,7 +223,7 @@ fn parse_linear_combination(
         *pos += 4;
 
         let value_len = field_size as usize;
-        if *pos + value_len > data.len() {
+        if value_len > data.len() - *pos {
             return Err("Unexpected end of data reading factor value".to_string());
         }
         let value = data[*pos..*pos + value_len].to_vec();
-- 
2.43.0


From b6bc171bfc9b911f8018483e5c7b37792951d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 06/23] fix: reject malformed witness data in the WebAssembly
 bindings instead of trapping or looping forever

---
 packages/zkenc-js/src/lib.rs | 69 +++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 9518f91..7ba6de8 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -248,57 +248,60 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     }
     pos += 4;
 
+    // Read the next `N` bytes, or fail if the data ends before them
+    fn take<const N: usize>(data: &[u8], pos: &mut usize) -> Result<[u8; N], String> {
+        let bytes = data
+            .get(*pos..)
+            .and_then(|rest| rest.get(..N))
+            .ok_or("Unexpected end of data")?;
+        *pos += N;
+        bytes.try_into().map_err(|_| "Unexpected end of data".to_string())
+    }
+
     // Version
-    let version = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let version = u32::from_le_bytes(take(data, &mut pos)?);
     if version != 2 {
         return Err(format!("Unsupported witness version: {}", version));
     }
 
     // Number of sections
-    let n_sections = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let n_sections = u32::from_le_bytes(take(data, &mut pos)?);
 
     let mut witness: Vec<Fr> = Vec::new();
     let mut n8 = 0usize;
+    let mut values_section: Option<&[u8]> = None;
 
     for _ in 0..n_sections {
-        let section_type =
-            u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-        pos += 4;
-
-        let section_len = u64::from_le_bytes([
-            data[pos],
-            data[pos + 1],
-            data[pos + 2],
-            data[pos + 3],
-            data[pos + 4],
-            data[pos + 5],
-            data[pos + 6],
-            data[pos + 7],
-        ]) as usize;
-        pos += 8;
-
-        let section_end = pos + section_len;
+        let section_type = u32::from_le_bytes(take(data, &mut pos)?);
+        let section_len = u64::from_le_bytes(take(data, &mut pos)?);
+        if section_len > (data.len() - pos) as u64 {
+            return Err("Section exceeds the data".to_string());
+        }
+        let section = &data[pos..pos + section_len as usize];
 
         if section_type == 1 {
             // Header section
-            n8 = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]])
-                as usize;
+            n8 = u32::from_le_bytes(take(section, &mut 0)?) as usize;
         } else if section_type == 2 {
             // Witness values section - contains raw witness data (field_size * n_witness bytes)
-            // Read all witness values directly
-            while pos + n8 <= section_end {
-                let mut bytes = vec![0u8; 32];
-                let copy_len = n8.min(32);
-                bytes[..copy_len].copy_from_slice(&data[pos..pos + copy_len]);
-
-                witness.push(Fr::from_le_bytes_mod_order(&bytes));
-                pos += n8;
-            }
+            values_section = Some(section);
         }
 
-        pos = section_end;
+        pos += section.len();
+    }
+
+    if n8 == 0 {
+        return Err("Witness header section not found or invalid".to_string());
+    }
+    let values = values_section.ok_or("Witness values section not found")?;
+
+    // Read all witness values directly
+    for value in values.chunks_exact(n8) {
+        let mut bytes = [0u8; 32];
+        let copy_len = n8.min(32);
+        bytes[..copy_len].copy_from_slice(&value[..copy_len]);
+
+        witness.push(Fr::from_le_bytes_mod_order(&bytes));
     }
 
     Ok(witness)
-- 
2.43.0


From a5c69a9e0a15a8021090a944ddf02a9de51f0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 07/23] fix: refuse to encapsulate in the WebAssembly bindings
 when public inputs are missing

---
 packages/zkenc-js/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 7ba6de8..a5494fa 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -405,6 +405,15 @@ pub fn wasm_encap(r1cs_bytes: &[u8], witness_bytes: &[u8]) -> Result<EncapResult
     // Wire 0 = constant 1, Wires 1..n_pub = public inputs
     let n_pub = header.n_public_inputs() as usize;
     
+    // Every public input has to be given, or the ciphertext would not be bound to all of them
+    if witness_values.len() <= n_pub {
+        return Err(JsValue::from_str(&format!(
+            "Missing public inputs: circuit has {}, got {}",
+            n_pub,
+            witness_values.len().saturating_sub(1)
+        )));
+    }
+
     // Create witness map with constant and public inputs only
     let mut witness_map = HashMap::new();
     for i in 0..=(n_pub as u32) {
-- 
2.43.0


From e6c8bc9a047dbfa3d139fa417e1565cebca8158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 08/23] fix: read witness sections without allocating what the
 file only claims

---
 packages/zkenc-cli/src/witness.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index d6ee093..4e80f8e 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -65,21 +65,18 @@ impl WitnessFile {
                     let field_size = read_u32_le(&mut reader)?;
 
                     // Read prime modulus
-                    prime = vec![0u8; field_size as usize];
-                    reader.read_exact(&mut prime)?;
+                    prime = read_bytes(&mut reader, field_size as u64)?;
 
                     // Read witness count
                     n_witness = read_u32_le(&mut reader)?;
                 }
                 2 => {
                     // Witness data section
-                    witness_data = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut witness_data)?;
+                    witness_data = read_bytes(&mut reader, section_size)?;
                 }
                 _ => {
                     // Skip unknown sections
-                    let mut skip = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut skip)?;
+                    read_bytes(&mut reader, section_size)?;
                 }
             }
         }
@@ -140,6 +137,17 @@ impl WitnessFile {
     }
 }
 
+/// Read exactly `len` bytes. The length comes from the file, so memory grows only with the data
+/// that is really there.
+fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(len).read_to_end(&mut buf)?;
+    if buf.len() as u64 != len {
+        bail!("Unexpected end of file: expected {} bytes, got {}", len, buf.len());
+    }
+    Ok(buf)
+}
+
 // Helper functions for reading little-endian integers
 
 fn read_u32_le<R: Read>(reader: &mut R) -> Result<u32> {
-- 
2.43.0


From 7f12dcff0705f2a1eb869734f3241c466aa88afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 09/23] fix: give --ciphertext of encap and decap no short
 option, -c already means --circuit and the clash panics in debug builds

---
 packages/zkenc-cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/main.rs b/packages/zkenc-cli/src/main.rs
index c6f711f..9d46532 100644
--- a/packages/zkenc-cli/src/main.rs
+++ b/packages/zkenc-cli/src/main.rs
@@ -33,7 +33,7 @@ enum Commands {
         #[arg(short, long)]
         input: String,
         /// Output ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
@@ -48,7 +48,7 @@ enum Commands {
         #[arg(short, long)]
         witness: String,
         /// Ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
-- 
2.43.0


From a5c20efdfe86fa04596c1e1e21674d7ee4c4d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 10/23] fix: encapsulate to public outputs too, not only to as
 many wires as there are public inputs

---
 packages/zkenc-cli/src/commands.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 4cb13e8..8df70e3 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -39,7 +39,8 @@ pub fn encap_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals =
+        super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -176,7 +177,8 @@ pub fn encrypt_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals =
+        super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
-- 
2.43.0


From 3f19815ee580883436745bdb445c9e8c9d692520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 11/23] fix: read negative input numbers as negative field
 elements instead of wrapping them at 64 bits

---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 8df70e3..da477f2 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -421,7 +421,7 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
@@ -473,7 +473,7 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-- 
2.43.0


From 2590c002018722b5c04c01b0ede154979500ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 12/23] fix: refuse to encapsulate in the CLI when a public
 input has no value

---
 packages/zkenc-cli/src/commands.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index da477f2..f28a5fe 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -61,6 +61,7 @@ pub fn encap_command(
             witness.insert(wire_id, *value);
         }
     }
+    require_public_inputs(&r1cs, &witness)?;
 
     println!("\n🔐 Running Encap...");
     let mut circuit =
@@ -199,6 +200,7 @@ pub fn encrypt_command(
             witness.insert(wire_id, *value);
         }
     }
+    require_public_inputs(&r1cs, &witness)?;
 
     let mut circuit =
         CircomCircuit::from_r1cs(&circuit_path).context("Failed to create circuit")?;
@@ -405,6 +407,16 @@ pub fn decrypt_command(
     Ok(())
 }
 
+/// Fail unless every public wire of the circuit has a value
+fn require_public_inputs(r1cs: &R1csFile, witness: &HashMap<u32, Fr>) -> Result<()> {
+    for wire_id in 1..=r1cs.n_public_inputs() {
+        if !witness.contains_key(&wire_id) {
+            anyhow::bail!("Missing public input: no value given for wire {}", wire_id);
+        }
+    }
+    Ok(())
+}
+
 /// Parse circuit inputs from JSON file
 /// Returns a vector of field elements in order (flattened if nested)
 fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
-- 
2.43.0


From 31909c19ee4d3c7c42fb9d401c73b842a2597c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 13/23] fix: read small R1CS files without a label table that
 declare more wires than they have bytes

---
 packages/zkenc-cli/src/r1cs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index ce65384..05845c0 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -166,8 +166,9 @@ impl R1csFile {
                 reader.seek(std::io::SeekFrom::Start(wire2label_section.2))?;
                 Self::parse_wire2label(&mut reader, header.n_wires as usize)?
             } else {
-                // Generate default wire2label if not present
-                if header.n_wires as u64 > file_size {
+                // Generate default wire2label if not present. Nothing in the file backs the number
+                // of wires here, so one far beyond the file's size is not believed.
+                if header.n_wires as u64 > file_size.max(1 << 20) {
                     bail!(
                         "Header declares {} wires, more than a file of {} bytes can describe",
                         header.n_wires,
-- 
2.43.0


From caf86684348abafb048b096c883f3d10ca5e5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 14/23] fix: encapsulate in the JavaScript package when more
 inputs are named than a call can take arguments

---
 packages/zkenc-js/src/zkenc.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index 9992136..fa50c71 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -92,7 +92,10 @@ export async function encap(
   const wireValues = mapInputsToWires(publicInputs, inputSignals);
 
   // Find the maximum wire ID to determine public input range
-  const maxWireId = Math.max(...Array.from(wireValues.keys()));
+  let maxWireId = 0;
+  for (const wireId of wireValues.keys()) {
+    if (wireId > maxWireId) maxWireId = wireId;
+  }
 
   // Create witness array: wire 0 = 1 (constant), then public input wires
   const witnessArray: bigint[] = [1n]; // Wire 0 is always 1
-- 
2.43.0


From e7491d78f1400147776d0c027c9383c990aceaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:35 +0000
Subject: [PATCH 15/23] fix: build the constraints of a circuit without copying
 the table of its wires three times per constraint

---
 packages/zkenc-cli/src/circuit.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/zkenc-cli/src/circuit.rs b/packages/zkenc-cli/src/circuit.rs
index 0a681a6..e69751e 100644
--- a/packages/zkenc-cli/src/circuit.rs
+++ b/packages/zkenc-cli/src/circuit.rs
@@ -9,6 +9,7 @@ use ark_relations::gr1cs::{
 use ark_std::vec::Vec;
 use std::collections::HashMap;
 use std::path::Path;
+use std::sync::Arc;
 
 /// Circom circuit wrapper that implements ConstraintSynthesizer
 ///
@@ -89,15 +90,18 @@ impl ConstraintSynthesizer<Fr> for CircomCircuit {
             variables.insert(wire_id, var);
         }
 
+        // The closures below outlive this loop, so they share the map
+        let variables = Arc::new(variables);
+
         // Add all constraints: A * B - C = 0  -->  A * B = C
         for constraint in self.r1cs.constraints.iter() {
             // Clone data needed for closures
             let a_factors = constraint.a.factors.clone();
             let b_factors = constraint.b.factors.clone();
             let c_factors = constraint.c.factors.clone();
-            let vars_a = variables.clone();
-            let vars_b = variables.clone();
-            let vars_c = variables.clone();
+            let vars_a = Arc::clone(&variables);
+            let vars_b = Arc::clone(&variables);
+            let vars_c = Arc::clone(&variables);
 
             // Build closures for A, B, C
             let a_closure = move || {
-- 
2.43.0


From 80e943761476b4c3c669ead16c687f1f79fb26f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:24 +0000
Subject: [PATCH 16/23] fix: compare the size of witness data in 64 bits, which
 the product of count and size needs on 32-bit machines

---
 packages/zkenc-cli/src/witness.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index 4e80f8e..8ebc4a5 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -90,8 +90,8 @@ impl WitnessFile {
 
         // Parse witness data into assignments
         let field_size = prime.len();
-        let expected_size = n_witness as usize * field_size;
-        if witness_data.len() != expected_size {
+        let expected_size = n_witness as u64 * field_size as u64;
+        if witness_data.len() as u64 != expected_size {
             bail!(
                 "Witness data size mismatch: expected {} bytes ({} elements * {} bytes), got {}",
                 expected_size,
-- 
2.43.0


From 752273c0d86d04d9b9eaa95d1dc57ec9b99f067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:24 +0000
Subject: [PATCH 17/23] fix: check the lengths in a combined ciphertext without
 adding to them, which overflows on 32-bit machines

---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index f28a5fe..a457bd7 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -317,7 +317,7 @@ pub fn decrypt_command(
     ]) as usize;
     offset += 4;
 
-    if combined.len() < offset + witness_len {
+    if combined.len() - offset < witness_len {
         anyhow::bail!("Invalid ciphertext: witness length mismatch");
     }
 
@@ -342,7 +342,7 @@ pub fn decrypt_command(
         ]) as usize;
         offset += 4;
 
-        if combined.len() < offset + public_len {
+        if combined.len() - offset < public_len {
             anyhow::bail!("Invalid ciphertext: public input length mismatch");
         }
 
-- 
2.43.0


From 42d048ffa06a21c211570a5a1dd6e8bd18d6cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:20 +0000
Subject: [PATCH 18/23] fix: give the playground's encryption the symbols of
 the sudoku circuit, without which it always failed

---
 docs/src/components/PlaygroundClient.tsx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 0459b7e..2558c5d 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -54,6 +54,7 @@ export default function PlaygroundClient(): React.ReactElement {
   const [circuitFiles, setCircuitFiles] = useState<{
     r1csBuffer: Uint8Array;
     wasmBuffer: Uint8Array;
+    symContent: string;
   } | null>(null);
 
   // Custom circuit state
@@ -72,26 +73,29 @@ export default function PlaygroundClient(): React.ReactElement {
 
   const sudokuR1cs = useBaseUrl("/circuits/sudoku.r1cs");
   const sudokuWasm = useBaseUrl("/circuits/sudoku.wasm");
+  const sudokuSym = useBaseUrl("/circuits/sudoku.sym");
 
   // Load circuit files on mount
   useEffect(() => {
     async function loadCircuits() {
       try {
         console.log(sudokuR1cs);
-        const [r1csRes, wasmRes] = await Promise.all([
+        const [r1csRes, wasmRes, symRes] = await Promise.all([
           fetch(sudokuR1cs),
           fetch(sudokuWasm),
+          fetch(sudokuSym),
         ]);
 
-        if (!r1csRes.ok || !wasmRes.ok) {
+        if (!r1csRes.ok || !wasmRes.ok || !symRes.ok) {
           setError("Failed to load circuit files");
           return;
         }
 
         const r1csBuffer = new Uint8Array(await r1csRes.arrayBuffer());
         const wasmBuffer = new Uint8Array(await wasmRes.arrayBuffer());
+        const symContent = await symRes.text();
 
-        setCircuitFiles({ r1csBuffer, wasmBuffer });
+        setCircuitFiles({ r1csBuffer, wasmBuffer, symContent });
       } catch (err) {
         setError("Error loading circuits: " + (err as Error).message);
       }
-- 
2.43.0


From e2ee46bb5632b43a1de64746c7bc67a0cd4ffbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:20 +0000
Subject: [PATCH 19/23] fix: let the playground take the symbol file that
 encrypting with a custom circuit needs

---
 docs/src/components/PlaygroundClient.tsx | 45 ++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 2558c5d..05101af 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -62,6 +62,7 @@ export default function PlaygroundClient(): React.ReactElement {
     r1csBuffer: Uint8Array;
     wasmBuffer: Uint8Array;
   } | null>(null);
+  const [customSymContent, setCustomSymContent] = useState("");
   const [customPublicInput, setCustomPublicInput] = useState("");
   const [customPrivateInput, setCustomPrivateInput] = useState("");
   const [customMessage, setCustomMessage] = useState("");
@@ -314,6 +315,18 @@ export default function PlaygroundClient(): React.ReactElement {
     reader.readAsArrayBuffer(file);
   };
 
+  const handleCustomSymUpload = (e: React.ChangeEvent<HTMLInputElement>) => {
+    const file = e.target.files?.[0];
+    if (!file) return;
+
+    const reader = new FileReader();
+    reader.onload = () => {
+      setCustomSymContent(reader.result as string);
+      setError("");
+    };
+    reader.readAsText(file);
+  };
+
   const handleCustomEncrypt = async () => {
     if (!customMessage) {
       setError("Please enter a message");
@@ -329,6 +342,11 @@ export default function PlaygroundClient(): React.ReactElement {
       return;
     }
 
+    if (!customSymContent) {
+      setError("Please upload the symbol file");
+      return;
+    }
+
     if (!customPublicInput) {
       setError("Please enter public input JSON");
       return;
@@ -344,7 +362,7 @@ export default function PlaygroundClient(): React.ReactElement {
 
       // Use high-level API
       const { ciphertext: encryptedData } = await encrypt(
-        customCircuitFiles,
+        { ...customCircuitFiles, symContent: customSymContent },
         publicInputs,
         messageBytes,
         { includePublicInput }
@@ -900,6 +918,27 @@ export default function PlaygroundClient(): React.ReactElement {
                       </p>
                     )}
                   </div>
+
+                  <div>
+                    <label className={styles.fileLabel}>
+                      <Translate id="playground.custom.encrypt.symLabel">
+                        🔣 Symbol File (.sym)
+                      </Translate>
+                      <input
+                        type="file"
+                        accept=".sym"
+                        onChange={handleCustomSymUpload}
+                        className={styles.fileInput}
+                      />
+                    </label>
+                    {customSymContent && (
+                      <p className={styles.fileSuccess}>
+                        <Translate id="playground.custom.encrypt.symLoaded">
+                          ✅ Symbols loaded
+                        </Translate>
+                      </p>
+                    )}
+                  </div>
                 </div>
               </div>
 
@@ -1244,11 +1283,11 @@ export default function PlaygroundClient(): React.ReactElement {
                 <Translate id="playground.custom.info.compile">
                   📄 Compile your circuit with:
                 </Translate>{" "}
-                <code>circom circuit.circom --r1cs --wasm</code>
+                <code>circom circuit.circom --r1cs --wasm --sym</code>
               </li>
               <li>
                 <Translate id="playground.custom.info.upload">
-                  📦 Upload both .r1cs and .wasm files
+                  📦 Upload the .r1cs, .wasm and .sym files
                 </Translate>
               </li>
               <li>
-- 
2.43.0


From 5f3673fa0945702d0d314c15006cf6b0118d46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:20 +0000
Subject: [PATCH 20/23] fix: merge the playground's public inputs into the
 private ones, as the page says

---
 docs/src/components/PlaygroundClient.tsx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 05101af..5c8701f 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -396,7 +396,11 @@ export default function PlaygroundClient(): React.ReactElement {
 
     let fullInputs;
     try {
-      fullInputs = JSON.parse(customPrivateInput || customPublicInput);
+      // The public inputs may be left out of the private ones
+      fullInputs = {
+        ...(customPublicInput ? JSON.parse(customPublicInput) : {}),
+        ...(customPrivateInput ? JSON.parse(customPrivateInput) : {}),
+      };
     } catch (err) {
       setError("Invalid JSON input");
       return;
-- 
2.43.0


From 0694593786070d4f27de26d5fe2316301c65a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:20 +0000
Subject: [PATCH 21/23] fix: show no earlier message next to an error in the
 playground

---
 docs/src/components/PlaygroundClient.tsx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 5c8701f..5fcc5a2 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -197,6 +197,8 @@ export default function PlaygroundClient(): React.ReactElement {
       return;
     }
 
+    setDecrypted("");
+
     const hasZeros = solution.some((v) => v === 0);
     if (hasZeros) {
       setError("Please fill in the complete solution");
@@ -210,7 +212,6 @@ export default function PlaygroundClient(): React.ReactElement {
 
     setLoading(true);
     setError("");
-    setDecrypted("");
 
     try {
       const inputs = {
@@ -403,6 +404,7 @@ export default function PlaygroundClient(): React.ReactElement {
       };
     } catch (err) {
       setError("Invalid JSON input");
+      setCustomDecrypted("");
       return;
     }
 
-- 
2.43.0


From e59c229d35dbbdd09480cd475ce8cf60839d64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:20 +0000
Subject: [PATCH 22/23] fix: keep a byte order mark at the start of a message
 decrypted in the playground

---
 docs/src/components/PlaygroundClient.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 5fcc5a2..5714f40 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -225,7 +225,7 @@ export default function PlaygroundClient(): React.ReactElement {
         inputs
       );
 
-      const decoder = new TextDecoder();
+      const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
       const decryptedMessage = decoder.decode(decryptedBytes);
 
       setDecrypted(decryptedMessage || "Decryption successful!");
@@ -419,7 +419,7 @@ export default function PlaygroundClient(): React.ReactElement {
         fullInputs
       );
 
-      const decoder = new TextDecoder();
+      const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
       const decryptedMessage = decoder.decode(decryptedBytes);
 
       setCustomDecrypted(decryptedMessage || "Decryption successful!");
-- 
2.43.0


From 2b02e92f265c613d08e42b1435fe8a40ee9b6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:36 +0000
Subject: [PATCH 23/23] fix: keep the playground's solution in step with a
 puzzle that is edited

---
 docs/src/components/PlaygroundClient.tsx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/docs/src/components/PlaygroundClient.tsx b/docs/src/components/PlaygroundClient.tsx
index 5714f40..286783a 100644
--- a/docs/src/components/PlaygroundClient.tsx
+++ b/docs/src/components/PlaygroundClient.tsx
@@ -544,6 +544,12 @@ export default function PlaygroundClient(): React.ReactElement {
                     setSolution(newValues);
                   } else {
                     setPuzzle(newValues);
+                    // Given cells are locked in the solution: keep them equal
+                    if (solution.length) {
+                      const newSolution = [...solution];
+                      newSolution[index] = newValue;
+                      setSolution(newSolution);
+                    }
                   }
                 }
               }}
-- 
2.43.0

