From 38c1a804377fe4d1f012538f44fe1f894690a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 01/44] fix: encode_text built its byte vector with undefined
 behaviour

---
 src/dbcharconv.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 9c04a41..ad2251b 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -35,15 +35,10 @@ pub fn encode_char(ch: char) -> (u8, u8) {
 }
 
 pub fn encode_text(text: &str) -> Vec<u8> {
-    let mut res = text.chars()
+    text.chars()
         .map(|c| encode_char(c))
-        .collect::<Vec<(u8, u8)>>();
-
-    unsafe {
-        res.set_len(res.len() * 2);
-        std::mem::transmute(res)
-    }
-
+        .flat_map(|(high, low)| [high, low])
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From ccf7363c80c9a0b9042bf7683c5e0d9a9f1215cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 02/44] fix: put_int panicked on values of 2^24 and above

---
 src/encoding_util.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index d889858..1269bfd 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -29,16 +29,8 @@ pub fn get_int(bytes: &[u8]) -> usize {
     }
 }
 
-pub fn put_int(mut n: usize) -> Vec<u8> {
-    let mut res = vec![0, 0, 0, 0];
-    let mut idx = 3;
-    while n > 0 {
-        let cur = n % 256;
-        n /= 256;
-        res[idx] = cur as u8;
-        idx -= 1;
-    }
-    return res;
+pub fn put_int(n: usize) -> Vec<u8> {
+    (n as u32).to_be_bytes().to_vec()
 }
 
 pub fn fm_string_encrypt(text: String) -> Vec<u8> {
-- 
2.43.0


From 210234395c710703bb3c8624d6d68a4e10a623dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 03/44] fix: two-byte path integers lost their high byte

---
 src/encoding_util.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index 1269bfd..6de8921 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -3,7 +3,17 @@
 pub fn get_path_int(bytes : &[u8]) -> usize {
     match bytes.len() {
         1 => bytes[0] as usize,
-        2 => 0x80 + ((bytes[0] as usize) & 0x7f << 8) + bytes[1] as usize,
+        2 => {
+            let mut high = 0;
+            if bytes[0] & 0x80 != 0 {
+                high = (bytes[0] & 0x7f) as usize;
+                /* 0x7c marks a short high byte, see put_path_int. */
+                if high & 0x7c == 0x7c {
+                    high &= 0x03;
+                }
+            }
+            0x80 + (high << 8) + bytes[1] as usize
+        },
         _ => 0
     }
 }
@@ -13,7 +23,9 @@ pub fn put_path_int(n: u32) -> Vec<u8> {
         let mut x = n - 128;
         let mut b1 = (((x >> 8) & 0x7f) | 0x80) as u8;
         let mut b2 = (x & 0xFF) as u8;
-        b1 |= 0x7c;
+        if x >> 8 <= 3 {
+            b1 |= 0x7c;
+        }
         [b1, b2].to_vec()
     } else {
         [n as u8].to_vec() 
-- 
2.43.0


From 9daa224ed8b5a778bf63e45a44884090b15d86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 04/44] fix: decompiled table occurrences and relationships
 were renumbered by position

---
 src/decompile/decompiler.rs | 58 +++++++++++--------------------------
 src/encoding_util.rs        |  1 +
 2 files changed, 18 insertions(+), 41 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 79d1c4e..61789df 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -268,58 +268,34 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
             // print_chunk(&chunk, &path);
             match &path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
                 /* Examining relatinoships of table occurences */
-                ["3", "17", "5", "0", "251"] => {
+                ["3", "17", "5", occurrence, "251"] => {
                     if chunk.ctype == ChunkType::DataSimple {
-                        let mut tmp = component::FMComponentRelationship::new();
-                        tmp.table1 = fmp_file.table_occurrences.len() as u16;
-                        tmp.table2 = chunk.data.unwrap()[2] as u16;
-                        if fmp_file.relationships.iter()
-                            .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
-                            .collect::<Vec<_>>().len() == 0 {
-                            fmp_file.relationships.insert(fmp_file.relationships.len() + 1, tmp);
+                        let data = chunk.data.unwrap();
+                        if data.len() >= 5 {
+                            let mut tmp = component::FMComponentRelationship::new();
+                            tmp.table1 = occurrence.parse().unwrap();
+                            tmp.table2 = get_path_int(&data[0..3]) as u16;
+                            /* Each relationship is listed by both of its occurrences. */
+                            fmp_file.relationships.entry(get_path_int(&data[4..])).or_insert(tmp);
                         }
                     }
                 },
                 /* Examining table occurences */
-                ["3", "17", "5", "0", ..] => {
-                    let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
+                ["3", "17", "5", occurrence] => {
                     match chunk.ref_simple {
                         Some(2) => {
-                            let tmp = component::FMComponentTableOccurence {
-                                table_occurence_name: String::new(),
-                                create_by_user: String::new(),
-                                created_by_account: String::new(),
-                                table_actual: chunk.data.unwrap()[6] as u16,
-                                table_actual_name: String::new(),
-                            };
-
-                            let source = chunk.data.unwrap()[2];
-                            println!("{:?}", source);
-                            fmp_file.table_occurrences.insert(fmp_file.table_occurrences.len() + 1, tmp);
+                            fmp_file.table_occurrences
+                                .entry(occurrence.parse().unwrap())
+                                .or_insert(component::FMComponentTableOccurence::new())
+                                .table_actual = chunk.data.unwrap()[6] as u16;
                         }
                         Some(16) => {
                             fmp_file.table_occurrences
-                                .get_mut(&(fmp_file.table_occurrences.len())).unwrap()
-                                .table_occurence_name = s;
-                        },
-                        Some(129) => {
-                        },
-                        Some(130) => {
-                        },
-                        Some(131) => {
+                                .entry(occurrence.parse().unwrap())
+                                .or_insert(component::FMComponentTableOccurence::new())
+                                .table_occurence_name = fm_string_decrypt(chunk.data.unwrap());
                         },
-                        _ => {
-                            let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                            if s.is_empty() {
-                                continue;
-                            }
-                            if chunk.ctype == ChunkType::PathPush 
-                                || chunk.ctype == ChunkType::PathPop 
-                                || chunk.ctype == ChunkType::Noop {
-
-                            } else {
-                            }
-                        }
+                        _ => {}
                     }
                 },
                 ["3", "251", "5", x, "3"] => {
diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index 6de8921..ed9885e 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -14,6 +14,7 @@ pub fn get_path_int(bytes : &[u8]) -> usize {
             }
             0x80 + (high << 8) + bytes[1] as usize
         },
+        3 => ((bytes[1] as usize) << 8) + bytes[2] as usize,
         _ => 0
     }
 }
-- 
2.43.0


From 60967e8d21fdd9326ec5bcbe7a6377cb8019cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 05/44] fix: components continued in a second sector were reset
 while decompiling

---
 src/decompile/decompiler.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 61789df..7bb06da 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -330,10 +330,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examing layouts */
                 ["4", "1", "7", x, ..] => {
                     if chunk.ctype == ChunkType::PathPush {
-                        fmp_file.layouts.insert(
-                            x.parse::<usize>().unwrap(),
-                            component::FMComponentLayout::new()
-                            );
+                        fmp_file.layouts.entry(x.parse::<usize>().unwrap())
+                            .or_insert(component::FMComponentLayout::new());
                         continue;
                     } else {
                         match chunk.ref_simple {
@@ -372,8 +370,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             }
                             fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))
                                 .unwrap().fields
-                                    .insert(y.parse::<usize>().unwrap() as u16, 
-                                            component::FMComponentField::new());
+                                    .entry(y.parse::<usize>().unwrap() as u16)
+                                    .or_insert(component::FMComponentField::new());
                         } else {
                             let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                             // match chunk.ref_simple.unwrap_or(0) {
@@ -446,9 +444,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "16", "5", x] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush {
-                        if !fmp_file.tables.contains_key(&x.parse().unwrap()) {
-                            fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128, component::FMComponentTable::new());
-                        } 
+                        fmp_file.tables.entry(x.parse::<usize>().unwrap() - 128)
+                            .or_insert(component::FMComponentTable::new());
                     } else {
                         match chunk.ref_simple.unwrap_or(0) {
                             metadata_constants::COMPONENT_NAME => { 
-- 
2.43.0


From 51e514ce586bf3e85d8004b1d7faa6c5ceab52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 06/44] fix: script steps were lost or misplaced while
 decompiling

---
 src/decompile/decompiler.rs                   | 235 +++++-------------
 .../fm_script_engine_instructions.rs          |   3 +-
 2 files changed, 62 insertions(+), 176 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 7bb06da..727fdcf 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -211,6 +211,29 @@ fn print_chunk(chunk: &chunk::Chunk, path: &Vec<String>) {
     }
 }
 
+/* Script steps are stored as fixed size records. */
+const SCRIPT_STEP_SIZE : usize = 28;
+
+fn decompile_script_steps(bytecode: &[u8], file: &FmpFile) -> Vec<ScriptStep> {
+    let mut steps = Vec::new();
+    for ins in bytecode.chunks_exact(SCRIPT_STEP_SIZE) {
+        if let Some(Some(opcode)) = INSTRUCTIONMAP.get(ins[21] as usize) {
+            let mut switches: Vec<String> = vec![];
+            if *opcode == Instruction::PerformScript {
+                if let Some(script) = file.scripts.get(&(ins[8] as usize)) {
+                    switches.push(format!("\"{}\"", script.script_name));
+                }
+            }
+            steps.push(ScriptStep {
+                opcode: opcode.clone(),
+                index: get_path_int(&ins[2..ins[0] as usize + 1]),
+                switches,
+            });
+        }
+    }
+    steps
+}
+
 pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut file = File::open(path).expect("unable to open file.");
     let mut buffer = Vec::<u8>::new();
@@ -456,174 +479,67 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 },
                 /* Examining script code */
                 ["17", "5", x, "4"] => {
-                    if chunk.ctype == ChunkType::PathPush {
-                        let script = script_segments.get(&x.parse().unwrap());
-                        if script.is_none() {
-                            script_segments.insert(x.parse().unwrap(), BTreeMap::new());
+                    if chunk.ctype == ChunkType::DataSegment {
+                        /* The segments precede the arguments of the steps they hold. */
+                        let script = x.parse().unwrap();
+                        let segments = script_segments.entry(script).or_insert(BTreeMap::new());
+                        segments.insert(chunk.segment_idx.unwrap() as usize, chunk.data.unwrap().to_vec());
+                        let bytecode = segments.values().flatten().copied().collect::<Vec<u8>>();
+                        let steps = decompile_script_steps(&bytecode, &fmp_file);
+                        if let Some(handle) = fmp_file.scripts.get_mut(&script) {
+                            handle.instructions = steps;
                         }
-                        continue;
-                    } else if chunk.ctype == ChunkType::DataSegment {
-                        let n = chunk.segment_idx.unwrap() as usize;
-                        script_segments.get_mut(&x.parse().unwrap())
-                            .unwrap()
-                            .insert(n, chunk.data.unwrap().to_vec());
                     }
                 },
                 ["17", "5", script, "5", step, "128", "5"] => {
-                    let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                    match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
-                        "5" => {
-                            let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            let instruction_idx = instrs
-                                .iter()
-                                .enumerate()
-                                .filter(|x| x.1.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0].0;
-
-                            // println!("Searching for {step}. instructions for script {script} == {}", instrs.len());
-
-                            match instrs.get(instruction_idx).unwrap().opcode {
+                    if chunk.ref_simple == Some(5) {
+                        let instr = fmp_file.scripts.get_mut(&script.parse().unwrap())
+                            .and_then(|s| s.instructions.iter_mut()
+                                .find(|x| x.index == step.parse::<usize>().unwrap()));
+                        if let Some(instr) = instr {
+                            match instr.opcode {
                                 Instruction::SetVariable => {
-                                    instrs.get_mut(instruction_idx).unwrap().switches.push(s);
+                                    instr.switches.push(fm_string_decrypt(chunk.data.unwrap()));
                                 },
                                 Instruction::ExitScript => {
-                                    let bytecode = decompile_calculation(chunk.data.unwrap());
-                                    instrs.get_mut(instruction_idx).unwrap().switches.push(bytecode);
+                                    instr.switches.push(decompile_calculation(chunk.data.unwrap()));
                                 },
-                                _ => {
-
-                                }
-                            }
-
-                            for i in &mut *instrs {
-                                // println!("{:?}", i);
+                                _ => {}
                             }
-                        },
-                        _ => {
                         }
                     }
                 },
                 ["17", "5", script, "5", step, "128"] => {
-                    let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                    // println!("step type: {:?}", fmp_file.scripts.get(&script.parse().unwrap()).unwrap());
-                    match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
-                        "1" => {
-                            // println!("Found variable: {}", s);
-                            // let script = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap().clone();
-                            // let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            // let mut step = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap()
-                            //     .instructions.get_mut(&y.parse().unwrap());
-
-                            let instr = &mut fmp_file.scripts
-                                .get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut()
-                                .filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
-
-                            // println!("Searching for {step}. instructions for script {script}");
-
-                            match instr.opcode {
-                                Instruction::SetVariable => {
-                                    instr.switches.push(s);
-                                },
-                                _ => {}
+                    if chunk.ref_simple == Some(1) {
+                        let instr = fmp_file.scripts.get_mut(&script.parse().unwrap())
+                            .and_then(|s| s.instructions.iter_mut()
+                                .find(|x| x.index == step.parse::<usize>().unwrap()));
+                        if let Some(instr) = instr {
+                            if instr.opcode == Instruction::SetVariable {
+                                instr.switches.push(fm_string_decrypt(chunk.data.unwrap()));
                             }
-                        },
-                        _ => {
                         }
                     }
                 },
                 /* Examining script data */
                 ["17", "5", script, "5", step, "129", "5"] => {
-                    let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                    match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
-                        "5" => {
-                            let calc = decompile_calculation(chunk.data.unwrap());
-                            let instr = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut().filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
-                                instr.switches.push(calc);
-                        },
-                        _ => {
-
+                    if chunk.ref_simple == Some(5) {
+                        let instr = fmp_file.scripts.get_mut(&script.parse().unwrap())
+                            .and_then(|s| s.instructions.iter_mut()
+                                .find(|x| x.index == step.parse::<usize>().unwrap()));
+                        if let Some(instr) = instr {
+                            instr.switches.push(decompile_calculation(chunk.data.unwrap()));
                         }
                     }
-                    let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                    // for i in instrs {
-                    //     println!("{:?}", i);
-                    // }
                 },
-                ["17", "5", x, ..] => {
-                    if chunk.ctype == ChunkType::PathPop 
-                        || chunk.ctype == ChunkType::PathPush {
-                        continue;
-                    }
-
-                    if chunk.segment_idx == Some(4) {
-                            let instrs = chunk.data.unwrap().chunks(28);
-                            for (i, ins) in instrs.enumerate() {
-                                if ins.len() >= 21 {
-                                let oc = &INSTRUCTIONMAP[ins[21] as usize];
-                                if oc.is_some() {
-                                    let mut switch: Vec<String> = vec![];
-                                    match oc {
-                                        Some(Instruction::PerformScript) => {
-                                            switch.push(
-                                                fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
-                                            );
-                                        },
-                                        _ => {}
-                                    }
-                                    let n = crate::encoding_util::get_path_int(&ins[2..ins[0] as usize + 1]);
-                                    let tmp = ScriptStep {
-                                        opcode: oc.clone().unwrap(),
-                                        index: n,
-                                        switches: switch,
-                                    };
-                                    let handle = &mut fmp_file.scripts
-                                        .get_mut(&x.parse().unwrap()).unwrap().instructions;
-                                        handle.insert(n, tmp);
-                                    }
-                                }
-                            }
-                    } else {
-                        let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
-                        match &chunk.ref_simple {
-                            Some(4) => {
-                                let instrs = chunk.data.unwrap().chunks(28);
-                                for ins in instrs {
-                                    if ins.len() >= 21 {
-                                    let oc = &INSTRUCTIONMAP[ins[21] as usize];
-                                    if oc.is_some() {
-                                        let mut switch: Vec<String> = vec![];
-                                        match oc {
-                                            Some(Instruction::PerformScript) => {
-                                                switch.push(
-                                                    fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
-                                                );
-                                            },
-                                            _ => {}
-                                        }
-                                        let n = crate::encoding_util::get_path_int(&ins[2..ins[0] as usize + 1]);
-                                        let tmp = ScriptStep {
-                                            opcode: oc.clone().unwrap(),
-                                            index: n,
-                                            switches: switch,
-                                        };
-                                        let handle = &mut fmp_file.scripts
-                                            .get_mut(&x.parse().unwrap()).unwrap().instructions;
-                                            handle.push(tmp);
-                                        }
-                                    }
-                                }
-                            },
-                            None => {
-                            },
-                            _ => {
-                            },
+                /* Steps of a script short enough for a single chunk. */
+                ["17", "5", x] => {
+                    if chunk.segment_idx == Some(4) || chunk.ref_simple == Some(4) {
+                        let steps = decompile_script_steps(chunk.data.unwrap(), &fmp_file);
+                        if let Some(handle) = fmp_file.scripts.get_mut(&x.parse().unwrap()) {
+                            handle.instructions.extend(steps);
                         }
                     }
-
                 },
                 /* Examining script metadata */
                 ["17", "1", x, y, ..] => {
@@ -719,37 +635,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
         }
         idx = sectors[idx].next;
     }
-    /* Assemble scripts */
-    for (script, segments) in &mut script_segments {
-        let mut instructions = Vec::<u8>::new();
-        for s in segments {
-            instructions.append(s.1);
-        }
-
-        for instr in instructions.chunks(28) {
-            if instr.len() < 28 {
-                continue;
-            }
-            let op = &INSTRUCTIONMAP[instr[21] as usize];
-            if op.is_some() {
-                let mut switch: Vec<String> = vec![];
-                match op {
-                    Some(Instruction::PerformScript) => {
-                        switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
-                    },
-                    _ => {}
-                }
-                let tmp = ScriptStep {
-                    opcode: op.clone().unwrap(),
-                    index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
-                    switches: switch,
-                };
-                let handle = fmp_file.scripts.get_mut(&script).unwrap();
-                handle.instructions.insert(handle.instructions.len(), tmp);
-            }
-
-        }
-    }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
     //     for step in &script.1.instructions {
diff --git a/src/fm_script_engine/fm_script_engine_instructions.rs b/src/fm_script_engine/fm_script_engine_instructions.rs
index d090ff6..a8f3be7 100644
--- a/src/fm_script_engine/fm_script_engine_instructions.rs
+++ b/src/fm_script_engine/fm_script_engine_instructions.rs
@@ -224,7 +224,7 @@ impl FromStr for Instruction {
     }
 }
 
-pub static INSTRUCTIONMAP : [Option<Instruction>; 255] = [
+pub static INSTRUCTIONMAP : [Option<Instruction>; 256] = [
     None,
 	  Some(Instruction::PerformScript),
     None,
@@ -479,6 +479,7 @@ pub static INSTRUCTIONMAP : [Option<Instruction>; 255] = [
     None,
     None,
     None,
+    None,
     Some(Instruction::Assert),
 ];
 
-- 
2.43.0


From d8c55e10acf9a718aad945ddff1f4c74c078eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:33 +0000
Subject: [PATCH 07/44] fix: decompiled calculations quoted their whitespace
 and garbled non-ASCII text

---
 src/decompile/decompiler.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 727fdcf..32c1894 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -71,26 +71,20 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             },
             0x13 => {
                 /* Processing String */
-                let n = it.next();
-                let mut s = String::new();
-                for i in 1..=*n.unwrap() as usize {
-                    s.push(*it.next().unwrap() as char);
-                }
+                let n = *it.next().unwrap() as usize;
+                let bytes = it.by_ref().take(n).copied().collect::<Vec<u8>>();
                 let mut text = String::new();
                 text.push('"');
-                text.push_str(&fm_string_decrypt(s.as_bytes()));
+                text.push_str(&fm_string_decrypt(&bytes));
                 text.push('"');
 
                 result.push_str(&text);
             }
             0x1a => {
                 /* decode variable */
-                let n = it.next();
-                let mut name_arr = String::new();
-                for i in 1..=*n.unwrap() as usize {
-                    name_arr.push(*it.next().unwrap() as char);
-                }
-                let name = fm_string_decrypt(name_arr.as_bytes());
+                let n = *it.next().unwrap() as usize;
+                let bytes = it.by_ref().take(n).copied().collect::<Vec<u8>>();
+                let name = fm_string_decrypt(&bytes);
                 result.push_str(&name);
             },
             0x25 => {
@@ -127,7 +121,15 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
                 result.push('&');
             }
             0xC => {
-                result.push(' ');
+                if it.peek() == Some(&&0x13) {
+                    /* Whitespace of the calculation, stored like a string. */
+                    it.next();
+                    let n = *it.next().unwrap() as usize;
+                    let bytes = it.by_ref().take(n).copied().collect::<Vec<u8>>();
+                    result.push_str(&fm_string_decrypt(&bytes));
+                } else {
+                    result.push(' ');
+                }
             }
             _ => {
 
-- 
2.43.0


From 6f6da68537660ab327e739c64073f0fde157084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:05 +0000
Subject: [PATCH 08/44] fix: decompiled data sources were paired with another
 source's name

---
 src/decompile/decompiler.rs | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 32c1894..d203a9c 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -271,8 +271,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut idx = 2;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
-    let mut data_source_names = VecDeque::<String>::new();
-
 
     while idx != 0 {
         let start = idx * SECTOR_SIZE;
@@ -576,16 +574,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // } else {
                     // }
                 },
-                /* Variable length encoded names of data sources. */
-                ["32", "1", "1"] => {
-                    match chunk.ctype {
-                        ChunkType::DataSimple => {
-                            let s = dbcharconv::decode_bytes(chunk.data.unwrap());
-                            data_source_names.push_back(s);
-                        }
-                        _ => {}
-                    }
-                },
                 /* Identifiers for data sources. */
                 ["32", "1", "3"] => {
                     match chunk.ctype {
@@ -598,16 +586,18 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["32", "5", ds, ..] => {
                     match chunk.ctype {
                         ChunkType::PathPush => {
-                            let idx = get_int(chunk.data.unwrap());
-                            let mut tmp = FMComponentDataSource::new();
-                            let front = data_source_names.pop_front();
-                            if front.is_some() {
-                                tmp.source_name = front.unwrap();
-                                fmp_file.data_sources.insert(idx, tmp);
-                            }
+                            fmp_file.data_sources.entry(ds.parse::<usize>().unwrap())
+                                .or_insert(FMComponentDataSource::new());
                         }
                         ChunkType::RefSimple => {
                             match chunk.ref_simple.unwrap() {
+                                16 => {
+                                    let s = fm_string_decrypt(chunk.data.unwrap());
+                                    let handle = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap());
+                                    if handle.is_some() {
+                                        handle.unwrap().source_name = s;
+                                    }
+                                },
                                 130 => {
                                     if chunk.code == 0x6 {
                                         /* Path is stored here */
-- 
2.43.0


From 55fc4309799166fb097556ff28b660562bd3e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 09/44] fix: the letter h was dropped from data source paths

---
 src/component.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/component.rs b/src/component.rs
index a947d06..80f7ec9 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -236,7 +236,6 @@ impl SourceFileLocation {
         let path : Vec<_> = path_bytes.into_iter()
             .map(|b| vec![b])
             .map(|b| match b[..] {
-                [50] => { vec![] }
                 [65] => { vec![96 as u8]},
                 [218] => { vec![(117 as u8)] },
                 [219] => { vec![(116 as u8), (116 as u8)] },
-- 
2.43.0


From d1b367856ce26a4887da8087da62801e825e7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 10/44] fix: long reference chunks were decoded from the wrong
 bytes

---
 src/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index c96b2ed..eeae700 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -170,7 +170,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             ctype = ChunkType::RefLong;
             ref_data = Some(&code[*offset..*offset+3]);
             *offset += 3;
-            let len = get_path_int(&code[*offset..*offset+2]);
+            let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
             *offset += len;
@@ -218,6 +218,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             let ref_len = code[*offset] as usize;
             *offset += 1;
             ref_data = Some(&code[*offset..*offset+ref_len]);
+            *offset += ref_len;
             let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
-- 
2.43.0


From 4533eea058f2ff1dc1461ddea83807e187b4f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 11/44] fix: decompiling a damaged file could loop forever

---
 src/chunk.rs                | 2 ++
 src/decompile/decompiler.rs | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index eeae700..e491aad 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -140,6 +140,8 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
                 *offset += 2;
                 data = Some(&code[*offset..*offset+len]);
                 *offset += len;
+            } else {
+                return Err("Invalid data segment chunk.");
             }
         },
         0x10 => {
diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index d203a9c..940ac32 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -256,7 +256,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
     let first = sector::get_sector(&buffer[offset..]);
     // println!("{:?} == {}", &buffer[offset+8..offset+12], first.next);
-    let n_blocks = first.next;
+    let n_blocks = first.next.min(buffer.len() / SECTOR_SIZE);
 
     sectors.resize(n_blocks + 1, sector::Sector { 
         deleted: false, 
@@ -272,7 +272,12 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
 
+    let mut visited = HashSet::new();
+
     while idx != 0 {
+        if !visited.insert(idx) {
+            panic!("Sector chain contains a loop.");
+        }
         let start = idx * SECTOR_SIZE;
         let bound = start + SECTOR_SIZE;
         offset = start;
-- 
2.43.0


From 71425b533e2159b63dbbbb9ae66597349aa52d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 12/44] fix: only the last of several compiled relationships
 was kept

---
 src/compile/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index bcda58d..c4a4c35 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,7 +81,7 @@ impl Parser {
                             }
                         }
                     }
-                    ret.relationships.insert(ret.tables.len() + 1, relationship);
+                    ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
                     let mut value_list = FMComponentValueList::new();
-- 
2.43.0


From 12b6867af65fbec7687ac26a4d1ec1a508f7b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 13/44] fix: brackets and commas inside string literals split
 script arguments

---
 src/burn_script/lexer.rs | 7 +++++--
 src/compile/lexer.rs     | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 8280a00..b89d1e2 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -77,9 +77,12 @@ impl Lexer {
                                 in_string = !in_string;
                                 buffer.push(*c);
                             }
+                            _ if in_string => {
+                                buffer.push(*c);
+                            }
                             ')' => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                     break;
                                 } else {
@@ -93,7 +96,7 @@ impl Lexer {
                             }
                             ',' => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                 } else {
                                     buffer.push(*c);
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 6ed2a06..84074b0 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -47,8 +47,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut in_script_string = false;
         while in_script == true {
-            if c == ']' {
+            if c == '"' {
+                in_script_string = !in_script_string;
+            }
+            if c == ']' && !in_script_string {
                 list.push(Token { ttype: TokenType::Script, text: buffer.to_string()});
                 in_script = false;
                 buffer.clear();
-- 
2.43.0


From 2786555e9261c0a388676ad948f91c9bb1791068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 14/44] fix: compiled and decompiled output came out in a
 random order

---
 src/file.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 3c31271..69321c3 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -2,18 +2,18 @@ use crate::component;
 
 use serde::{Deserialize, Serialize};
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Serialize, Deserialize)]
 pub struct FmpFile {
     pub name: String,
-    pub tables: HashMap<usize, component::FMComponentTable>,
-    pub relationships: HashMap<usize, component::FMComponentRelationship>,
-    pub layouts: HashMap<usize, component::FMComponentLayout>,
-    pub value_lists: HashMap<usize, component::FMComponentValueList>,
-    pub scripts: HashMap<usize, component::FMComponentScript>,
-    pub table_occurrences: HashMap<usize, component::FMComponentTableOccurence>,
-    pub data_sources: HashMap<usize, component::FMComponentDataSource>,
+    pub tables: BTreeMap<usize, component::FMComponentTable>,
+    pub relationships: BTreeMap<usize, component::FMComponentRelationship>,
+    pub layouts: BTreeMap<usize, component::FMComponentLayout>,
+    pub value_lists: BTreeMap<usize, component::FMComponentValueList>,
+    pub scripts: BTreeMap<usize, component::FMComponentScript>,
+    pub table_occurrences: BTreeMap<usize, component::FMComponentTableOccurence>,
+    pub data_sources: BTreeMap<usize, component::FMComponentDataSource>,
     pub tests: Vec<component::FMComponentTest>,
 }
 
@@ -21,13 +21,13 @@ impl FmpFile {
     pub fn new() -> Self {
         Self {
             name: String::new(),
-            tables: HashMap::new(),
-            relationships: HashMap::new(),
-            layouts: HashMap::new(),
-            value_lists: HashMap::new(),
-            scripts: HashMap::new(),
-            table_occurrences: HashMap::new(),
-            data_sources: HashMap::new(),
+            tables: BTreeMap::new(),
+            relationships: BTreeMap::new(),
+            layouts: BTreeMap::new(),
+            value_lists: BTreeMap::new(),
+            scripts: BTreeMap::new(),
+            table_occurrences: BTreeMap::new(),
+            data_sources: BTreeMap::new(),
             tests: vec![],
         }
     }
-- 
2.43.0


From 3a59711d4449dfc22ca9679e0b150c38f9979bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 15/44] fix: compiling and decompiling panicked without an
 inspect_output directory

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d8732f4..658ebd1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,5 @@
 #![allow(unused)]
-use std::{fs::{write, File}, io::Read, path::Path};
+use std::{fs::{create_dir_all, write, File}, io::Read, path::Path};
 use clap::Parser;
 use compile::{assembler::Assembler, compiler::compile_burn};
 use decompile::decompiler::{decompile_fmp12_file, decompile_fmp12_file_with_header};
@@ -53,6 +53,7 @@ fn main() {
             file.layouts.extend(tmp.layouts);
             file.tests.extend(tmp.tests);
             let json = serde_json::to_string_pretty(&file).expect("Unable to generate json file");
+            create_dir_all("inspect_output").expect("Unable to create output directory.");
             write("inspect_output/test_compile", json).expect("Unable to write to file.");
             if args.no_testing == false && !file.tests.is_empty() {
                 let mut env = testing::test::TestEnvironment::new(&file);
@@ -76,6 +77,7 @@ fn main() {
             }
 
             let json = serde_json::to_string_pretty(&tmp).expect("Unable to generate json file");
+            create_dir_all("inspect_output").expect("Unable to create output directory.");
             write("inspect_output/test_decompile", json).expect("Unable to write to file.");
             file.tables.extend(tmp.tables);
             file.relationships.extend(tmp.relationships);
-- 
2.43.0


From 729b81375194c9dd4c78f258c3ed5196098f2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 16/44] fix: table names of a compiled file could not be read
 back

---
 src/compile/assembler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index a7f1a1b..734ab6b 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -186,16 +186,17 @@ impl<'a> Assembler<'a> {
         self.emit_simple_kv(216, &fm_string_encrypt("hello".to_string()));
         self.emit_simple_kv_e(129, &vec![59, 62, 55, 51, 52]);
         self.emit_simple_kv_e(130, &vec![59, 62, 55, 51, 52]);
+        self.pop_directory();
 
         self.push_directory(5);
 
         for t in &self.file.tables {
             self.push_directory(128 + *t.0 as u32);
+            self.emit_simple_kv(16, &fm_string_encrypt(t.1.table_name.clone()));
             self.pop_directory();
         }
         self.pop_directory();
         self.pop_directory();
-        self.pop_directory();
     }
 
     pub fn emit_relationship_data(&mut self) {
-- 
2.43.0


From 37b600f40e95043817e092524eb5d1fac3d068c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 17/44] hook: re-export what the verification harness uses
 (feature verif)

---
 src/main.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 658ebd1..ec7b017 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(unused)]
+#![allow(unexpected_cfgs)]
 use std::{fs::{create_dir_all, write, File}, io::Read, path::Path};
 use clap::Parser;
 use compile::{assembler::Assembler, compiler::compile_burn};
@@ -18,6 +19,22 @@ mod fm_script_engine;
 mod testing;
 mod dbcharconv;
 
+/* What the verification harness uses; left out of ordinary builds. */
+#[cfg(feature = "verif")]
+pub mod verif {
+    pub use crate::burn_script::compiler::BurnScriptCompiler;
+    pub use crate::chunk::{get_chunk_from_code, Chunk, ChunkType};
+    pub use crate::compile::assembler::Assembler;
+    pub use crate::compile::compiler::compile_burn;
+    pub use crate::component::*;
+    pub use crate::dbcharconv::{decode_char, encode_char, encode_text};
+    pub use crate::decompile::decompiler::decompile_fmp12_file;
+    pub use crate::encoding_util::*;
+    pub use crate::file::FmpFile;
+    pub use crate::fm_script_engine::fm_script_engine_instructions::{Instruction, ScriptStep};
+    pub use crate::testing::test::{TestEnvironment, TestState};
+}
+
 fn main() {
 
     let args = cli::CLI::parse();
-- 
2.43.0


From 334b9d58157c575f0eeceebdd0016f50e254b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 18/44] fix: damaged content running past its sector was
 completed from unrelated bytes

---
 src/decompile/decompiler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 940ac32..2a27d5c 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -293,6 +293,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                             &mut path, 
                                             start).expect("Unable to decode chunk.");
 
+            /* Only the zeros that pad a sector may be cut off by its end. */
+            if offset > bound && chunk.code != 0 {
+                panic!("Chunk runs out of its sector.");
+            }
+
             // print_chunk(&chunk, &path);
             match &path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
                 /* Examining relatinoships of table occurences */
-- 
2.43.0


From 60c790f6a0025a2360dfc07443b31fd414cf03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:38 +0000
Subject: [PATCH 19/44] fix: a brace in a string literal ended a field's
 calculation

---
 src/compile/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 84074b0..f006f8a 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -62,8 +62,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut in_calc_string = false;
         while in_calc == true {
-            if c == '}' {
+            if c == '"' {
+                in_calc_string = !in_calc_string;
+            }
+            if c == '}' && !in_calc_string {
                 list.push(Token { ttype: TokenType::Calculation, text: buffer.to_string()});
                 in_calc = false;
                 buffer.clear();
-- 
2.43.0


From f3395a3f0247e325aed729a33c085b3c9cf6eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 20/44] fix: a program that breaks off in a declaration was
 compiled as if it were complete

---
 src/compile/lexer.rs  |  6 ++++++
 src/compile/parser.rs | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index f006f8a..8b2f24a 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -312,6 +312,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
         }
     }
 
+    if !buffer.is_empty() {
+        if let Ok(t) = flush_buffer(&buffer) {
+            list.push(t);
+        }
+    }
+
     return list;
 
 }
diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index c4a4c35..8402c9f 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -26,7 +26,8 @@ impl Parser {
                     } else {
                         table.table_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of program in a declaration.")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -52,7 +53,8 @@ impl Parser {
                     if parser_iter.peek().unwrap().ttype != TokenType::Colon {
                         return Err("Expected colon after \"relationship\" keyword.".to_string())
                     } 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of program in a declaration.")?;
                         match n.ttype {
                             TokenType::Identifier => {
                                 if parser_iter.peek().unwrap().ttype == TokenType::Colon {
@@ -90,7 +92,8 @@ impl Parser {
                     } else {
                         value_list.list_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of program in a declaration.")?;
                         match n.ttype {
                             TokenType::End => 
                             {
@@ -141,7 +144,8 @@ impl Parser {
                     } else {
                         table_occurence.table_occurence_name = parser_iter.next().unwrap().text.clone();
                     }
-                    while let Some(mut t) = parser_iter.next() {
+                    loop {
+                        let mut t = parser_iter.next().ok_or("Unexpected end of program in a declaration.")?;
                         // println!("{:?}", t.ttype);
                         match t.ttype {
                             TokenType::Table => {
@@ -184,7 +188,8 @@ impl Parser {
                         test.test_name = parser_iter.next().unwrap().text.clone();
                     }
 
-                    while let Some(mut n) = parser_iter.next() {
+                    loop {
+                        let mut n = parser_iter.next().ok_or("Unexpected end of program in a declaration.")?;
                         match n.ttype {
                             TokenType::Script => {
                                 if parser_iter.next().unwrap().ttype != TokenType::Colon {
-- 
2.43.0


From 107162fe0bcf27723d7d708dd7a0244b4e09e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 21/44] fix: a declaration that lacks its end swallowed the
 next one

---
 src/compile/parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index 8402c9f..5526123 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -41,6 +41,9 @@ impl Parser {
                                     return Err(std::format!("Unexpected {} after \"end\"", n.text).to_string());
                                 }
                             }
+                            TokenType::SemiColon => {
+                                return Err("Expected \"end\" before \";\".".to_string());
+                            }
                             _ => {
                                 continue;
                             }
@@ -78,6 +81,9 @@ impl Parser {
                                     return Err(std::format!("Unexpected {} after \"end\"", n.text).to_string());
                                 }
                             }
+                            TokenType::SemiColon => {
+                                return Err("Expected \"end\" before \";\".".to_string());
+                            }
                             _ => {
                                 continue;
                             }
@@ -107,6 +113,9 @@ impl Parser {
                                     return Err(std::format!("Unexpected {} after \"end\"", n.text).to_string());
                                 }
                             }
+                            TokenType::SemiColon => {
+                                return Err("Expected \"end\" before \";\".".to_string());
+                            }
                             _ => {
                                 continue;
                             }
@@ -173,6 +182,9 @@ impl Parser {
                                     return Err(std::format!("Unexpected {} after \"end\"", t.text).to_string());
                                 }
                             }
+                            TokenType::SemiColon => {
+                                return Err("Expected \"end\" before \";\".".to_string());
+                            }
                             _ => {
 
                             }
@@ -237,6 +249,9 @@ impl Parser {
                                     return Err(std::format!("Unexpected {} after \"end\"", n.text).to_string());
                                 }
                             }
+                            TokenType::SemiColon => {
+                                return Err("Expected \"end\" before \";\".".to_string());
+                            }
                             _ => {
                                 continue;
                             }
-- 
2.43.0


From 60530a34dca01a1837d9a40d4f08b92a65a81b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 22/44] fix: a relationship that lacks a table was compiled
 with an empty name

---
 src/compile/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index 5526123..f9aabbc 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -89,6 +89,9 @@ impl Parser {
                             }
                         }
                     }
+                    if relationship.table1_name.is_empty() || relationship.table2_name.is_empty() {
+                        return Err("Expected two tables in relationship.".to_string());
+                    }
                     ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
-- 
2.43.0


From 89ccaeeade049ec6f0db53fb731d9c8f5ae231db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 23/44] fix: a script that was not closed or had no name was
 compiled as it stood

---
 src/burn_script/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 5e3e9ac..06d2a82 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -31,6 +31,8 @@ impl Parser {
                     let peeked = parser_iter.next().unwrap();
                     if peeked.ttype == TokenType::Identifier {
                         tmp.script_name = peeked.value.clone();
+                    } else {
+                        return Err("Expected script name after \"define\".");
                     }
 
                     /* Parse arguments to script */
@@ -56,7 +58,8 @@ impl Parser {
                     }
 
                     /* Parse the instructions inside the script with their options */
-                    while let Some(t) = parser_iter.next() {
+                    loop {
+                        let t = parser_iter.next().ok_or("Unexpected end of script.")?;
                         match t.ttype {
                             TokenType::Identifier => {
                                 if let Ok(op) = Instruction::from_str(&t.value) {
-- 
2.43.0


From 287f3eb8843c1b5598a4295f7893670d43ef1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 24/44] fix: an else or elif after a loop was compiled as part
 of the loop

---
 src/burn_script/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 06d2a82..223f145 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -141,6 +141,9 @@ impl Parser {
                                 punc_stack.push(Instruction::Loop);
                             },
                             TokenType::Elif => {
+                                if punc_stack.last() != Some(&Instruction::If) {
+                                    return Err("Expected an if before elif.");
+                                }
                                 let mut step = ScriptStep {
                                     opcode: Instruction::ElseIf,
                                     index: 0,
@@ -185,6 +188,9 @@ impl Parser {
                                 punc_stack.push(Instruction::If);
                             },
                             TokenType::Else => {
+                                if punc_stack.last() != Some(&Instruction::If) {
+                                    return Err("Expected an if before else.");
+                                }
                                 let check = parser_iter.next();
                                 if check.unwrap().ttype != TokenType::OpenBracket {
                                     eprintln!("Expected '{{' after loop.");
-- 
2.43.0


From e2b8355fcae61c15af2c7b87f6dfb4a7bb8aebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 25/44] fix: what stood at the very end of a script block was
 dropped unread

---
 src/burn_script/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index b89d1e2..15a086f 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -292,6 +292,10 @@ impl Lexer {
             }
         }
 
+        if !buffer.is_empty() {
+            result.push(flush_buffer(&buffer));
+        }
+
         return result;
     }
 }
-- 
2.43.0


From 791cb362beeb26cdd074d974e076393b635e3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:05 +0000
Subject: [PATCH 26/44] fix: a compiled file was one byte short, its header cut
 off before the last byte

---
 src/compile/assembler.rs | 2 +-
 src/compile/header.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index 734ab6b..baae7bc 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -141,7 +141,7 @@ impl<'a> Assembler<'a> {
 
     pub fn append_blank_chunk(&mut self) {
         self.buffer.resize(self.buffer.len() + 4096, 0);
-        self.idx = self.buffer.len() - 4095;
+        self.idx = self.buffer.len() - 4096;
         self.local_idx = 0;
     }
 
diff --git a/src/compile/header.rs b/src/compile/header.rs
index b736c7e..75d1dbc 100644
--- a/src/compile/header.rs
+++ b/src/compile/header.rs
@@ -133,4 +133,4 @@ pub const HEADER_INIT : &[u8] = &[
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
-32, 32, 32, 32, 32, 32, 32, 13, 67, 82, 58, 73, 70, 65];
+32, 32, 32, 32, 32, 32, 32, 13, 67, 82, 58, 73, 70, 65, 69];
-- 
2.43.0


From d44559e880c36c2e97e9648e7504da019b3e5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:05 +0000
Subject: [PATCH 27/44] fix: the header of a compiled file kept part of the
 template's name

---
 src/compile/assembler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index baae7bc..b12838a 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -284,7 +284,8 @@ impl<'a> Assembler<'a> {
 
         self.buffer.extend(HEADER_INIT);
 
-        let name_header = schema.name.clone() + "/";
+        let name_header = schema.name.clone() + "/\r";
+        self.buffer[3082..4088].fill(b' ');
         self.buffer.splice(3082..3082+name_header.len(), name_header.as_bytes().to_vec());
         // println!("{} == {:?}", name_header, &self.buffer[3082..3082+name_header.len()]);
 
-- 
2.43.0


From ccd9e0f6d3019ab7be3d34a8ed7f44251e0bfd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:35 +0000
Subject: [PATCH 28/44] fix: a compiled file could not hold more than one
 sector of content

---
 src/compile/assembler.rs | 57 ++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index b12838a..8133fc8 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -8,6 +8,8 @@ use crate::dbcharconv;
 pub struct Assembler<'a> {
     idx: usize,
     local_idx: u16,
+    sector: usize,
+    directories: Vec<u32>,
     buffer: Vec<u8>,
     file: &'a FmpFile,
 }
@@ -17,6 +19,8 @@ impl<'a> Assembler<'a> {
         Self {
             idx: 0,
             local_idx: 0,
+            sector: 0,
+            directories: vec![],
             buffer: vec![],
             file: input,
         }
@@ -40,6 +44,7 @@ impl<'a> Assembler<'a> {
     }
 
     fn emit_simple_data_1b(&mut self, data: &[u8]) {
+        self.make_room(data.len() + 6);
         self.buffer[self.idx] = 0x1b;
         self.idx += 1;
         self.buffer[self.idx] = data.len() as u8;
@@ -55,6 +60,7 @@ impl<'a> Assembler<'a> {
     fn emit_long_kv(&mut self, key: &[u8], val: &[u8]) {
 
         let code = 0x1e;
+        self.make_room(key.len() + val.len() + 3);
         self.buffer[self.idx] = code;
         self.idx += 1;
         self.buffer[self.idx] = key.len() as u8;
@@ -73,6 +79,7 @@ impl<'a> Assembler<'a> {
     
     fn emit_simple_kv_e(&mut self, key: u32, val: &[u8]) {
 
+        self.make_room(val.len() + 5);
         self.buffer[self.idx] = 0x0e;
         self.idx += 1;
         let n = put_path_int(key);
@@ -93,6 +100,7 @@ impl<'a> Assembler<'a> {
             _ => { self.calc_small_kv_ins(val) }
         };
 
+        self.make_room(val.len() + 3);
         self.buffer[self.idx] = ins;
         self.idx += 1;
 
@@ -120,9 +128,17 @@ impl<'a> Assembler<'a> {
     fn pop_directory(&mut self) {
         self.buffer[self.idx] = 0x40;
         self.idx += 1;
+        self.directories.pop();
     }
 
     fn push_directory(&mut self, dir: u32) {
+        /* The directory itself has to be closed in the same sector. */
+        self.make_room(6);
+        self.directories.push(dir);
+        self.emit_push(dir);
+    }
+
+    fn emit_push(&mut self, dir: u32) {
         let d = put_path_int(dir);
         let ins = match d.len() {
             1 => { 0x20 }
@@ -142,9 +158,35 @@ impl<'a> Assembler<'a> {
     pub fn append_blank_chunk(&mut self) {
         self.buffer.resize(self.buffer.len() + 4096, 0);
         self.idx = self.buffer.len() - 4096;
+        self.sector = self.idx;
         self.local_idx = 0;
     }
 
+    /* Links the current sector to a new one at the end of the file. */
+    fn next_sector(&mut self) {
+        let next = (self.buffer.len() / 4096) as u32;
+        self.buffer.splice(self.sector+8..self.sector+12, next.to_be_bytes());
+        self.append_blank_chunk();
+    }
+
+    /* Continues in another sector when the current one cannot hold len more bytes.
+     * As every sector starts outside of all directories, the open ones are closed
+     * there and opened again. */
+    fn make_room(&mut self, len: usize) {
+        if self.idx + len + self.directories.len() <= self.sector + 4096 {
+            return;
+        }
+        for _ in 0..self.directories.len() {
+            self.buffer[self.idx] = 0x40;
+            self.idx += 1;
+        }
+        self.next_sector();
+        self.idx += 20;
+        for dir in self.directories.clone() {
+            self.emit_push(dir);
+        }
+    }
+
     pub fn emit_init_blobs(&mut self) {
         self.push_directory(2);
         self.emit_simple_kv(3, &[120, 104, 106, 116, 107, 120]);
@@ -170,7 +212,7 @@ impl<'a> Assembler<'a> {
             encoding.push(0x0);
             encoding.push(0x0);
             /* TODO: second argument shoudl not be hard coded in this way */
-            self.emit_long_kv(&encoding, &[2, 128, (*t.0 as u8)]);
+            self.emit_long_kv(&encoding, &[2, 128 + (*t.0 >> 8) as u8, *t.0 as u8]);
         }
 
         self.pop_directory();
@@ -290,9 +332,8 @@ impl<'a> Assembler<'a> {
         // println!("{} == {:?}", name_header, &self.buffer[3082..3082+name_header.len()]);
 
         self.append_blank_chunk();
-        self.buffer.splice((self.idx+8) as usize..(self.idx+12) as usize, 4_u32.to_be_bytes());
+        let first = self.sector;
         self.append_blank_chunk();
-        self.buffer.splice((self.idx+8) as usize..(self.idx+12) as usize, 3_u32.to_be_bytes());
         self.idx += 20;
         self.emit_noop();
         self.emit_init_blobs();
@@ -305,11 +346,11 @@ impl<'a> Assembler<'a> {
         self.emit_theme_data();
         self.emit_font_data();
         self.emit_toolbar_data();
-        self.append_blank_chunk();
-        self.buffer.splice((self.idx+8) as usize..(self.idx+12) as usize, 4_u32.to_be_bytes());
-        self.idx += 20;
-        self.append_blank_chunk();
-        self.buffer.splice((self.idx+8) as usize..(self.idx+12) as usize, 0_u32.to_be_bytes());
+        self.next_sector();
+        self.next_sector();
+        /* The first sector refers to the last one. */
+        let last = (self.sector / 4096) as u32;
+        self.buffer.splice(first+8..first+12, last.to_be_bytes());
     }
 
     pub fn emit_assembly(&self, filename: &str) {
-- 
2.43.0


From 21a7febea220c7c122c2f690924e1c9d32426746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 29/44] fix: success was reported although header.log could not
 be written

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 2a27d5c..625e5fc 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -241,7 +241,7 @@ pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut buffer = Vec::<u8>::new();
     file.read_to_end(&mut buffer).expect("Unable to read file.");
 
-    write("header.log", buffer);
+    write("header.log", buffer).expect("Unable to write to file.");
     decompile_fmp12_file(path)
 }
 
-- 
2.43.0


From 6d2c3e8c3b9157004470eb5cd210f86bc14f890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:22 +0000
Subject: [PATCH 30/44] fix: decode_fmstring dropped every letter h

---
 scripts/decode_fmstring.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scripts/decode_fmstring.py b/scripts/decode_fmstring.py
index 907df0e..cfcd37a 100755
--- a/scripts/decode_fmstring.py
+++ b/scripts/decode_fmstring.py
@@ -5,8 +5,6 @@ import sys
 
 def punctuation(c):
     match c:
-        case 50:
-            return []
         case 65:
             return [58 ^ 0x5a]
         case 116:
-- 
2.43.0


From 7ce4f4294b47d5e6f8be444e32c02db290f68f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:22 +0000
Subject: [PATCH 31/44] fix: a table occurrence that lacks its table was
 compiled with an empty name

---
 src/compile/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index f9aabbc..f1bb856 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -175,6 +175,9 @@ impl Parser {
 
                             },
                             TokenType::End => {
+                                if table_occurence.table_actual_name.is_empty() {
+                                    return Err("Expected a table for the table occurence.".to_string());
+                                }
                                 t = parser_iter.next().unwrap();
                                 if t.ttype == TokenType::TableOccurence {
                                     if parser_iter.next().unwrap().ttype != TokenType::SemiColon {
-- 
2.43.0


From 6d555bbbf643cdf16cb40d3a4fe4bfc8600d845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:19 +0000
Subject: [PATCH 32/44] fix: a block in a relationship swallowed the
 declarations after it

---
 src/compile/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index f1bb856..4e054f1 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,6 +81,9 @@ impl Parser {
                                     return Err(std::format!("Unexpected {} after \"end\"", n.text).to_string());
                                 }
                             }
+                            TokenType::OpenSquare | TokenType::OpenCurly => {
+                                return Err("Unexpected block in a relationship.".to_string());
+                            }
                             TokenType::SemiColon => {
                                 return Err("Expected \"end\" before \";\".".to_string());
                             }
-- 
2.43.0


From 0de6668b5548e0e2d4fc7248427cb4758ff3c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 33/44] fix: all but the last of an occurrence's tables were
 dropped

---
 src/compile/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index 4e054f1..e3568b0 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -164,6 +164,9 @@ impl Parser {
                         // println!("{:?}", t.ttype);
                         match t.ttype {
                             TokenType::Table => {
+                                if !table_occurence.table_actual_name.is_empty() {
+                                    return Err("Expected only one table for the table occurence.".to_string());
+                                }
                                 t = parser_iter.next().unwrap();
                                 if t.ttype != TokenType::Colon {
                                     return Err("Expected colon after table specifier.".to_string());
-- 
2.43.0


From 04606598e86a09f0cbd7e40b2c5d5813dcade88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 34/44] fix: further tables in a relationship replaced its own
 or were dropped

---
 src/compile/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index e3568b0..e1b580b 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -59,8 +59,11 @@ impl Parser {
                     loop {
                         let mut n = parser_iter.next().ok_or("Unexpected end of program in a declaration.")?;
                         match n.ttype {
+                            TokenType::Colon if !relationship.table1_name.is_empty() => {
+                                return Err("Expected only two tables in relationship.".to_string());
+                            }
                             TokenType::Identifier => {
-                                if parser_iter.peek().unwrap().ttype == TokenType::Colon {
+                                if relationship.table1_name.is_empty() && parser_iter.peek().unwrap().ttype == TokenType::Colon {
                                     relationship.table1_name = n.text.clone();
                                     parser_iter.next();
                                     let n = parser_iter.next().unwrap();
-- 
2.43.0


From 47500a126d3a9975c6e96fc51bc68447c1afa0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 35/44] fix: a test without a script, or with two script
 blocks, was accepted

---
 src/compile/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index e1b580b..89247c0 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -209,6 +209,7 @@ impl Parser {
                 },
                 TokenType::Test => {
                     let mut test = FMComponentTest::new();
+                    let mut has_script = false;
                     if parser_iter.peek().unwrap().ttype != TokenType::Identifier {
                         return Err("Expected identifier after \"test\" keyword.".to_string())
                     } else {
@@ -219,6 +220,10 @@ impl Parser {
                         let mut n = parser_iter.next().ok_or("Unexpected end of program in a declaration.")?;
                         match n.ttype {
                             TokenType::Script => {
+                                if has_script {
+                                    return Err("Please ensure that tests only have 1 script defined.".to_string());
+                                }
+                                has_script = true;
                                 if parser_iter.next().unwrap().ttype != TokenType::Colon {
                                     return Err("expected ':' after object block".to_string());
                                 }
@@ -254,6 +259,9 @@ impl Parser {
                             }
                             TokenType::End => 
                             {
+                                if !has_script {
+                                    return Err("Expected a script in the test.".to_string());
+                                }
                                 n = parser_iter.next().unwrap();
                                 if n.ttype == TokenType::Test {
                                     if parser_iter.next().unwrap().ttype != TokenType::SemiColon {
-- 
2.43.0


From cf5c9643a4b99353e53a864876f20c4093d4f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 36/44] fix: the last sign or word of a program could go
 unnoticed

---
 src/compile/lexer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 8b2f24a..65ae53b 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -141,6 +141,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                     } else {
                         ret.push(Token::new(TokenType::Assign));
                     }
+                } else {
+                    ret.push(Token::new(TokenType::Assign));
                 }
                 ret
             },
@@ -312,10 +314,11 @@ pub fn tokenize(code: &str) -> Vec<Token> {
         }
     }
 
-    if !buffer.is_empty() {
-        if let Ok(t) = flush_buffer(&buffer) {
-            list.push(t);
-        }
+    if in_string {
+        list.push(Token::with_value(TokenType::String, buffer));
+    } else if !buffer.is_empty() {
+        let t = flush_buffer(&buffer).unwrap_or_else(|_| Token::with_value(TokenType::Identifier, buffer.clone()));
+        list.push(t);
     }
 
     return list;
-- 
2.43.0


From 7b2bd1f027e86a971fcdd08377ec46ad1044dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:45 +0000
Subject: [PATCH 37/44] fix: an open parenthesis in a script block swallowed
 what followed it

---
 src/burn_script/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 15a086f..99e4736 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -64,6 +64,7 @@ impl Lexer {
 
                     let mut stack = 0;
                     let mut in_string = false;
+                    let mut closed = false;
                     while let Some(c) = &lex_iter.next() {
                         match c {
                             ' ' => {
@@ -84,6 +85,7 @@ impl Lexer {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
+                                    closed = true;
                                     break;
                                 } else {
                                     buffer.push(*c);
@@ -107,6 +109,10 @@ impl Lexer {
                             }
                         }
                     }
+                    if !closed {
+                        ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
+                        buffer.clear();
+                    }
                     Some(ret)
                 },
                 '{' =>
-- 
2.43.0


From a7ddcfc4a2a07a86c6e8b89c23d337c14187ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:33 +0000
Subject: [PATCH 38/44] fix: a block without if or loop in a script ended the
 block around it

---
 src/burn_script/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 223f145..f0eace7 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -125,7 +125,9 @@ impl Parser {
                                 };
                                 tmp.instructions.insert(tmp.instructions.len(), step);
                             },
-                            TokenType::OpenBracket => {},
+                            TokenType::OpenBracket => {
+                                return Err("Unexpected block in script.");
+                            },
                             TokenType::Loop => {
                                 let check = parser_iter.next();
                                 if check.unwrap().ttype != TokenType::OpenBracket {
-- 
2.43.0


From 3d2650ed5dbf01fd0db910fdb0906993940d2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:55 +0000
Subject: [PATCH 39/44] fix: tables, scripts and tests named inf, infinity or
 nan were refused or misread as numbers

---
 src/burn_script/lexer.rs | 2 +-
 src/compile/lexer.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 99e4736..8c115ce 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -27,7 +27,7 @@ impl Lexer {
                 "else" => Token::new(TokenType::Else),
                 _ => {
                     let n = b.parse::<f64>();
-                    if n.is_ok() {
+                    if n.is_ok() && b.contains(|c: char| c.is_ascii_digit()) {
                         Token::with_value(TokenType::NumericLiteral, b)
                     } else {
                         Token::with_value(TokenType::Identifier, b)
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 65ae53b..a834ed3 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -21,7 +21,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             "end" => Ok(Token::new(TokenType::End)),
             _ => {
                 let n = b.parse::<f64>();
-                if n.is_ok() {
+                if n.is_ok() && b.contains(|c: char| c.is_ascii_digit()) {
                     Ok(Token::with_value(TokenType::NumericLiteral, n.unwrap().to_string()))
                 } else if !b.as_bytes()[0].is_ascii_digit() {
                     Ok(Token::with_value(TokenType::Identifier, b.to_string()))
-- 
2.43.0


From eb5b381bc743242199abab389a62e518d79a5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:29 +0000
Subject: [PATCH 40/44] fix: perform-script steps referred to the wrong script
 for numbers over 127

---
 src/decompile/decompiler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 625e5fc..ee9e76c 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -222,7 +222,10 @@ fn decompile_script_steps(bytecode: &[u8], file: &FmpFile) -> Vec<ScriptStep> {
         if let Some(Some(opcode)) = INSTRUCTIONMAP.get(ins[21] as usize) {
             let mut switches: Vec<String> = vec![];
             if *opcode == Instruction::PerformScript {
-                if let Some(script) = file.scripts.get(&(ins[8] as usize)) {
+                /* The number of the script is stored like the index of the step. */
+                let script = ins.get(8..ins[6] as usize + 7)
+                    .and_then(|id| file.scripts.get(&get_path_int(id)));
+                if let Some(script) = script {
                     switches.push(format!("\"{}\"", script.script_name));
                 }
             }
-- 
2.43.0


From 88a12f48425f823a28e78bfa53ecb7fb05041ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:29 +0000
Subject: [PATCH 41/44] fix: occurrences of tables numbered over 255 were
 attributed to another table

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index ee9e76c..4f9d9eb 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -323,7 +323,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             fmp_file.table_occurrences
                                 .entry(occurrence.parse().unwrap())
                                 .or_insert(component::FMComponentTableOccurence::new())
-                                .table_actual = chunk.data.unwrap()[6] as u16;
+                                .table_actual = (get_path_int(&chunk.data.unwrap()[5..7]) - 128) as u16;
                         }
                         Some(16) => {
                             fmp_file.table_occurrences
-- 
2.43.0


From 31b8f57e6953252a8eb19baf000a3ec06bd1b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:02 +0000
Subject: [PATCH 42/44] fix: counts of occurrences, scripts and layouts in a
 compiled file were constant or cut to one byte

---
 src/compile/assembler.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index 8133fc8..379e440 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -35,7 +35,8 @@ impl<'a> Assembler<'a> {
     /* Only used when value is not a known datatype */
     pub fn calc_small_kv_ins(&self, val: &[u8]) -> u8 {
         let code = ((val.len() + 1).div_ceil(2)) as u8;
-        if code > 0x5 {
+        /* There are no short forms for odd lengths above one. */
+        if code > 0x5 || (val.len() > 1 && val.len() % 2 == 1) {
             return 0x6;
         }
 
@@ -125,6 +126,13 @@ impl<'a> Assembler<'a> {
         }
     }
 
+    /* Counts are stored with their length, in the form of directory numbers. */
+    fn emit_count(&mut self, n: usize) {
+        let mut val = put_path_int(n as u32);
+        val.insert(0, val.len() as u8);
+        self.emit_simple_kv(0, &val);
+    }
+
     fn pop_directory(&mut self) {
         self.buffer[self.idx] = 0x40;
         self.idx += 1;
@@ -244,7 +252,8 @@ impl<'a> Assembler<'a> {
     pub fn emit_relationship_data(&mut self) {
         self.push_directory(17);
         self.push_directory(1);
-        self.emit_simple_kv(0, &[3, 208, 0, 9]);
+        let n = self.file.table_occurrences.len();
+        self.emit_simple_kv(0, &[3, 208, (n >> 8) as u8, n as u8]);
         self.push_directory(1);
 
         for to in &self.file.table_occurrences {
@@ -269,7 +278,7 @@ impl<'a> Assembler<'a> {
     pub fn emit_layout_data(&mut self) {
         self.push_directory(4);
         self.push_directory(1);
-        self.emit_simple_kv(0, &[1, self.file.layouts.len() as u8]);
+        self.emit_count(self.file.layouts.len());
         self.push_directory(5);
         self.pop_directory();
         self.pop_directory();
@@ -284,7 +293,7 @@ impl<'a> Assembler<'a> {
     pub fn emit_script_data(&mut self) {
         self.push_directory(17);
         self.push_directory(1);
-        self.emit_simple_kv(0, &[1, self.file.scripts.len() as u8]);
+        self.emit_count(self.file.scripts.len());
 
         self.push_directory(1);
 
-- 
2.43.0


From 6f0fd8a50ca93701e0a13dc43ec6b983556bb960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:22 +0000
Subject: [PATCH 43/44] fix: a number or text was accepted as the second table
 of a relationship

---
 src/compile/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index 89247c0..71cd535 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -67,6 +67,9 @@ impl Parser {
                                     relationship.table1_name = n.text.clone();
                                     parser_iter.next();
                                     let n = parser_iter.next().unwrap();
+                                    if n.ttype != TokenType::Identifier {
+                                        return Err("Expected Identifier for table reference.".to_string());
+                                    }
                                     relationship.table2_name = n.text.clone();
                                 } else {
 
-- 
2.43.0


From 761c2b460f165b35473bbeab727da2f19c6ca6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:22 +0000
Subject: [PATCH 44/44] fix: the quotation mark or brace that ends a text or
 calculation became part of the next word

---
 src/compile/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index a834ed3..8d93e8c 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -42,6 +42,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 list.push(Token { ttype: TokenType::String, text: buffer.to_string()});
                 in_string = false;
                 buffer.clear();
+                c = lex_iter.next().unwrap().1;
+                break;
             }
             buffer.push(c);
             c = lex_iter.next().unwrap().1;
@@ -71,6 +73,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 list.push(Token { ttype: TokenType::Calculation, text: buffer.to_string()});
                 in_calc = false;
                 buffer.clear();
+                c = lex_iter.next().unwrap().1;
+                break;
             }
             buffer.push(c);
             c = lex_iter.next().unwrap().1;
-- 
2.43.0

