From e17ffa90036b150b5f2a8a10f38cb8a56508d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 01/33] fix: keep the last byte of a document that does not end
 with a line break

---
 src/io/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/utils.rs b/src/io/utils.rs
index f5d116b..3316733 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -99,10 +99,10 @@ where
         return Err(FetchLineError);
     }
 
-    // We must drop the '\n' we read_until for sure
+    // We must drop the '\n' we read_until, which the last line might lack
     // And might also have to drop additional whitespace
-    let mut ignore_end = 1;
-    for i in 1..line_buffer.len() {
+    let mut ignore_end = 0;
+    for i in 0..line_buffer.len() {
         if (line_buffer[line_buffer.len() - i - 1] as char).is_whitespace() {
             ignore_end += 1;
         } else {
-- 
2.43.0


From 9ca9de4b159719d37876f39572045b3d24de4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 02/33] fix: report a failing read instead of treating it as
 the end of the document

---
 src/io/gcode.rs                  | 10 +++++-
 src/io/obj.rs                    | 20 ++++++++++--
 src/io/off.rs                    | 20 ++++++++++--
 src/io/ply/iterators_internal.rs | 56 ++++++++++++++++++++------------
 src/io/pts.rs                    | 10 +++++-
 src/io/ptx.rs                    | 22 +++++++++----
 src/io/stl.rs                    |  7 ++--
 src/io/utils.rs                  | 14 +++++---
 src/io/xy.rs                     | 33 +++++++++++--------
 src/io/xyz.rs                    | 33 +++++++++++--------
 10 files changed, 160 insertions(+), 65 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index e4fc1f1..b2ebe89 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -85,7 +85,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(GcodeError::AccessFile).simple());
+                }
+            };
             self.i_line += 1;
 
             if line.len() >= 4 && line[0] == b'G' {
diff --git a/src/io/obj.rs b/src/io/obj.rs
index af7ab3b..f8102e4 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -75,7 +75,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).simple());
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
@@ -141,7 +149,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).simple());
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
diff --git a/src/io/off.rs b/src/io/off.rs
index 1b506af..7e23365 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -82,7 +82,15 @@ where
             return None;
         }
 
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).simple());
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
@@ -235,7 +243,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).simple());
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 82ab84e..8daf74f 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -379,16 +379,23 @@ where
         }
         if self.current < self.header.vertex.count {
             self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-                self.i_line += 1;
-                return Some(
-                    Self::fetch_one(&self.header, line)
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
+            match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => {
+                    self.i_line += 1;
+                    return Some(
+                        Self::fetch_one(&self.header, line)
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
+                    );
+                }
+                Err(FetchLineError::EndReached) => (),
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PlyError::AccessFile).simple());
+                }
             }
         }
 
@@ -451,17 +458,24 @@ where
         }
         if self.current < self.header.face.count {
             self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-                self.i_line += 1;
-                return Some(
-                    collect_index_line(&line)
-                        .ok_or(PlyError::FaceStructure)
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
+            match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => {
+                    self.i_line += 1;
+                    return Some(
+                        collect_index_line(&line)
+                            .ok_or(PlyError::FaceStructure)
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
+                    );
+                }
+                Err(FetchLineError::EndReached) => (),
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PlyError::AccessFile).simple());
+                }
             }
         }
 
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1bec397..9391539 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -101,7 +101,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PtsError::AccessFile).simple());
+                }
+            };
             self.i_line += 1;
 
             if line.is_empty() {
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index e342459..ca30327 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -174,12 +174,19 @@ where
         }
         if self.n_points_to_fetch == 0 {
             let first_line = fetch_line(&mut self.read, &mut self.line_buffer);
-            if first_line.is_err() {
-                self.is_done = true;
-                return None;
+            match first_line {
+                Ok(_) => (),
+                Err(FetchLineError::EndReached) => {
+                    self.is_done = true;
+                    return None;
+                }
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PtxError::AccessFile).simple());
+                }
             }
             self.i_line += 1;
-            // unwrap safe, is_err() checked above
+            // unwrap safe, Err handled above
             match from_ascii(first_line.as_ref().unwrap())
                 .ok_or(PtxError::Columns)
                 .index(self.i_line)
@@ -298,8 +305,11 @@ impl From<ioError> for PtxError {
 }
 
 impl From<FetchLineError> for PtxError {
-    fn from(_error: FetchLineError) -> Self {
-        PtxError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => PtxError::LoadFileEndReached,
+            FetchLineError::AccessFile => PtxError::AccessFile,
+        }
     }
 }
 
diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4f4213..1b7adab 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -732,7 +732,10 @@ impl From<FromBytesError> for StlError {
 }
 
 impl From<FetchLineError> for StlError {
-    fn from(_error: FetchLineError) -> Self {
-        StlError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => StlError::LoadFileEndReached,
+            FetchLineError::AccessFile => StlError::AccessFile,
+        }
     }
 }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 3316733..eb60627 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -96,7 +96,7 @@ where
     line_buffer.clear();
     let n_read = read.read_until(b'\n', line_buffer)?;
     if n_read == 0 {
-        return Err(FetchLineError);
+        return Err(FetchLineError::EndReached);
     }
 
     // We must drop the '\n' we read_until, which the last line might lack
@@ -116,19 +116,25 @@ where
 //------------------------------------------------------------------------------
 
 /// Error type for the fetch_line function
-pub struct FetchLineError;
+pub enum FetchLineError {
+    EndReached,
+    AccessFile,
+}
 
 /// Result type for the fetch_line function
 pub type FetchLineResult<T> = std::result::Result<T, FetchLineError>;
 
 impl fmt::Debug for FetchLineError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "Unable to fetch line")
+        match self {
+            Self::EndReached => write!(f, "Unable to fetch line, end reached"),
+            Self::AccessFile => write!(f, "Unable to fetch line, access failed"),
+        }
     }
 }
 
 impl From<ioError> for FetchLineError {
     fn from(_error: ioError) -> Self {
-        FetchLineError {}
+        FetchLineError::AccessFile
     }
 }
diff --git a/src/io/xy.rs b/src/io/xy.rs
index 4531160..153330a 100644
--- a/src/io/xy.rs
+++ b/src/io/xy.rs
@@ -101,19 +101,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(FetchLineError::EndReached) => {
+                self.is_done = true;
+                None
+            }
+            Err(FetchLineError::AccessFile) => {
+                self.is_done = true;
+                Some(Err(XyError::AccessFile).simple())
+            }
         }
     }
 }
diff --git a/src/io/xyz.rs b/src/io/xyz.rs
index 5399984..50b6841 100644
--- a/src/io/xyz.rs
+++ b/src/io/xyz.rs
@@ -106,19 +106,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(FetchLineError::EndReached) => {
+                self.is_done = true;
+                None
+            }
+            Err(FetchLineError::AccessFile) => {
+                self.is_done = true;
+                Some(Err(XyzError::AccessFile).simple())
+            }
         }
     }
 }
-- 
2.43.0


From e285d48dc3f70325847914a8c974e4930094d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 03/33] fix: write every byte of a binary .ply file when the
 writer accepts only part of it

---
 src/io/ply/save.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/io/ply/save.rs b/src/io/ply/save.rs
index 9b58ae3..e71fe7f 100644
--- a/src/io/ply/save.rs
+++ b/src/io/ply/save.rs
@@ -192,28 +192,28 @@ where
         Precision::P32 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
             }
         }
 
         Precision::P64 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
             }
         }
     }
 
     for i in 0..mesh.num_faces() {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating num_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
@@ -288,12 +288,12 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
 
@@ -301,22 +301,22 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
     }
 
     for i in 0..n_faces {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating n_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
-- 
2.43.0


From 14fccb24338031bc86cfcebff1010e522bfc7487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 04/33] fix: report documents that end before their declared
 content is complete

---
 src/io/off.rs                    | 22 ++++++++++++++++++++--
 src/io/ply/iterators_internal.rs | 10 +++++++---
 src/io/ply/types.rs              |  2 ++
 src/io/pts.rs                    |  9 ++++++++-
 src/io/stl.rs                    | 18 ++++++++++--------
 5 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 7e23365..fd0dfa8 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -141,7 +141,11 @@ where
 
         self.is_done = true;
 
-        None
+        match self.n_vertices {
+            None if self.off_seen => Some(Err(OffError::LoadFileEndReached).simple()),
+            Some(n) if self.n_added < n => Some(Err(OffError::LoadFileEndReached).simple()),
+            _ => None,
+        }
     }
 }
 
@@ -167,6 +171,7 @@ where
     off_seen: bool,
     counts: Option<[usize; 2]>,
     n_vertices_added: usize,
+    n_faces_added: usize,
     phantom_p: PhantomData<P>,
 }
 
@@ -184,6 +189,7 @@ where
             off_seen: false,
             counts: None,
             n_vertices_added: 0,
+            n_faces_added: 0,
             phantom_p: PhantomData,
         }
     }
@@ -285,6 +291,8 @@ where
                         .map(|x| FaceDataReserve::Data(x))
                         .line(self.i_line, line)
                 } else {
+                    self.n_faces_added += 1;
+
                     Self::fetch_face(line)
                         .map(|x| FaceDataReserve::Face(x))
                         .line(self.i_line, line)
@@ -302,7 +310,15 @@ where
 
         self.is_done = true;
 
-        None
+        match self.counts {
+            None if self.off_seen => Some(Err(OffError::LoadFileEndReached).simple()),
+            Some([n_vertices, n_faces])
+                if self.n_vertices_added < n_vertices || self.n_faces_added < n_faces =>
+            {
+                Some(Err(OffError::LoadFileEndReached).simple())
+            }
+            _ => None,
+        }
     }
 }
 
@@ -367,6 +383,7 @@ where
 
 /// Error type for .off file operations
 pub enum OffError {
+    LoadFileEndReached,
     AccessFile,
     InvalidMeshIndices,
     VertexCount,
@@ -383,6 +400,7 @@ type OffResult<T> = std::result::Result<T, OffError>;
 impl fmt::Debug for OffError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
+            Self::LoadFileEndReached => write!(f, "Unexpected reach of .off file end"),
             Self::AccessFile => write!(f, "Unable to access file"),
             Self::VertexCount => write!(f, "Unable to parse vertex count"),
             Self::FaceCount => write!(f, "Unable to parse face count"),
diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 8daf74f..371fb76 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -378,9 +378,9 @@ where
             return None;
         }
         if self.current < self.header.vertex.count {
-            self.current += 1;
             match fetch_line(&mut self.read, &mut self.line_buffer) {
                 Ok(line) => {
+                    self.current += 1;
                     self.i_line += 1;
                     return Some(
                         Self::fetch_one(&self.header, line)
@@ -457,9 +457,9 @@ where
             return None;
         }
         if self.current < self.header.face.count {
-            self.current += 1;
             match fetch_line(&mut self.read, &mut self.line_buffer) {
                 Ok(line) => {
+                    self.current += 1;
                     self.i_line += 1;
                     return Some(
                         collect_index_line(&line)
@@ -481,7 +481,11 @@ where
 
         self.is_done = true;
 
-        None
+        if self.current != self.header.face.count {
+            Some(Err(PlyError::LoadFaceCountIncorrect).simple())
+        } else {
+            None
+        }
     }
 }
 
diff --git a/src/io/ply/types.rs b/src/io/ply/types.rs
index 9cb21e9..c06e2ab 100644
--- a/src/io/ply/types.rs
+++ b/src/io/ply/types.rs
@@ -288,6 +288,7 @@ pub enum PlyError {
     LoadVertexIndexDefinitionNotFound,
     LoadHeaderInvalid,
     LoadVertexCountIncorrect,
+    LoadFaceCountIncorrect,
     AccessFile,
     ColorArrayIncorrectLength,
     VertexElement,
@@ -319,6 +320,7 @@ impl fmt::Debug for PlyError {
             }
             Self::LoadHeaderInvalid => write!(f, "Header of .ply seems to be invalid"),
             Self::LoadVertexCountIncorrect => write!(f, "Vertex count of .ply not found"),
+            Self::LoadFaceCountIncorrect => write!(f, "Face count of .ply not found"),
             Self::ColorArrayIncorrectLength => {
                 write!(f, "The provided color array has an incorrect length")
             }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 9391539..b604361 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -171,7 +171,12 @@ where
 
         self.is_done = true;
 
-        None
+        match self.n_vertices {
+            Some(n) if self.n_vertices_added < n => {
+                Some(Err(PtsError::LoadFileEndReached).simple())
+            }
+            _ => None,
+        }
     }
 }
 
@@ -205,6 +210,7 @@ where
 
 /// Error type for .pts file operations
 pub enum PtsError {
+    LoadFileEndReached,
     AccessFile,
     VertexCount,
     Vertex,
@@ -217,6 +223,7 @@ type PtsResult<T> = std::result::Result<T, PtsError>;
 impl fmt::Debug for PtsError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
+            Self::LoadFileEndReached => write!(f, "Unexpected reach of .pts file end"),
             Self::AccessFile => write!(f, "Unable to access file"),
             Self::VertexCount => write!(f, "Unable to parse vertex count"),
             Self::Vertex => write!(f, "Unable to parse vertex"),
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 1b7adab..3a6fdc6 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -308,10 +308,8 @@ where
         }
 
         match read_stl_facet(&mut self.read, &mut self.line_buffer, &mut self.i_line) {
-            Ok([a, b, c, n]) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
-            Err(WithLineInfo::None(StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Index(_, StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Line(_, _, StlError::LoadFileEndReached)) => {
+            Ok(Some([a, b, c, n])) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
+            Ok(None) => {
                 self.is_done = true;
                 return None;
             }
@@ -514,22 +512,26 @@ where
 
 //------------------------------------------------------------------------------
 
+/// Reads the next facet, None if there are no further facets
 fn read_stl_facet<P, R>(
     read: &mut R,
     line_buffer: &mut Vec<u8>,
     i_line: &mut usize,
-) -> StlIOResult<[P; 4]>
+) -> StlIOResult<Option<[P; 4]>>
 where
     P: IsBuildable3D,
     R: BufRead,
 {
     let mut line: &[u8];
 
-    line = trim_start(fetch_line(read, line_buffer).index(*i_line)?);
+    line = match fetch_line(read, line_buffer) {
+        Err(FetchLineError::EndReached) => return Ok(None),
+        x => trim_start(x.index(*i_line)?),
+    };
     *i_line += 1;
 
     if line.starts_with(b"endsolid") {
-        return Err(StlError::LoadFileEndReached).line(*i_line, line);
+        return Ok(None);
     }
 
     if !line.starts_with(b"facet") {
@@ -580,7 +582,7 @@ where
         return Err(StlError::EndFacet).line(*i_line, line);
     }
 
-    Ok([a, b, c, n])
+    Ok(Some([a, b, c, n]))
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 99b87b3608aa945382055952eb10dfd9d7ed8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 05/33] fix: load all points of all lines and passes of a .psl
 file

---
 src/io/psl.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/io/psl.rs b/src/io/psl.rs
index e7f7fdd..c4a0b94 100644
--- a/src/io/psl.rs
+++ b/src/io/psl.rs
@@ -72,31 +72,19 @@ where
     }
     #[inline(always)]
     fn fetch_counts(&mut self) -> PslResult<()> {
-        self.n_lines_left = if self.n_lines_left == 0 && self.n_passes_left > 0 {
-            fetch_pass_header_return_n_lines(&mut self.read)?
-        } else {
-            0
-        };
-        self.n_point_left = if self.n_point_left == 0 && self.n_lines_left > 0 {
-            fetch_line_header_return_n_points(&mut self.read)?
-        } else {
-            0
-        };
-        Ok(())
-    }
-    #[inline(always)]
-    fn reduce_count(&mut self) {
-        if self.n_point_left > 0 {
-            self.n_point_left -= 1
-        } else {
+        // passes contain lines contain points, any of them might be empty
+        while self.n_point_left <= 0 {
             if self.n_lines_left > 0 {
-                self.n_lines_left -= 1
+                self.n_lines_left -= 1;
+                self.n_point_left = fetch_line_header_return_n_points(&mut self.read)?;
+            } else if self.n_passes_left > 0 {
+                self.n_passes_left -= 1;
+                self.n_lines_left = fetch_pass_header_return_n_lines(&mut self.read)?;
             } else {
-                if self.n_passes_left > 0 {
-                    self.n_passes_left -= 1
-                }
+                break;
             }
         }
+        Ok(())
     }
 }
 
@@ -125,12 +113,12 @@ where
             return Some(Err(e));
         }
 
-        if self.n_point_left == 0 {
+        if self.n_point_left <= 0 {
             self.is_done = true;
             return None;
         }
 
-        self.reduce_count();
+        self.n_point_left -= 1;
 
         return Some(fetch_point(&mut self.read).map_err(|e| {
             self.is_done = true;
-- 
2.43.0


From 02d27db217be07fa1608f2a74396f964fcdde120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 06/33] fix: report corrupt .obj, .ptx, .las and .ply content
 instead of panicking

---
 src/io/las/types.rs  | 7 +++++++
 src/io/obj.rs        | 7 +++++--
 src/io/ply/header.rs | 3 +++
 src/io/ptx.rs        | 5 ++++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 8966e55..1038f96 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -64,6 +64,10 @@ impl TryFrom<HeaderRaw> for Header {
             return Err(LasError::UnknownPointFormat);
         }
 
+        if (x.point_record_length as usize) < PointData::SIZE {
+            return Err(LasError::BinaryData);
+        }
+
         Ok(Header {
             offset_point_data: x.offset_point_data,
             point_record_length: x.point_record_length,
@@ -133,6 +137,9 @@ pub struct PointData {
 }
 
 impl PointData {
+    /// Size of the data within each point record
+    pub const SIZE: usize = 12;
+
     pub fn from_bytes(buffer: [u8; 12]) -> Self {
         // safe unwraps since buffer size is enforced at compile time
         Self {
diff --git a/src/io/obj.rs b/src/io/obj.rs
index f8102e4..7f6d2e8 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -322,7 +322,10 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
-    //@todo could fail if 0 in file
     //obj indexing starts at 1
-    Ok([a - 1, b - 1, c - 1])
+    Ok([
+        a.checked_sub(1).ok_or(ObjError::Face)?,
+        b.checked_sub(1).ok_or(ObjError::Face)?,
+        c.checked_sub(1).ok_or(ObjError::Face)?,
+    ])
 }
diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 08fbd6b..ef2b5e3 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -144,6 +144,9 @@ where
                         .next()
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
+                    if n_types_found == 3 && (id == b"x" || id == b"y" || id == b"z") {
+                        return Err(PlyError::InvalidVertexDimensionDefinition).line(*i_line, line);
+                    }
                     if id == b"x" {
                         opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index ca30327..507f919 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -155,7 +155,10 @@ where
 
         self.must_transform = self.transformation != Matrix4::identity();
 
-        self.n_points_to_fetch = rows * columns;
+        self.n_points_to_fetch = rows
+            .checked_mul(columns)
+            .ok_or(PtxError::Rows)
+            .index(self.i_line)?;
 
         Ok(())
     }
-- 
2.43.0


From cf8187c8f05eb95b8f3d2f360533ec889c2b484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 07/33] fix: do not allocate memory for counts a document
 merely declares

---
 src/io/las/load.rs |  4 ++--
 src/io/off.rs      |  6 +++---
 src/io/ply/load.rs | 14 +++++++-------
 src/io/pts.rs      |  2 +-
 src/io/ptx.rs      |  2 +-
 src/io/stl.rs      |  3 +++
 src/io/utils.rs    |  6 ++++++
 7 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index da06a24..d4dbfa5 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -33,7 +33,7 @@ use std::{
     marker::PhantomData,
 };
 
-use super::super::{from_bytes::*, types::*};
+use super::super::{from_bytes::*, types::*, utils::*};
 
 //------------------------------------------------------------------------------
 
@@ -149,7 +149,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/off.rs b/src/io/off.rs
index fd0dfa8..7382d7d 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -348,8 +348,8 @@ where
                     .simple()?;
             }
             FaceDataReserve::ReserveDataFaces(n_vertices, n_faces) => {
-                mesh.reserve_vertices(n_vertices);
-                mesh.reserve_faces(n_faces);
+                mesh.reserve_vertices(limit_reserve(n_vertices));
+                mesh.reserve_faces(limit_reserve(n_faces));
             }
             FaceDataReserve::Data(x) => {
                 mesh.add_vertex(x);
@@ -371,7 +371,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index 82ae4b6..a9d2006 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -26,7 +26,7 @@ use crate::*;
 
 use std::io::{BufRead, Read};
 
-use super::super::{byte_reader::*, types::*};
+use super::super::{byte_reader::*, types::*, utils::*};
 
 use super::{header::*, iterators::*, iterators_internal::*, types::*};
 
@@ -49,8 +49,8 @@ where
 
     match load_header(&mut read, &mut line_buffer, &mut i_line)? {
         Header::Full(header) => {
-            mesh.reserve_vertices(header.vertex.count);
-            mesh.reserve_faces(header.face.count);
+            mesh.reserve_vertices(limit_reserve(header.vertex.count));
+            mesh.reserve_faces(limit_reserve(header.face.count));
 
             match header.format {
                 Format::Ascii => load_mesh_ascii(&mut read, mesh, header, &mut i_line),
@@ -65,7 +65,7 @@ where
             Ok(MeshOrPoints::Mesh)
         }
         Header::Partial(header) => {
-            ip.reserve(header.vertex.count);
+            ip.reserve(limit_reserve(header.vertex.count));
 
             match header.format {
                 Format::Ascii => load_points_ascii(&mut read, ip, header, i_line),
@@ -97,8 +97,8 @@ where
                 mesh.add_vertex(p);
             }
             FaceDataReserve::ReserveDataFaces(n_d, n_f) => {
-                mesh.reserve_vertices(n_d);
-                mesh.reserve_faces(n_f);
+                mesh.reserve_vertices(limit_reserve(n_d));
+                mesh.reserve_faces(limit_reserve(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
                 mesh.try_add_connection(VId(a), VId(b), VId(c))
@@ -124,7 +124,7 @@ where
 
     for rp in iterator {
         match rp? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index b604361..4645350 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -198,7 +198,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 507f919..57bd708 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -244,7 +244,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 3a6fdc6..176b087 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -348,6 +348,7 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
+                let n = limit_reserve(n);
                 mesh.reserve_vertices(3 * n);
                 mesh.reserve_faces(n);
             }
@@ -382,6 +383,7 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
+                let n = limit_reserve(n);
                 //Can't reserve vertices since not sure how many are unique
                 mesh.reserve_faces(n);
                 face_normals.reserve(n);
@@ -441,6 +443,7 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
+                let n = limit_reserve(n);
                 ip.reserve(3 * n);
                 face_normals.reserve(n);
             }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index eb60627..844e432 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -30,6 +30,12 @@ use std::{
 
 //------------------------------------------------------------------------------
 
+/// Limits the number of elements to reserve upfront, since counts found within a document can't be trusted
+#[inline(always)]
+pub fn limit_reserve(n: usize) -> usize {
+    n.min(65_536)
+}
+
 /// Skip number of bytes
 #[inline(always)]
 pub fn skip_bytes<R>(read: &mut R, n_bytes: usize) -> std::io::Result<()>
-- 
2.43.0


From c937652026a7b2d2010c7d874432aa6a1b67aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 08/33] fix: stop iterating .ptx and .ply content after an
 error

---
 src/io/ply/iterators_internal.rs | 22 ++++++++++++++++++++--
 src/io/ptx.rs                    |  6 +++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 371fb76..7028889 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -42,6 +42,7 @@ where
     R: BufRead,
 {
     header: FullHeader,
+    is_done: bool,
     p_iter: Option<PlyAsciiPointsIterator<P, R>>,
     f_iter: Option<PlyAsciiFacesIterator<R>>,
 }
@@ -55,6 +56,7 @@ where
         let partial_header: PartialHeader = header.clone().into();
         Self {
             header,
+            is_done: false,
             p_iter: Some(PlyAsciiPointsIterator::new(read, partial_header, i_line)),
             f_iter: None,
         }
@@ -69,9 +71,16 @@ where
     type Item = PlyIOResult<io::types::FaceData<P>>;
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.is_done {
+            return None;
+        }
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(x) => {
+                    // no faces without all of the points
+                    self.is_done = x.is_err();
+                    return Some(x.map(|x| io::types::FaceData::Data(x)));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -110,6 +119,7 @@ where
     BR: IsByteReader,
 {
     header: FullHeader,
+    is_done: bool,
     p_iter: Option<PlyBinaryPointsIterator<BR, P, R>>,
     f_iter: Option<PlyBinaryFacesIterator<BR, R>>,
 }
@@ -124,6 +134,7 @@ where
         let partial_header: PartialHeader = header.clone().into();
         Self {
             header,
+            is_done: false,
             p_iter: Some(PlyBinaryPointsIterator::new(read, partial_header)),
             f_iter: None,
         }
@@ -139,9 +150,16 @@ where
     type Item = PlyResult<io::types::FaceData<P>>;
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
+        if self.is_done {
+            return None;
+        }
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(x) => {
+                    // no faces without all of the points
+                    self.is_done = x.is_err();
+                    return Some(x.map(|x| io::types::FaceData::Data(x)));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 57bd708..8633acb 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -209,7 +209,11 @@ where
                     Some(
                         Self::fetch_one(line, self.must_transform, &self.transformation)
                             .map(|x| DataReserve::Data(x))
-                            .line(self.i_line, line),
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
                     )
                 }
                 Err(e) => {
-- 
2.43.0


From 11dc48dda9176d22e2d40783810800d251f653db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 09/33] fix: read .ply coordinates with the type they were
 declared with

---
 src/io/ply/header.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index ef2b5e3..521cc5e 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -50,9 +50,8 @@ where
     let mut opt_n_vertices: Option<usize> = None;
     let mut opt_n_faces: Option<usize> = None;
 
-    let mut opt_fst_type = None;
-    let mut opt_snd_type = None;
-    let mut opt_third_type = None;
+    // in order of occurrence
+    let mut opt_types = [None, None, None];
     let mut n_types_found = 0;
     let mut vertex_before = BytesWords::default();
     let mut vertex_between_first_snd = BytesWords::default();
@@ -148,17 +147,20 @@ where
                         return Err(PlyError::InvalidVertexDimensionDefinition).line(*i_line, line);
                     }
                     if id == b"x" {
-                        opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        opt_types[n_types_found] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::X;
                         i_vertex_order += 1;
                     } else if id == b"y" {
-                        opt_snd_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        opt_types[n_types_found] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::Y;
                         i_vertex_order += 1;
                     } else if id == b"z" {
-                        opt_third_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        opt_types[n_types_found] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::Z;
                         i_vertex_order += 1;
@@ -224,20 +226,19 @@ where
         }
 
         if line == b"end_header" && ply_found {
-            if let (Some(format), Some(n_vertices), Some(x_type), Some(y_type), Some(z_type)) = (
-                opt_format,
-                opt_n_vertices,
-                opt_fst_type,
-                opt_snd_type,
-                opt_third_type,
-            ) {
+            if let (
+                Some(format),
+                Some(n_vertices),
+                [Some(fst_type), Some(snd_type), Some(third_type)],
+            ) = (opt_format, opt_n_vertices, opt_types)
+            {
                 let vertex_data = VertexData {
                     count: n_vertices,
                     format: VertexFormat {
                         order: VertexOrder::try_from(vertex_order).line(*i_line, line)?,
-                        first: x_type,
-                        snd: y_type,
-                        third: z_type,
+                        first: fst_type,
+                        snd: snd_type,
+                        third: third_type,
                         before: vertex_before,
                         between_first_snd: vertex_between_first_snd,
                         between_snd_third: vertex_between_snd_third,
-- 
2.43.0


From 59ce9276bdf0d93767b112dc342a56cbccb8fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 10/33] fix: skip properties declared in front of the vertex
 indices of an ASCII .ply face

---
 src/io/ply/iterators_internal.rs | 2 +-
 src/io/ply/utils.rs              | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 7028889..0121efd 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -480,7 +480,7 @@ where
                     self.current += 1;
                     self.i_line += 1;
                     return Some(
-                        collect_index_line(&line)
+                        collect_index_line(&line, self.header.face.format.before.words)
                             .ok_or(PlyError::FaceStructure)
                             .line(self.i_line, line)
                             .map_err(|e| {
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index dc00574..12c2544 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,8 +34,9 @@ use std::io::Read;
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8]) -> Option<[usize; 3]> {
+pub fn collect_index_line(line: &[u8], n_words_before: usize) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
+    skip_n(&mut words, n_words_before);
     if words.next()? != b"3" {
         return None;
     }
-- 
2.43.0


From 24879ba1da4693506807808fb6ea22d916063efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 11/33] fix: assign .ply coordinates declared in order yzx or
 zxy correctly

---
 src/io/ply/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index 12c2544..a1aa4e8 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -91,8 +91,8 @@ where
         VertexOrder::Xyz => P::new(fst, snd, third),
         VertexOrder::Xzy => P::new(fst, third, snd),
         VertexOrder::Yxz => P::new(snd, fst, third),
-        VertexOrder::Yzx => P::new(snd, third, fst),
-        VertexOrder::Zxy => P::new(third, fst, snd),
+        VertexOrder::Yzx => P::new(third, fst, snd),
+        VertexOrder::Zxy => P::new(snd, third, fst),
         VertexOrder::Zyx => P::new(third, snd, fst),
     }
 }
-- 
2.43.0


From 134fc4ecfd56f7eaa60bab48e70417b271eae876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 12/33] fix: hash 0.0 and -0.0 identically since they are equal

---
 src/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 22db621..2ebb9fd 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -73,6 +73,8 @@ pub fn hash_f64<H>(x: f64, state: &mut H)
 where
     H: Hasher,
 {
+    // 0.0 and -0.0 are equal, so they must have the same hash
+    let x = if x == 0.0 { 0.0 } else { x };
     x.to_bits().hash(state);
 }
 
-- 
2.43.0


From d508e3a53bfe206ae1e5f203467f63588065c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 13/33] fix: save degenerate faces as ASCII .stl instead of
 panicking

---
 src/io/stl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 176b087..f7a1021 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -63,7 +63,7 @@ where
 
     for i in 0..mesh.num_faces() {
         let [v1, v2, v3] = mesh.face_vertices(FId(i)).unwrap(); // safe since iterating num_faces
-        let n = mesh.face_normal(FId(i)).unwrap(); // safe since iterating num_faces
+        let n = mesh.face_normal(FId(i)).unwrap_or(Norm3D::norm_z()); // fails for degenerate faces
         let buffer = "facet normal ".to_string()
             + &str_exp(&n)
             + "\n"
-- 
2.43.0


From cc5889e46aa4ef0db2277cfe360b8523a8026c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 14/33] fix: let FilterAnyRandomAccessible remove what passes
 none of its filters

---
 src/filter_any_random_accessible.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 601593c..8258e83 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -40,7 +40,7 @@ where
     RA: IsRandomAccessible<T>,
 {
     fn filter(&self, ra: &RA, view: &mut View) {
-        let view_initial = view.clone();
+        let view_initial = std::mem::replace(view, View::Restricted(Default::default()));
         for f in &self.filters {
             let mut view_now = view_initial.clone();
             f.filter(&ra, &mut view_now);
-- 
2.43.0


From 9c3221e7e010dbbbe4c84f02eb08aca6039ee504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 15/33] fix: keep points on cell boundaries and nearly
 coincident points in OcTree

---
 src/oc_tree.rs | 164 ++++++++++++++++++-------------------------------
 1 file changed, 61 insertions(+), 103 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 5ce694e..67e6421 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -54,17 +54,24 @@ where
     }
 
     fn build(&mut self, pc: PointCloud3D<P>) -> Result<()> {
-        self.bb = pc
+        let bb = pc
             .bounding_box_maybe()
             .ok_or(ErrorKind::BoundingBoxMissing)?;
+        let (min, max) = (bb.min_p(), bb.max_p());
+        if !is_finite_3d(&min) || !is_finite_3d(&max) {
+            return Err(ErrorKind::NumberInWrongRange);
+        }
         let mut unique_data = Vec::new();
         let mut set = HashSet::new();
         for p in pc.data {
-            set.insert(p);
+            if is_finite_3d(&p) {
+                set.insert(p);
+            }
         }
 
         unique_data.extend(set.into_iter());
-        self.root = Some(OcNode::new(&self.bb, unique_data)?);
+        self.root = Some(OcNode::new(&min, &max, unique_data));
+        self.bb = bb;
 
         Ok(())
     }
@@ -78,7 +85,7 @@ where
     fn collect(&self, maxdepth: i8) -> PointCloud3D<P> {
         let mut result = PointCloud3D::new();
         if let Some(ref node) = self.root {
-            node.collect(0, maxdepth, &mut result);
+            node.collect(0, maxdepth.into(), &mut result);
         }
         result
     }
@@ -110,17 +117,6 @@ where
     nnn: Option<Box<OcNode<P>>>,
 }
 
-enum Direction {
-    PPP,
-    PPN,
-    PNP,
-    PNN,
-    NPP,
-    NPN,
-    NNP,
-    NNN,
-}
-
 /*
 /// Calculates the direction of one point to another in terms of an enum
 pub fn calc_direction<P>(reference: &Point3D, p: &Point3D) -> Direction where
@@ -190,10 +186,10 @@ impl<P> OcNode<P>
 where
     P: IsBuildable3D + Clone,
 {
-    /// Creates a new OcNode from a min and max position and the data it should hold
-    pub fn new(bb: &BoundingBox3D, pc: Vec<P>) -> Result<OcNode<P>> {
+    /// Creates a new OcNode from a min and max position and the distinct data it should hold
+    pub fn new(min: &Point3D, max: &Point3D, pc: Vec<P>) -> OcNode<P> {
         if pc.len() == 1 {
-            return Ok(OcNode::Leaf(pc[0].clone()));
+            return OcNode::Leaf(pc[0].clone());
         };
         let mut pcppp = Vec::new();
         let mut pcppn = Vec::new();
@@ -204,103 +200,56 @@ where
         let mut pcnnp = Vec::new();
         let mut pcnnn = Vec::new();
 
-        let bbppp = Self::calc_sub_min_max(Direction::PPP, bb)?;
-        let bbppn = Self::calc_sub_min_max(Direction::PPN, bb)?;
-        let bbpnp = Self::calc_sub_min_max(Direction::PNP, bb)?;
-        let bbpnn = Self::calc_sub_min_max(Direction::PNN, bb)?;
-        let bbnpp = Self::calc_sub_min_max(Direction::NPP, bb)?;
-        let bbnpn = Self::calc_sub_min_max(Direction::NPN, bb)?;
-        let bbnnp = Self::calc_sub_min_max(Direction::NNP, bb)?;
-        let bbnnn = Self::calc_sub_min_max(Direction::NNN, bb)?;
+        let (nx, ny, nz) = (min.x(), min.y(), min.z());
+        let (px, py, pz) = (max.x(), max.y(), max.z());
+        let mx = Self::middle(nx, px);
+        let my = Self::middle(ny, py);
+        let mz = Self::middle(nz, pz);
 
         for p in pc {
-            if bbppp.contains(&p) {
-                pcppp.push(p);
-            } else if bbppn.contains(&p) {
-                pcppn.push(p);
-            } else if bbpnp.contains(&p) {
-                pcpnp.push(p);
-            } else if bbpnn.contains(&p) {
-                pcpnn.push(p);
-            } else if bbnpp.contains(&p) {
-                pcnpp.push(p);
-            } else if bbnpn.contains(&p) {
-                pcnpn.push(p);
-            } else if bbnnp.contains(&p) {
-                pcnnp.push(p);
-            } else if bbnnn.contains(&p) {
-                pcnnn.push(p);
+            match (p.x() >= mx, p.y() >= my, p.z() >= mz) {
+                (true, true, true) => pcppp.push(p),
+                (true, true, false) => pcppn.push(p),
+                (true, false, true) => pcpnp.push(p),
+                (true, false, false) => pcpnn.push(p),
+                (false, true, true) => pcnpp.push(p),
+                (false, true, false) => pcnpn.push(p),
+                (false, false, true) => pcnnp.push(p),
+                (false, false, false) => pcnnn.push(p),
             }
         }
 
-        let ppp = Self::build_subnode(pcppp, &bbppp);
-        let ppn = Self::build_subnode(pcppn, &bbppn);
-        let pnp = Self::build_subnode(pcpnp, &bbpnp);
-        let pnn = Self::build_subnode(pcpnn, &bbpnn);
-        let npp = Self::build_subnode(pcnpp, &bbnpp);
-        let npn = Self::build_subnode(pcnpn, &bbnpn);
-        let nnp = Self::build_subnode(pcnnp, &bbnnp);
-        let nnn = Self::build_subnode(pcnnn, &bbnnn);
+        let sub = |pc, nx, ny, nz, px, py, pz| {
+            Self::build_subnode(pc, &Point3D::new(nx, ny, nz), &Point3D::new(px, py, pz))
+        };
 
         let result: Internal<P> = Internal {
-            ppp,
-            ppn,
-            pnp,
-            pnn,
-            npp,
-            npn,
-            nnp,
-            nnn,
+            ppp: sub(pcppp, mx, my, mz, px, py, pz),
+            ppn: sub(pcppn, mx, my, nz, px, py, mz),
+            pnp: sub(pcpnp, mx, ny, mz, px, my, pz),
+            pnn: sub(pcpnn, mx, ny, nz, px, my, mz),
+            npp: sub(pcnpp, nx, my, mz, mx, py, pz),
+            npn: sub(pcnpn, nx, my, nz, mx, py, mz),
+            nnp: sub(pcnnp, nx, ny, mz, mx, my, pz),
+            nnn: sub(pcnnn, nx, ny, nz, mx, my, mz),
         };
 
-        Ok(OcNode::Node(result))
+        OcNode::Node(result)
     }
-    /// Calculates the min and max values of sub nodes of an OcTree
-    fn calc_sub_min_max(dir: Direction, bb: &BoundingBox3D) -> Result<BoundingBox3D> {
-        let (min, max) = (bb.min_p(), bb.max_p());
-        let middle = center_3d(&min, &max);
-
-        let px = max.x();
-        let py = max.y();
-        let pz = max.z();
-        let nx = min.x();
-        let ny = min.y();
-        let nz = min.z();
-        let mx = middle.x();
-        let my = middle.y();
-        let mz = middle.z();
-
-        match dir {
-            Direction::PPP => BoundingBox3D::new(&middle, &max),
-            Direction::PPN => {
-                BoundingBox3D::new(&Point3D::new(mx, my, nz), &Point3D::new(px, py, mz))
-            }
-            Direction::PNP => {
-                BoundingBox3D::new(&Point3D::new(mx, ny, mz), &Point3D::new(px, my, pz))
-            }
-            Direction::PNN => {
-                BoundingBox3D::new(&Point3D::new(mx, ny, nz), &Point3D::new(px, my, mz))
-            }
-            Direction::NPP => {
-                BoundingBox3D::new(&Point3D::new(nx, my, mz), &Point3D::new(mx, py, pz))
-            }
-            Direction::NPN => {
-                BoundingBox3D::new(&Point3D::new(nx, my, nz), &Point3D::new(mx, py, mz))
-            }
-            Direction::NNP => {
-                BoundingBox3D::new(&Point3D::new(nx, ny, mz), &Point3D::new(mx, my, pz))
-            }
-            Direction::NNN => BoundingBox3D::new(&min.clone(), &middle),
+    /// Calculates where to split a range, the result is always > min if there's any such value within the range
+    fn middle(min: f64, max: f64) -> f64 {
+        let m = min / 2.0 + max / 2.0;
+        if m > min && m <= max {
+            m
+        } else {
+            max
         }
     }
     /// Creates a child node
-    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Option<Box<OcNode<P>>> {
+    fn build_subnode(pc: Vec<P>, min: &Point3D, max: &Point3D) -> Option<Box<OcNode<P>>> {
         match pc.len() {
             0 => None,
-            _ => match OcNode::new(bb, pc) {
-                Err(_) => None,
-                Ok(x) => Some(Box::new(x)),
-            },
+            _ => Some(Box::new(OcNode::new(min, max, pc))),
         }
     }
 }
@@ -310,7 +259,7 @@ where
     P: IsBuildable3D + Clone + Default,
 {
     /// Collects all points within the node until a certain depth
-    pub fn collect(&self, depth: i8, maxdepth: i8, pc: &mut PointCloud3D<P>) {
+    pub fn collect(&self, depth: i32, maxdepth: i32, pc: &mut PointCloud3D<P>) {
         let only_collect_centers = maxdepth >= 0 && depth > maxdepth;
         match self {
             &OcNode::Leaf(ref p) => pc.push(p.clone()),
@@ -347,8 +296,8 @@ where
     fn collect_center_or_all(
         n: &OcNode<P>,
         only_collect_centers: bool,
-        depth: i8,
-        maxdepth: i8,
+        depth: i32,
+        maxdepth: i32,
         pc: &mut PointCloud3D<P>,
     ) {
         if only_collect_centers {
@@ -364,3 +313,12 @@ where
         }
     }
 }
+
+//------------------------------------------------------------------------------
+
+fn is_finite_3d<P>(p: &P) -> bool
+where
+    P: Is3D,
+{
+    p.x().is_finite() && p.y().is_finite() && p.z().is_finite()
+}
-- 
2.43.0


From 6e659da99270611a2f35a3824b3047dfbe2d73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 16/33] fix: report vectors of infinite or undefined length as
 not normalizable instead of panicking

---
 src/norm_3d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/norm_3d.rs b/src/norm_3d.rs
index 0aa5971..453f99d 100644
--- a/src/norm_3d.rs
+++ b/src/norm_3d.rs
@@ -145,8 +145,8 @@ impl IsNormalized3D for Norm3D {
     where
         P: Is3D,
     {
-        let l = *p.abs();
-        if l == 0.0 {
+        let l = (p.x().powi(2) + p.y().powi(2) + p.z().powi(2)).sqrt();
+        if l == 0.0 || !l.is_finite() {
             return Err(ErrorKind::NormalizeVecWithoutLength);
         }
 
-- 
2.43.0


From 785964193a428dcf85b8af9e07c94f0acf0aeded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 17/33] fix: refuse a vertex line of an ASCII .ply file that
 lacks declared properties

---
 src/io/ply/iterators_internal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 0121efd..000b176 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -373,7 +373,10 @@ where
             .and_then(|w| from_ascii(w))
             .ok_or(PlyError::InvalidVertex)?;
 
-        // no need to skip 'after' since we're done with this line anyway
+        // not needed, but a line lacking them was likely cut off within a number
+        for _ in 0..header.vertex.format.after.words {
+            words.next().ok_or(PlyError::InvalidVertex)?;
+        }
 
         Ok(point_with_order(
             first,
-- 
2.43.0


From b7866ede4f15f71f5641eb24eaa89a989ad6c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 18/33] fix: leave the view intact when a filter combined in
 FilterAny/AllRandomAccessible panics

---
 src/filter_all_random_accessible.rs | 7 +++++--
 src/filter_any_random_accessible.rs | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/filter_all_random_accessible.rs b/src/filter_all_random_accessible.rs
index d657770..6d67f67 100644
--- a/src/filter_all_random_accessible.rs
+++ b/src/filter_all_random_accessible.rs
@@ -39,9 +39,12 @@ impl<RA, T> IsFilterRandomAccessible<RA, T> for FilterAllRandomAccessible<RA, T>
 where
     RA: IsRandomAccessible<T>,
 {
-    fn filter(&self, ra: &RA, mut view: &mut View) {
+    fn filter(&self, ra: &RA, view: &mut View) {
+        // the view is only replaced once every filter is done, so it stays intact if one of them panics
+        let mut view_result = view.clone();
         for f in &self.filters {
-            f.filter(&ra, &mut view)
+            f.filter(&ra, &mut view_result)
         }
+        *view = view_result;
     }
 }
diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 8258e83..cc6e95a 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -40,11 +40,13 @@ where
     RA: IsRandomAccessible<T>,
 {
     fn filter(&self, ra: &RA, view: &mut View) {
-        let view_initial = std::mem::replace(view, View::Restricted(Default::default()));
+        // the view is only replaced once every filter is done, so it stays intact if one of them panics
+        let mut view_result = View::Restricted(Default::default());
         for f in &self.filters {
-            let mut view_now = view_initial.clone();
+            let mut view_now = view.clone();
             f.filter(&ra, &mut view_now);
-            view.union(view_now);
+            view_result.union(view_now);
         }
+        *view = view_result;
     }
 }
-- 
2.43.0


From 9f3a15e0587644c081034a72ab4963ffd461c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 19/33] fix: never leave a partial point in PointCloud3Df32
 when a coordinate accessor panics

---
 src/point_cloud_3d_f32.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 290b541..881602d 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -67,9 +67,9 @@ where
     P: IsBuildable3D,
 {
     fn push(&mut self, p: P) {
-        self.data.push(p.x() as f32);
-        self.data.push(p.y() as f32);
-        self.data.push(p.z() as f32);
+        // all coordinates are read first, so a panicking accessor can't leave a partial point behind
+        let coordinates = [p.x() as f32, p.y() as f32, p.z() as f32];
+        self.data.extend_from_slice(&coordinates);
     }
     fn reserve(&mut self, n: usize) {
         self.data.reserve(3 * n)
@@ -89,9 +89,9 @@ where
     }
 
     fn push_d(&mut self, p: P) {
-        self.data.push(p.x() as f32);
-        self.data.push(p.y() as f32);
-        self.data.push(p.z() as f32);
+        // all coordinates are read first, so a panicking accessor can't leave a partial point behind
+        let coordinates = [p.x() as f32, p.y() as f32, p.z() as f32];
+        self.data.extend_from_slice(&coordinates);
     }
 
     fn get_d(&self, index: usize) -> Option<P> {
@@ -103,9 +103,8 @@ where
     }
 
     fn set_d(&mut self, index: usize, p: P) {
-        self.data[3 * index + 0] = p.x() as f32;
-        self.data[3 * index + 1] = p.y() as f32;
-        self.data[3 * index + 2] = p.z() as f32;
+        let coordinates = [p.x() as f32, p.y() as f32, p.z() as f32];
+        self.data[3 * index..3 * index + 3].copy_from_slice(&coordinates);
     }
 }
 
-- 
2.43.0


From 1c2641071e0a7f8fb0c2e93744d612c28417b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 20/33] fix: Point2D / Point3D keep their coordinates if
 reading those of another point fails half way

---
 src/point_2d.rs | 10 ++++++----
 src/point_3d.rs | 13 +++++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/point_2d.rs b/src/point_2d.rs
index f4fd1a1..f28eaf4 100644
--- a/src/point_2d.rs
+++ b/src/point_2d.rs
@@ -263,8 +263,10 @@ impl IsBuildableND for Point2D {
             return Err(ErrorKind::DimensionsDontMatch);
         }
 
-        self.x = other.position_nd(0).ok_or(ErrorKind::IncorrectDimension)?;
-        self.y = other.position_nd(1).ok_or(ErrorKind::IncorrectDimension)?;
+        // all coordinates are read first, so a failing accessor can't leave a half changed point behind
+        let x = other.position_nd(0).ok_or(ErrorKind::IncorrectDimension)?;
+        let y = other.position_nd(1).ok_or(ErrorKind::IncorrectDimension)?;
+        *self = Point2D { x, y };
         Ok(())
     }
 }
@@ -280,8 +282,8 @@ impl IsBuildable2D for Point2D {
     where
         P: Is2D,
     {
-        self.x = other.x();
-        self.y = other.y();
+        let (x, y) = (other.x(), other.y());
+        *self = Point2D { x, y };
     }
 }
 
diff --git a/src/point_3d.rs b/src/point_3d.rs
index 95b0488..b461aa9 100644
--- a/src/point_3d.rs
+++ b/src/point_3d.rs
@@ -284,9 +284,11 @@ impl IsBuildableND for Point3D {
             return Err(ErrorKind::DimensionsDontMatch);
         }
 
-        self.x = other.position_nd(0).ok_or(ErrorKind::IncorrectDimension)?;
-        self.y = other.position_nd(1).ok_or(ErrorKind::IncorrectDimension)?;
-        self.z = other.position_nd(2).ok_or(ErrorKind::IncorrectDimension)?;
+        // all coordinates are read first, so a failing accessor can't leave a half changed point behind
+        let x = other.position_nd(0).ok_or(ErrorKind::IncorrectDimension)?;
+        let y = other.position_nd(1).ok_or(ErrorKind::IncorrectDimension)?;
+        let z = other.position_nd(2).ok_or(ErrorKind::IncorrectDimension)?;
+        *self = Point3D { x, y, z };
         Ok(())
     }
 }
@@ -302,9 +304,8 @@ impl IsBuildable3D for Point3D {
     where
         P: Is3D,
     {
-        self.x = other.x();
-        self.y = other.y();
-        self.z = other.z();
+        let (x, y, z) = (other.x(), other.y(), other.z());
+        *self = Point3D { x, y, z };
     }
 }
 
-- 
2.43.0


From ea9b73eb89bb0261861d38cd53a73dfe256edef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 21/33] fix: yield nothing for face and point indices beyond
 all others instead of letting them wrap around

---
 src/mesh_3d.rs            | 8 ++++----
 src/point_cloud_3d_f32.rs | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mesh_3d.rs b/src/mesh_3d.rs
index 77565a0..b782ea3 100644
--- a/src/mesh_3d.rs
+++ b/src/mesh_3d.rs
@@ -56,14 +56,14 @@ where
     }
 
     fn face_vertex_ids(&self, faceid: FId) -> Option<Face3> {
+        if faceid.0 >= self.num_faces() {
+            return None;
+        }
+
         let id1 = 3 * faceid.0 + 0;
         let id2 = 3 * faceid.0 + 1;
         let id3 = 3 * faceid.0 + 2;
 
-        if id3 >= self.topology.len() {
-            return None;
-        }
-
         Some(Face3::new(
             VId(self.topology.get(id1)),
             VId(self.topology.get(id2)),
diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 881602d..5fd719e 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -95,6 +95,10 @@ where
     }
 
     fn get_d(&self, index: usize) -> Option<P> {
+        if index >= self.len_d() {
+            return None;
+        }
+
         Some(P::new(
             *self.data.get(3 * index + 0)? as f64,
             *self.data.get(3 * index + 1)? as f64,
-- 
2.43.0


From f2b778ff3db9dd8b9fa3e97347be1454d058acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 22/33] fix: name the edge between the same vertices as an
 edge's twin, not the one after it

---
 src/half_edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 8d7dafb..45995e2 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -112,7 +112,7 @@ where
             for originating_id in cache.iter() {
                 let _ = result.next(*originating_id).map(|candidate_id| {
                     if result.tails.get(candidate_id.0) == result.tails.get(i) {
-                        result.twins[i] = Some(candidate_id)
+                        result.twins[i] = Some(*originating_id)
                     }
                 });
             }
-- 
2.43.0


From 7d4fc421b143d2ead770bae1c7e6a897976da404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 23/33] fix: Sphere / FilterSphere have the z of their center,
 not its y

---
 src/filter_sphere.rs | 2 +-
 src/sphere.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sphere.rs b/src/filter_sphere.rs
index c994523..4510843 100644
--- a/src/filter_sphere.rs
+++ b/src/filter_sphere.rs
@@ -62,7 +62,7 @@ impl Is3D for FilterSphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.sphere.y()
+        self.sphere.z()
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 7db25d6..834976f 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -73,7 +73,7 @@ impl Is3D for Sphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.center.y()
+        self.center.z()
     }
 }
 
-- 
2.43.0


From 2b55dc1480d66815be3850dcf580d7f6c059fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 24/33] fix: read headers of .las files older than version 1.4,
 which are shorter than 375 bytes

---
 src/io/las/load.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index d4dbfa5..6bbf164 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -164,7 +164,11 @@ where
     R: Read,
 {
     let mut buffer = [0u8; 375];
-    read.read_exact(&mut buffer)?;
+    // what follows only exists since version 1.4, nothing but the number of records is required of it
+    read.read_exact(&mut buffer[0..227])?;
+    if buffer[24] >= 1 && buffer[25] >= 4 {
+        read.read_exact(&mut buffer[227..375])?;
+    }
 
     Ok(HeaderRaw {
         file_signature: array_from_bytes_le!(u8, 4, &buffer[0..4])?, //4 4
-- 
2.43.0


From e6ffb1be052d94751652d7a4567e402de575dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 25/33] fix: recognise the gcode commands G90 and G91 without
 anything behind them

---
 src/io/gcode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index b2ebe89..f47ba1f 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -96,7 +96,8 @@ where
             };
             self.i_line += 1;
 
-            if line.len() >= 4 && line[0] == b'G' {
+            // white space at the end of lines is already dropped
+            if line.len() >= 3 && line[0] == b'G' {
                 if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
                     // Move according to absolute/relative
                     let mut any_changed = false;
@@ -138,7 +139,7 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && line[3] == b' ' {
+                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ') {
                     // G9x
                     if line[2] == b'0' {
                         // G90
@@ -150,7 +151,7 @@ where
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-                        match command(&line[4..])
+                        match command(&line[3..])
                             .ok_or(GcodeError::Command)
                             .line(self.i_line, line)
                         {
-- 
2.43.0


From 81d58cdd4187f405c36bbefd021893a74ccf6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 26/33] fix: reject .ply documents whose faces precede their
 vertices instead of mistaking one for the other

---
 src/io/ply/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 521cc5e..bbb57ce 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -95,6 +95,10 @@ where
         match opt_n_vertices {
             None => {
                 if line.starts_with(b"element vertex") {
+                    // data follows in the order of the elements, faces in front of vertices aren't supported
+                    if opt_n_faces.map_or(false, |n| n > 0) {
+                        return Err(PlyError::LoadHeaderInvalid).line(*i_line, line);
+                    }
                     read_state = HeaderReadState::Vertex;
                     let mut words = to_words_skip_empty(line);
                     opt_n_vertices = Some(
-- 
2.43.0


From 31514b860cc4ad822c344d8d56ffabedee441b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 27/33] fix: don't skip .obj vertices and faces with tabs
 behind or white space before their keyword

---
 src/io/obj.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 7f6d2e8..596711c 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -86,7 +86,7 @@ where
             };
             self.i_line += 1;
 
-            if line.starts_with(b"v ") {
+            if has_keyword(line, b'v') {
                 return Some(fetch_vertex(line).line(self.i_line, line).map_err(|e| {
                     self.is_done = true;
                     e
@@ -160,7 +160,7 @@ where
             };
             self.i_line += 1;
 
-            if line.starts_with(b"v ") {
+            if has_keyword(line, b'v') {
                 return Some(
                     fetch_vertex(line)
                         .map(|x| FaceData::Data(x))
@@ -170,7 +170,7 @@ where
                             e
                         }),
                 );
-            } else if line.starts_with(b"f ") {
+            } else if has_keyword(line, b'f') {
                 return Some(
                     fetch_face(line)
                         .map(|x| FaceData::Face(x))
@@ -278,6 +278,15 @@ impl From<ioError> for ObjError {
 
 //------------------------------------------------------------------------------
 
+/// Whether the line starts with the keyword, other white space than a single blank is possible as well
+#[inline(always)]
+fn has_keyword(line: &[u8], keyword: u8) -> bool {
+    match trim_start(line) {
+        [x, b' ', ..] | [x, b'\t', ..] => *x == keyword,
+        _ => false,
+    }
+}
+
 #[inline(always)]
 fn fetch_vertex<P>(line: &[u8]) -> ObjResult<P>
 where
-- 
2.43.0


From 81f9e86fae9530300adee92333cb56931d7ef830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 28/33] fix: report .obj faces with more than three vertices
 instead of dropping the remaining ones

---
 src/io/obj.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 596711c..64755b5 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -331,6 +331,12 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
+    // only triangles are supported, others must not lose their remaining vertices
+    match words.next() {
+        None | Some([b'#', ..]) => (),
+        Some(_) => return Err(ObjError::Face),
+    }
+
     //obj indexing starts at 1
     Ok([
         a.checked_sub(1).ok_or(ObjError::Face)?,
-- 
2.43.0


From 2ec8507e502a2993ee80d651d3d3a1bc941eb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 29/33] fix: don't mistake other .ply list properties of faces
 for their vertex indices

---
 src/io/ply/header.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index bbb57ce..fbda21c 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -62,6 +62,7 @@ where
     let mut opt_face_index_type = None;
     let mut face_before = BytesWords::default();
     let mut face_after = BytesWords::default();
+    let mut faces_supported = true;
 
     while let Ok(line) = fetch_line(read, line_buffer) {
         *i_line += 1;
@@ -184,7 +185,10 @@ where
                 }
                 HeaderReadState::Face => {
                     if line.starts_with(b"property list") {
-                        if contains(line, b"vertex_indices") || contains(line, b"vertex_index") {
+                        if opt_face_count_type.is_none()
+                            && (contains(line, b"vertex_indices")
+                                || contains(line, b"vertex_index"))
+                        {
                             let mut words = to_words_skip_empty(line);
                             skip_n(&mut words, 2); // skip "property" and "list"
 
@@ -203,6 +207,12 @@ where
 
                             opt_face_count_type = Some(t_count);
                             opt_face_index_type = Some(t_index);
+                        } else {
+                            // other lists can't be skipped, unless they are at the end of a line
+                            match (opt_face_count_type, opt_format) {
+                                (Some(_), Some(Format::Ascii)) => (),
+                                _ => faces_supported = false,
+                            }
                         }
                     } else {
                         let mut words = to_words_skip_empty(line);
@@ -250,9 +260,12 @@ where
                     },
                 };
 
-                if let (Some(n_faces), Some(face_count_type), Some(face_index_type)) =
-                    (opt_n_faces, opt_face_count_type, opt_face_index_type)
-                {
+                if let (true, Some(n_faces), Some(face_count_type), Some(face_index_type)) = (
+                    faces_supported,
+                    opt_n_faces,
+                    opt_face_count_type,
+                    opt_face_index_type,
+                ) {
                     return Ok(Header::Full(FullHeader {
                         format,
                         vertex: vertex_data,
-- 
2.43.0


From 6762f3aecfac082ca8aa91982cb06942c86ad910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 30/33] fix: read the counts of .off documents which follow on
 the line of the keyword

---
 src/io/off.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 7382d7d..92efbb7 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -93,17 +93,19 @@ where
             };
             self.i_line += 1;
 
+            let mut content = line;
             if !self.off_seen && line.starts_with(b"OFF") {
                 self.off_seen = true;
-                continue;
+                // the counts might be on the same line
+                content = trim_start(&line[3..]);
             }
 
-            if line.is_empty() || line.starts_with(b"#") {
+            if content.is_empty() || content.starts_with(b"#") {
                 continue;
             }
 
             if self.n_vertices.is_none() {
-                let mut words = to_words_skip_empty(line);
+                let mut words = to_words_skip_empty(content);
                 match words
                     .next()
                     .and_then(|word| from_ascii(word))
@@ -260,17 +262,19 @@ where
             };
             self.i_line += 1;
 
+            let mut content = line;
             if !self.off_seen && line.starts_with(b"OFF") {
                 self.off_seen = true;
-                continue;
+                // the counts might be on the same line
+                content = trim_start(&line[3..]);
             }
 
-            if line.is_empty() || line.starts_with(b"#") {
+            if content.is_empty() || content.starts_with(b"#") {
                 continue;
             }
 
             if self.counts.is_none() {
-                match Self::fetch_counts(line) {
+                match Self::fetch_counts(content) {
                     Ok(counts) => {
                         self.counts = Some(counts);
                         return Some(Ok(FaceDataReserve::ReserveDataFaces(counts[0], counts[1])));
-- 
2.43.0


From 7faff3c7469826b191ae3a04a67f70ba4eac1740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 31/33] fix: report binary .stl files starting with 'solid'
 instead of loading them as ASCII without facets

---
 src/io/stl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index f7a1021..fd8c24f 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -305,6 +305,12 @@ where
                 return Some(Err(e.into()));
             }
             self.i_line += 1;
+
+            // binary files might start with 'solid' as well, but always contain zeros
+            if self.line_buffer.contains(&0) {
+                self.is_done = true;
+                return Some(Err(StlError::BinaryData).index(self.i_line));
+            }
         }
 
         match read_stl_facet(&mut self.read, &mut self.line_buffer, &mut self.i_line) {
-- 
2.43.0


From db27f4e0b3c0acab290d836912b49d2b2dac192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 32/33] fix: don't skip gcode commands with tabs behind or
 white space before them

---
 src/io/gcode.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index f47ba1f..d9ec04f 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -97,11 +97,14 @@ where
             self.i_line += 1;
 
             // white space at the end of lines is already dropped
-            if line.len() >= 3 && line[0] == b'G' {
-                if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
+            let content = trim_start(line);
+            if content.len() >= 3 && content[0] == b'G' {
+                if is_blank(content[2])
+                    && (content[1] == b'1' || content[1] == b'2' || content[1] == b'3')
+                {
                     // Move according to absolute/relative
                     let mut any_changed = false;
-                    match command(&line[3..])
+                    match command(&content[3..])
                         .ok_or(GcodeError::Command)
                         .line(self.i_line, line)
                     {
@@ -139,19 +142,19 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ') {
+                } else if content[1] == b'9' && (content.len() == 3 || is_blank(content[3])) {
                     // G9x
-                    if line[2] == b'0' {
+                    if content[2] == b'0' {
                         // G90
                         self.ra = RelativeAbsolute::Absolute;
-                    } else if line[2] == b'1' {
+                    } else if content[2] == b'1' {
                         // G91
                         self.ra = RelativeAbsolute::Relative;
-                    } else if line[2] == b'2' {
+                    } else if content[2] == b'2' {
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-                        match command(&line[3..])
+                        match command(&content[3..])
                             .ok_or(GcodeError::Command)
                             .line(self.i_line, line)
                         {
@@ -217,12 +220,16 @@ where
 
 //------------------------------------------------------------------------------
 
+fn is_blank(x: u8) -> bool {
+    x == b' ' || x == b'\t'
+}
+
 fn command(line: &[u8]) -> Option<[Option<f64>; 3]> {
     let mut n_found = 0;
     let mut x = None;
     let mut y = None;
     let mut z = None;
-    let words = line.split(|x| *x == b' ');
+    let words = line.split(|x| is_blank(*x));
 
     for word in words {
         if n_found == 3 {
-- 
2.43.0


From f6d18a394da9c5def192fc55a01bb6717419102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:54 +0000
Subject: [PATCH 33/33] fix: refuse a face line of an ASCII .ply file that
 lacks declared properties

---
 src/io/ply/iterators_internal.rs | 18 +++++++++++-------
 src/io/ply/utils.rs              | 11 ++++++++++-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 000b176..1746f13 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -483,13 +483,17 @@ where
                     self.current += 1;
                     self.i_line += 1;
                     return Some(
-                        collect_index_line(&line, self.header.face.format.before.words)
-                            .ok_or(PlyError::FaceStructure)
-                            .line(self.i_line, line)
-                            .map_err(|e| {
-                                self.is_done = true;
-                                e
-                            }),
+                        collect_index_line(
+                            &line,
+                            self.header.face.format.before.words,
+                            self.header.face.format.after.words,
+                        )
+                        .ok_or(PlyError::FaceStructure)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
                     );
                 }
                 Err(FetchLineError::EndReached) => (),
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index a1aa4e8..7bc0a5b 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,7 +34,11 @@ use std::io::Read;
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8], n_words_before: usize) -> Option<[usize; 3]> {
+pub fn collect_index_line(
+    line: &[u8],
+    n_words_before: usize,
+    n_words_after: usize,
+) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
     skip_n(&mut words, n_words_before);
     if words.next()? != b"3" {
@@ -45,6 +49,11 @@ pub fn collect_index_line(line: &[u8], n_words_before: usize) -> Option<[usize;
     let b = from_ascii(words.next()?)?;
     let c = from_ascii(words.next()?)?;
 
+    // not needed, but a line lacking them was likely cut off within an index
+    for _ in 0..n_words_after {
+        words.next()?;
+    }
+
     Some([a, b, c])
 }
 
-- 
2.43.0

