From 549f5d05cd43c098725f25cb9121f9c3fe421f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 01/60] fix: memory storage keeps its own deep copy of metadata

---
 src/valori/storage/memory.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 433825e..586d197 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -2,6 +2,7 @@
 In-memory storage backend for the valori vector database.
 """
 
+from copy import deepcopy
 from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -48,12 +49,16 @@ class MemoryStorage(StorageBackend):
 
         try:
             with self.lock:
+                # Copy both parts before storing either of them
+                vector = vector.copy()
+                metadata = deepcopy(metadata)
+
                 # Store vector
-                self.vectors[id] = vector.copy()
+                self.vectors[id] = vector
 
                 # Store metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)  # Remove if exists
 
@@ -69,7 +74,7 @@ class MemoryStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
-    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
+    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector from memory."""
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
@@ -79,7 +84,7 @@ class MemoryStorage(StorageBackend):
                 return None
 
             vector = self.vectors[id].copy()
-            metadata = self.metadata.get(id)
+            metadata = deepcopy(self.metadata.get(id))
             return vector, metadata
 
     def delete_vector(self, id: str) -> bool:
@@ -119,12 +124,16 @@ class MemoryStorage(StorageBackend):
                 if id not in self.vectors:
                     return False
 
+                # Copy both parts before storing either of them
+                vector = vector.copy()
+                metadata = deepcopy(metadata)
+
                 # Update vector
-                self.vectors[id] = vector.copy()
+                self.vectors[id] = vector
 
                 # Update metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)
 
-- 
2.43.0


From b18f657ab30cab85d5aa63f3a827755a8f0dc668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 02/60] fix: memory usage statistics cope with text that has no
 UTF-8 form

---
 src/valori/storage/memory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 586d197..0abfd2d 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -67,7 +67,7 @@ class MemoryStorage(StorageBackend):
                 self._memory_usage = sum(
                     vector.nbytes for vector in self.vectors.values()
                 ) + sum(
-                    len(str(meta).encode("utf-8")) for meta in self.metadata.values()
+                    len(str(meta).encode("utf-8", "replace")) for meta in self.metadata.values()
                 )
 
                 return True
@@ -103,7 +103,7 @@ class MemoryStorage(StorageBackend):
                     self._memory_usage = sum(
                         vector.nbytes for vector in self.vectors.values()
                     ) + sum(
-                        len(str(meta).encode("utf-8"))
+                        len(str(meta).encode("utf-8", "replace"))
                         for meta in self.metadata.values()
                     )
 
@@ -141,7 +141,7 @@ class MemoryStorage(StorageBackend):
                 self._memory_usage = sum(
                     vector.nbytes for vector in self.vectors.values()
                 ) + sum(
-                    len(str(meta).encode("utf-8")) for meta in self.metadata.values()
+                    len(str(meta).encode("utf-8", "replace")) for meta in self.metadata.values()
                 )
 
                 return True
-- 
2.43.0


From 339843616f2b50d2a8353357930e7bfa90a48656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 03/60] fix: disk storage maps different ids to different files
 and lists the ids as stored

---
 src/valori/storage/disk.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2b6b0c1..ac66c37 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -6,6 +6,7 @@ import os
 import pickle
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
+from urllib.parse import quote, unquote
 
 import numpy as np
 
@@ -78,7 +79,7 @@ class DiskStorage(StorageBackend):
         except Exception as e:
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
-    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
+    def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
         """Retrieve a vector from disk."""
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
@@ -174,7 +175,9 @@ class DiskStorage(StorageBackend):
 
         try:
             vector_files = list(self.vectors_dir.glob("*.npy"))
-            vector_ids = [f.stem for f in vector_files]
+            vector_ids = [
+                unquote(f.stem, errors="surrogatepass") for f in vector_files
+            ]
 
             if limit is not None:
                 vector_ids = vector_ids[:limit]
@@ -219,6 +222,11 @@ class DiskStorage(StorageBackend):
 
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
-        # Replace invalid characters with underscores
-        safe_id = "".join(c if c.isalnum() or c in "._-" else "_" for c in id)
+        # Percent-encode invalid characters, so that different IDs never share a file
+        safe_id = "".join(
+            c
+            if c.isalnum() or c in "._-"
+            else quote(c, safe="", errors="surrogatepass")
+            for c in id
+        )
         return safe_id
-- 
2.43.0


From 8bea11eda12e5ac86acec04836110df8ee9e2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 04/60] fix: disk storage writes a record's vector and metadata
 in one atomic step

---
 src/valori/storage/disk.py | 66 +++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index ac66c37..0c9aca1 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -58,20 +58,8 @@ class DiskStorage(StorageBackend):
             # Sanitize ID for filesystem
             safe_id = self._sanitize_id(id)
 
-            # Store vector
-            vector_path = self.vectors_dir / f"{safe_id}.npy"
-            np.save(vector_path, vector)
-
-            # Store metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file if exists
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Store vector and metadata
+            self._write_record(safe_id, vector, metadata)
 
             self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
             return True
@@ -92,9 +80,13 @@ class DiskStorage(StorageBackend):
             if not vector_path.exists():
                 return None
 
-            vector = np.load(vector_path)
+            # Load metadata, which follows the vector
+            with open(vector_path, "rb") as f:
+                vector = np.load(f)
+                if f.peek(1):
+                    return vector, pickle.load(f)
 
-            # Load metadata
+            # Records written by earlier versions have a separate metadata file
             metadata = None
             metadata_path = self.metadata_dir / f"{safe_id}.pkl"
             if metadata_path.exists():
@@ -120,16 +112,14 @@ class DiskStorage(StorageBackend):
             if vector_path.exists():
                 vector_path.unlink()
                 vector_deleted = True
+                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
 
             # Delete metadata file
             metadata_path = self.metadata_dir / f"{safe_id}.pkl"
             if metadata_path.exists():
                 metadata_path.unlink()
 
-            if vector_deleted:
-                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
-                return True
-            return False
+            return vector_deleted
 
         except Exception as e:
             raise StorageError(f"Failed to delete vector {id}: {str(e)}")
@@ -149,19 +139,8 @@ class DiskStorage(StorageBackend):
             if not vector_path.exists():
                 return False
 
-            # Update vector
-            np.save(vector_path, vector)
-
-            # Update metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Update vector and metadata
+            self._write_record(safe_id, vector, metadata)
 
             return True
 
@@ -220,6 +199,27 @@ class DiskStorage(StorageBackend):
         """Close the disk storage backend."""
         self._initialized = False
 
+    def _write_record(
+        self, safe_id: str, vector: np.ndarray, metadata: Optional[Dict]
+    ) -> None:
+        """
+        Write vector and metadata into the record's file in one atomic step.
+
+        Both are written to a temporary file that then replaces the record's
+        file, so a failure or a crash never leaves a partly written record.
+        """
+        vector_path = self.vectors_dir / f"{safe_id}.npy"
+        new_path = self.vectors_dir / f"{safe_id}.tmp"
+
+        try:
+            with open(new_path, "wb") as f:
+                np.save(f, vector, allow_pickle=False)
+                pickle.dump(metadata, f)
+            os.replace(new_path, vector_path)
+        except Exception:
+            new_path.unlink(missing_ok=True)
+            raise
+
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
         # Percent-encode invalid characters, so that different IDs never share a file
-- 
2.43.0


From 1544e2109b006eea1c818b30281e160b74a90d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 05/60] fix: hybrid storage respects a memory limit of zero and
 never keeps a stale copy in memory

---
 src/valori/storage/hybrid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 473cb7b..c166658 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -59,11 +59,14 @@ class HybridStorage(StorageBackend):
 
         try:
             with self.lock:
+                # Memory must not keep an older version if the disk write fails
+                self.memory_storage.delete_vector(id)
+
                 # Always store in disk for persistence
                 disk_success = self.disk_storage.store_vector(id, vector, metadata)
 
                 # Store in memory if we have space
-                if disk_success:
+                if disk_success and self.memory_limit > 0:
                     memory_stats = self.memory_storage.get_stats()
                     current_count = memory_stats.get("vector_count", 0)
 
@@ -93,7 +96,7 @@ class HybridStorage(StorageBackend):
 
                 # Fall back to disk
                 result = self.disk_storage.retrieve_vector(id)
-                if result is not None:
+                if result is not None and self.memory_limit > 0:
                     # Promote to memory if we have space
                     vector, metadata = result
                     memory_stats = self.memory_storage.get_stats()
-- 
2.43.0


From 6083f3631c0cfb986984497f71b4e96ddac27dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 06/60] fix: hybrid storage lists and counts under its lock

---
 src/valori/storage/hybrid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index c166658..4cd35cc 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -156,15 +156,17 @@ class HybridStorage(StorageBackend):
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
 
-        return self.disk_storage.list_vectors(limit)
+        with self.lock:
+            return self.disk_storage.list_vectors(limit)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get hybrid storage statistics."""
         if not self._initialized:
             return {"status": "not_initialized"}
 
-        memory_stats = self.memory_storage.get_stats()
-        disk_stats = self.disk_storage.get_stats()
+        with self.lock:
+            memory_stats = self.memory_storage.get_stats()
+            disk_stats = self.disk_storage.get_stats()
 
         return {
             "backend_type": "hybrid",
-- 
2.43.0


From 26832e238b59b2981d48a481061743ad46cb1707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 07/60] fix: initializing an index again starts from the
 storage contents, not from old caches

---
 src/valori/indices/flat.py | 1 +
 src/valori/indices/hnsw.py | 5 ++++-
 src/valori/indices/ivf.py  | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 94af9ce..3b85675 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -40,6 +40,7 @@ class FlatIndex(Index):
             sb = storage_backend
             existing_ids = sb.list_vectors()
             self.vector_ids = existing_ids
+            self.vector_cache.clear()
             self._vector_count = len(self.vector_ids)
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize flat index: {str(e)}")
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e42f079..7fb88f8 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -45,8 +45,11 @@ class HNSWIndex(Index):
         self.storage_backend = storage_backend
         self._initialized = True
 
-        # Initialize level 0
+        # Start from an empty graph with level 0
         self.levels = [{}]
+        self.vectors.clear()
+        self.max_level = 0
+        self._vector_count = 0
 
         # Load existing vectors if any
         try:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index d93643f..c801238 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -47,6 +47,10 @@ class IVFIndex(Index):
             sb = storage_backend
             existing_ids = sb.list_vectors()
             self.vector_ids = existing_ids
+            self.vectors_cache.clear()
+            self.clusters.clear()
+            self.centroids = None
+            self._trained = False
             self._vector_count = len(self.vector_ids)
 
             # If we have enough vectors, retrain the index
-- 
2.43.0


From e5ca2cc8714ea1d8d52f4e8ff4287c4a2cd53c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 08/60] fix: distances of integer vectors are computed without
 overflow

---
 src/valori/indices/hnsw.py | 4 ++++
 src/valori/indices/ivf.py  | 4 ++++
 src/valori/indices/lsh.py  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 7fb88f8..3c4729d 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -322,6 +322,10 @@ class HNSWIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer types would overflow
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
+
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index c801238..2adb03c 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -399,6 +399,10 @@ class IVFIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer types would overflow
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
+
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 2f21dc0..88a0efc 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -376,6 +376,10 @@ class LSHIndex(Index):
 
     def _compute_distance(self, vector1: np.ndarray, vector2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer types would overflow
+        vector1 = np.asarray(vector1, dtype=np.float64)
+        vector2 = np.asarray(vector2, dtype=np.float64)
+
         if self.metric == "cosine":
             # Cosine similarity
             dot_product = np.dot(vector1, vector2)
-- 
2.43.0


From aadcd5f4ee8874a2945368cf0efe2ef0a8458015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 09/60] fix: flat, graph and inverted-file indexes reject
 unusable vectors and undo failed inserts

---
 src/valori/indices/base.py | 38 ++++++++++++++++++++++++++++++++-
 src/valori/indices/flat.py | 20 ++++++++++++------
 src/valori/indices/hnsw.py | 28 ++++++++++++++++++-------
 src/valori/indices/ivf.py  | 43 +++++++++++++++++++++++++++++++-------
 4 files changed, 106 insertions(+), 23 deletions(-)

diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 92fe8dd..6b64309 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -3,10 +3,11 @@ Base index interface for the valori vector database.
 """
 
 from abc import ABC, abstractmethod
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, Iterable, List, Optional
 
 import numpy as np
 
+from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
 
 
@@ -28,6 +29,41 @@ class Index(ABC):
         """Check if the index is initialized."""
         return self._initialized
 
+    def _check_vectors(self, vectors: np.ndarray, live_ids: Iterable[str]) -> None:
+        """
+        Reject vectors that cannot be compared with the stored ones.
+
+        Args:
+            vectors: 2D array of vectors
+            live_ids: IDs of the stored vectors
+        """
+        if len(vectors) == 0:
+            return
+        if vectors.shape[1] == 0:
+            raise ValoriIndexError("Vectors must not be empty")
+        if vectors.dtype.kind not in "biuf":
+            raise ValoriIndexError("Vectors must be real numbers")
+        if not np.all(np.isfinite(vectors)):
+            raise ValoriIndexError("Vectors contain NaN or infinite values")
+
+        for vector_id in live_ids:
+            record = self.storage_backend.retrieve_vector(vector_id)
+            if record is not None:
+                if record[0].shape != vectors.shape[1:]:
+                    raise ValoriIndexError(
+                        f"Vector dimension mismatch: expected {record[0].shape[0]}, "
+                        f"got {vectors.shape[1]}"
+                    )
+                break
+
+    def _discard(self, ids: List[str]) -> None:
+        """Take back the part of a failed insert that has already been stored."""
+        for vector_id in ids:
+            try:
+                self.delete([vector_id])
+            except ValoriIndexError:
+                pass
+
     @abstractmethod
     def initialize(self, storage_backend: StorageBackend) -> None:
         """
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 3b85675..cc259c0 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -55,13 +55,15 @@ class FlatIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
-        try:
-            inserted_ids = []
+        inserted_ids = []
 
+        try:
             sb = self.storage_backend
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            self._check_vectors(vectors, self.vector_ids)
+
             for i, vector in enumerate(vectors):
                 # Generate unique ID
                 vector_id = str(uuid.uuid4())
@@ -71,19 +73,21 @@ class FlatIndex(Index):
                     metadata[i] if metadata and i < len(metadata) else None
                 )
 
+                inserted_ids.append(vector_id)
+
                 # Store in backend
-                sb.store_vector(vector_id, vector, vector_metadata)
+                if not sb.store_vector(vector_id, vector, vector_metadata):
+                    raise ValoriIndexError("Vector could not be stored")
 
                 # Add to index
                 self.vector_ids.append(vector_id)
                 self.vector_cache[vector_id] = vector.copy()
 
-                inserted_ids.append(vector_id)
-
             self._vector_count = len(self.vector_ids)
             return inserted_ids
 
         except Exception as e:
+            self._discard(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -203,6 +207,10 @@ class FlatIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector[None], (i for i in self.vector_ids if i != id))
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
@@ -222,7 +230,7 @@ class FlatIndex(Index):
         return {
             "index_type": "flat",
             "metric": self.metric,
-            "vector_count": self._vector_count,
+            "vector_count": len(self.vector_ids),
             "cache_size": len(self.vector_cache),
             "initialized": self._initialized,
         }
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 3c4729d..29422bf 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -73,8 +73,14 @@ class HNSWIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids = []
+
         try:
-            inserted_ids = []
+            sb = self.storage_backend
+            if sb is None:
+                raise ValoriIndexError("Index storage backend not configured")
+
+            self._check_vectors(vectors, self.vectors)
 
             for i, vector in enumerate(vectors):
                 # Generate unique ID
@@ -85,20 +91,20 @@ class HNSWIndex(Index):
                     metadata[i] if metadata and i < len(metadata) else None
                 )
 
+                inserted_ids.append(vector_id)
+
                 # Store in backend
-                sb = self.storage_backend
-                if sb is None:
-                    raise ValoriIndexError("Index storage backend not configured")
-                sb.store_vector(vector_id, vector, vector_metadata)
+                if not sb.store_vector(vector_id, vector, vector_metadata):
+                    raise ValoriIndexError("Vector could not be stored")
 
-                # Insert into HNSW graph
+            # Insert into HNSW graph
+            for vector_id, vector in zip(inserted_ids, vectors):
                 self._insert_vector_internal(vector_id, vector)
 
-                inserted_ids.append(vector_id)
-
             return inserted_ids
 
         except Exception as e:
+            self._discard(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -113,6 +119,8 @@ class HNSWIndex(Index):
             if not self.vectors:
                 return []
 
+            self._check_vectors(query_vector[None], self.vectors)
+
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
@@ -224,6 +232,10 @@ class HNSWIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector[None], (i for i in self.vectors if i != id))
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 2adb03c..b153813 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -3,7 +3,7 @@ IVF (Inverted File) index implementation for the Vectara vector database.
 """
 
 import uuid
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, Iterable, List, Optional
 
 import numpy as np
 from sklearn.cluster import KMeans
@@ -69,8 +69,14 @@ class IVFIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids = []
+
         try:
-            inserted_ids = []
+            sb = self.storage_backend
+            if sb is None:
+                raise ValoriIndexError("Index storage backend not configured")
+
+            self._check_vectors(vectors, self.vector_ids)
 
             for i, vector in enumerate(vectors):
                 # Generate unique ID
@@ -81,16 +87,15 @@ class IVFIndex(Index):
                     metadata[i] if metadata and i < len(metadata) else None
                 )
 
+                inserted_ids.append(vector_id)
+
                 # Store in backend
-                sb = self.storage_backend
-                if sb is None:
-                    raise ValoriIndexError("Index storage backend not configured")
-                sb.store_vector(vector_id, vector, vector_metadata)
+                if not sb.store_vector(vector_id, vector, vector_metadata):
+                    raise ValoriIndexError("Vector could not be stored")
 
                 # Add to index
                 self.vector_ids.append(vector_id)
                 self.vectors_cache[vector_id] = vector.copy()
-                inserted_ids.append(vector_id)
 
             self._vector_count = len(self.vector_ids)
 
@@ -105,6 +110,7 @@ class IVFIndex(Index):
             return inserted_ids
 
         except Exception as e:
+            self._discard(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -119,6 +125,8 @@ class IVFIndex(Index):
             if not self.vector_ids:
                 return []
 
+            self._check_vectors(query_vector[None], self.vector_ids)
+
             # If not trained, fall back to brute force
             if not self._trained:
                 return self._brute_force_search(query_vector, k)
@@ -210,6 +218,12 @@ class IVFIndex(Index):
                     if vector_id in vector_list:
                         vector_list.remove(vector_id)
 
+            # The clusters say nothing about the vectors of a new collection
+            if not self.vector_ids:
+                self.clusters.clear()
+                self.centroids = None
+                self._trained = False
+
             self._vector_count = len(self.vector_ids)
             return success
 
@@ -228,6 +242,10 @@ class IVFIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector[None], (i for i in self.vector_ids if i != id))
+
             # Update in storage
             if not sb.update_vector(id, vector, metadata):
                 return False
@@ -258,7 +276,7 @@ class IVFIndex(Index):
             "metric": self.metric,
             "n_clusters": self.n_clusters,
             "n_probes": self.n_probes,
-            "vector_count": self._vector_count,
+            "vector_count": len(self.vector_ids),
             "trained": self._trained,
             "cluster_stats": cluster_stats,
             "cache_size": len(self.vectors_cache),
@@ -275,6 +293,15 @@ class IVFIndex(Index):
         self._trained = False
         self._initialized = False
 
+    def _check_vectors(self, vectors: np.ndarray, live_ids: Iterable[str]) -> None:
+        """Reject vectors that cannot be compared with the stored ones."""
+        super()._check_vectors(vectors, live_ids)
+        if self._trained and vectors.shape[1:] != self.centroids.shape[1:]:
+            raise ValoriIndexError(
+                f"Vector dimension mismatch: expected {self.centroids.shape[1]}, "
+                f"got {vectors.shape[1]}"
+            )
+
     def _train_index(self) -> None:
         """Train the IVF index by clustering existing vectors."""
         if len(self.vector_ids) < self.n_clusters:
-- 
2.43.0


From 775c7c36c0b035bb6846cc2202e2ab4350926e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 10/60] fix: graph index searches follow all links, repeat no
 result and never come back empty

---
 src/valori/indices/hnsw.py | 93 ++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 29422bf..1c84d75 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -124,51 +124,42 @@ class HNSWIndex(Index):
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
-            # Start from top level
+            # Start from the highest level that still has nodes
             current_level = min(self.max_level, len(self.levels) - 1)
-            candidates = []
-
-            # Find entry point at highest level
-            if current_level >= 0 and self.levels[current_level]:
-                # Start from a random node at top level (simplified)
-                entry_point = next(iter(self.levels[current_level].keys()))
-                candidates = [
-                    (
-                        entry_point,
-                        self._compute_distance(query_vector, self.vectors[entry_point]),
-                    )
-                ]
+            while current_level > 0 and not self.levels[current_level]:
+                current_level -= 1
+
+            # Start from a random node at top level (simplified)
+            entry_point = next(iter(self.levels[current_level].keys()))
+            candidates = [
+                (
+                    entry_point,
+                    self._compute_distance(query_vector, self.vectors[entry_point]),
+                )
+            ]
 
             # Traverse down levels
             while current_level > 0:
-                new_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[current_level]:
-                        for neighbor_id in self.levels[current_level][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                new_candidates.append((neighbor_id, distance))
-
-                # Keep best candidates
-                new_candidates.sort(key=lambda x: x[1])
-                candidates = new_candidates[: self.ef_search]
+                candidates = self._search_level(
+                    query_vector, current_level, candidates, self.ef_search
+                )
                 current_level -= 1
 
             # Final search at level 0
-            if current_level == 0 and candidates:
-                final_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[0]:
-                        for neighbor_id in self.levels[0][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                final_candidates.append((neighbor_id, distance))
-
-                candidates.extend(final_candidates)
+            ef = max(self.ef_search, k)
+            candidates = self._search_level(query_vector, 0, candidates, ef)
+
+            # Parts of the graph that are not connected to the entry point
+            seen = {node_id for node_id, _ in candidates}
+            for node_id in self.levels[0]:
+                if len(candidates) >= ef:
+                    break
+                if node_id not in seen:
+                    seen.add(node_id)
+                    distance = self._compute_distance(
+                        query_vector, self.vectors[node_id]
+                    )
+                    candidates.append((node_id, distance))
 
             # Sort and return top k
             candidates.sort(key=lambda x: x[1])
@@ -316,6 +307,32 @@ class HNSWIndex(Index):
                         if neighbor_id not in self.levels[l][vector_id]:
                             self.levels[l][vector_id].append(neighbor_id)
 
+    def _search_level(
+        self, query_vector: np.ndarray, level: int, candidates: List[tuple], ef: int
+    ) -> List[tuple]:
+        """Follow the links of one level and return the ef closest nodes reached."""
+        best = sorted(candidates, key=lambda x: x[1])
+        seen = {node_id for node_id, _ in best}
+        expanded = set()
+
+        while True:
+            node_id = next((n for n, _ in best if n not in expanded), None)
+            if node_id is None:
+                return best
+
+            expanded.add(node_id)
+            for neighbor_id in self.levels[level].get(node_id, []):
+                if neighbor_id not in seen and neighbor_id in self.vectors:
+                    seen.add(neighbor_id)
+                    distance = self._compute_distance(
+                        query_vector, self.vectors[neighbor_id]
+                    )
+                    best.append((neighbor_id, distance))
+
+            # Keep best candidates
+            best.sort(key=lambda x: x[1])
+            best = best[:ef]
+
     def _remove_vector_internal(self, vector_id: str) -> None:
         """Internal method to remove vector from HNSW graph."""
         if vector_id in self.vectors:
-- 
2.43.0


From 2e376bba42a10cbb6197665ae146e1c48c8a3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 11/60] fix: hash index rejects bad requests without effect and
 addresses only existing ids

---
 src/valori/indices/lsh.py | 74 ++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 88a0efc..12c7bed 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -7,6 +7,7 @@ with configurable hash functions and parameters.
 
 import hashlib
 from collections import defaultdict
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Tuple, Union
 
 import numpy as np
@@ -59,7 +60,7 @@ class LSHIndex(Index):
     def initialize(self, storage_backend: Optional[StorageBackend] = None) -> None:
         """Initialize the LSH index."""
         # Initialize hash tables
-        self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
+        self.clear()
         self._initialized = True
 
     def add(self, vectors: np.ndarray, metadata: List[Dict[str, Any]]) -> List[int]:
@@ -81,19 +82,26 @@ class LSHIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._generate_projections()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        if len(vectors) == 0:
+            return []
+
+        if self.dimension is not None and vectors.shape[1] != self.dimension:
             raise ValoriIndexError(
                 f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
             )
 
-        # Validate vectors
+        # Validate vectors and metadata
         for vector in vectors:
             validate_vector(vector, self.dimension, self.dimension)
+        metadata = [{} if item is None else deepcopy(item) for item in metadata]
+
+        # Set dimension on first add
+        if self.dimension is None:
+            self.dimension = vectors.shape[1]
+            self._generate_projections()
 
         assigned_ids = []
 
@@ -103,7 +111,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(metadata[i])
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -180,7 +188,7 @@ class LSHIndex(Index):
                         {
                             "id": candidate_id,
                             "distance": float(distance),
-                            "metadata": self.metadata[candidate_id],
+                            "metadata": deepcopy(self.metadata[candidate_id]),
                         }
                     )
 
@@ -199,7 +207,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Remove from hash tables
                 vector = self.vectors[vector_id]
                 if vector is None:
@@ -212,6 +220,7 @@ class LSHIndex(Index):
                             self.hash_tables[table_idx][hash_code].remove(vector_id)
                         except ValueError:
                             pass  # Already removed
+                        self._drop_empty_bucket(table_idx, hash_code)
 
                 # Mark as removed (keep indices consistent)
                 self.vectors[vector_id] = None
@@ -219,15 +228,17 @@ class LSHIndex(Index):
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
         try:
-            int_ids = []
+            success = True
             for s in ids:
-                try:
-                    int_ids.append(int(s))
-                except ValueError:
-                    continue
-            self.remove(int_ids)
-            return True
+                vector_id = self._find_id(s)
+                if vector_id is None:
+                    success = False
+                else:
+                    self.remove([vector_id])
+            return success
         except Exception:
             return False
 
@@ -238,10 +249,13 @@ class LSHIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
         try:
-            vector_id = int(id)
-            if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            vector_id = self._find_id(id)
+            if vector_id is None:
                 return False
 
+            validate_vector(vector, self.dimension, self.dimension)
+            metadata = deepcopy(metadata)
+
             # Remove old hashes
             old_vector = self.vectors[vector_id]
             old_hashes = self._hash_vector(old_vector)
@@ -251,11 +265,12 @@ class LSHIndex(Index):
                         self.hash_tables[table_idx][hash_code].remove(vector_id)
                     except ValueError:
                         pass
+                    self._drop_empty_bucket(table_idx, hash_code)
 
             # Store new vector and metadata
             self.vectors[vector_id] = vector.copy()
             if metadata is not None:
-                self.metadata[vector_id] = metadata.copy()
+                self.metadata[vector_id] = metadata
 
             # Add new hashes
             new_hashes = self._hash_vector(self.vectors[vector_id])
@@ -271,6 +286,10 @@ class LSHIndex(Index):
         self.vectors.clear()
         self.metadata.clear()
         self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
+        self.rng = np.random.RandomState(self.random_seed)
+        self.projections = None
+        self.offsets = None
+        self.dimension = None
         self._next_id = 0
 
     def get_stats(self) -> Dict[str, Any]:
@@ -282,7 +301,7 @@ class LSHIndex(Index):
         bucket_sizes = []
         for table in self.hash_tables:
             for bucket in table.values():
-                bucket_sizes.extend(bucket)
+                bucket_sizes.append(len(bucket))
 
         return {
             "index_type": "lsh",
@@ -299,6 +318,19 @@ class LSHIndex(Index):
             "initialized": self._initialized,
         }
 
+    def _find_id(self, id: Any) -> Optional[int]:
+        """Return the number of a live vector, or None for any other ID."""
+        text = str(id)
+        is_number = text.isascii() and text.isdigit() and str(int(text)) == text
+        if not is_number or int(text) >= len(self.vectors):
+            return None
+        return None if self.vectors[int(text)] is None else int(text)
+
+    def _drop_empty_bucket(self, table_idx: int, hash_code: str) -> None:
+        """Forget a bucket without vectors."""
+        if not self.hash_tables[table_idx][hash_code]:
+            del self.hash_tables[table_idx][hash_code]
+
     def _generate_projections(self) -> None:
         """Generate random projection vectors for hashing."""
         # Generate random projection vectors
-- 
2.43.0


From faf3659326bbac57f4044e5ed4ae25f5a935aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 12/60] fix: hash index works with more hash bits than
 projections

---
 src/valori/indices/lsh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 12c7bed..385927b 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -362,8 +362,9 @@ class LSHIndex(Index):
 
             if end_idx > self.num_projections:
                 # Wrap around if needed
-                proj_indices = list(range(start_idx, self.num_projections))
-                proj_indices.extend(range(0, end_idx - self.num_projections))
+                proj_indices = [
+                    i % self.num_projections for i in range(start_idx, end_idx)
+                ]
                 selected_projections = self.projections[proj_indices]
             else:
                 selected_projections = self.projections[start_idx:end_idx]
@@ -372,7 +373,8 @@ class LSHIndex(Index):
             dot_products = np.dot(selected_projections, vector)
 
             # Apply offsets and threshold to get binary hash
-            hash_bits = (dot_products + self.offsets[: len(dot_products)]) >= 0
+            offsets = np.resize(self.offsets, len(dot_products))
+            hash_bits = (dot_products + offsets) >= 0
 
             # Convert to hash string
             hash_string = "".join(["1" if bit else "0" for bit in hash_bits])
-- 
2.43.0


From c177a99f069b53e9e87ddec9e2bfc9268c62c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 13/60] fix: tree index keeps ids, records and trees together,
 and refuses what it cannot do

---
 src/valori/indices/annoy.py | 101 +++++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 31 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c33b854..837aacf 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -7,6 +7,7 @@ approximate nearest neighbor search using random projection trees.
 
 import os
 import tempfile
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -71,7 +72,7 @@ class AnnoyIndex(Index):
         if storage_backend is not None:
             self.storage_backend = storage_backend
 
-        if self.build_on_disk:
+        if self.build_on_disk and self._temp_file is None:
             # Create temporary file for on-disk building
             fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
             os.close(fd)
@@ -108,9 +109,9 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_ids = [int(id) for id in ids]
-            self.remove(int_ids)
-            return True
+            live_ids = [self._find_id(id) for id in ids]
+            self.remove([id for id in live_ids if id is not None])
+            return None not in live_ids
         except Exception as e:
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
 
@@ -129,21 +130,24 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_id = int(id)
-            if int_id >= len(self.vectors):
+            if not self._initialized:
+                raise ValoriIndexError("Index not initialized")
+
+            int_id = self._find_id(id)
+            if int_id is None:
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
-            if metadata is None:
-                metadata = self.metadata[int_id]
+            if self._built:
+                raise ValoriIndexError("Cannot change vectors of a built index")
 
-            # Remove old vector
-            self.remove([int_id])
+            validate_vector(vector, self.dimension, self.dimension)
+            metadata = deepcopy(metadata)
 
-            # Add new vector (but reuse the same ID by temporarily modifying _next_id)
-            old_next_id = self._next_id
-            self._next_id = int_id
-            self.add(vector.reshape(1, -1), [metadata])
-            self._next_id = old_next_id
+            # Replace the vector in the Annoy index as well
+            self._annoy_index.add_item(int_id, vector.astype(np.float32))
+            self.vectors[int_id] = vector.copy()
+            if metadata is not None:
+                self.metadata[int_id] = metadata
 
             return True
         except Exception as e:
@@ -168,19 +172,29 @@ class AnnoyIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._create_annoy_index()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
+
+        if len(vectors) == 0:
+            return []
+
+        if self._built:
+            raise ValoriIndexError("Cannot add vectors to a built index")
 
-        if vectors.shape[1] != self.dimension:
+        if self.dimension is not None and vectors.shape[1] != self.dimension:
             raise ValoriIndexError(
                 f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
             )
 
-        # Validate vectors
+        # Validate vectors and metadata
         for vector in vectors:
             validate_vector(vector, self.dimension, self.dimension)
+        metadata = [{} if item is None else deepcopy(item) for item in metadata]
+
+        # Set dimension on first add
+        if self.dimension is None:
+            self.dimension = vectors.shape[1]
+            self._create_annoy_index()
 
         assigned_ids = []
 
@@ -190,7 +204,7 @@ class AnnoyIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(metadata[i])
 
             # Add to Annoy index
             self._annoy_index.add_item(vector_id, vector.astype(np.float32))
@@ -211,6 +225,10 @@ class AnnoyIndex(Index):
         # Only build if there's an annoy index instance
         if self._annoy_index is not None:
             if self.build_on_disk:
+                if self._temp_file is None:
+                    fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
+                    os.close(fd)
+
                 # Build on disk
                 self._annoy_index.build(self.num_trees)
                 self._annoy_index.save(self._temp_file)
@@ -256,15 +274,21 @@ class AnnoyIndex(Index):
             self.search_k if self.search_k > 0 else self.num_trees * len(self.vectors)
         )
 
-        # Search for nearest neighbors
+        # Search for nearest neighbors (removed vectors are still in the trees)
+        removed = sum(1 for v in self.vectors if v is None)
         neighbor_ids, distances = self._annoy_index.get_nns_by_vector(
-            query_vector, k, search_k=search_k, include_distances=True
+            query_vector, k + removed, search_k=search_k, include_distances=True
         )
 
         # Convert to results format
         results = []
         for neighbor_id, distance in zip(neighbor_ids, distances):
-            if neighbor_id < len(self.vectors):
+            if len(results) >= k:
+                break
+            if (
+                neighbor_id < len(self.vectors)
+                and self.vectors[neighbor_id] is not None
+            ):
                 # Convert distance to similarity based on metric
                 similarity = self._distance_to_similarity(distance)
 
@@ -272,7 +296,7 @@ class AnnoyIndex(Index):
                     {
                         "id": neighbor_id,
                         "distance": similarity,
-                        "metadata": self.metadata[neighbor_id],
+                        "metadata": deepcopy(self.metadata[neighbor_id]),
                     }
                 )
 
@@ -291,7 +315,7 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Mark as removed (Annoy doesn't support efficient removal)
                 self.vectors[vector_id] = None
                 self.metadata[vector_id] = None
@@ -300,6 +324,7 @@ class AnnoyIndex(Index):
         """Clear all vectors from the index."""
         self.vectors.clear()
         self.metadata.clear()
+        self.dimension = None
         self._next_id = 0
         self._built = False
 
@@ -328,6 +353,14 @@ class AnnoyIndex(Index):
             "initialized": self._initialized,
         }
 
+    def _find_id(self, id: Any) -> Optional[int]:
+        """Return the number of a live vector, or None for any other ID."""
+        text = str(id)
+        is_number = text.isascii() and text.isdigit() and str(int(text)) == text
+        if not is_number or int(text) >= len(self.vectors):
+            return None
+        return None if self.vectors[int(text)] is None else int(text)
+
     def _create_annoy_index(self) -> None:
         """Create the Annoy index instance."""
         # Annoy library AnnoyIndex constructor only accepts dimension and metric
@@ -390,12 +423,13 @@ class AnnoyIndex(Index):
         # Load metadata first
         import json
 
+        dimension, metric = self.dimension, self.metric
         metadata_path = filepath + ".meta"
         if os.path.exists(metadata_path):
             with open(metadata_path, "r") as f:
                 metadata = json.load(f)
-                self.dimension = metadata.get("dimension")
-                self.metric = metadata.get("metric", self.metric)
+                dimension = metadata.get("dimension")
+                metric = metadata.get("metric", metric)
                 # num_trees already set from config during init
         else:
             # Fallback: if no metadata file, try to infer from index properties
@@ -406,8 +440,13 @@ class AnnoyIndex(Index):
                     f"Metadata file not found: {metadata_path}"
                 )
 
-        self._create_annoy_index()
-        self._annoy_index.load(filepath)
+        annoy_index = self.annoy.AnnoyIndex(dimension, metric)
+        annoy_index.load(filepath)
+
+        # The old records do not belong to the loaded trees
+        self.clear()
+        self.dimension, self.metric = dimension, metric
+        self._annoy_index = annoy_index
         self._built = True
 
         # Note: When loading from disk, we lose the original vectors and metadata
-- 
2.43.0


From 5f7d8b709500871f30ed90d42db863da29e1133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 14/60] fix: the client lets one thread at a time use its index

---
 src/valori/client.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index a664e39..912585d 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -2,6 +2,7 @@
 High-level client for the Valori vector database.
 """
 
+from threading import RLock
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -45,6 +46,7 @@ class VectorDBClient:
         self.quantizer = quantizer
         self.persistence_manager = persistence_manager
         self.config = config or {}
+        self._lock = RLock()  # The indexes are not thread-safe by themselves
         self._initialized = False
 
     def initialize(self) -> None:
@@ -70,21 +72,24 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.insert(vectors, metadata)
+        with self._lock:
+            return self.index.insert(vectors, metadata)
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.search(query_vector, k)
+        with self._lock:
+            return self.index.search(query_vector, k)
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their IDs."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.delete(ids)
+        with self._lock:
+            return self.index.delete(ids)
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
@@ -93,17 +98,19 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.update(id, vector, metadata)
+        with self._lock:
+            return self.index.update(id, vector, metadata)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get database statistics."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        stats = {
-            "storage": self.storage_backend.get_stats(),
-            "index": self.index.get_stats(),
-        }
+        with self._lock:
+            stats = {
+                "storage": self.storage_backend.get_stats(),
+                "index": self.index.get_stats(),
+            }
 
         if self.quantizer:
             stats["quantization"] = self.quantizer.get_stats()
-- 
2.43.0


From d0afa30cf48124e04fb0c8c14d6d70dec4bb905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 15/60] fix: disk statistics count the records anew instead of
 repeating a failed count

---
 src/valori/storage/disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 0c9aca1..4f1cb57 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -172,6 +172,9 @@ class DiskStorage(StorageBackend):
             return {"status": "not_initialized"}
 
         try:
+            # An earlier count may have failed to read the directory
+            self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+
             # Calculate disk usage
             total_size = 0
             for file_path in self.data_dir.rglob("*"):
-- 
2.43.0


From 5c95a24bd0b466f0976ddb535a3dbad2af15a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 16/60] fix: batch manager counts each run separately

---
 src/valori/utils/batch_manager.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 962c213..dc20da1 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -74,8 +74,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
-        self._stats["total_items"] = len(vectors)
-        self._stats["start_time"] = time.time()
+        self._start_run(len(vectors))
 
         all_ids = []
 
@@ -130,8 +129,7 @@ class BatchManager:
         Returns:
             List of search results for each query
         """
-        self._stats["total_items"] = len(query_vectors)
-        self._stats["start_time"] = time.time()
+        self._start_run(len(query_vectors))
 
         all_results = []
 
@@ -191,8 +189,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
-        self._stats["total_items"] = len(vectors)
-        self._stats["start_time"] = time.time()
+        self._start_run(len(vectors))
 
         all_ids = []
 
@@ -251,6 +248,12 @@ class BatchManager:
 
         return all_ids
 
+    def _start_run(self, total_items: int):
+        """Start counting for a new run."""
+        self.reset_stats()
+        self._stats["total_items"] = total_items
+        self._stats["start_time"] = time.time()
+
     def _print_progress(self):
         """Print progress information."""
         if self._stats["total_items"] == 0:
-- 
2.43.0


From 9f7b7fbe5f4e7d7e55517d90bbc58d6461302dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 17/60] fix: parallel batch insert returns ids in input order

---
 src/valori/utils/batch_manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index dc20da1..f0dd90b 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -191,8 +191,6 @@ class BatchManager:
         """
         self._start_run(len(vectors))
 
-        all_ids = []
-
         # Create batches
         batches = []
         for i in range(0, len(vectors), self.batch_size):
@@ -204,6 +202,8 @@ class BatchManager:
                 }
             )
 
+        ids_by_batch: List[List[int]] = [[] for _ in batches]
+
         def process_batch(batch_data):
             """Process a single batch."""
             try:
@@ -230,7 +230,7 @@ class BatchManager:
                         if self.error_callback:
                             self.error_callback(error, batches[batch_id])
                     else:
-                        all_ids.extend(batch_ids)
+                        ids_by_batch[batch_id] = batch_ids
                         self._stats["processed_items"] = int(
                             self._stats.get("processed_items", 0) or 0
                         ) + len(batch_ids)
@@ -246,7 +246,8 @@ class BatchManager:
         finally:
             self._stats["end_time"] = time.time()
 
-        return all_ids
+        # Batches finish in any order, the IDs are returned in input order
+        return [vector_id for batch_ids in ids_by_batch for vector_id in batch_ids]
 
     def _start_run(self, total_items: int):
         """Start counting for a new run."""
-- 
2.43.0


From 491e79f2149fdf9146bd22204ff5251ff9a0e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 18/60] fix: progress tracker copes with a total of zero

---
 src/valori/utils/batch_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index f0dd90b..bdc98d9 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -335,7 +335,7 @@ class ProgressTracker:
 
     def _print_progress(self):
         """Print progress information."""
-        progress = self.current / self.total
+        progress = self.current / self.total if self.total else 1.0
         percentage = progress * 100
 
         elapsed = time.time() - self.start_time
-- 
2.43.0


From 947dee8b19758fb695aeff6b8f7ec6473f7279e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 19/60] fix: persistence replaces a saved file in one step, at
 exactly the given path

---
 src/valori/persistence/base.py        | 21 ++++++++++++++++++++-
 src/valori/persistence/incremental.py | 22 +++++++++++++++-------
 src/valori/persistence/tensor.py      | 23 +++++++++++++----------
 3 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index c711a5c..f8379b4 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -2,8 +2,11 @@
 Base persistence interface for the valori vector database.
 """
 
+import os
+import tempfile
 from abc import ABC, abstractmethod
-from typing import Any, Dict, Optional, Tuple
+from pathlib import Path
+from typing import Any, BinaryIO, Callable, Dict, Optional, Tuple
 
 import numpy as np
 
@@ -117,3 +120,19 @@ class PersistenceManager(ABC):
     def close(self) -> None:
         """Close the persistence manager and clean up resources."""
         pass
+
+    def _write_file(self, file_path: Path, write: Callable[[BinaryIO], Any]) -> None:
+        """
+        Write a file in one step.
+
+        The data goes to a temporary file that then replaces the target, so
+        that an interrupted or failing save leaves the previous file in place.
+        """
+        fd, temp_path = tempfile.mkstemp(prefix=".saving-", dir=file_path.parent)
+        try:
+            with open(fd, "wb") as f:
+                write(f)
+            os.replace(temp_path, file_path)
+        except BaseException:
+            os.unlink(temp_path)
+            raise
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index ffb8653..51afa5e 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -62,8 +62,10 @@ class IncrementalPersistence(PersistenceManager):
         try:
             # Create checkpoint
             checkpoint_path = self.data_dir / f"checkpoint_{self._operation_count}.pkl"
-            with open(checkpoint_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._write_file(
+                checkpoint_path,
+                lambda f: pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             # Update checkpoint info
             self._last_checkpoint = self._operation_count
@@ -114,7 +116,9 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save vectors
-            np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            self._write_file(
+                file_path, lambda f: np.savez(f, vectors=vectors, ids=np.array(ids))
+            )
 
             # Log operation
             self._log_operation(
@@ -161,8 +165,10 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save index data
-            with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._write_file(
+                file_path,
+                lambda f: pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             # Log operation
             self._log_operation("save_index", {"path": path})
@@ -280,8 +286,10 @@ class IncrementalPersistence(PersistenceManager):
                 "timestamp": datetime.now().isoformat(),
             }
 
-            with open(self.checkpoint_file, "w") as f:
-                json.dump(checkpoint_info, f)
+            self._write_file(
+                self.checkpoint_file,
+                lambda f: f.write(json.dumps(checkpoint_info).encode()),
+            )
 
         except Exception as e:
             raise PersistenceError(f"Failed to save checkpoint info: {str(e)}")
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index bf96d23..cfc89d4 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -46,8 +46,10 @@ class TensorPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._write_file(
+                file_path,
+                lambda f: pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             self._save_count += 1
             return True
@@ -86,12 +88,11 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            if self.compression:
-                # Save with compression
-                np.savez_compressed(file_path, vectors=vectors, ids=np.array(ids))
-            else:
-                # Save without compression
-                np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            # Save with or without compression
+            savez = np.savez_compressed if self.compression else np.savez
+            self._write_file(
+                file_path, lambda f: savez(f, vectors=vectors, ids=np.array(ids))
+            )
 
             self._save_count += 1
             return True
@@ -132,8 +133,10 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._write_file(
+                file_path,
+                lambda f: pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             self._save_count += 1
             return True
-- 
2.43.0


From a3a2661cee36442647deb1a558ab5f4b4ea580f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 20/60] fix: persistence refuses vectors and ids that would not
 load as saved

---
 src/valori/persistence/base.py        | 12 ++++++++++++
 src/valori/persistence/incremental.py |  7 ++++---
 src/valori/persistence/tensor.py      |  4 +++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index f8379b4..fd2a45b 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -10,6 +10,8 @@ from typing import Any, BinaryIO, Callable, Dict, Optional, Tuple
 
 import numpy as np
 
+from ..exceptions import PersistenceError
+
 
 class PersistenceManager(ABC):
     """
@@ -121,6 +123,16 @@ class PersistenceManager(ABC):
         """Close the persistence manager and clean up resources."""
         pass
 
+    @staticmethod
+    def _vector_arrays(vectors: np.ndarray, ids: list) -> Tuple[np.ndarray, np.ndarray]:
+        """Convert vectors and IDs to arrays that load as they were given."""
+        vectors, id_array = np.asarray(vectors), np.array(ids)
+        if vectors.dtype.hasobject or id_array.dtype.hasobject:
+            raise PersistenceError("Vectors and IDs must not be Python objects")
+        if id_array.tolist() != (ids.tolist() if isinstance(ids, np.ndarray) else list(ids)):
+            raise PersistenceError("IDs must all be of one type")
+        return vectors, id_array
+
     def _write_file(self, file_path: Path, write: Callable[[BinaryIO], Any]) -> None:
         """
         Write a file in one step.
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 51afa5e..318ad21 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -113,11 +113,12 @@ class IncrementalPersistence(PersistenceManager):
 
         try:
             file_path = self.data_dir / path
+            vectors, id_array = self._vector_arrays(vectors, ids)
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save vectors
             self._write_file(
-                file_path, lambda f: np.savez(f, vectors=vectors, ids=np.array(ids))
+                file_path, lambda f: np.savez(f, vectors=vectors, ids=id_array)
             )
 
             # Log operation
@@ -126,7 +127,7 @@ class IncrementalPersistence(PersistenceManager):
                 {
                     "path": path,
                     "vector_count": len(vectors),
-                    "ids": ids[:10],  # Log first 10 IDs for reference
+                    "ids": id_array[:10].tolist(),  # Log first 10 IDs for reference
                 },
             )
 
@@ -252,7 +253,7 @@ class IncrementalPersistence(PersistenceManager):
             }
 
             with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry) + "\n")
+                f.write(json.dumps(log_entry, default=str) + "\n")
 
             self._operation_count += 1
 
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index cfc89d4..0126f0f 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -85,13 +85,15 @@ class TensorPersistence(PersistenceManager):
         try:
             file_path = self.data_dir / path
 
+            vectors, id_array = self._vector_arrays(vectors, ids)
+
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save with or without compression
             savez = np.savez_compressed if self.compression else np.savez
             self._write_file(
-                file_path, lambda f: savez(f, vectors=vectors, ids=np.array(ids))
+                file_path, lambda f: savez(f, vectors=vectors, ids=id_array)
             )
 
             self._save_count += 1
-- 
2.43.0


From 561f7d9d8c61199a2a8f274d774fd08be3dd82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 21/60] fix: incremental persistence keeps counting after a
 restart and drops torn log entries

---
 src/valori/persistence/incremental.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 318ad21..3352031 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -3,6 +3,7 @@ Incremental persistence implementation for the valori vector database.
 """
 
 import json
+import os
 import pickle
 from datetime import datetime
 from pathlib import Path
@@ -47,6 +48,7 @@ class IncrementalPersistence(PersistenceManager):
 
             # Load checkpoint info
             self._load_checkpoint_info()
+            self._load_operation_count()
 
             self._initialized = True
         except Exception as e:
@@ -208,7 +210,7 @@ class IncrementalPersistence(PersistenceManager):
             operation_count = 0
             if self.log_file.exists():
                 with open(self.log_file, "r") as f:
-                    operation_count = sum(1 for line in f if line.strip())
+                    operation_count = sum(1 for line in f if line.endswith("\n"))
 
             # Calculate disk usage
             total_size = 0
@@ -252,6 +254,7 @@ class IncrementalPersistence(PersistenceManager):
                 "operation_id": self._operation_count,
             }
 
+            self._drop_partial_entry()
             with open(self.log_file, "a") as f:
                 f.write(json.dumps(log_entry, default=str) + "\n")
 
@@ -313,6 +316,27 @@ class IncrementalPersistence(PersistenceManager):
             self._last_checkpoint = 0
             self._operation_count = 0
 
+    def _load_operation_count(self) -> None:
+        """Continue counting after the last operation in the log."""
+        self._drop_partial_entry()
+        with open(self.log_file, "rb") as f:
+            for line in f:
+                try:
+                    operation_id = int(json.loads(line)["operation_id"])
+                except (ValueError, KeyError, TypeError):
+                    continue
+                self._operation_count = max(self._operation_count, operation_id + 1)
+
+    def _drop_partial_entry(self) -> None:
+        """Remove the rest of an entry whose writing was interrupted."""
+        with open(self.log_file, "a+b") as f:
+            if f.tell() == 0:
+                return
+            f.seek(-1, os.SEEK_END)
+            if f.read(1) != b"\n":
+                f.seek(0)
+                f.truncate(f.read().rfind(b"\n") + 1)
+
     def _replay_operations(self, state: Dict[str, Any]) -> Dict[str, Any]:
         """Replay operations since last checkpoint."""
         try:
-- 
2.43.0


From ff2faf8b21928230e43837f5bdc707f62de363c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 22/60] fix: incremental persistence refuses paths of its own
 log and checkpoint files

---
 src/valori/persistence/incremental.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 3352031..ac68bfd 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -114,7 +114,7 @@ class IncrementalPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = self._user_file(path)
             vectors, id_array = self._vector_arrays(vectors, ids)
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
@@ -164,7 +164,7 @@ class IncrementalPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = self._user_file(path)
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save index data
@@ -244,6 +244,14 @@ class IncrementalPersistence(PersistenceManager):
         """Close the incremental persistence manager."""
         self._initialized = False
 
+    def _user_file(self, path: str) -> Path:
+        """Get the file for a path, which must not be one of our own files."""
+        for name in Path(path).parts[:1]:
+            own_names = (self.log_file.name, self.checkpoint_file.name)
+            if name in own_names or Path(name).match("checkpoint_*.pkl"):
+                raise PersistenceError(f"Reserved file name: {path}")
+        return self.data_dir / path
+
     def _log_operation(self, operation: str, data: Dict[str, Any]) -> None:
         """Log an operation to the log file."""
         try:
-- 
2.43.0


From 8b0e0e45ed260528ffde6871b3dfa662e99e4139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 23/60] fix: a rejected training leaves scalar and product
 quantizers as they were

---
 src/valori/quantization/product.py | 26 ++++++++++++++------------
 src/valori/quantization/scalar.py  |  4 ++--
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 9482521..f0a0c42 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -47,37 +47,34 @@ class ProductQuantizer(Quantizer):
 
         try:
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
 
             # Check if dimension is divisible by m
-            if self.dim % self.m != 0:
+            if dim % self.m != 0:
                 raise QuantizationError(
-                    f"Vector dimension {self.dim} must be divisible by m={self.m}"
+                    f"Vector dimension {dim} must be divisible by m={self.m}"
                 )
 
-            self.subvector_dim = int(self.dim // self.m)
+            subvector_dim = int(dim // self.m)
 
             # Determine effective number of clusters (can't exceed n_vectors)
             effective_k = int(min(self.k, max(1, n_vectors)))
-            self.effective_k = effective_k
 
             # Initialize centroids array (use float32 to match input dtype)
             # centroids shape may use effective_k which can be <= self.k
-            self.centroids = np.zeros(
-                (self.m, effective_k, self.subvector_dim), dtype=np.float32
+            centroids = np.zeros(
+                (self.m, effective_k, subvector_dim), dtype=np.float32
             )
 
             # Train each subvector separately
             for i in range(self.m):
-                assert self.subvector_dim is not None
-                start_idx = i * self.subvector_dim
-                end_idx = (i + 1) * self.subvector_dim
+                start_idx = i * subvector_dim
+                end_idx = (i + 1) * subvector_dim
                 subvectors = vectors[:, start_idx:end_idx]
 
                 # If effective_k is 1, just take the mean as the single centroid
                 if effective_k <= 1:
                     centroid = np.mean(subvectors, axis=0).astype(np.float32)
-                    self.centroids[i, 0] = centroid
+                    centroids[i, 0] = centroid
                     continue
 
                 # Perform K-means clustering on subvectors
@@ -85,10 +82,15 @@ class ProductQuantizer(Quantizer):
                 kmeans.fit(subvectors)
 
                 # Store centroids as float32
-                self.centroids[i, : kmeans.cluster_centers_.shape[0]] = (
+                centroids[i, : kmeans.cluster_centers_.shape[0]] = (
                     kmeans.cluster_centers_.astype(np.float32)
                 )
 
+            # Only a complete training replaces the previous one
+            self.dim = int(dim)
+            self.subvector_dim = subvector_dim
+            self.effective_k = effective_k
+            self.centroids = centroids
             self._trained = True
 
         except Exception as e:
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index cb05203..e87c929 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -48,9 +48,8 @@ class ScalarQuantizer(Quantizer):
             raise QuantizationError("Vectors must be 2D array")
 
         try:
-            # Set dimension and compute min and max values for each dimension
+            # Compute min and max values for each dimension
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
             min_vals = np.min(vectors, axis=0)
             max_vals = np.max(vectors, axis=0)
 
@@ -65,6 +64,7 @@ class ScalarQuantizer(Quantizer):
             zero_pt = np.zeros_like(min_vals, dtype=np.int32)
 
             # Assign back to attributes (now narrowed)
+            self.dim = int(dim)
             self.min_values = min_vals
             self.max_values = max_vals
             self.scale = scales
-- 
2.43.0


From 91c6cf386068d36e74ae036aeca42864ed12f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 24/60] fix: scalar and product quantizers refuse vectors of
 the wrong dimension

---
 src/valori/quantization/product.py | 3 +++
 src/valori/quantization/scalar.py  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index f0a0c42..399c728 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -105,6 +105,9 @@ class ProductQuantizer(Quantizer):
             raise QuantizationError("Quantizer not trained")
 
         try:
+            if vectors.ndim != 2 or vectors.shape[1] != self.dim:
+                raise QuantizationError(f"Vectors must be 2D with dimension {self.dim}")
+
             n_vectors = int(vectors.shape[0])
             assert self.subvector_dim is not None and self.centroids is not None
 
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index e87c929..2a4c851 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -87,6 +87,8 @@ class ScalarQuantizer(Quantizer):
             # Expect 2D input (n_vectors, dim)
             if vectors.ndim != 2:
                 raise QuantizationError("Vectors must be 2D array")
+            if vectors.shape[1] != self.dim:
+                raise QuantizationError(f"Vectors must have dimension {self.dim}")
             # Apply quantization formula: q = round((x - min) / scale + zero_point)
             assert (
                 self.dim is not None
@@ -148,6 +150,8 @@ class ScalarQuantizer(Quantizer):
 
             if quantized_vectors.ndim != 2:
                 raise QuantizationError("Quantized vectors must be 2D array")
+            if quantized_vectors.shape[1] != self.dim:
+                raise QuantizationError(f"Vectors must have dimension {self.dim}")
 
             n_vectors = int(quantized_vectors.shape[0])
             dequantized = np.zeros((n_vectors, int(self.dim)), dtype=np.float32)
-- 
2.43.0


From 8199685e9d24f3d318b5780f006507b49bd63d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 25/60] fix: scalar quantizer copes with integer vectors and
 with many bits

---
 src/valori/quantization/scalar.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 2a4c851..28192f9 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -50,6 +50,7 @@ class ScalarQuantizer(Quantizer):
         try:
             # Compute min and max values for each dimension
             n_vectors, dim = vectors.shape
+            vectors = vectors.astype(np.result_type(vectors, np.float32), copy=False)
             min_vals = np.min(vectors, axis=0)
             max_vals = np.max(vectors, axis=0)
 
@@ -57,7 +58,7 @@ class ScalarQuantizer(Quantizer):
             # Use a capped denom to avoid floating-point overflow for very large bit counts
             raw_denom = (1 << int(self.bits)) - 1
             denom_cap = float(min(raw_denom, np.iinfo(np.int64).max))
-            scales = (max_vals - min_vals) / denom_cap
+            scales = (max_vals.astype(np.float64) - min_vals) / denom_cap
             # Avoid zero scale values per-dimension
             scales = np.where(scales == 0, 1.0, scales)
             # For range-based uniform quantization we use zero_point = 0
@@ -108,7 +109,9 @@ class ScalarQuantizer(Quantizer):
             # Compute per-dimension quantized values in a vectorized manner
             # normalized = (vectors - min) / scale
             with np.errstate(invalid="ignore", divide="ignore"):
-                normalized_all = (vectors - self.min_values) / self.scale
+                normalized_all = (
+                    vectors.astype(np.float64) - self.min_values
+                ) / self.scale
 
             # Round and clip to valid range
             rounded = np.rint(normalized_all)
@@ -120,8 +123,10 @@ class ScalarQuantizer(Quantizer):
             clipped = np.clip(rounded, 0, upper_bound)
             clipped = np.nan_to_num(clipped, nan=0.0, posinf=upper_bound, neginf=0.0)
 
-            # Safe cast to integer type
-            quantized[:, :] = clipped.astype(itype)
+            # Safe cast to integer type (the upper bound may not be a float)
+            at_top = clipped >= upper_bound
+            quantized[:, :] = np.where(at_top, 0, clipped).astype(itype)
+            quantized[at_top] = upper_bound
 
             return quantized
 
@@ -157,8 +162,9 @@ class ScalarQuantizer(Quantizer):
             dequantized = np.zeros((n_vectors, int(self.dim)), dtype=np.float32)
 
             # Vectorized dequantization
-            q_float = quantized_vectors.astype(np.float32)
+            q_float = quantized_vectors.astype(np.float64)
             dequantized = q_float * self.scale + self.min_values
+            dequantized = dequantized.astype(self.min_values.dtype)
 
             return dequantized
 
-- 
2.43.0


From 151b5aca810d009f40c8a5eb7d844445aed3e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 26/60] fix: initializing a quantizer again forgets its
 training

---
 src/valori/quantization/product.py | 1 +
 src/valori/quantization/saq.py     | 1 +
 src/valori/quantization/scalar.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 399c728..dc8a8ee 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -35,6 +35,7 @@ class ProductQuantizer(Quantizer):
         self.centroids = None
         self.dim = None
         self.subvector_dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index e70bfb5..fb94446 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -68,6 +68,7 @@ class SAQQuantizer(Quantizer):
         self.segment_quantizers = []
         self.full_precision_vectors = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 28192f9..0ac79be 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -37,6 +37,7 @@ class ScalarQuantizer(Quantizer):
         self.scale = None
         self.zero_point = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
-- 
2.43.0


From 7682602b8802c0f9fb0de5df10b8aee1cba727dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 27/60] fix: SAQ gives every segment at least one bit within
 its budget

---
 src/valori/quantization/saq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index fb94446..1cad4ce 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -156,9 +156,8 @@ class SAQQuantizer(Quantizer):
         cumulative_variance = np.cumsum(explained_variance)
         # Dynamic programming for optimal segmentation
         # This minimizes quantization error given bit budget
-        # Make sure we don't allocate more segments than dimensions
-        if self.n_segments > dim:
-            self.n_segments = dim
+        # Make sure we don't allocate more segments than dimensions or bits
+        self.n_segments = min(self.config.get("n_segments", 8), dim, self.total_bits)
 
         dp = np.full((self.n_segments + 1, dim + 1), np.inf)
         dp[0, 0] = 0
@@ -207,11 +206,12 @@ class SAQQuantizer(Quantizer):
 
         # Ensure we don't allocate more bits than available
         remaining_bits = self.total_bits
+        spare_bits = self.total_bits - self.n_segments  # Every segment gets a bit
         for i, variance in enumerate(segment_variances):
             if i == len(segment_variances) - 1:
                 bits = remaining_bits
             else:
-                bits = max(1, int(self.total_bits * (variance / total_variance)))
+                bits = 1 + max(0, int(spare_bits * (variance / total_variance)))
                 remaining_bits -= bits
             self.segment_bits.append(bits)
 
-- 
2.43.0


From ba3e5c852400bcf36b10673292df7496d8eeabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 28/60] fix: SAQ training forgets the adjustments of an earlier
 training

---
 src/valori/quantization/saq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 1cad4ce..ea62b13 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -94,6 +94,7 @@ class SAQQuantizer(Quantizer):
 
             n_vectors, dim = vectors.shape
             self.dim = int(dim)
+            self.stats["adjustment_improvements"] = []
 
             # Store full-precision vectors for rescoring
             self.full_precision_vectors = vectors.astype(np.float32)
-- 
2.43.0


From eef07ed42973ab040ccfff3a1ecadefd0f122cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 29/60] fix: a rejected SAQ training leaves the earlier one in
 place

---
 src/valori/quantization/saq.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index ea62b13..3b625ef 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -87,6 +87,9 @@ class SAQQuantizer(Quantizer):
         if vectors.ndim != 2:
             raise QuantizationError("Vectors must be 2D array")
 
+        # A training that fails leaves the earlier one in place
+        before = dict(self.__dict__)
+
         try:
             import time
 
@@ -94,7 +97,9 @@ class SAQQuantizer(Quantizer):
 
             n_vectors, dim = vectors.shape
             self.dim = int(dim)
-            self.stats["adjustment_improvements"] = []
+            self.pca = PCA()
+            self.scaler = StandardScaler()
+            self.stats = {**self.stats, "adjustment_improvements": []}
 
             # Store full-precision vectors for rescoring
             self.full_precision_vectors = vectors.astype(np.float32)
@@ -133,6 +138,7 @@ class SAQQuantizer(Quantizer):
             self.stats["segmentation_time"] = time.time() - start_time
 
         except Exception as e:
+            self.__dict__.update(before)
             raise QuantizationError(f"SAQ training failed: {str(e)}")
 
     def _segment_and_allocate_bits(self, vectors_pca: np.ndarray) -> None:
-- 
2.43.0


From 601f72a687b0f2d218ad39a4fd02e5e9c5136f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 30/60] fix: product quantizer refuses an empty or non-finite
 training set

---
 src/valori/quantization/product.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index dc8a8ee..e7bdb5a 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -48,6 +48,8 @@ class ProductQuantizer(Quantizer):
 
         try:
             n_vectors, dim = vectors.shape
+            if n_vectors == 0 or not np.isfinite(vectors).all():
+                raise QuantizationError("Training needs finite vectors")
 
             # Check if dimension is divisible by m
             if dim % self.m != 0:
-- 
2.43.0


From 5a0fc7ff05a8f9723d7b32790a312316d7d01e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 31/60] fix: parsers' chunks no longer repeat the end of the
 text and of short segments

---
 src/valori/parsers/office_parser.py | 7 ++++++-
 src/valori/parsers/pdf_parser.py    | 7 ++++++-
 src/valori/parsers/text_parser.py   | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index 28917ce..8f378d5 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -275,7 +275,9 @@ class OfficeParser(DocumentParser):
             # Try to break at logical boundaries
             if end < len(text):
                 last_newline = text.rfind("\n", start, end)
-                if last_newline > start + self.chunk_size // 2:
+                if last_newline > start + max(
+                    self.chunk_size // 2, self.chunk_overlap
+                ):
                     end = last_newline + 1
 
             chunk_text = text[start:end].strip()
@@ -291,6 +293,9 @@ class OfficeParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            if end >= len(text):
+                break
+
             start = max(end - self.chunk_overlap, start + 1)
 
         return chunks
diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index ef00c0e..7406546 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -178,7 +178,9 @@ class PDFParser(DocumentParser):
             # Try to break at paragraph boundary
             if end < len(text):
                 last_newline = text.rfind("\n\n", start, end)
-                if last_newline > start + self.chunk_size // 2:
+                if last_newline > start + max(
+                    self.chunk_size // 2, self.chunk_overlap
+                ):
                     end = last_newline + 2
 
             chunk_text = text[start:end].strip()
@@ -201,6 +203,9 @@ class PDFParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84fe890..d3ac301 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -141,7 +141,9 @@ class TextParser(DocumentParser):
                 last_newline = text.rfind("\n", start, end)
                 break_point = max(last_period, last_newline)
 
-                if break_point > start + self.chunk_size // 2:
+                if break_point > start + max(
+                    self.chunk_size // 2, self.chunk_overlap
+                ):
                     end = break_point + 1
 
             chunk_text = text[start:end].strip()
@@ -157,6 +159,9 @@ class TextParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
-- 
2.43.0


From 26166d5605b055704a8041d4416ed64e8227d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 32/60] fix: chunks cover the text, say where they lie and
 repeat no more than the overlap

---
 src/valori/processors/chunking.py | 121 ++++++++++++++++--------------
 1 file changed, 65 insertions(+), 56 deletions(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index a7a4f64..9f35349 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -28,7 +28,7 @@ class ChunkingProcessor(DocumentProcessor):
         self.chunk_size = config.get("chunk_size", 1000)
         self.chunk_overlap = config.get("chunk_overlap", 100)
         self.min_chunk_size = config.get("min_chunk_size", 50)
-        self.max_chunk_size = config.get("max_chunk_size", 2000)
+        self.max_chunk_size = config.get("max_chunk_size", max(2000, self.chunk_size))
         self.separators = config.get(
             "separators", ["\n\n", "\n", ". ", "! ", "? ", " "]
         )
@@ -44,6 +44,12 @@ class ChunkingProcessor(DocumentProcessor):
         if self.chunk_overlap >= self.chunk_size:
             raise ProcessingError("Chunk overlap must be less than chunk size")
 
+        if self.chunk_overlap < 0:
+            raise ProcessingError("Chunk overlap must not be negative")
+
+        if self.chunk_size > self.max_chunk_size:
+            raise ProcessingError("Chunk size must not exceed maximum chunk size")
+
         self._initialized = True
 
     def process(self, data: Dict[str, Any]) -> Dict[str, Any]:
@@ -96,9 +102,7 @@ class ChunkingProcessor(DocumentProcessor):
 
             # Try to break at separator boundary
             if end < len(text):
-                best_break = self._find_best_break(text, start, end)
-                if best_break > start + self.min_chunk_size:
-                    end = best_break
+                end = self._find_best_break(text, start, end)
 
             chunk_text = text[start:end].strip()
             if chunk_text:
@@ -117,6 +121,9 @@ class ChunkingProcessor(DocumentProcessor):
                 )
                 chunk_id += 1
 
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
@@ -124,63 +131,59 @@ class ChunkingProcessor(DocumentProcessor):
 
     def _semantic_chunking(self, text: str) -> List[Dict[str, Any]]:
         """Create semantic chunks based on content boundaries."""
-        chunks = []
+        chunks: List[Dict[str, Any]] = []
 
-        # Split by paragraphs first
-        paragraphs = text.split("\n\n")
-        current_chunk = ""
-        current_start = 0
-        chunk_id = 0
-
-        for paragraph in paragraphs:
-            paragraph = paragraph.strip()
-            if not paragraph:
-                continue
-
-            # If adding this paragraph would exceed chunk size, finalize current chunk
-            if current_chunk and len(current_chunk) + len(paragraph) > self.chunk_size:
-                if current_chunk:
-                    chunks.append(
-                        {
-                            "id": chunk_id,
-                            "text": current_chunk.strip(),
-                            "start_pos": current_start,
-                            "end_pos": current_start + len(current_chunk),
-                            "length": len(current_chunk.strip()),
-                            "metadata": {
-                                "chunk_type": "semantic",
-                                "strategy": self.strategy,
-                            },
-                        }
-                    )
-                    chunk_id += 1
-
-                # Start new chunk with overlap
-                overlap_text = (
-                    current_chunk[-self.chunk_overlap :]
-                    if len(current_chunk) > self.chunk_overlap
-                    else ""
-                )
-                current_chunk = overlap_text + paragraph
-                current_start = max(
-                    0, current_start + len(current_chunk) - self.chunk_overlap
-                )
-            else:
-                current_chunk += "\n\n" + paragraph if current_chunk else paragraph
-
-        # Add final chunk
-        if current_chunk:
+        def add_chunk(start: int, end: int) -> None:
+            chunk_text = text[start:end].strip()
+            if not chunk_text:
+                return
             chunks.append(
                 {
-                    "id": chunk_id,
-                    "text": current_chunk.strip(),
-                    "start_pos": current_start,
-                    "end_pos": current_start + len(current_chunk),
-                    "length": len(current_chunk.strip()),
+                    "id": len(chunks),
+                    "text": chunk_text,
+                    "start_pos": start,
+                    "end_pos": end,
+                    "length": len(chunk_text),
                     "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
                 }
             )
 
+        # Split by paragraphs first, remembering where each one lies in the text
+        position = 0
+        start = end = None
+        for paragraph in text.split("\n\n"):
+            stripped = paragraph.strip()
+            para_start = position + paragraph.find(stripped)
+            para_end = para_start + len(stripped)
+            position += len(paragraph) + 2
+            if not stripped:
+                continue
+
+            if start is None:
+                start = para_start
+            elif para_end - start > self.chunk_size:
+                # Adding this paragraph would exceed chunk size: finalize current chunk
+                add_chunk(start, end)
+
+                # Start new chunk with overlap, as far as there is room for it
+                if end - start > self.chunk_overlap:
+                    overlap_start = end - self.chunk_overlap
+                    start = max(overlap_start, para_end - self.chunk_size)
+                    start = min(start, para_start)
+                else:
+                    start = para_start
+            end = para_end
+
+            # Split a paragraph that is too long for one chunk
+            while end - start > self.chunk_size:
+                cut = self._find_best_break(text, start, start + self.chunk_size)
+                add_chunk(start, cut)
+                start = cut - self.chunk_overlap
+
+        # Add final chunk
+        if start is not None:
+            add_chunk(start, end)
+
         return chunks
 
     def _sliding_window_chunking(self, text: str) -> List[Dict[str, Any]]:
@@ -193,7 +196,7 @@ class ChunkingProcessor(DocumentProcessor):
             end = min(i + window_size, len(text))
             chunk_text = text[i:end].strip()
 
-            if len(chunk_text) >= self.min_chunk_size:
+            if chunk_text and len(chunk_text) >= self.min_chunk_size:
                 chunks.append(
                     {
                         "id": len(chunks),
@@ -209,16 +212,21 @@ class ChunkingProcessor(DocumentProcessor):
                     }
                 )
 
+            if end >= len(text):
+                break
+
         return chunks
 
     def _find_best_break(self, text: str, start: int, end: int) -> int:
         """Find the best break point within the given range."""
         best_break = end
+        # Shorter chunks would consist of overlap only, or be dropped
+        shortest = max(self.min_chunk_size, self.chunk_overlap)
 
         for separator in self.separators:
             # Look for separator from the end backwards
             break_pos = text.rfind(separator, start, end)
-            if break_pos > start + self.min_chunk_size:
+            if break_pos > start + shortest:
                 best_break = break_pos + len(separator)
                 break
 
@@ -232,6 +240,7 @@ class ChunkingProcessor(DocumentProcessor):
 
         for chunk in chunks:
             if self.min_chunk_size <= len(chunk["text"]) <= self.max_chunk_size:
+                chunk["id"] = len(filtered_chunks)
                 filtered_chunks.append(chunk)
 
         return filtered_chunks
-- 
2.43.0


From 97649d8e4eaf10a2465fcf80841f31ff16b2181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 33/60] fix: cleaning removes tags that unicode normalization
 brings about, and filters stop words without the NLTK corpus

---
 src/valori/processors/cleaning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index abd7117..269016e 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -49,7 +49,7 @@ class CleaningProcessor(DocumentProcessor):
                 from nltk.corpus import stopwords
 
                 self._stopwords = set(stopwords.words(self.stopwords_language))
-            except ImportError:
+            except (ImportError, LookupError):
                 # Fallback to basic English stopwords
                 self._stopwords = {
                     "a",
@@ -124,15 +124,18 @@ class CleaningProcessor(DocumentProcessor):
         if not text:
             return text
 
-        # Remove HTML tags and decode HTML entities
+        # Decode HTML entities
         if self.remove_html:
             text = html.unescape(text)
-            text = re.sub(r"<[^>]+>", "", text)
 
         # Normalize Unicode characters
         if self.normalize_unicode:
             text = unicodedata.normalize("NFKD", text)
 
+        # Remove HTML tags, including those normalization brought about
+        if self.remove_html:
+            text = re.sub(r"<[^>]+>", "", text)
+
         # Remove special characters
         if self.remove_special_chars:
             text = re.sub(self.special_chars_pattern, " ", text)
-- 
2.43.0


From b04fa03e5c904e89354990c32d261cc0db8d8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 34/60] fix: pipeline starts afresh on initialize and hands
 parsers' configuration to the registry

---
 src/valori/processors/pipeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index e578735..6563f6c 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -28,10 +28,13 @@ class ProcessingPipeline:
 
     def initialize(self) -> None:
         """Initialize the processing pipeline."""
+        # Start without the stages of an earlier initialization
+        self.close()
+
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
-            self.parser_registry = ParserRegistry(parser_config)
+            self.parser_registry = ParserRegistry({"parsers": parser_config})
             self.parser_registry.initialize()
 
             # Initialize processors in order
-- 
2.43.0


From ca34c3d0d328055abcb099809416cf4b45017ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 35/60] fix: embeddings stay finite, aligned with chunks and
 independent of the cache; counts are exact

---
 src/valori/processors/embedding.py | 85 +++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 873450f..3f07ae2 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -38,9 +38,13 @@ class EmbeddingProcessor(DocumentProcessor):
         self._texts_processed = 0
         self._embeddings_generated = 0
         self._cache_hits = 0
+        self._dimension = None
 
     def initialize(self) -> None:
         """Initialize the embedding processor."""
+        if self.batch_size < 1:
+            raise ProcessingError(f"Batch size must be positive: {self.batch_size}")
+
         try:
             if self.model_type == "sentence_transformers":
                 self._initialize_sentence_transformers()
@@ -51,6 +55,7 @@ class EmbeddingProcessor(DocumentProcessor):
             else:
                 raise ProcessingError(f"Unsupported model type: {self.model_type}")
 
+            self._dimension = None
             self._initialized = True
         except Exception as e:
             raise ProcessingError(f"Failed to initialize embedding processor: {str(e)}")
@@ -130,9 +135,9 @@ class EmbeddingProcessor(DocumentProcessor):
         if "chunks" in data:
             chunk_embeddings = []
             for chunk in data["chunks"]:
-                if "text" in chunk:
-                    chunk_embedding = self._generate_embedding(chunk["text"])
-                    chunk_embeddings.append(chunk_embedding)
+                # One embedding for each chunk, also for a chunk without text
+                chunk_embedding = self._generate_embedding(chunk.get("text", ""))
+                chunk_embeddings.append(chunk_embedding)
 
             result_data["chunk_embeddings"] = chunk_embeddings
 
@@ -142,16 +147,28 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate embedding for a single text."""
         if not text or not text.strip():
             # Return zero vector for empty text
-            return np.zeros(384)  # Default dimension
+            return np.zeros(self.get_embedding_dimension())
 
         # Check cache
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
             if cache_key in self._cache:
                 self._cache_hits += 1
-                return self._cache[cache_key]
+                return self._cache[cache_key].copy()
 
-        # Generate embedding
+        embedding = self._compute_embedding(text)
+
+        # Cache embedding (a copy of its own, which the caller cannot change)
+        if self.cache_embeddings:
+            self._cache[cache_key] = embedding.copy()
+
+        self._texts_processed += 1
+        self._embeddings_generated += 1
+
+        return embedding
+
+    def _compute_embedding(self, text: str) -> np.ndarray:
+        """Compute the embedding of a non-empty text with the model."""
         if self.model_type == "sentence_transformers":
             embedding = self._generate_sentence_transformer_embedding(text)
         elif self.model_type == "openai":
@@ -163,18 +180,15 @@ class EmbeddingProcessor(DocumentProcessor):
 
         # Normalize embedding
         if self.normalize_embeddings:
-            embedding = embedding / np.linalg.norm(embedding)
-
-        # Cache embedding
-        if self.cache_embeddings:
-            cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding
-
-        self._texts_processed += 1
-        self._embeddings_generated += 1
+            embedding = self._normalize(embedding)
 
         return embedding
 
+    def _normalize(self, embedding: np.ndarray) -> np.ndarray:
+        """Scale an embedding to unit length (a zero embedding stays as it is)."""
+        norm = np.linalg.norm(embedding)
+        return embedding / norm if norm > 0 else embedding
+
     def _generate_sentence_transformer_embedding(self, text: str) -> np.ndarray:
         """Generate embedding using SentenceTransformers."""
         embedding = self._model.encode(text, convert_to_numpy=True)
@@ -219,7 +233,7 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate cache key for text."""
         # Use hash of text + model name for cache key
         content = f"{text}_{self.model_name}_{self.model_type}"
-        return hashlib.md5(content.encode()).hexdigest()
+        return hashlib.md5(content.encode(errors="surrogatepass")).hexdigest()
 
     def batch_process(self, texts: List[str]) -> List[np.ndarray]:
         """
@@ -240,26 +254,33 @@ class EmbeddingProcessor(DocumentProcessor):
             batch_texts = texts[i : i + self.batch_size]
 
             if self.model_type == "sentence_transformers":
-                batch_embeddings = self._model.encode(
-                    batch_texts, convert_to_numpy=True
+                # Empty texts get zero vectors, as they do one by one
+                to_encode = [text for text in batch_texts if text and text.strip()]
+                encoded = iter(
+                    self._model.encode(to_encode, convert_to_numpy=True)
+                    if to_encode
+                    else []
                 )
-                if self.normalize_embeddings:
-                    batch_embeddings = batch_embeddings / np.linalg.norm(
-                        batch_embeddings, axis=1, keepdims=True
-                    )
+                batch_embeddings = []
+                for text in batch_texts:
+                    if not text or not text.strip():
+                        embedding = np.zeros(self.get_embedding_dimension())
+                    else:
+                        embedding = next(encoded)
+                        if self.normalize_embeddings:
+                            embedding = self._normalize(embedding)
+                    batch_embeddings.append(embedding)
+                self._texts_processed += len(to_encode)
+                self._embeddings_generated += len(to_encode)
             else:
                 # Process individually for other model types
                 batch_embeddings = []
                 for text in batch_texts:
                     embedding = self._generate_embedding(text)
                     batch_embeddings.append(embedding)
-                batch_embeddings = np.array(batch_embeddings)
 
             embeddings.extend(batch_embeddings)
 
-        self._texts_processed += len(texts)
-        self._embeddings_generated += len(texts)
-
         return embeddings
 
     def get_embedding_dimension(self) -> int:
@@ -267,9 +288,10 @@ class EmbeddingProcessor(DocumentProcessor):
         if not self._initialized:
             return 0
 
-        # Generate a test embedding to determine dimension
-        test_embedding = self._generate_embedding("test")
-        return len(test_embedding)
+        # Compute a test embedding to determine dimension
+        if self._dimension is None:
+            self._dimension = len(self._compute_embedding("test"))
+        return self._dimension
 
     def clear_cache(self) -> None:
         """Clear the embedding cache."""
@@ -279,8 +301,9 @@ class EmbeddingProcessor(DocumentProcessor):
     def get_stats(self) -> Dict[str, Any]:
         """Get embedding processor statistics."""
         cache_hit_rate = 0
-        if self._embeddings_generated > 0:
-            cache_hit_rate = self._cache_hits / self._embeddings_generated
+        requests = self._cache_hits + self._embeddings_generated
+        if requests > 0:
+            cache_hit_rate = self._cache_hits / requests
 
         return {
             "processor_type": "embedding",
-- 
2.43.0


From 0ed5bc89486f76bf1a9e76ae0adcc70ab9d8d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 36/60] fix: text parser falls back to utf-8 when detection
 finds no encoding

---
 src/valori/parsers/text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index d3ac301..c3950f4 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -56,7 +56,7 @@ class TextParser(DocumentParser):
                 with open(file_path, "rb") as f:
                     raw_data = f.read()
                     detected = chardet.detect(raw_data)
-                    encoding = detected.get("encoding", "utf-8")
+                    encoding = detected.get("encoding") or "utf-8"
             else:
                 encoding = self.encoding
 
-- 
2.43.0


From cae0cee71405513d8680a17ff658b5340332c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 37/60] fix: page numbers of PDF chunks account for the blank
 line between pages

---
 src/valori/parsers/pdf_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index 7406546..1527a2b 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -217,5 +217,6 @@ class PDFParser(DocumentParser):
         for page_info in page_metadata:
             if position < current_pos + page_info["text_length"]:
                 return page_info["page_number"]
-            current_pos += page_info["text_length"]
+            # The next page's text follows after a blank line
+            current_pos += page_info["text_length"] + 2
         return page_metadata[-1]["page_number"] if page_metadata else 1
-- 
2.43.0


From bc05c324de887160e1e0e8f202bd3a2f33ee99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 38/60] fix: text of tables and grouped shapes on slides is
 extracted

---
 src/valori/parsers/office_parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index 8f378d5..0e54315 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -213,8 +213,7 @@ class OfficeParser(DocumentParser):
             slide_text = []
 
             for shape in slide.shapes:
-                if hasattr(shape, "text") and shape.text.strip():
-                    slide_text.append(shape.text.strip())
+                slide_text.extend(self._get_shape_texts(shape))
 
             if slide_text:
                 slide_content = "\n".join(slide_text)
@@ -252,6 +251,17 @@ class OfficeParser(DocumentParser):
             "structure": structure,
         }
 
+    def _get_shape_texts(self, shape) -> List[str]:
+        """Get the texts of a slide's shape, its table cells and its members."""
+        if getattr(shape, "has_table", False):
+            texts = [cell.text for row in shape.table.rows for cell in row.cells]
+        elif hasattr(shape, "shapes"):
+            return [t for member in shape.shapes for t in self._get_shape_texts(member)]
+        else:
+            texts = [getattr(shape, "text", "")]
+
+        return [text.strip() for text in texts if text.strip()]
+
     def get_supported_formats(self) -> List[str]:
         """Get supported Office file formats."""
         return [".docx", ".xlsx", ".xls", ".pptx"]
-- 
2.43.0


From 07c4adff3237bda7b61132aa0d81d899d7a5b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 39/60] fix: docling chunks name the element they start at

---
 src/valori/parsers/docling_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valori/parsers/docling_parser.py b/src/valori/parsers/docling_parser.py
index 0bd9471..acfc0f8 100644
--- a/src/valori/parsers/docling_parser.py
+++ b/src/valori/parsers/docling_parser.py
@@ -169,6 +169,7 @@ class DoclingParser(DocumentParser):
         chunks = []
         chunk_id = 0
         current_text = ""
+        start_element = 0
 
         for i, text_element in enumerate(text_elements):
             current_text += text_element + "\n"
@@ -179,7 +180,7 @@ class DoclingParser(DocumentParser):
                     {
                         "id": chunk_id,
                         "text": current_text.strip(),
-                        "start_element": chunk_id * self.chunk_size,
+                        "start_element": start_element,
                         "end_element": i,
                         "metadata": {
                             "chunk_type": "docling_segment",
@@ -189,6 +190,7 @@ class DoclingParser(DocumentParser):
                 )
                 chunk_id += 1
                 current_text = ""
+                start_element = i + 1
 
         # Add remaining text
         if current_text.strip():
@@ -196,7 +198,7 @@ class DoclingParser(DocumentParser):
                 {
                     "id": chunk_id,
                     "text": current_text.strip(),
-                    "start_element": chunk_id * self.chunk_size,
+                    "start_element": start_element,
                     "end_element": len(text_elements) - 1,
                     "metadata": {
                         "chunk_type": "docling_segment",
-- 
2.43.0


From df85c5be22a4d4b4886dc4cef16b248d44c61c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 40/60] fix: batch operations refuse a batch size below one and
 count failed queries and batches once

---
 src/valori/utils/batch_manager.py | 27 ++++++++++++++++-----------
 src/valori/utils/helpers.py       |  3 +++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index bdc98d9..80bb9bd 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -35,6 +35,9 @@ class BatchManager:
             batch_size: Size of each batch
             max_workers: Maximum number of worker threads
         """
+        if batch_size <= 0:
+            raise ValidationError(f"batch_size must be positive, got {batch_size}")
+
         self.batch_size = batch_size
         self.max_workers = max_workers
         self.progress_callback: Optional[Callable] = None
@@ -85,6 +88,16 @@ class BatchManager:
 
                 try:
                     batch_ids = client.insert(batch_vectors, batch_metadata)
+                except Exception as e:
+                    self._stats["failed_items"] = int(
+                        self._stats.get("failed_items", 0) or 0
+                    ) + len(batch_vectors)
+
+                    if self.error_callback:
+                        self.error_callback(e, batch_vectors)
+                    else:
+                        print(f"Error processing batch {i//self.batch_size + 1}: {e}")
+                else:
                     all_ids.extend(batch_ids)
 
                     self._stats["processed_items"] = int(
@@ -99,16 +112,6 @@ class BatchManager:
                             self._stats["processed_items"], self._stats["total_items"]
                         )
 
-                except Exception as e:
-                    self._stats["failed_items"] = int(
-                        self._stats.get("failed_items", 0) or 0
-                    ) + len(batch_vectors)
-
-                    if self.error_callback:
-                        self.error_callback(e, batch_vectors)
-                    else:
-                        print(f"Error processing batch {i//self.batch_size + 1}: {e}")
-
         finally:
             self._stats["end_time"] = time.time()
 
@@ -138,6 +141,7 @@ class BatchManager:
                 batch_queries = query_vectors[i : i + self.batch_size]
 
                 batch_results = []
+                failed = 0
                 for query in batch_queries:
                     try:
                         results = client.search(query, k=k)
@@ -145,6 +149,7 @@ class BatchManager:
 
                     except Exception as e:
                         batch_results.append([])
+                        failed += 1
                         self._stats["failed_items"] = (
                             int(self._stats.get("failed_items", 0) or 0) + 1
                         )
@@ -155,7 +160,7 @@ class BatchManager:
                 all_results.extend(batch_results)
                 self._stats["processed_items"] = int(
                     self._stats.get("processed_items", 0) or 0
-                ) + len(batch_queries)
+                ) + (len(batch_queries) - failed)
 
                 if show_progress:
                     self._print_progress()
diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 1fcc271..7dcfe27 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -240,6 +240,9 @@ def batch_search(
     Returns:
         List of search results for each query
     """
+    if batch_size <= 0:
+        raise ValidationError(f"batch_size must be positive, got {batch_size}")
+
     all_results = []
 
     for i in range(0, len(query_vectors), batch_size):
-- 
2.43.0


From 0550edb7c53b0360dabc5a88d0816fdeefb8e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 41/60] fix: similarity functions do not wrap around on integer
 vectors

---
 src/valori/utils/similarity.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/valori/utils/similarity.py b/src/valori/utils/similarity.py
index b3b7ae5..85e6ea1 100644
--- a/src/valori/utils/similarity.py
+++ b/src/valori/utils/similarity.py
@@ -7,6 +7,11 @@ from typing import Union
 import numpy as np
 
 
+def _as_float(array: np.ndarray) -> np.ndarray:
+    """Integers wrap around in sums and differences, floats do not."""
+    return array.astype(np.float64) if array.dtype.kind in "biu" else array
+
+
 def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     """
     Compute cosine similarity between two vectors.
@@ -24,6 +29,8 @@ def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     # Compute dot product
     dot_product = np.dot(a, b)
 
@@ -74,6 +81,8 @@ def euclidean_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     return np.linalg.norm(a - b)
 
 
@@ -94,6 +103,8 @@ def euclidean_distance_squared(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     diff = a - b
     return np.dot(diff, diff)
 
@@ -115,6 +126,8 @@ def dot_product(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     return np.dot(a, b)
 
 
@@ -135,6 +148,8 @@ def manhattan_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     return np.sum(np.abs(a - b))
 
 
@@ -155,6 +170,8 @@ def chebyshev_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     return np.max(np.abs(a - b))
 
 
@@ -243,6 +260,8 @@ def normalize_vector(vector: np.ndarray, norm: str = "l2") -> np.ndarray:
     if vector.ndim != 1:
         raise ValueError("Vector must be 1D")
 
+    vector = _as_float(vector)
+
     if norm == "l2":
         norm_value = np.linalg.norm(vector)
     elif norm == "l1":
@@ -275,6 +294,8 @@ def batch_cosine_similarity(vectors_a: np.ndarray, vectors_b: np.ndarray) -> np.
     if vectors_a.shape[1] != vectors_b.shape[1]:
         raise ValueError("Vectors must have the same dimension")
 
+    vectors_a, vectors_b = _as_float(vectors_a), _as_float(vectors_b)
+
     # Compute dot products
     dot_products = np.dot(vectors_a, vectors_b.T)
 
-- 
2.43.0


From 33347c7fac045c4fe8593f0f107229b7643f6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 42/60] fix: validators report non-numeric arrays and NaN
 settings as invalid

---
 src/valori/utils/validation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 7e057d2..87d2909 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -2,6 +2,7 @@
 Validation utilities for the valori vector database.
 """
 
+from numbers import Real
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -59,6 +60,9 @@ def validate_vector(
     if not allow_zero and np.all(vector == 0):
         raise ValidationError("Zero vector not allowed")
 
+    if vector.dtype.kind not in "biufc":
+        raise ValidationError("Vector must be numeric")
+
     # Check for NaN or infinite values
     if np.any(np.isnan(vector)) or np.any(np.isinf(vector)):
         raise ValidationError("Vector contains NaN or infinite values")
@@ -123,6 +127,9 @@ def validate_vectors(
         if np.any(zero_vectors):
             raise ValidationError("Zero vectors not allowed")
 
+    if vectors.dtype.kind not in "biufc":
+        raise ValidationError("Vectors must be numeric")
+
     # Check for NaN or infinite values
     if np.any(np.isnan(vectors)) or np.any(np.isinf(vectors)):
         raise ValidationError("Vectors contain NaN or infinite values")
@@ -182,8 +189,8 @@ def validate_config(
         for key, (min_val, max_val) in value_ranges.items():
             if key in config:
                 value = config[key]
-                if isinstance(value, (int, float)):
-                    if value < min_val or value > max_val:
+                if isinstance(value, Real):
+                    if not min_val <= value <= max_val:
                         raise ValidationError(
                             f"Key '{key}' value {value} is outside range [{min_val}, {max_val}]"
                         )
-- 
2.43.0


From 52542826d011e32cee9cba1d78db620c3aa923be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 43/60] fix: vector and index reports handle zero, single and
 deleted vectors, and count pairs once

---
 src/valori/utils/debugging.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 975934f..f7399d9 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -17,6 +17,7 @@ from typing import Any, Callable, Dict, List, Optional, Union
 import numpy as np
 
 from ..exceptions import ValidationError
+from .similarity import batch_cosine_similarity
 
 
 class PerformanceProfiler:
@@ -154,7 +155,7 @@ class VectorAnalyzer:
             "std": float(np.std(vectors)),
             "min": float(np.min(vectors)),
             "max": float(np.max(vectors)),
-            "sparsity": float(np.count_nonzero(vectors) / vectors.size),
+            "sparsity": float(1 - np.count_nonzero(vectors) / vectors.size),
         }
 
     def _distribution_analysis(self, vectors: np.ndarray) -> Dict[str, Any]:
@@ -192,18 +193,17 @@ class VectorAnalyzer:
         else:
             sample_vectors = vectors
 
-        # Normalize vectors
-        normalized = sample_vectors / np.linalg.norm(
-            sample_vectors, axis=1, keepdims=True
-        )
-
         # Compute pairwise similarities
-        similarity_matrix = np.dot(normalized, normalized.T)
+        similarity_matrix = batch_cosine_similarity(sample_vectors, sample_vectors)
 
-        # Remove diagonal (self-similarities)
-        mask = np.ones_like(similarity_matrix, dtype=bool)
-        np.fill_diagonal(mask, False)
-        similarities = similarity_matrix[mask]
+        # Take each pair once, without self-similarities
+        similarities = similarity_matrix[np.triu_indices(len(sample_vectors), k=1)]
+        if similarities.size == 0:
+            return {
+                "similarity_stats": {"mean": 0.0, "std": 0.0, "min": 0.0, "max": 0.0},
+                "high_similarity_pairs": 0,
+                "low_similarity_pairs": 0,
+            }
 
         return {
             "similarity_stats": {
@@ -261,6 +261,9 @@ class VectorAnalyzer:
     def print_analysis(self, vectors: np.ndarray):
         """Print vector analysis."""
         analysis = self.analyze_vectors(vectors)
+        if "error" in analysis:
+            print(analysis["error"])
+            return
 
         print("\n" + "=" * 60)
         print("VECTOR ANALYSIS")
@@ -452,6 +455,10 @@ class IndexInspector:
     def _inspect_vectors(self) -> Dict[str, Any]:
         """Inspect stored vectors."""
         vectors = getattr(self.index, "vectors", [])
+        if isinstance(vectors, dict):
+            vectors = vectors.values()
+        # Deleted vectors leave a gap
+        vectors = [vector for vector in vectors if vector is not None]
         if not vectors:
             return {"count": 0}
 
-- 
2.43.0


From 2bf9564defd704353562ed91d96fd7c74258d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 44/60] fix: normalised rows and cosine similarities are exact,
 also of integer vectors

---
 src/valori/utils/helpers.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 7dcfe27..b18de7f 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -15,6 +15,7 @@ from typing import Any, Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from ..exceptions import ValidationError
+from .similarity import _as_float, batch_cosine_similarity
 from .validation import validate_vector
 
 
@@ -130,22 +131,25 @@ def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     Returns:
         Normalized vectors
     """
+    vectors = _as_float(vectors)
+
     if method == "l2":
         norms = np.linalg.norm(vectors, axis=1, keepdims=True)
-        return vectors / (norms + 1e-8)
+        return vectors / np.where(norms == 0, 1, norms)
 
     elif method == "l1":
         norms = np.sum(np.abs(vectors), axis=1, keepdims=True)
-        return vectors / (norms + 1e-8)
+        return vectors / np.where(norms == 0, 1, norms)
 
     elif method == "max":
         max_vals = np.max(np.abs(vectors), axis=1, keepdims=True)
-        return vectors / (max_vals + 1e-8)
+        return vectors / np.where(max_vals == 0, 1, max_vals)
 
     elif method == "minmax":
         min_vals = np.min(vectors, axis=1, keepdims=True)
         max_vals = np.max(vectors, axis=1, keepdims=True)
-        return (vectors - min_vals) / (max_vals - min_vals + 1e-8)
+        ranges = max_vals - min_vals
+        return (vectors - min_vals) / np.where(ranges == 0, 1, ranges)
 
     else:
         raise ValidationError(f"Unknown normalization method: {method}")
@@ -164,10 +168,10 @@ def compute_similarity_matrix(
     Returns:
         Similarity matrix
     """
+    vectors = _as_float(vectors)
+
     if metric == "cosine":
-        # Normalize vectors
-        normalized = normalize_vectors(vectors, "l2")
-        return np.dot(normalized, normalized.T)
+        return batch_cosine_similarity(vectors, vectors)
 
     elif metric == "euclidean":
         # Convert to similarity (1 / (1 + distance))
-- 
2.43.0


From 2c58ef402d4c56f525c5a3a3eafe4b5aabc03b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 45/60] fix: vector files read back with their shape and type

---
 src/valori/utils/helpers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index b18de7f..d58722b 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -289,9 +289,11 @@ def save_vectors_to_file(
             "vectors": vectors.tolist(),
             "metadata": metadata,
             "shape": vectors.shape,
+            "dtype": str(vectors.dtype),
         }
+        text = json.dumps(data, indent=2)
         with open(filepath, "w") as f:
-            json.dump(data, f, indent=2)
+            f.write(text)
 
     else:
         raise ValidationError(f"Unknown format: {format}")
@@ -316,7 +318,7 @@ def load_vectors_from_file(
         vectors = data["vectors"]
         metadata = data["metadata"].tolist()
 
-    elif filepath.suffix == ".pkl":
+    elif filepath.suffix in (".pkl", ".pickle"):
         with open(filepath, "rb") as f:
             data = pickle.load(f)
             vectors = data["vectors"]
@@ -325,7 +327,9 @@ def load_vectors_from_file(
     elif filepath.suffix == ".json":
         with open(filepath, "r") as f:
             data = json.load(f)
-            vectors = np.array(data["vectors"])
+            vectors = np.array(data["vectors"], dtype=data.get("dtype"))
+            if "shape" in data:
+                vectors = vectors.reshape(data["shape"])
             metadata = data["metadata"]
 
     else:
-- 
2.43.0


From c29747f3a909910c6a51c9880f8e9592546d2880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 46/60] fix: creating vectors from files none of which can be
 read returns no vectors

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index d58722b..53a496f 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -115,7 +115,7 @@ def create_vectors_from_files(
     pipeline.close()
 
     if not all_vectors:
-        return np.array([]).reshape(0, -1), []
+        return np.empty((0, 0), dtype=np.float32), []
 
     return np.array(all_vectors), all_metadata
 
-- 
2.43.0


From a482e83c698bddc83582c81aec47336188e185ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 47/60] fix: memory usage decorator calls the function once

---
 src/valori/utils/helpers.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 53a496f..129154b 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -359,23 +359,22 @@ def memory_usage_decorator(func):
     def wrapper(*args, **kwargs):
         try:
             import psutil
+        except ImportError:
+            print("psutil not available for memory monitoring")
+            return func(*args, **kwargs)
 
-            process = psutil.Process()
-
-            # Get memory before
-            mem_before = process.memory_info().rss / 1024 / 1024  # MB
+        process = psutil.Process()
 
-            result = func(*args, **kwargs)
+        # Get memory before
+        mem_before = process.memory_info().rss / 1024 / 1024  # MB
 
-            # Get memory after
-            mem_after = process.memory_info().rss / 1024 / 1024  # MB
+        result = func(*args, **kwargs)
 
-            print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
-            return result
+        # Get memory after
+        mem_after = process.memory_info().rss / 1024 / 1024  # MB
 
-        except ImportError:
-            print("psutil not available for memory monitoring")
-            return func(*args, **kwargs)
+        print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
+        return result
 
     return wrapper
 
-- 
2.43.0


From 869447b3d5da0092603c11c4f72bf576ab45365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 48/60] fix: index performance can be measured on every index

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 129154b..df5d6c3 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -463,7 +463,7 @@ def validate_index_performance(
     # Add vectors
     start_time = time.time()
     metadata = [{"id": i} for i in range(len(test_vectors))]
-    ids = index.add(test_vectors, metadata)
+    index.insert(test_vectors, metadata)
 
     if hasattr(index, "build"):
         index.build()
-- 
2.43.0


From c0da1fc192ba79e29e0eab714271961592713917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 49/60] fix: configurations and templates use the options the
 components read

---
 src/valori/configs.py       | 29 ++++++++++++++++-------------
 src/valori/utils/helpers.py |  2 +-
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 1cb2eba..55c6f6a 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -5,6 +5,7 @@ This module provides ready-to-use configurations for common use cases,
 making it easy to get started with the vector database.
 """
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional
 
 # Index configurations for different scenarios
@@ -29,7 +30,7 @@ INDEX_CONFIGS: Dict[str, Any] = {
         },
         "hnsw_balanced": {
             "metric": "cosine",
-            "M": 16,
+            "m": 16,
             "ef_construction": 200,
             "ef_search": 50,
             "description": "Balanced speed and accuracy",
@@ -87,7 +88,7 @@ INDEX_CONFIGS: Dict[str, Any] = {
         },
         "hnsw_fast": {
             "metric": "cosine",
-            "M": 8,
+            "m": 8,
             "ef_construction": 100,
             "ef_search": 20,
             "description": "Fast HNSW configuration",
@@ -104,15 +105,14 @@ STORAGE_CONFIGS: Dict[str, Any] = {
     },
     "disk_only": {
         "type": "disk",
-        "config": {"data_dir": "./valori_data", "compression": True},
+        "config": {"data_dir": "./valori_data"},
         "description": "Disk storage for persistence",
     },
     "hybrid": {
         "type": "hybrid",
         "config": {
-            "memory_limit_mb": 1000,
-            "disk_path": "./valori_data",
-            "cache_size": 10000,
+            "memory_limit": 10000,
+            "disk": {"data_dir": "./valori_data"},
         },
         "description": "Hybrid memory/disk storage",
     },
@@ -385,15 +385,15 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
 
     category_configs = config_map[category]
 
+    # Callers may change what they get
+    if name in category_configs:
+        return deepcopy(category_configs[name])
+
     # Handle nested categories
     if category == "index":
         for subcategory, configs in category_configs.items():
             if name in configs:
-                return configs[name]
-    else:
-        if name not in category_configs:
-            raise ValueError(f"Unknown {category} config: {name}")
-        return category_configs[name]
+                return deepcopy(configs[name])
 
     raise ValueError(f"Unknown {category} config: {name}")
 
@@ -462,7 +462,7 @@ def get_recommended_config(
     """
     # Select index configuration
     if num_vectors < 1000:
-        index_config = get_config("index", "small_dataset")
+        index_config = get_config("index", "small_dataset")["flat"]
         index_name = "flat"
     elif num_vectors < 100000:
         if use_case == "speed":
@@ -482,7 +482,10 @@ def get_recommended_config(
         index_name = "ivf"
 
     # Select storage configuration
-    storage_config = get_config("storage", storage_type)
+    storage_names = {"memory": "memory_only", "disk": "disk_only"}
+    storage_config = get_config(
+        "storage", storage_names.get(storage_type, storage_type)
+    )
 
     # Select embedding configuration
     if dimension <= 384:
diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index df5d6c3..d91a724 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -409,7 +409,7 @@ def get_recommended_index_config(
                 "type": "hnsw",
                 "config": {
                     "metric": "cosine",
-                    "M": 16,
+                    "m": 16,
                     "ef_construction": 200,
                     "ef_search": 50,
                 },
-- 
2.43.0


From 43de0067f982d05f7620269777e351ac339c3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 50/60] fix: the factory applies every choice it is given

---
 src/valori/factory.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index d697224..3fa4342 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -5,6 +5,7 @@ This module provides convenient factory functions to create pre-configured
 vector database instances for common use cases.
 """
 
+from copy import deepcopy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -48,7 +49,10 @@ def create_vector_db(
         else:
             index_config["config"] = {}
     else:
-        index_config = get_recommended_index_config(num_vectors, dimension, use_case)
+        index_config = get_recommended_index_config(
+            num_vectors or 0, dimension or 0, use_case
+        )
+        index_config["config"].update(kwargs.get("index_config", {}))
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
@@ -117,18 +121,20 @@ def create_document_db(
 
     # Default index config for document search
     if index_type == "annoy":
-        db_config["index_config"] = {
+        default_index_config = {
             "metric": "angular",
             "num_trees": 20,
             "search_k": -1,
         }
+        db_config.setdefault("index_config", default_index_config)
     elif index_type == "hnsw":
-        db_config["index_config"] = {
+        default_index_config = {
             "metric": "cosine",
-            "M": 16,
+            "m": 16,
             "ef_construction": 200,
             "ef_search": 50,
         }
+        db_config.setdefault("index_config", default_index_config)
 
     client = create_vector_db(**db_config)
 
@@ -171,6 +177,7 @@ def create_semantic_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    _build_index(client)
 
     return client
 
@@ -209,6 +216,7 @@ def create_image_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    _build_index(client)
 
     return client
 
@@ -251,19 +259,22 @@ def create_hybrid_search_db(
         "storage_type": "memory",
         "dimension": vectors.shape[1],
         "num_vectors": len(vectors),
-        "index_config": {
+        **kwargs,
+    }
+    if db_config["index_type"] == "hnsw":
+        default_index_config = {
             "metric": "cosine",
-            "M": 16,
+            "m": 16,
             "ef_construction": 200,
             "ef_search": 50,
-        },
-        **kwargs,
-    }
+        }
+        db_config.setdefault("index_config", default_index_config)
 
     client = create_vector_db(**db_config)
 
     # Add vectors
     client.insert(vectors, combined_metadata)
+    _build_index(client)
 
     return client
 
@@ -284,6 +295,12 @@ def _create_index(index_type: str, config: Dict[str, Any]):
         raise ValueError(f"Unknown index type: {index_type}")
 
 
+def _build_index(client: VectorDBClient) -> None:
+    """Make the inserted vectors searchable in indexes that have to be built."""
+    if hasattr(client.index, "build"):
+        client.index.build()
+
+
 def _create_storage(storage_type: str, config: Dict[str, Any]):
     """Create storage instance based on type."""
     if storage_type == "memory":
@@ -379,7 +396,7 @@ TEMPLATES = {
         "storage_type": "memory",
         "index_config": {
             "metric": "cosine",
-            "M": 16,
+            "m": 16,
             "ef_construction": 200,
             "ef_search": 50,
         },
@@ -403,7 +420,10 @@ def create_from_template(template_name: str, **overrides) -> VectorDBClient:
             f"Unknown template: {template_name}. Available: {list(TEMPLATES.keys())}"
         )
 
-    config = TEMPLATES[template_name].copy()
+    config = deepcopy(TEMPLATES[template_name])
+    if overrides.get("index_type", config["index_type"]) != config["index_type"]:
+        # The template's index configuration is for another index
+        config.pop("index_config", None)
     config.update(overrides)
 
     return create_vector_db(**config)
-- 
2.43.0


From 3ef70aaff56f56ec1f34b5af673a50e5b17e9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 51/60] fix: the tree index uses its random seed

---
 src/valori/indices/annoy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 837aacf..74da7b4 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -365,6 +365,8 @@ class AnnoyIndex(Index):
         """Create the Annoy index instance."""
         # Annoy library AnnoyIndex constructor only accepts dimension and metric
         self._annoy_index = self.annoy.AnnoyIndex(self.dimension, self.metric)
+        if self.random_seed is not None:
+            self._annoy_index.set_seed(self.random_seed)
 
     def _distance_to_similarity(self, distance: float) -> float:
         """Convert Annoy distance to similarity score."""
-- 
2.43.0


From 99cf093d072cf2b54509f7f3bdbcba7570214e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 52/60] fix: an index whose initialisation failed stays closed

---
 src/valori/indices/flat.py | 3 ++-
 src/valori/indices/hnsw.py | 4 +++-
 src/valori/indices/ivf.py  | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index cc259c0..f5c0aeb 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -33,7 +33,7 @@ class FlatIndex(Index):
     def initialize(self, storage_backend: StorageBackend) -> None:
         """Initialize the flat index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
+        self._initialized = False
 
         # Load existing vectors if any
         try:
@@ -42,6 +42,7 @@ class FlatIndex(Index):
             self.vector_ids = existing_ids
             self.vector_cache.clear()
             self._vector_count = len(self.vector_ids)
+            self._initialized = True
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize flat index: {str(e)}")
 
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 1c84d75..1a55ed5 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -43,7 +43,7 @@ class HNSWIndex(Index):
     def initialize(self, storage_backend) -> None:
         """Initialize the HNSW index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
+        self._initialized = False
 
         # Start from an empty graph with level 0
         self.levels = [{}]
@@ -60,6 +60,8 @@ class HNSWIndex(Index):
                 if result is not None:
                     vector, _ = result
                     self._insert_vector_internal(vector_id, vector)
+
+            self._initialized = True
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize HNSW index: {str(e)}")
 
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index b153813..2693baf 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -40,7 +40,7 @@ class IVFIndex(Index):
     def initialize(self, storage_backend: StorageBackend) -> None:
         """Initialize the IVF index with storage backend."""
         self.storage_backend = storage_backend
-        self._initialized = True
+        self._initialized = False
 
         # Load existing vectors if any
         try:
@@ -56,6 +56,8 @@ class IVFIndex(Index):
             # If we have enough vectors, retrain the index
             if len(self.vector_ids) >= self.n_clusters:
                 self._train_index()
+
+            self._initialized = True
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize IVF index: {str(e)}")
 
-- 
2.43.0


From e4e1a2aadc093c4bbb8c6aef4a073de001073402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 53/60] fix: a cleared tree index has its configured metric
 again

---
 src/valori/indices/annoy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 74da7b4..a1b68f3 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -325,6 +325,7 @@ class AnnoyIndex(Index):
         self.vectors.clear()
         self.metadata.clear()
         self.dimension = None
+        self.metric = self.config.get("metric", "angular")  # load() changes it
         self._next_id = 0
         self._built = False
 
-- 
2.43.0


From f23dc9394b025e2b15472ed95bf2a3702d3113ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 54/60] fix: initialising SAQ again resets its statistics

---
 src/valori/quantization/saq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 3b625ef..8e8d746 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -68,6 +68,11 @@ class SAQQuantizer(Quantizer):
         self.segment_quantizers = []
         self.full_precision_vectors = None
         self.dim = None
+        self.stats = {
+            "compression_ratio": 0.0,
+            "segmentation_time": 0.0,
+            "adjustment_improvements": [],
+        }
         self._trained = False
         self._initialized = True
 
-- 
2.43.0


From 959eee9d1a2cb0808608223e411f1844d91311e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 55/60] fix: flat search computes euclidean distances without
 cancellation

---
 src/valori/indices/flat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index f5c0aeb..41e171b 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -6,7 +6,7 @@ import uuid
 from typing import Any, Dict, List, Optional
 
 import numpy as np
-from sklearn.metrics.pairwise import cosine_similarity, euclidean_distances
+from sklearn.metrics.pairwise import cosine_similarity
 
 from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
@@ -103,6 +103,8 @@ class FlatIndex(Index):
             if not self.vector_ids:
                 return []
 
+            self._check_vectors(query_vector[None], self.vector_ids)
+
             # Limit k to available vectors
             k = min(k, len(self.vector_ids))
 
@@ -138,7 +140,9 @@ class FlatIndex(Index):
                 # Convert to distances (1 - similarity for sorting)
                 distances = 1 - similarities
             elif self.metric == "euclidean":
-                distances = euclidean_distances([query_vector], vectors_array)[0]
+                # From the differences: sums of products lose close, large vectors
+                differences = vectors_array.astype(np.float64) - query_vector
+                distances = np.linalg.norm(differences, axis=1)
             else:
                 raise ValoriIndexError(f"Unsupported metric: {self.metric}")
 
-- 
2.43.0


From 7acf092c5e71fee1ead9ec2521531b7fba169e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:18 +0000
Subject: [PATCH 56/60] fix: hybrid storage copies a record before changing
 either tier

---
 src/valori/storage/hybrid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 4cd35cc..9e0b0ab 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -4,6 +4,7 @@ Hybrid storage backend for the valori vector database.
 Combines memory and disk storage for optimal performance and persistence.
 """
 
+from copy import deepcopy
 from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -59,6 +60,10 @@ class HybridStorage(StorageBackend):
 
         try:
             with self.lock:
+                # Copy both parts before storing either of them
+                vector = vector.copy()
+                metadata = deepcopy(metadata)
+
                 # Memory must not keep an older version if the disk write fails
                 self.memory_storage.delete_vector(id)
 
@@ -139,6 +144,10 @@ class HybridStorage(StorageBackend):
 
         try:
             with self.lock:
+                # Copy both parts before storing either of them
+                vector = vector.copy()
+                metadata = deepcopy(metadata)
+
                 # Update in disk
                 disk_success = self.disk_storage.update_vector(id, vector, metadata)
 
-- 
2.43.0


From 8943784c248c7f1b658755ab7bf0694b6d03fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 57/60] fix: console messages were repeated by loggers that
 share the console, and by every debugging set-up

---
 src/valori/utils/debugging.py |  3 +++
 src/valori/utils/logging.py   | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index f7399d9..cb6e106 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -414,6 +414,9 @@ def setup_logging(level: str = "INFO", log_file: Optional[str] = None):
     logger = logging.getLogger("valori")
     logger.setLevel(log_level)
 
+    # Clear existing handlers
+    logger.handlers.clear()
+
     # Console handler
     console_handler = logging.StreamHandler()
     console_handler.setFormatter(formatter)
diff --git a/src/valori/utils/logging.py b/src/valori/utils/logging.py
index af6b49d..842d238 100644
--- a/src/valori/utils/logging.py
+++ b/src/valori/utils/logging.py
@@ -8,6 +8,26 @@ from pathlib import Path
 from typing import Any, Dict, Optional
 
 
+class _ConsoleHandler(logging.StreamHandler):
+    """Writes to the console what no handler further up writes there anyway."""
+
+    def __init__(self, logger: logging.Logger):
+        super().__init__(sys.stdout)
+        self.logger = logger
+
+    def filter(self, record):
+        logger = self.logger
+        while logger.propagate and logger.parent is not None:
+            logger = logger.parent
+            for handler in logger.handlers:
+                if (
+                    getattr(handler, "stream", None) is self.stream
+                    and record.levelno >= handler.level
+                ):
+                    return False
+        return super().filter(record)
+
+
 def get_logger(name: str, level: str = "INFO") -> logging.Logger:
     """
     Get a logger instance for the given name.
@@ -36,7 +56,7 @@ def get_logger(name: str, level: str = "INFO") -> logging.Logger:
     )
 
     # Create console handler
-    console_handler = logging.StreamHandler(sys.stdout)
+    console_handler = _ConsoleHandler(logger)
     console_handler.setLevel(numeric_level)
     console_handler.setFormatter(formatter)
     logger.addHandler(console_handler)
-- 
2.43.0


From 49ef62b1e4e7513f946b211cce4429fc6e833c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 58/60] fix: a store or update of something that is not an
 array failed half-way and left the memory store unusable

---
 src/valori/storage/hybrid.py | 6 ++++++
 src/valori/storage/memory.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 9e0b0ab..886bdb0 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -60,6 +60,9 @@ class HybridStorage(StorageBackend):
 
         try:
             with self.lock:
+                if not isinstance(vector, np.ndarray):
+                    raise StorageError("Vector must be a numpy array")
+
                 # Copy both parts before storing either of them
                 vector = vector.copy()
                 metadata = deepcopy(metadata)
@@ -144,6 +147,9 @@ class HybridStorage(StorageBackend):
 
         try:
             with self.lock:
+                if not isinstance(vector, np.ndarray):
+                    raise StorageError("Vector must be a numpy array")
+
                 # Copy both parts before storing either of them
                 vector = vector.copy()
                 metadata = deepcopy(metadata)
diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 0abfd2d..363fc06 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -49,6 +49,9 @@ class MemoryStorage(StorageBackend):
 
         try:
             with self.lock:
+                if not isinstance(vector, np.ndarray):
+                    raise StorageError("Vector must be a numpy array")
+
                 # Copy both parts before storing either of them
                 vector = vector.copy()
                 metadata = deepcopy(metadata)
@@ -124,6 +127,9 @@ class MemoryStorage(StorageBackend):
                 if id not in self.vectors:
                     return False
 
+                if not isinstance(vector, np.ndarray):
+                    raise StorageError("Vector must be a numpy array")
+
                 # Copy both parts before storing either of them
                 vector = vector.copy()
                 metadata = deepcopy(metadata)
-- 
2.43.0


From b707a2c051fa446697d70ba8edecc216ea4687f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 59/60] fix: a refused save of vectors leaves the file's
 earlier contents

---
 src/valori/utils/helpers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index d91a724..fa05986 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -5,6 +5,7 @@ This module provides convenient helper functions for common operations,
 making the vector database easier to use.
 """
 
+import io
 import json
 import pickle
 import time
@@ -277,11 +278,17 @@ def save_vectors_to_file(
     filepath = Path(filepath)
 
     if format == "npz":
-        np.savez_compressed(filepath, vectors=vectors, metadata=metadata)
+        # Complete the contents first: a failure must not damage an older file
+        buffer = io.BytesIO()
+        np.savez_compressed(buffer, vectors=vectors, metadata=metadata)
+        if not filepath.name.endswith(".npz"):
+            filepath = filepath.with_name(filepath.name + ".npz")
+        filepath.write_bytes(buffer.getvalue())
 
     elif format == "pickle":
+        content = pickle.dumps({"vectors": vectors, "metadata": metadata})
         with open(filepath, "wb") as f:
-            pickle.dump({"vectors": vectors, "metadata": metadata}, f)
+            f.write(content)
 
     elif format == "json":
         # Convert numpy arrays to lists for JSON serialization
-- 
2.43.0


From 1225be6395afaf70d06982c809e7146ec5b8be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 60/60] fix: performance validation without queries divided by
 zero

---
 src/valori/utils/helpers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index fa05986..0452914 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -485,8 +485,11 @@ def validate_index_performance(
         search_times.append(time.time() - start_time)
 
     # Calculate metrics
-    avg_search_time = np.mean(search_times)
-    search_throughput = len(test_queries) / sum(search_times)
+    total_search_time = sum(search_times)
+    avg_search_time = np.mean(search_times) if search_times else 0.0
+    search_throughput = (
+        len(test_queries) / total_search_time if total_search_time > 0 else 0.0
+    )
 
     return {
         "add_time": add_time,
-- 
2.43.0

