From 661a35fae5e3fecc4c95c813596f516c70dc3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 01/22] fix: filtered search does not return an entry point
 rejected by the filter

---
 src/hnsw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d23eb58..0b9f4be 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1520,8 +1520,10 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // get the min of K and ef points into a vector.
         //
         let last = knbn.min(ef).min(neighbours.len());
+        // the entry point of the search is kept in the heap even if the filter rejects it, it must not be returned
         let knn_neighbours: Vec<Neighbour> = neighbours[0..last]
             .iter()
+            .filter(|p| filter.map_or(true, |f| f.hnsw_filter(&p.point_ref.origin_id)))
             .map(|p| {
                 Neighbour::new(
                     p.as_ref().point_ref.origin_id,
-- 
2.43.0


From 9e7323b399f78e8badd1edddd5b9b988e1e87030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 02/22] fix: concurrent first insertions are linked to the
 graph instead of being lost

---
 src/hnsw.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 0b9f4be..00fa868 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1057,34 +1057,36 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (data, origin_id) = data_with_id;
         let keep_pruned = self.keep_pruned;
         // insert in indexation and get point_id adn generate a new entry_point if necessary
-        let (new_point, point_rank) = self
+        let (new_point, _) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
         // now real work begins
         // allocate a binary heap
         let level = new_point.p_id.0;
-        let mut enter_point_copy = None;
-        let mut max_level_observed = 0;
-        // entry point has been set in
-        {
-            // I open a read lock on an option
-            if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
-                enter_point_copy = Some(Arc::clone(arc_point));
-                if point_rank == 1 {
+        let mut enter_point_copy = self
+            .layer_indexed_points
+            .entry_point
+            .read()
+            .as_ref()
+            .map(Arc::clone);
+        if enter_point_copy.is_none() {
+            // With concurrent first insertions only one point initializes the entry point and can return directly,
+            // the others must be linked to the graph. So check again with a write lock.
+            let mut entry_point_ref = self.layer_indexed_points.entry_point.write();
+            match entry_point_ref.as_ref() {
+                Some(arc_point) => enter_point_copy = Some(Arc::clone(arc_point)),
+                None => {
                     debug!(
                         "Hnsw  stored first point , direct return  {:?} ",
                         new_point.p_id
                     );
+                    *entry_point_ref = Some(Arc::clone(&new_point));
                     return;
                 }
-                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
             }
         }
-        if enter_point_copy.is_none() {
-            self.layer_indexed_points.check_entry_point(&new_point);
-            return;
-        }
+        let max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
         let mut dist_to_entry = self
             .dist_f
             .eval(data, enter_point_copy.as_ref().unwrap().data.get_v());
-- 
2.43.0


From a189e78bd95e8b5c7c8d8326062a7f85b3d49f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 03/22] fix: reverse neighbour update does not hold a lock on
 the new point while locking its neighbours

---
 src/hnsw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 00fa868..5684a32 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1223,7 +1223,9 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         );
         let level = new_point.p_id.0;
         for l in (0..level + 1).rev() {
-            for q in &new_point.neighbours.read()[l as usize] {
+            // new_point can already be seen by other threads : do not keep a lock on its neighbours while locking those of q_point
+            let neighbours_l = new_point.neighbours.read()[l as usize].clone();
+            for q in &neighbours_l {
                 if new_point.p_id != q.point_ref.p_id {
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
-- 
2.43.0


From faf2ad4000a5d67b0e235ed86a0344b12028e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 04/22] fix: point iterators neither panic on an empty index
 nor lock the layers twice

---
 src/hnsw.rs | 44 +++++++++++++-------------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 5684a32..cbca5be 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -624,7 +624,7 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
 /// The iteration begins at level 0 (most populated level) and goes upward in levels.
 /// The iterator takes a ReadGuard on the PointIndexation structure
 pub struct IterPoint<'a, 'b, T: Clone + Send + Sync + 'b> {
-    point_indexation: &'a PointIndexation<'b, T>,
+    _point_indexation: &'a PointIndexation<'b, T>,
     pi_guard: RwLockReadGuard<'a, Vec<Layer<'b, T>>>,
     layer: i64,
     slot_in_layer: i64,
@@ -634,7 +634,7 @@ impl<'a, 'b, T: Clone + Send + Sync> IterPoint<'a, 'b, T> {
     pub fn new(point_indexation: &'a PointIndexation<'b, T>) -> Self {
         let pi_guard: RwLockReadGuard<Vec<Layer<'b, T>>> = point_indexation.points_by_layer.read();
         IterPoint {
-            point_indexation,
+            _point_indexation: point_indexation,
             pi_guard,
             layer: -1,
             slot_in_layer: -1,
@@ -651,32 +651,18 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
-        if (self.slot_in_layer as usize) < self.pi_guard[self.layer as usize].len() {
+        // all layers are seen through the guard owned by the iterator. Locking again points_by_layer could deadlock
+        // with a waiting writer, and there is no entry point if no point was inserted.
+        while (self.layer as usize) < self.pi_guard.len() {
             let slot = self.slot_in_layer as usize;
-            self.slot_in_layer += 1;
-            Some(self.pi_guard[self.layer as usize][slot].clone())
-        } else {
-            self.slot_in_layer = 0;
-            self.layer += 1;
-            // must reach a non empty layer if possible
-            let entry_point_ref = self.point_indexation.entry_point.read();
-            let points_by_layer = self.point_indexation.points_by_layer.read();
-            let entry_point_level = entry_point_ref.as_ref().unwrap().p_id.0;
-            while (self.layer as u8) <= entry_point_level
-                && points_by_layer[self.layer as usize].is_empty()
-            {
-                self.layer += 1;
-            }
-            // now here either  (self.layer as u8) > self.point_indexation.max_level_observed
-            // or self.point_indexation.points_by_layer[self.layer as usize ].len() > 0
-            if (self.layer as u8) <= entry_point_level {
-                let slot = self.slot_in_layer as usize;
+            if let Some(point) = self.pi_guard[self.layer as usize].get(slot) {
                 self.slot_in_layer += 1;
-                Some(points_by_layer[self.layer as usize][slot].clone())
-            } else {
-                None
+                return Some(point.clone());
             }
+            self.slot_in_layer = 0;
+            self.layer += 1;
         }
+        None
     } // end of next
 } // end of impl Iterator
 
@@ -715,13 +701,9 @@ impl<'b, T: Clone + Send + Sync + 'b> Iterator for IterPointLayer<'_, 'b, T> {
     type Item = Arc<Point<'b, T>>;
     //
     fn next(&mut self) -> Option<Self::Item> {
-        if (self.slot_in_layer) < self.pi_guard[self.layer].len() {
-            let slot = self.slot_in_layer;
-            self.slot_in_layer += 1;
-            Some(self.pi_guard[self.layer][slot].clone())
-        } else {
-            None
-        }
+        let point = self.pi_guard.get(self.layer)?.get(self.slot_in_layer)?;
+        self.slot_in_layer += 1;
+        Some(point.clone())
     } // end of next
 } // end of impl Iterator
 
-- 
2.43.0


From 31d64079b3cfa88d75993772201e405b79031a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 05/22] fix: max_nb_connection of 256 is rejected as it is
 stored in a u8

---
 src/hnsw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index cbca5be..16f3e08 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -760,8 +760,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let extend_candidates = false;
         let keep_pruned = false;
         //
-        if max_nb_connection > 256 {
-            println!("error max_nb_connection must be less equal than 256");
+        if max_nb_connection >= 256 {
+            println!("error max_nb_connection must be less than 256");
             std::process::exit(1);
         }
         //
-- 
2.43.0


From 20595a7a2597031da622bea070e3b23f04fe7210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 06/22] fix: level scale is restored at reload as it was dumped

---
 src/hnsw.rs   |  9 ++-------
 src/hnswio.rs | 11 +++++------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 16f3e08..af52a26 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -334,16 +334,11 @@ impl LayerGenerator {
     }
 
     // new when we know scale used. Should replace the one without scale
-    pub(crate) fn new_with_scale(
-        max_nb_connection: usize,
-        scale_factor: f64,
-        maxlevel: usize,
-    ) -> Self {
-        let scale_default = 1. / (max_nb_connection as f64).ln();
+    pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
             rng: Arc::new(Mutex::new(StdRng::from_entropy())),
             unif: Uniform::<f64>::new(0., 1.),
-            scale: scale_default * scale_factor,
+            scale,
             maxlevel,
         }
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ea845f5..3705dad 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -770,11 +770,7 @@ impl HnswIo {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
-            layer_g: LayerGenerator::new_with_scale(
-                descr.max_nb_connection as usize,
-                descr.level_scale,
-                NB_LAYER_MAX as usize,
-            ),
+            layer_g: LayerGenerator::new_with_scale(descr.level_scale, NB_LAYER_MAX as usize),
             nb_point: Arc::new(RwLock::new(nb_points_loaded)), // CAVEAT , we should increase , the whole thing is to be able to increment graph ?
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
@@ -979,11 +975,14 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     info!(" max_nb_connection {:?} ", descr.max_nb_connection);
     //
     if descr.format_version == 4 {
-        // we read modification for level sampling
+        // we read scale used in level sampling
         let mut it_slice = [0u8; std::mem::size_of::<f64>()];
         io_in.read_exact(&mut it_slice)?;
         descr.level_scale = f64::from_ne_bytes(it_slice);
         info!(" level scale : {:.2e}", descr.level_scale);
+    } else {
+        // scale was not dumped, it was always the default one
+        descr.level_scale = 1. / (descr.max_nb_connection as f64).ln();
     }
     //
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-- 
2.43.0


From 6f75d2f2f7d743f277e2e5cf7216e1440e206273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 07/22] fix: reload of a truncated or corrupted dump returns an
 error instead of panicking or exiting

---
 src/hnswio.rs | 136 +++++++++++++++++++++++++++-----------------------
 1 file changed, 73 insertions(+), 63 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 3705dad..0eaac9e 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -413,7 +413,7 @@ impl HnswIo {
         let mut graph_in = BufReader::new(graphfile);
         let data_in = BufReader::new(datafile);
         // we need to call load_description first to get distance name
-        let hnsw_description = load_description(&mut graph_in).unwrap();
+        let hnsw_description = load_description(&mut graph_in)?;
         //
         Ok(LoadInit {
             descr: hnsw_description,
@@ -451,19 +451,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("bad magic at beginning of data file"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -550,19 +551,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("bad magic at beginning of data file"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -634,7 +636,11 @@ impl HnswIo {
                 descr.t_name,
                 std::any::type_name::<T>()
             );
-            panic!("incohrent size of T in description");
+            return Err(anyhow!(
+                "typename in dump {:?} do not correspond to type asked for {:?}",
+                descr.t_name,
+                std::any::type_name::<T>()
+            ));
         }
         //
         let mut points_by_layer: Vec<Vec<Arc<Point<T>>>> =
@@ -700,18 +706,19 @@ impl HnswIo {
                 let point = load_point_res.0;
                 let p_id = point.get_point_id();
                 // some checks
-                assert_eq!(l, p_id.0 as usize);
-                if r != p_id.1 as usize {
+                if l != p_id.0 as usize || r != p_id.1 as usize {
                     debug!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
                     debug!("Storing at l {:?}, r {:?}", l, r);
+                    return Err(anyhow!("point id do not correspond to its position"));
                 }
-                assert_eq!(r, p_id.1 as usize);
                 // store neoghbour info of this point
                 neighbourhood_map.insert(p_id, load_point_res.1);
                 vlayer.push(point);
                 nb_points_loaded += 1;
                 nb_still_to_load -= 1;
-                assert!(nb_still_to_load >= 0);
+                if nb_still_to_load < 0 {
+                    return Err(anyhow!("more points than announced in description"));
+                }
             }
             points_by_layer.push(vlayer);
         }
@@ -721,7 +728,13 @@ impl HnswIo {
             let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
             for (l, neighbours) in neighbours.iter().enumerate() {
                 for n in neighbours {
-                    let n_point = &points_by_layer[n.p_id.0 as usize][n.p_id.1 as usize];
+                    let n_point = points_by_layer
+                        .get(n.p_id.0 as usize)
+                        .and_then(|layer| layer.get(n.p_id.1 as usize))
+                        .ok_or(anyhow!("neighbour not found in loaded points"))?;
+                    if n.distance.is_nan() {
+                        return Err(anyhow!("distance to a neighbour is not a number"));
+                    }
                     // now n_point is the Arc<Point> corresponding to neighbour n of point,
                     // construct a corresponding PointWithOrder
                     let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
@@ -759,7 +772,11 @@ impl HnswIo {
             "found entry point, origin_id {:?} , layer {:?}, rank in layer {:?} ",
             origin_id, layer, rank_in_l
         );
-        let entry_point = Arc::clone(&points_by_layer[layer as usize][rank_in_l as usize]);
+        let entry_point = points_by_layer
+            .get(layer as usize)
+            .and_then(|points| points.get(rank_in_l as usize))
+            .map(Arc::clone)
+            .ok_or(anyhow!("entry point not found in loaded points"))?;
         info!(
             " loaded entry point, origin_id {:} p_id {:?}",
             entry_point.get_origin_id(),
@@ -809,12 +826,8 @@ impl HnswIo {
         //
         let point = match point_use_mmap {
             false => {
-                let v = load_point_data::<T>(origin_id, data_in, descr);
-                if v.is_err() {
-                    error!("loading point {:?}", origin_id);
-                    std::process::exit(1);
-                }
-                Point::<T>::new(v.unwrap(), origin_id, p_id)
+                let v = load_point_data::<T>(origin_id, data_in, descr)?;
+                Point::<T>::new(v, origin_id, p_id)
             }
             true => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
@@ -989,6 +1002,9 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     io_in.read_exact(&mut it_slice)?;
     descr.nb_layer = u8::from_ne_bytes(it_slice);
     info!("nb_layer  {:?} ", descr.nb_layer);
+    if descr.nb_layer > NB_LAYER_MAX {
+        return Err(anyhow!("bad number of layers in description"));
+    }
     // ef
     let mut it_slice = [0u8; std::mem::size_of::<usize>()];
     io_in.read_exact(&mut it_slice)?;
@@ -1018,7 +1034,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut distv = vec![0; len];
     io_in.read_exact(distv.as_mut_slice())?;
-    let distname = String::from_utf8(distv).unwrap();
+    let distname = String::from_utf8(distv)?;
     debug!("distance name {:?} ", distname);
     descr.distname = distname;
     // reload of type name
@@ -1032,7 +1048,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut tnamev = vec![0; len];
     io_in.read_exact(tnamev.as_mut_slice())?;
-    let t_name = String::from_utf8(tnamev).unwrap();
+    let t_name = String::from_utf8(tnamev)?;
     debug!("T type name {:?} ", t_name);
     descr.t_name = t_name;
     debug!(" end of description load \n");
@@ -1131,19 +1147,16 @@ where
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
+    if magic != MAGICDATAP {
+        return Err(anyhow!("bad magic in data file, point_id : {:?} ", origin_id));
+    }
     // read origin id
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
+    if origin_id != origin_id_data {
+        return Err(anyhow!("origin_id incoherent between graph and data"));
+    }
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
@@ -1154,7 +1167,7 @@ where
 
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
-            2 => bincode::deserialize(&v_serialized).unwrap(),
+            2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
                 let slice_t = unsafe {
                     std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
@@ -1166,7 +1179,7 @@ where
                     "error in load_point, unknow format_version : {:?}",
                     descr.format_version
                 );
-                std::process::exit(1);
+                return Err(anyhow!("unknown format version"));
             }
         }
     } else {
@@ -1182,19 +1195,16 @@ fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Descriptio
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
+    if magic != MAGICDATAP {
+        return Err(anyhow!("bad magic in data file, point_id : {:?} ", origin_id));
+    }
     // read origin id
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
+    if origin_id != origin_id_data {
+        return Err(anyhow!("origin_id incoherent between graph and data"));
+    }
     //
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
@@ -1222,23 +1232,23 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
     trace!("in load_point_graph");
     // read and check magic
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
     if magic != MAGICPOINT {
         error!("got instead of MAGICPOINT {:x}", magic);
         return Err(anyhow!("bad magic at point beginning"));
     }
     let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let origin_id = DataId::from_ne_bytes(it_slice);
     //
     // read point_id
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let layer = u8::from_ne_bytes(it_slice);
     //
     let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let rank_in_l = i32::from_ne_bytes(it_slice);
     let p_id = PointId(layer, rank_in_l);
     debug!(
@@ -1253,24 +1263,24 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
         let mut neighbour: Neighbour = Default::default();
         // read nb_neighbour as usize!!! CAUTION, then nb_neighbours times identity(depends on Full or Light) distance : f32
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
-        graph_in.read_exact(&mut it_slice).unwrap();
+        graph_in.read_exact(&mut it_slice)?;
         let nb_neighbours = usize::from_ne_bytes(it_slice);
         let mut neighborhood_l: Vec<Neighbour> = Vec::with_capacity(nb_neighbours);
         for _j in 0..nb_neighbours {
             let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.d_id = DataId::from_ne_bytes(it_slice);
             if descr.dumpmode == 1 {
                 let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.0 = u8::from_ne_bytes(it_slice);
                 //
                 let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.1 = i32::from_ne_bytes(it_slice);
             }
             let mut it_slice = [0u8; std::mem::size_of::<f32>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.distance = f32::from_ne_bytes(it_slice);
             //  debug!("        voisins  load {:?} {:?} {:?} ", neighbour.p_id, neighbour.d_id , neighbour.distance);
             // now we have a new neighbour, we must really fill neighbourhood info, so it means going from Neighbour to PointWithOrder
-- 
2.43.0


From 3ca10a4c1e6eeb51282dabd23891c3bffceb64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 08/22] fix: reload does not allocate memory from sizes read in
 a corrupted dump

---
 src/hnswio.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 0eaac9e..b95a68a 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -672,7 +672,11 @@ impl HnswIo {
             graph_in.read_exact(&mut it_slice)?;
             let nbpoints = usize::from_ne_bytes(it_slice);
             debug!(" layer {:?} , nb points {:?}", l, nbpoints);
-            let mut vlayer: Vec<Arc<Point<T>>> = Vec::with_capacity(nbpoints);
+            if nbpoints > descr.nb_point {
+                return Err(anyhow!("more points in layer than announced in description"));
+            }
+            // no reservation, a size read in file cannot be trusted before points are really read
+            let mut vlayer: Vec<Arc<Point<T>>> = Vec::new();
             // load graph and data part of point. Points are dumped in the same order.
             for r in 0..nbpoints {
                 // do we use mmap? for this point. We must load into memory up to threshold points, and we also want the  most
@@ -1129,6 +1133,16 @@ fn dump_point<T: Serialize + Clone + Sized + Send + Sync, W: Write>(
     Ok(1)
 } // end of dump for Point<T>
 
+// reads the bytes of a data vector. Memory is allocated only for data really present in the file.
+fn read_serialized(data_in: &mut dyn Read, serialized_len: u64) -> Result<Vec<u8>> {
+    let mut v_serialized = Vec::<u8>::new();
+    data_in.take(serialized_len).read_to_end(&mut v_serialized)?;
+    if v_serialized.len() as u64 != serialized_len {
+        return Err(anyhow!("data file is truncated"));
+    }
+    Ok(v_serialized)
+}
+
 // just reload data vector for point from file where data were dumped
 // used when we do not used memory map in reload
 fn load_point_data<T>(
@@ -1162,8 +1176,7 @@ where
     data_in.read_exact(&mut it_slice)?;
     let serialized_len = u64::from_ne_bytes(it_slice);
     trace!("serialized len to reload {:?}", serialized_len);
-    let mut v_serialized = vec![0; serialized_len as usize];
-    data_in.read_exact(&mut v_serialized)?;
+    let v_serialized = read_serialized(data_in, serialized_len)?;
 
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
@@ -1214,8 +1227,7 @@ fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Descriptio
         "skip_point_data : serialized len to reload {:?}",
         serialized_len
     );
-    let mut v_serialized = vec![0; serialized_len as usize];
-    data_in.read_exact(&mut v_serialized)?;
+    read_serialized(data_in, serialized_len)?;
     //
     Ok(())
 } // end of skip_point_data
@@ -1265,7 +1277,7 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         graph_in.read_exact(&mut it_slice)?;
         let nb_neighbours = usize::from_ne_bytes(it_slice);
-        let mut neighborhood_l: Vec<Neighbour> = Vec::with_capacity(nb_neighbours);
+        let mut neighborhood_l: Vec<Neighbour> = Vec::new();
         for _j in 0..nb_neighbours {
             let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
             graph_in.read_exact(&mut it_slice)?;
-- 
2.43.0


From fbc8f01754c13a3fc40c2608d746202c8d3ee8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 09/22] fix: data vectors are reloaded with the length they
 were dumped with

---
 src/hnswio.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index b95a68a..d3994bf 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1182,8 +1182,16 @@ where
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
+                // vectors can have different lengths, so the length is the dumped one and not descr.dimension
+                let size_t = std::mem::size_of::<T>().max(1);
+                if v_serialized.len() % size_t != 0 {
+                    return Err(anyhow!("length of data incoherent with size of type"));
+                }
                 let slice_t = unsafe {
-                    std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
+                    std::slice::from_raw_parts(
+                        v_serialized.as_ptr() as *const T,
+                        v_serialized.len() / size_t,
+                    )
                 };
                 slice_t.to_vec()
             }
-- 
2.43.0


From e90f2fbc06a9d1d86689cad39d38c9db86b62328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 10/22] fix: a reloaded index has all the layers the level
 generator can use

---
 src/hnswio.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index d3994bf..3a5bf38 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -726,6 +726,8 @@ impl HnswIo {
             }
             points_by_layer.push(vlayer);
         }
+        // levels will be generated up to NB_LAYER_MAX by insertions following the reload
+        points_by_layer.resize_with(NB_LAYER_MAX as usize, Vec::new);
         // at this step all points are loaded , but without their neighbours fileds are not yet initialized
         let mut nbp: usize = 0;
         for (p_id, neighbours) in &neighbourhood_map {
-- 
2.43.0


From ceda5294a3ae5c0bcc59647b3b40e398c00a71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 11/22] fix: DataMap finds the graph file when given a relative
 directory

---
 src/datamap.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 3bce7c3..854b7bf 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -47,7 +47,6 @@ impl DataMap {
     ) -> Result<DataMap, String> {
         // reload description to have data type, and check for dump version
         let mut graphpath = PathBuf::from(dir);
-        graphpath.push(dir);
         let mut filename = file_name.to_string();
         filename.push_str(".hnsw.graph");
         graphpath.push(filename);
-- 
2.43.0


From 139310d3a7726e7bde0ea07b74c1cc10c0539d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 12/22] fix: DataMap checks the data file, and gives access to
 the dumped bytes of each vector only

---
 src/datamap.rs | 115 +++++++++++++++++++++----------------------------
 1 file changed, 48 insertions(+), 67 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 854b7bf..0711b0e 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -30,8 +30,6 @@ pub struct DataMap {
     hmap: IndexMap<DataId, usize>,
     /// type name of Data
     t_name: String,
-    /// dimension of data vector
-    dimension: usize,
     //
     distname: String,
 } // end of DataMap
@@ -53,12 +51,13 @@ impl DataMap {
         let graphfileres = OpenOptions::new().read(true).open(&graphpath);
         if graphfileres.is_err() {
             println!("DataMap: could not open file {:?}", graphpath.as_os_str());
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", graphpath));
         }
         let graphfile = graphfileres.unwrap();
         let mut graph_in = BufReader::new(graphfile);
         // we need to call load_description first to get distance name
-        let hnsw_description = hnswio::load_description(&mut graph_in).unwrap();
+        let hnsw_description =
+            hnswio::load_description(&mut graph_in).map_err(|e| e.to_string())?;
         if hnsw_description.format_version <= 2 {
             let msg = String::from("from_hnsw::from_hnsw : data mapping is only possible for dumps with the version > 0.1.19 of this crate");
             error!(
@@ -93,24 +92,24 @@ impl DataMap {
         let meta = std::fs::metadata(&datapath);
         if meta.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", datapath));
         }
-        let fsize = meta.unwrap().len().try_into().unwrap();
+        let fsize = meta.unwrap().len() as usize;
         //
         let file_res = File::open(&datapath);
         if file_res.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", datapath));
         }
         let file = file_res.unwrap();
         let offset = 0;
         //
-        let mmap_opt = MmapOptions::new(fsize).unwrap();
+        let mmap_opt = MmapOptions::new(fsize).map_err(|e| e.to_string())?;
         let mmap_opt = unsafe { mmap_opt.with_file(&file, offset) };
         let mapping_res = mmap_opt.map();
         if mapping_res.is_err() {
             error!("Could not memory map : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not memory map {:?}", datapath));
         }
         let mmap = mapping_res.unwrap();
         //
@@ -119,22 +118,30 @@ impl DataMap {
         // where are we in decoding mmap slice? at beginning
         //
         let mapped_slice = mmap.as_slice();
+        if mapped_slice.len() < fsize {
+            return Err(format!("could not memory map {:?}", datapath));
+        }
+        let mapped_slice = &mapped_slice[..fsize];
+        let truncated = || String::from("data file is truncated");
+        // returns len bytes of mapped slice beginning at address
+        let get_bytes = |address: usize, len: usize| {
+            let end = address.checked_add(len).ok_or_else(truncated)?;
+            mapped_slice.get(address..end).ok_or_else(truncated)
+        };
         //
         // where are we in decoding mmap slice?
         let mut current_mmap_addr = 0usize;
         let mut usize_slice = [0u8; std::mem::size_of::<usize>()];
         // check magic
         let mut u32_slice = [0u8; std::mem::size_of::<u32>()];
-        u32_slice.copy_from_slice(
-            &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
-        );
+        u32_slice.copy_from_slice(get_bytes(current_mmap_addr, std::mem::size_of::<u32>())?);
         current_mmap_addr += std::mem::size_of::<u32>();
         let magic = u32::from_ne_bytes(u32_slice);
-        assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+        if magic != MAGICDATAP {
+            return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+        }
         // get dimension
-        usize_slice.copy_from_slice(
-            &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<usize>()],
-        );
+        usize_slice.copy_from_slice(get_bytes(current_mmap_addr, std::mem::size_of::<usize>())?);
         current_mmap_addr += std::mem::size_of::<usize>();
         let dimension = usize::from_ne_bytes(usize_slice);
         if dimension != descr_dimension {
@@ -147,70 +154,42 @@ impl DataMap {
         }
         //
         // now we know that each record consists in
-        //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
+        //   - MAGICDATAP (u32), DataId  (u64), length in bytes of vector (u64) and then the bytes of vector.
+        //     Vectors can have different lengths.
         //
-        let record_size = std::mem::size_of::<u32>()
-            + 2 * std::mem::size_of::<u64>()
-            + dimension * std::mem::size_of::<T>();
-        let residual = mmap.size() - current_mmap_addr;
-        info!(
-            "Mmap size {}, current_mmap_addr {}, residual : {}",
-            mmap.size(),
-            current_mmap_addr,
-            residual
-        );
-        let nb_record = residual / record_size;
-        debug!("Record size : {}, nb_record : {}", record_size, nb_record);
-        // allocate hmap with correct capacity
-        let mut hmap = IndexMap::<DataId, usize>::with_capacity(nb_record);
+        let mut hmap = IndexMap::<DataId, usize>::new();
         // fill hmap to have address of each data point in file
         let mut u64_slice = [0u8; std::mem::size_of::<u64>()];
         //
         // now we loop on records
         //
-        for i in 0..nb_record {
-            debug!("Record i : {}, addr : {}", i, current_mmap_addr);
+        while current_mmap_addr < fsize {
+            debug!("Record addr : {}", current_mmap_addr);
             // decode Magic
-            u32_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
-            );
+            u32_slice.copy_from_slice(get_bytes(current_mmap_addr, std::mem::size_of::<u32>())?);
             current_mmap_addr += std::mem::size_of::<u32>();
             let magic = u32::from_ne_bytes(u32_slice);
-            assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+            if magic != MAGICDATAP {
+                return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+            }
             // decode DataId
-            u64_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
-            );
+            u64_slice.copy_from_slice(get_bytes(current_mmap_addr, std::mem::size_of::<u64>())?);
             current_mmap_addr += std::mem::size_of::<u64>();
             let data_id = u64::from_ne_bytes(u64_slice) as usize;
             debug!(
                 "Inserting in hmap : got dataid : {:?} current map address : {:?}",
                 data_id, current_mmap_addr
             );
-            // Note we store address where we have to decode dimension*size_of::<T>  and full bson encoded vector
+            // Note we store address where we have to decode length in bytes and then the vector
             hmap.insert(data_id, current_mmap_addr);
             // now read serialized length
-            u64_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
-            );
+            u64_slice.copy_from_slice(get_bytes(current_mmap_addr, std::mem::size_of::<u64>())?);
             current_mmap_addr += std::mem::size_of::<u64>();
             let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
-            if i == 0 {
-                debug!("serialized bytes len to reload {:?}", serialized_len);
-            }
-            let mut v_serialized = vec![0; serialized_len];
-            v_serialized.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len],
-            );
-            current_mmap_addr += serialized_len;
-            let slice_t =
-                unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, dimension) };
-            trace!(
-                "Deserialized v : {:?} address : {:?} ",
-                slice_t,
-                v_serialized.as_ptr() as *const T
-            );
-        } // end of for on record
+            trace!("serialized bytes len {:?}", serialized_len);
+            // check the vector is completely in file
+            current_mmap_addr += get_bytes(current_mmap_addr, serialized_len)?.len();
+        } // end of while on records
           //
         debug!("End of DataMap::from_hnsw.");
         //
@@ -219,7 +198,6 @@ impl DataMap {
             mmap,
             hmap,
             t_name,
-            dimension: descr_dimension,
             distname,
         };
         //
@@ -282,12 +260,15 @@ impl DataMap {
         let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
         current_mmap_addr += std::mem::size_of::<u64>();
         trace!("Serialized bytes len to reload {:?}", serialized_len);
-        let slice_t = unsafe {
-            std::slice::from_raw_parts(
-                mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                self.dimension,
-            )
-        };
+        // the length of the vector is the dumped one, it can be different from dimension
+        let bytes = &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len];
+        let data_ptr = bytes.as_ptr() as *const T;
+        let size_t = std::mem::size_of::<T>().max(1);
+        if bytes.len() % size_t != 0 || data_ptr.align_offset(std::mem::align_of::<T>()) != 0 {
+            debug!("data for id : {} cannot be accessed as a slice", dataid);
+            return None;
+        }
+        let slice_t = unsafe { std::slice::from_raw_parts(data_ptr, bytes.len() / size_t) };
         Some(slice_t)
     }
 
-- 
2.43.0


From d50dbc5341d766c2553a1dbe27f6e0c3eb0c25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 13/22] fix: reload returns an error if mmap is asked for and
 cannot be used

---
 src/hnswio.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 3a5bf38..f8a294f 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -494,12 +494,12 @@ impl HnswIo {
         // Do we use mmap at reload
         if self.options.use_mmap().0 {
             let datamap_res = DataMap::from_hnswdump::<T>(self.dir.as_path(), &self.basename);
-            if datamap_res.is_err() {
-                error!("load_hnsw could not initialize mmap")
-            } else {
-                info!("reload using mmap");
-                self.datamap = Some(datamap_res.unwrap());
+            if let Err(msg) = datamap_res {
+                error!("load_hnsw could not initialize mmap");
+                return Err(anyhow!("could not initialize mmap : {}", msg));
             }
+            info!("reload using mmap");
+            self.datamap = datamap_res.ok();
         }
         // reloader can use datamap
         let layer_point_indexation = self.load_point_indexation(graph_in, &description, data_in)?;
@@ -836,10 +836,23 @@ impl HnswIo {
                 Point::<T>::new(v, origin_id, p_id)
             }
             true => {
-                skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
                 debug!("constructing point from datamap, dataid : {:?}", origin_id);
-                let s: Option<&'b [T]> = self.datamap.as_ref().unwrap().get_data::<T>(&origin_id);
-                Point::<T>::new_from_mmap(s.unwrap(), origin_id, p_id)
+                let datamap = self
+                    .datamap
+                    .as_ref()
+                    .ok_or(anyhow!("mmap asked for but not initialized"))?;
+                let s: Option<&'b [T]> = datamap.get_data::<T>(&origin_id);
+                match s {
+                    Some(s) => {
+                        skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
+                        Point::<T>::new_from_mmap(s, origin_id, p_id)
+                    }
+                    None => {
+                        // data cannot be used in place (not correctly aligned for T), must be loaded in memory
+                        let v = load_point_data::<T>(origin_id, data_in, descr)?;
+                        Point::<T>::new(v, origin_id, p_id)
+                    }
+                }
             }
         };
         self.nb_point_loaded.fetch_add(1, Ordering::Relaxed);
-- 
2.43.0


From d41f51a5b9adf79b8728d6abbed405573e412c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 14/22] fix: load_hnsw_with_dist flags the index as possibly
 mmapped, so that a dump do not overwrite its data

---
 src/hnswio.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index f8a294f..567101b 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -605,7 +605,7 @@ impl HnswIo {
             data_dimension: data_dim,
             dist_f: f,
             searching: false,
-            datamap_opt: false,
+            datamap_opt: true, // set datamap_opt to true as in load_hnsw, data can be in a mmap
         };
         //
         debug!("load_hnsw_with_dist completed");
-- 
2.43.0


From 7e10c73066c4142597df9376fe13c22c3519b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 15/22] fix: load_hnsw_description fills nb_point and dumpmode

---
 src/libext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libext.rs b/src/libext.rs
index 76bfd62..3f7176a 100644
--- a/src/libext.rs
+++ b/src/libext.rs
@@ -1191,10 +1191,11 @@ pub unsafe extern "C" fn load_hnsw_description(
                 let t_name_len = t_name.len();
                 std::mem::forget(t_name);
 
-                ffi_description.dumpmode = 1; // CAVEAT
+                ffi_description.dumpmode = description.dumpmode;
                 ffi_description.max_nb_connection = description.max_nb_connection;
                 ffi_description.nb_layer = description.nb_layer;
                 ffi_description.ef = description.ef;
+                ffi_description.nb_point = description.nb_point;
                 ffi_description.data_dimension = description.dimension;
                 ffi_description.distname_len = distname_len;
                 ffi_description.distname = distname_ptr;
-- 
2.43.0


From 4bf1c9647a962442ee1581eabaf88989ad0a7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 16/22] fix: check_data_type compares type names and not crate
 names

---
 src/datamap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 0711b0e..dfef5aa 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -215,19 +215,19 @@ impl DataMap {
         // we check last part of name of type
         let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
 
-        if tname_vec.last().is_none() {
+        if tname_vec.first().is_none() {
             let errmsg = "DataMap::check_data_type() cannot determine data type name ";
             error!("DataMap::check_data_type() cannot determine data type name ");
             std::panic!("DataMap::check_data_type(), {}", errmsg);
         }
-        let tname_last = tname_vec.last().unwrap();
+        let tname_last = tname_vec.first().unwrap();
         //
         let datat_name_arg = std::any::type_name::<T>().to_string();
         let datat_name_vec = datat_name_arg
             .rsplit_terminator("::")
             .collect::<Vec<&str>>();
 
-        let datat_name_arg_last = datat_name_vec.last().unwrap();
+        let datat_name_arg_last = datat_name_vec.first().unwrap();
         //
         if datat_name_arg_last == tname_last {
             true
-- 
2.43.0


From 8b5535d7184abcf7fcd1adf54c40a85d8a61b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 17/22] fix: file_dump returns an error if dump files cannot be
 opened

---
 src/api.rs    |  2 +-
 src/hnswio.rs | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 5d75fbc..dacbe11 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -71,7 +71,7 @@ where
         //
         // do not overwrite if mmap is active
         let overwrite = !self.get_datamap_opt();
-        let mut dumpinit = DumpInit::new(path, file_basename, overwrite);
+        let mut dumpinit = DumpInit::try_new(path, file_basename, overwrite)?;
         let dumpname = dumpinit.get_basename().clone();
         //
         let res = self.dump(DumpMode::Full, &mut dumpinit);
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 567101b..2f3c04f 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -151,6 +151,12 @@ pub struct DumpInit {
 impl DumpInit {
     // This structure will check existence of dumps of same name and generate a unique filename if necessary according to overwrite flag
     pub fn new(dir: &Path, basename_default: &str, overwrite: bool) -> Self {
+        DumpInit::try_new(dir, basename_default, overwrite)
+            .unwrap_or_else(|e| std::panic::panic_any(e.to_string()))
+    }
+
+    // same as new but returns an error if files cannot be opened
+    pub(crate) fn try_new(dir: &Path, basename_default: &str, overwrite: bool) -> Result<Self> {
         // if we cannot overwrite data files (in case of mmap in particular)
         // we will ensure we have a unique basename
         let basename = match overwrite {
@@ -203,7 +209,7 @@ impl DumpInit {
                 "HnswIo::reload_hnsw : could not open file {:?}",
                 graphpath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
+            return Err(anyhow!("HnswIo::init : could not open file"));
         }
         let graphfile = graphfileres.unwrap();
         //  same thing for data file
@@ -221,18 +227,18 @@ impl DumpInit {
                 "HnswIo::init : could not open file {:?}",
                 datapath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
+            return Err(anyhow!("HnswIo::init : could not open file"));
         }
         let datafile = datafileres.unwrap();
         //
         let graph_out = BufWriter::new(graphfile);
         let data_out = BufWriter::new(datafile);
         //
-        DumpInit {
+        Ok(DumpInit {
             basename,
             data_out,
             graph_out,
-        }
+        })
     }
 
     /// returns the basename used for the dump. May be it has been made unique to void overwriting a previous or mmapped dump
-- 
2.43.0


From 0fc483d79d6f177d2f35b570eba31dfe18960a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 18/22] fix: an empty vector is reloaded from a dump without
 reading an unallocated address

---
 src/hnswio.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 2f3c04f..39f64db 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1203,6 +1203,10 @@ where
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
+                if v_serialized.is_empty() {
+                    // no memory was allocated, there is no address to get a slice from
+                    return Ok(Vec::new());
+                }
                 // vectors can have different lengths, so the length is the dumped one and not descr.dimension
                 let size_t = std::mem::size_of::<T>().max(1);
                 if v_serialized.len() % size_t != 0 {
-- 
2.43.0


From 26327f2529fcb5ae10c49c0a09cdfb5c4d744d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 19/22] fix: filtered search asking for 0 neighbour does not
 panic

---
 src/hnsw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index af52a26..5eaa297 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1484,7 +1484,7 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             }
         } // end on for on layers
           // ef must be greater than knbn. Possibly it should be between knbn and self.max_nb_connection
-        let ef = ef_arg.max(knbn);
+        let ef = ef_arg.max(knbn).max(1);
         log::debug!("pivot changed , current pivot {:?}", pivot.get_point_id());
         // search lowest non empty layer (in case of search with incomplete lower layer at beginning of hnsw filling)
         let mut l = 0u8;
-- 
2.43.0


From a171b59d326d4c43144fac219c6d3aa78e968c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 20/22] fix: refuse to dump names which load_description
 refuses

---
 src/hnswio.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 39f64db..e0916f7 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -66,6 +66,9 @@ const MAGICLAYER: u32 = 0x000a676f;
 // magic head of data file and before each data vector
 pub(crate) const MAGICDATAP: u32 = 0xa67f0000;
 
+// maximum length of the names of distance and data type in a description
+const MAX_NAME_LEN: usize = 256;
+
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub enum DumpMode {
     Light,
@@ -938,6 +941,12 @@ impl Description {
         info!("dumping dimension of data {:?}", self.dimension);
         out.write_all(&self.dimension.to_ne_bytes())?;
 
+        // names longer than what load_description accepts would give a dump impossible to reload
+        if self.distname.len() > MAX_NAME_LEN || self.t_name.len() > MAX_NAME_LEN {
+            return Err(anyhow!(
+                "dump of Description, distance or type name too long"
+            ));
+        }
         // dump of distance name
         let namelen: usize = self.distname.len();
         info!("distance name {:?} ", self.distname);
@@ -1052,7 +1061,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     io_in.read_exact(&mut it_slice)?;
     let len: usize = usize::from_ne_bytes(it_slice);
     debug!("length of distance name {:?} ", len);
-    if len > 256 {
+    if len > MAX_NAME_LEN {
         info!(" length of distance name > 256");
         println!(" length of distance name should not exceed 256");
         return Err(anyhow!("bad length for distance name"));
@@ -1067,7 +1076,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     io_in.read_exact(&mut it_slice)?;
     let len: usize = usize::from_ne_bytes(it_slice);
     debug!("length of T  name {:?} ", len);
-    if len > 256 {
+    if len > MAX_NAME_LEN {
         println!(" length of T name should not exceed 256");
         return Err(anyhow!("bad lenght for T name"));
     }
-- 
2.43.0


From 41d6caaefb8bfd4dcfa90053cfa590783c14b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 21/22] fix: compare distance names at reload without dropping
 the head of generic names

---
 src/hnswio.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index e0916f7..49b6974 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -481,13 +481,9 @@ impl HnswIo {
         // for that we check for short names equality stripping
         debug!("distance in description = {:?}", distname);
         let d_type_name = type_name::<D>().to_string();
-        let d_type_name_split: Vec<&str> = d_type_name.rsplit_terminator("::").collect();
-        for s in &d_type_name_split {
-            info!(" distname in generic type argument {:?}", s);
-        }
-        let distname_split: Vec<&str> = distname.rsplit_terminator("::").collect();
+        info!(" distname in generic type argument {:?}", d_type_name);
         if (std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>())
-            && (d_type_name_split[0] != distname_split[0])
+            && (short_typename(&d_type_name) != short_typename(&distname))
         {
             // for all types except NoData , distance asked in reload declaration and distance in dump must be equal!
             let mut errmsg = String::from("error in distances : dumped distance is : ");
@@ -1173,6 +1169,13 @@ fn read_serialized(data_in: &mut dyn Read, serialized_len: u64) -> Result<Vec<u8
     Ok(v_serialized)
 }
 
+// name of a type without the path of modules it begins with. Type arguments are kept.
+fn short_typename(name: &str) -> &str {
+    let args = name.find('<').unwrap_or(name.len());
+    let begin = name[..args].rfind("::").map_or(0, |i| i + 2);
+    &name[begin..]
+}
+
 // just reload data vector for point from file where data were dumped
 // used when we do not used memory map in reload
 fn load_point_data<T>(
-- 
2.43.0


From f42da4eee04459ef0948170010822882948cd241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 22/22] fix: DataMap::check_data_type compares the complete
 type names

---
 src/datamap.rs | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index dfef5aa..1559f93 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -212,29 +212,13 @@ impl DataMap {
     where
         T: 'static + Sized,
     {
-        // we check last part of name of type
-        let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
-
-        if tname_vec.first().is_none() {
-            let errmsg = "DataMap::check_data_type() cannot determine data type name ";
-            error!("DataMap::check_data_type() cannot determine data type name ");
-            std::panic!("DataMap::check_data_type(), {}", errmsg);
-        }
-        let tname_last = tname_vec.first().unwrap();
-        //
-        let datat_name_arg = std::any::type_name::<T>().to_string();
-        let datat_name_vec = datat_name_arg
-            .rsplit_terminator("::")
-            .collect::<Vec<&str>>();
-
-        let datat_name_arg_last = datat_name_vec.first().unwrap();
-        //
-        if datat_name_arg_last == tname_last {
+        let datat_name_arg = std::any::type_name::<T>();
+        if datat_name_arg == self.t_name {
             true
         } else {
             info!(
                 "Data type in DataMap : {},  type arg = {}",
-                tname_last, datat_name_arg_last
+                self.t_name, datat_name_arg
             );
             false
         }
-- 
2.43.0

