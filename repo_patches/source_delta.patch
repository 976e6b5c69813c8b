From 57ceee039c25da9ff2915abde6b463ab43371908 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 01/24] fix: uniform-field advance counted the last full
 segment of particles twice

---
 Particle_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a00f317..8480182 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2282,7 +2282,9 @@ class Particle_C(object):
             (npSeg, psegIn) = sap.get_next_segment("in")
 
         # Set values that will be used to keep track of the particle arrays
-        particleCount += ipOut
+        # (If ipOut == SEGMENT_LENGTH, that full segment has already been counted above)
+        if ipOut != self.SEGMENT_LENGTH:
+            particleCount += ipOut
         sap.set_number_of_items("out", particleCount)
 
         return
-- 
2.43.0


From 8a63dfe70de05a9998f8a23ae9a98015ec2342ba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 02/24] fix: emptied particle storage showed a segment of
 deleted particles and could not be refilled

---
 SegmentedArrayPair_Module.py | 3 +++
 cpp/SegmentedArrayPair.h     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index c31db72..540b88f 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -485,6 +485,9 @@ class SegmentedArrayPair_C(object):
         # Compute the segment and offset of the last item. The
         # zero-based index of the last item is n_items-1
         (seg, offset) = divmod(n_items-1, self.segment_length)
+        # If there are no items, the first free place is the start of the first segment.
+        if n_items == 0:
+            (seg, offset) = (0, -1)
         
         # print("set_number_of_itemsA: first_not_full_segment=", self.first_not_full_segment[theSA])
         self.first_not_full_segment[theSA] = seg
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 5c1c28f..77b82e7 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -234,6 +234,12 @@ namespace dnt
         // (seg, offset) = divmod(n_items-1, self.segment_length)
         auto seg = (py::ssize_t) (n_items-1) / segment_length;
         auto offset = (n_items - 1) % segment_length;
+        // If there are no items, the first free place is the start of the first segment.
+        if (n_items == 0)
+          {
+            seg = 0;
+            offset = -1;
+          }
 
         first_not_full_segment[theSA] = seg;
         first_available_offset[theSA] = offset+1;
-- 
2.43.0


From 48c441e94ee5cc4b2b872c355636797eeb5666c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 03/24] fix: adding particles after a loop over the segments
 failed or used the wrong segment

---
 SegmentedArrayPair_Module.py |  4 ++++
 cpp/SegmentedArrayPair.h     | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/SegmentedArrayPair_Module.py b/SegmentedArrayPair_Module.py
index 540b88f..b636555 100644
--- a/SegmentedArrayPair_Module.py
+++ b/SegmentedArrayPair_Module.py
@@ -103,6 +103,10 @@ class SegmentedArrayPair_C(object):
         # Abbreviations
         outSA = self.out_segmented_array
 
+        # Items are added to the last segment in use, wherever a loop over the segments
+        # has left the current segment.
+        self.current_segment[outSA] = self.first_not_full_segment[outSA]
+
         # If we've reached the end of the current segment, we need to switch to the next
         # segment, if there is one, or else add a new segment.
         if self.first_available_offset[outSA] == self.segment_length:
diff --git a/cpp/SegmentedArrayPair.h b/cpp/SegmentedArrayPair.h
index 77b82e7..114ca69 100644
--- a/cpp/SegmentedArrayPair.h
+++ b/cpp/SegmentedArrayPair.h
@@ -296,6 +296,10 @@ namespace dnt
            If we've reached the end of the current segment, we need to switch to the
            next segment, if there is one, or else add a new segment.
         */
+        // Items are added to the last segment in use, wherever a loop over the segments has
+        // left the current segment.
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         if (first_available_offset[outSA] == segment_length)
           {
             // If another segment is already available, use
@@ -365,6 +369,10 @@ namespace dnt
                   switch to the next segment, if there is one, or else add a new
                   segment.
         */
+        // Items are added to the last segment in use, wherever a loop over the segments has
+        // left the current segment.
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         if (first_available_offset[outSA] == segment_length)
           {
             // If another segment is already available, use
@@ -426,6 +434,10 @@ namespace dnt
           If we've reached the end of the current segment, we need to switch to the
           next segment, if there is one, or else add a new segment.
         */
+        // Items are added to the last segment in use, wherever a loop over the segments has
+        // left the current segment.
+        current_segment[outSA] = first_not_full_segment[outSA];
+
         if (first_available_offset[outSA] == segment_length)
           {
             // If another segment is already available, use
-- 
2.43.0


From 1ba994dd33edf01ec1ff0bc8302284e5e78794d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 04/24] fix: C++ cartesian_xy neutral advance passed a wrong
 path start to the facet search

---
 cpp/advance_neutral_species_cartesian_xy.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index e3d9376..eac778b 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -181,11 +181,11 @@
                 pCoord2[0] = psegOut[ipOut].x_;
                 pCoord2[1] = psegOut[ipOut].y_;
                 // Starting particle position in this cell
-                pCoord2[3] = psegOut[ipOut].x0_;
-                pCoord2[4] = psegOut[ipOut].y0_;
+                pCoord2[pDim] = psegOut[ipOut].x0_;
+                pCoord2[pDim+1] = psegOut[ipOut].y0_;
                 // The move vector in this cell
-                dx[0] = pCoord2[0] - pCoord2[3];
-                dx[1] = pCoord2[1] - pCoord2[4];
+                dx[0] = pCoord2[0] - pCoord2[pDim];
+                dx[1] = pCoord2[1] - pCoord2[pDim+1];
 
                 // bool returnStdArray = true;
                 bool returnStdArray = false;
-- 
2.43.0


From 27a16188b2a9e437b01deaf75816c5044b61c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 05/24] fix: C++ cartesian_xy advance recorded a stale y field
 at boundary crossings

---
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 7439943..6d2118e 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -365,13 +365,13 @@
                             auto EsegProxy = EsegPtr->mutable_unchecked<2>();
                             auto E_arrProxy = E1.mutable_unchecked<2>();
                             E_arrProxy(0, 0) = EsegProxy(ipIn, 0);
-                            // E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
+                            E_arrProxy(0, 1) = EsegProxy(ipIn, 1);
                             // E_arrProxy(0, 2) = EsegProxy(ipIn, 2);
                             // External E
                             auto EextProxy = Eext.mutable_unchecked<2>();
                             auto Eext_arrProxy = Eext1.mutable_unchecked<2>();
                             Eext_arrProxy(0, 0) = EextProxy(ipIn, 0);
-                            // Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
+                            Eext_arrProxy(0, 1) = EextProxy(ipIn, 1);
                             // Eext_arrProxy(0, 2) = EextProxy(ipIn, 2);
                             //end
                             // Record the data for the trajectory
-- 
2.43.0


From 6b7b5518eef6bf6a23999cc477205d42abb6488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 06/24] fix: neutral advance hid its move vector from
 reflecting boundary functions and lost its error messages

---
 Particle_Module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 8480182..df3381e 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1898,6 +1898,8 @@ class Particle_C(object):
         """
 
         printInfoBoundaryCrossing = False
+
+        fncName = '('+__file__+') ' + self.__class__.__name__ + "." + sys._getframe().f_code.co_name + '():\n'
         
         # Set local names for the passed parameters
         dt = ctrl.dt
@@ -2018,7 +2020,7 @@ class Particle_C(object):
                         coord0 = coord+'0'
                         pCoord2[i+pDim] = psegOut[ipOut][coord0] # Start of path in this cell
                         i+=1
-                    dx = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
+                    dx[:] = pCoord2[0:pDim] - pCoord2[pDim:2*pDim] # Move vector
 
                     # could return the crossing-point in pCoord2[]
                     (cFacet, dxFraction, facetNormal) = pmesh_M.find_facet(pCoord2[pDim:2*pDim], dx, pCellIndex)
-- 
2.43.0


From 1203300c143ecae7d983e4cd2c77ef6aab536380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 07/24] fix: species number and kinetic energy included unused
 storage with C++ particle arrays

---
 Particle_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index df3381e..d0a1169 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -737,7 +737,7 @@ class Particle_C(object):
         # Loop over the particle "out" segments
         (npSeg, pseg) = sap.init_out_loop()
         while isinstance(pseg, np_m.ndarray):
-            species_number += np_m.sum(pseg['weight'])
+            species_number += np_m.sum(pseg['weight'][0:npSeg])
             (npSeg, pseg) = sap.get_next_segment("out")
 
         if printSpeciesNumberFlag:
@@ -799,7 +799,7 @@ class Particle_C(object):
         while isinstance(pseg, np_m.ndarray):
             # Sum of 0.5*m*u^2 for particles in this segment
             for ucomp in self.velocity_coordinates:
-                species_KE += np_m.sum(pseg['weight']*pseg[ucomp]**2)
+                species_KE += np_m.sum(pseg['weight'][0:npSeg]*pseg[ucomp][0:npSeg]**2)
             
             (npSeg, pseg) = sap.get_next_segment("out")
 
-- 
2.43.0


From 2f45a3b0bff0961310cd0b02aaf740b50eaf270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 08/24] fix: C++ charged-particle advance failed when no
 electric field was given

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index d0a1169..0c4dc56 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1403,7 +1403,7 @@ class Particle_C(object):
             if self.use_cpp_integrators is True:
                 # Advance the particles in this species with C++
                 # Pull out the field data needed for interpolation to the particles
-                negEfieldFunction = neg_E_field.function.cpp_object() # Received as a dolfin::Function*
+                negEfieldFunction = None if neg_E_field is None else neg_E_field.function.cpp_object() # Received as a dolfin::Function*
                 self.integrators[sn](self, sn, ctrl, neg_E_field=negEfieldFunction, external_E_field=external_E_field, accel_only=accel_only)
             else:
                 # Advance the particles in this species with Python
-- 
2.43.0


From 97f56964bf3a4983184e0453e6eff48b4e115d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 09/24] fix: limiting the number of history points raised a
 NameError

---
 RecordedData_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RecordedData_Module.py b/RecordedData_Module.py
index 02ce0c6..d52048c 100644
--- a/RecordedData_Module.py
+++ b/RecordedData_Module.py
@@ -124,7 +124,7 @@ class History_C(object):
         if histin.max_points is None:
             self.skip = 1
         else:
-            self.skip = int(ctrl.n_timesteps/max_points + 1)
+            self.skip = int(ctrl.n_timesteps/histin.max_points + 1)
 
         # Length of history-data arrays
         self.npoints = int(ctrl.n_timesteps/self.skip + 1)
-- 
2.43.0


From 502faed7d78906022f7a83dd6724665167d8207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:28 +0000
Subject: [PATCH 10/24] fix: advance failed when a field was switched off for
 one of the species

---
 Particle_Module.py                                    | 11 ++++++++++-
 ...advance_charged_species_in_E_field_cartesian_x.cpp |  5 +++++
 ...dvance_charged_species_in_E_field_cartesian_xy.cpp |  5 +++++
 ...advance_charged_species_in_E_field_spherical_r.cpp |  5 +++++
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 0c4dc56..2fcb36c 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1106,6 +1106,10 @@ class Particle_C(object):
                         # operation on each component of E.)
                         for n in Eseg.dtype.names:
                             Eseg[n] *= -1.0
+                    else:
+                        # The solved field is not applied to this species.
+                        self.negE[0:npSeg] = self.zeroE[0:npSeg]
+                        Eseg = self.negE[0:npSeg]
                 else:
                     self.negE[0:npSeg] = self.zeroE[0:npSeg]
                     Eseg = self.negE[0:npSeg] # A ref, not a copy.
@@ -1491,6 +1495,7 @@ class Particle_C(object):
             #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
             Eseg = None # This is for the case where no fields are to be applied to the particles,
+            Eext_seg = None # Likewise, for the external field.
             if neg_E_field is not None:
                 if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                     # Interpolate the solved electric field to the particle positions
@@ -1505,6 +1510,10 @@ class Particle_C(object):
                     # operation on each component of E.)
                     for n in Eseg.dtype.names:
                         Eseg[n] *= -1.0
+                else:
+                    # The solved field is not applied to this species.
+                    self.negE[0:npSeg] = self.zeroE[0:npSeg]
+                    Eseg = self.negE[0:npSeg]
             else:
                 self.negE[0:npSeg] = self.zeroE[0:npSeg]
                 Eseg = self.negE[0:npSeg] # A ref, not a copy.
@@ -1754,7 +1763,7 @@ class Particle_C(object):
                                     E1Comps[0][i] = Eseg[ipIn][i]
 
                                 Eext1Comps = self.Eext1_comps # A convenience reference
-                                if external_E_field is None:
+                                if Eext_seg is None:
                                     Eext1Comps[0][:] = 0.0
                                 else:
                                     for i in range(len(self.Eext1.dtype.names)):
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index 4f95112..fb863d6 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -207,6 +207,11 @@
                       }
                   }
               }
+            else
+              {
+                // The solved field is not applied to this species.
+                EsegPtr = &zeroE;
+              }
           }
         else
           {
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 6d2118e..68b6225 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -176,6 +176,11 @@
                       }
                   }
               }
+            else
+              {
+                // The solved field is not applied to this species.
+                EsegPtr = &zeroE;
+              }
           }
         else
           {
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 98b4d91..0db14bb 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -212,6 +212,11 @@
                       }
                   }
               }
+            else
+              {
+                // The solved field is not applied to this species.
+                EsegPtr = &zeroE;
+              }
           }
         else
           {
-- 
2.43.0


From 25b36262ad569888914ebc873d32ea7c1de93073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:44 +0000
Subject: [PATCH 11/24] fix: one full trajectory stopped the recording of all
 others, and a full neutral trajectory crashed

---
 Particle_Module.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 2fcb36c..2be6361 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -2776,7 +2776,7 @@ class Particle_C(object):
                 if newpoint > traj_T.npoints - 1:
                     if printWarningArraySize is True:
                         print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
-                    return
+                    continue
                 
                 for comp in traj_T.charged_dict['names']:
 #                    print 'comp = ', comp
@@ -2813,6 +2813,11 @@ class Particle_C(object):
 
                 # Copy the particle values into the trajectory
                 newpoint = traj_T.trajectory_length[sp][i]
+                if newpoint > traj_T.npoints - 1:
+                    if printWarningArraySize is True:
+                        print("%s\tDnT WARNING: Index %d for species %s on step %d exceeds array size %d. Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))
+                    continue
+
                 for comp in traj_T.neutral_dict['names']:
                     if comp == 'step':
                         traj_T.data_list[sp][i][comp][newpoint] = step
-- 
2.43.0


From 54aea4f026dc981508d40914afe6b709b6fcf495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:44 +0000
Subject: [PATCH 12/24] fix: C++ charged-particle advance moved the particles
 even if only acceleration was requested

---
 ...charged_species_in_E_field_cartesian_x.cpp | 21 +++++++++++--------
 ...harged_species_in_E_field_cartesian_xy.cpp | 21 +++++++++++--------
 ...charged_species_in_E_field_spherical_r.cpp | 21 +++++++++++--------
 3 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index fb863d6..a458058 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -283,15 +283,18 @@
                 //psegOut[ipOut].uz_ = psegIn[ipIn].uz_ + qmdt*EsegProxy(ipIn, 2);
               }
 
-            // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-            //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
-            //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // Move the charged particle
+                // 1. Save the initial position
+                psegOut[ipOut].x0_ = psegOut[ipOut].x_;
+                //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
+                //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 68b6225..1d19365 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -247,15 +247,18 @@
                 //psegOut[ipOut].uz_ = psegIn[ipIn].uz_ + qmdt*EsegProxy(ipIn, 2);
               }
 
-            // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].x0_ = psegOut[ipOut].x_;
-            psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
-            psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // Move the charged particle
+                // 1. Save the initial position
+                psegOut[ipOut].x0_ = psegOut[ipOut].x_;
+                psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].x_ += psegOut[ipOut].ux_*dt;
+                psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 0db14bb..212cfde 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -288,15 +288,18 @@
                 //psegOut[ipOut].uz_ = psegIn[ipIn].uz_ + qmdt*EsegProxy(ipIn, 2);
               }
 
-            // Move the charged particle
-            // 1. Save the initial position
-            psegOut[ipOut].r0_ = psegOut[ipOut].r_;
-            //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
-            //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
-            // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
-            psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
-            //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
-            //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+            if (!accel_only)
+              {
+                // Move the charged particle
+                // 1. Save the initial position
+                psegOut[ipOut].r0_ = psegOut[ipOut].r_;
+                //psegOut[ipOut].y0_ = psegOut[ipOut].y_;
+                //psegOut[ipOut].z0_ = psegOut[ipOut].z_;
+                // 2. Move the particle. NON-RELATIVISTIC: v and u are the same
+                psegOut[ipOut].r_ += psegOut[ipOut].ur_*dt;
+                //psegOut[ipOut].y_ += psegOut[ipOut].uy_*dt;
+                //psegOut[ipOut].z_ += psegOut[ipOut].uz_*dt;
+              }
 
             auto pCellIndex = psegOut[ipOut].cell_index_;
 
-- 
2.43.0


From 5f4847e341a54e8bfd303e2af6736f82d6d4dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 13/24] fix: the all-species advance failed when a trajectory
 particle reached a boundary

---
 Particle_Module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 2be6361..e688242 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -1092,6 +1092,7 @@ class Particle_C(object):
 #                print("velocity:", psegIn['ux'][0:npSeg], psegIn['uy'][0:npSeg]) #, psegIn['uz']
 
                 Eseg = None # This is for the case where no fields are to be applied to the particles,
+                Eext_seg = None # Likewise, for the external field.
                 if neg_E_field is not None:
                     if ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True:
                         # Interpolate the solved electric field to the particle positions
@@ -1306,7 +1307,10 @@ class Particle_C(object):
 # Why is the None here for E? Because a particle may have gone out-of-bounds?  In that case, could compute E at initial coords instead of final coords.
 
 # Can I just send the interpolated E-field value?
-                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, neg_E_field=None, external_E_field=None, facet_crossing=True)
+                                    for i in range(len(self.negE1.dtype.names)):
+                                        self.E1_comps[0][i] = Eseg[ipIn][i]
+                                        self.Eext1_comps[0][i] = 0.0 if Eext_seg is None else Eext_seg[ipIn][i]
+                                    self.record_trajectory_datum(sn, ipOut, fullIndex, step, tStart, E_field_comps=self.E1_comps, external_E_field_comps=self.Eext1_comps, facet_crossing=True)
                                 self.pmesh_bcs.bc_function_dict[facValue][sn](psegOut[ipOut], sn, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)
 
                             # Look up the cell index of the new cell.
-- 
2.43.0


From f72be2ebdb76e27c2ac7c16bcc3e7e38b11801ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 14/24] fix: locating a point outside the mesh returned a
 non-existent cell index

---
 Dolfin_Module.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 1dfcf4d..dd8c741 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -465,8 +465,7 @@ class Mesh_C(object):
 
         # The maximum value of a 32-bit int is 0xFFFFFFFF (-1)
         # (eight Fs and F = 1111)
-#        if first == 0xFFFFFFFF:
-        if first == Mesh_C.NO_CELL:
+        if first == 0xFFFFFFFF:
             print(fncName, ": particle is out of bounds")
             sys.exit()
 
-- 
2.43.0


From 846d979b026d22077539c5e4a6ea8d1a6335cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 15/24] fix: initializing particles over a region called the
 creation function with misplaced arguments

---
 Particle_Module.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index e688242..a4a877b 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -483,10 +483,11 @@ class Particle_C(object):
                 ipFunc = ipTuple[1]
                 ipRegion = ipTuple[2]
                 # Invoke the creation function
+                step = 0
                 time = 0.0
-                ipFunc(time, ipRegion, ipParams, neg_E_field)
+                ipFunc(step, time, ipRegion, ipParams, neg_E_field)
             else:
-                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initial_distribution_type, s)
+                errorMsg = fncName + "\t\"Unknown initial_distribution_type %s for species %s!\"" % (initialDistributionType, s)
                 raise RuntimeError(errorMsg) # sys.exit(errorMsg)
 
         # for sp in self.species_names:
-- 
2.43.0


From c5092c060e34e8dfa9f0d7b14af7f47349fc08ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 16/24] fix: undefined print flag in the particle-source map

---
 Particle_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index a4a877b..35e5899 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3459,7 +3459,7 @@ class ParticleMeshSources_C(object):
                     srcFunction = bcBoundaryDefaultFunction
                 if srcFunction is None:
                     print("ParticleMeshSources_C: No boundary condition specified for", pSrcDictInv[intTag], "/", sp)
-                elif printTag:
+                elif print_flag:
                     print("ParticleMeshSources_C: Boundary condition for", pSrcDictInv[intTag], "/", sp, "is", srcFunction)
                 self.srcFunctionDict[intTag][sp] = srcFunction
 
-- 
2.43.0


From 0683ade143666218050546e1a4bf9ca09afbdbb2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:51:35 +0000
Subject: [PATCH 17/24] fix: multiplying a field on a subdomain multiplied
 shared DOFs once per cell

---
 Dolfin_Module.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index dd8c741..f052f9e 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1017,24 +1017,11 @@ class Field_C(object):
             else:
                 self.function_values[:] *= multiplier
         else:
-            numberOfValues = subdomain.ncell
-
-# TODO: this isn't finished. For a CellSet, need to figure out how to apply a multiplier
-# to the DOFs, if DOFs can be associated with more than one cell (e.g., a vertex).  In
-# that case, you cannot loop on cells because the same DOFs will get multiplied more than
-# once. Use a Python "set" i.e. a set of unique objects.
-            for icell in range(subdomain.ncell):
-                cellIndex = subdomain.cell_index[icell]
-
-# !!! Doesn't this multiply vertices twice, since vertices are shared between cells?
-
-# It works if the DOFs are cell values (e.g., the E-field), and not vertex values (e.g., the density)
-
-# It'd be better to get a list of the DOFs and not loop over cells. Use a Python set().
-# 
-
-                dofIndices = self.function_space.dofmap().cell_dofs(cellIndex) # return type: numpy.ndarray
-                self.function_values[dofIndices] *= multiplier
+            # A DOF can belong to more than one cell of the subdomain (e.g., a vertex), so
+            # collect the unique DOFs in order to multiply each value just once.
+            dofmap = self.function_space.dofmap()
+            dofIndices = np_m.unique(np_m.concatenate([dofmap.cell_dofs(cellIndex) for cellIndex in subdomain.cell_index]))
+            self.function_values[dofIndices] *= multiplier
             
         return
 #    def multiply_values(self, multiplier, gaussian=False, subdomain=None):
-- 
2.43.0


From 3f647ccc2e379547a371c8977310f5f3c1c11f12 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:51:35 +0000
Subject: [PATCH 18/24] fix: the radius of a spherical region was overwritten
 by the radii of its cells

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index f052f9e..642abd2 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1950,7 +1950,7 @@ class SphericalRegion_C(CellSet_C):
     def __init__(self, mesh_M, center, radius, plot_flag=False):
 
         self.center = center
-        self.radius = radius
+        self.region_radius = radius # self.radius holds the radii of the cells
         plotFlag = plot_flag
 
         # Call the base class constructor
@@ -1974,7 +1974,7 @@ class SphericalRegion_C(CellSet_C):
         tol = 1.0e-10
 
         # The source is in the interval [xmin, xmax]
-        return x[0] >= self.center - self.radius - tol and x[0] <= self.center + self.radius + tol
+        return x[0] >= self.center - self.region_radius - tol and x[0] <= self.center + self.region_radius + tol
 #    def inside(self, x):ENDDEF
 
 #class SphericalRegion_C(CellSet_C):ENDCLASS
-- 
2.43.0


From ff14aadfaa3772836e9f2a96637529c72e93235a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:51:35 +0000
Subject: [PATCH 19/24] fix: number density included unused storage with C++
 particle arrays

---
 Particle_Module.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Particle_Module.py b/Particle_Module.py
index 35e5899..5ed870b 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -969,19 +969,19 @@ class Particle_C(object):
 #  Pass pseg[0:npSeg] instead to limit the range to real particles?
 
                 if self.particle_dimension == 3:
-                    dnt_cpp.interpolate_weights_to_dofs3D(pseg, dof_number_density_F.function._cpp_object)
+                    dnt_cpp.interpolate_weights_to_dofs3D(pseg[0:npSeg], dof_number_density_F.function._cpp_object)
                 elif self.particle_dimension == 2:
-                    dnt_cpp.interpolate_weights_to_dofs2D(pseg, dof_number_density_F.function._cpp_object)
+                    dnt_cpp.interpolate_weights_to_dofs2D(pseg[0:npSeg], dof_number_density_F.function._cpp_object)
                 elif self.particle_dimension == 1:
-                    dnt_cpp.interpolate_weights_to_dofs1D(pseg, dof_number_density_F.function._cpp_object)
+                    dnt_cpp.interpolate_weights_to_dofs1D(pseg[0:npSeg], dof_number_density_F.function._cpp_object)
             # Compute the cell number density as well, if requested.
             if cell_number_density_F is not None:
                 if self.particle_dimension == 3:
-                    dnt_cpp.add_weights_to_cells3D(pseg, cell_number_density_F.function._cpp_object)
+                    dnt_cpp.add_weights_to_cells3D(pseg[0:npSeg], cell_number_density_F.function._cpp_object)
                 elif self.particle_dimension == 2:
-                    dnt_cpp.add_weights_to_cells2D(pseg, cell_number_density_F.function._cpp_object)
+                    dnt_cpp.add_weights_to_cells2D(pseg[0:npSeg], cell_number_density_F.function._cpp_object)
                 elif self.particle_dimension == 1:
-                    dnt_cpp.add_weights_to_cells1D(pseg, cell_number_density_F.function._cpp_object)
+                    dnt_cpp.add_weights_to_cells1D(pseg[0:npSeg], cell_number_density_F.function._cpp_object)
             (npSeg, pseg) = sap.get_next_segment("out")
 
         # After all the particles have been summed, convert the cell values
-- 
2.43.0


From 66cb566373449340b6a8c4e610e698e86d0d50cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 20/24] fix: C++ advance of a species without particles raised
 a TypeError

---
 cpp/advance_charged_species_in_E_field_cartesian_x.cpp          | 1 +
 cpp/advance_charged_species_in_E_field_cartesian_xy.cpp         | 1 +
 cpp/advance_charged_species_in_E_field_spherical_r.cpp          | 1 +
 cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp | 1 +
 cpp/advance_neutral_species_cartesian_xy.cpp                    | 1 +
 cpp/advance_neutral_species_cartesian_xyz.cpp                   | 1 +
 6 files changed, 6 insertions(+)

diff --git a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
index a458058..66423ca 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_x.cpp
@@ -138,6 +138,7 @@
                                                      // the first segment pair, instead of the
                                                      // Numpy arrays.
     auto npSeg = segTuple[0].cast<py::ssize_t>(); // The number of active particles in the segment.
+    if (npSeg == 0) return; // There are no particles to advance
 
     // Get the particle array pointers from the py::capsules in segTuple
     // psegIn:
diff --git a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
index 1d19365..f13948a 100644
--- a/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
+++ b/cpp/advance_charged_species_in_E_field_cartesian_xy.cpp
@@ -107,6 +107,7 @@
                                                      // the first segment pair, instead of the
                                                      // Numpy arrays.
     auto npSeg = segTuple[0].cast<py::ssize_t>(); // The number of active particles in the segment.
+    if (npSeg == 0) return; // There are no particles to advance
 
     // Get the particle array pointers from the py::capsules in segTuple
     // psegIn:
diff --git a/cpp/advance_charged_species_in_E_field_spherical_r.cpp b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
index 212cfde..a10fb53 100644
--- a/cpp/advance_charged_species_in_E_field_spherical_r.cpp
+++ b/cpp/advance_charged_species_in_E_field_spherical_r.cpp
@@ -139,6 +139,7 @@
                                                      // the first segment pair, instead of the
                                                      // Numpy arrays.
     auto npSeg = segTuple[0].cast<py::ssize_t>(); // The number of active particles in the segment.
+    if (npSeg == 0) return; // There are no particles to advance
 
     // Get the particle array pointers from the py::capsules in segTuple
     // psegIn:
diff --git a/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp b/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
index deb9ac2..d030736 100644
--- a/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
+++ b/cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp
@@ -50,6 +50,7 @@
                                                      // the first segment pair, instead of the
                                                      // Numpy arrays.
     auto npSeg = segTuple[0].cast<py::ssize_t>();
+    if (npSeg == 0) return; // There are no particles to advance
 
     // Get the particle array pointers from the returned py::capsules.
     // psegIn:
diff --git a/cpp/advance_neutral_species_cartesian_xy.cpp b/cpp/advance_neutral_species_cartesian_xy.cpp
index eac778b..86db545 100644
--- a/cpp/advance_neutral_species_cartesian_xy.cpp
+++ b/cpp/advance_neutral_species_cartesian_xy.cpp
@@ -57,6 +57,7 @@
                                                      // the first segment pair, instead of the
                                                      // Numpy arrays.
     auto npSeg = segTuple[0].cast<py::ssize_t>();
+    if (npSeg == 0) return; // There are no particles to advance
 
     // Get the particle array pointers from the returned py::capsules.
     // psegIn:
diff --git a/cpp/advance_neutral_species_cartesian_xyz.cpp b/cpp/advance_neutral_species_cartesian_xyz.cpp
index 3d07fdc..17a013f 100644
--- a/cpp/advance_neutral_species_cartesian_xyz.cpp
+++ b/cpp/advance_neutral_species_cartesian_xyz.cpp
@@ -73,6 +73,7 @@
                                                      // the first segment pair, instead of the
                                                      // Numpy arrays.
     auto npSeg = segTuple[0].cast<py::ssize_t>();
+    if (npSeg == 0) return; // There are no particles to advance
 
     // Get the particle array pointers from the returned py::capsules.
     // psegIn:
-- 
2.43.0


From 88385cb832d2e73118add6325febdca034706939 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:30:40 +0000
Subject: [PATCH 21/24] fix: C++ facet search ended the process or read outside
 the normals when no facet is crossed

---
 cpp/dolfin_functions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpp/dolfin_functions.cpp b/cpp/dolfin_functions.cpp
index e6e7703..d21d86e 100644
--- a/cpp/dolfin_functions.cpp
+++ b/cpp/dolfin_functions.cpp
@@ -252,6 +252,10 @@ namespace dnt
             std::cout << "dolfin_functions.cpp::find_facet: !!! Bad value for dxFraction: " << dxFraction << std::endl;
             exit(EXIT_FAILURE);
           }
+        if (facet == NO_FACET) // The path doesn't leave the cell, so there's no normal to return
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
         
         if (returnStdArray == true)
           {
@@ -359,6 +363,10 @@ namespace dnt
             std::cout << "dolfin_functions.cpp::find_facet: !!! Bad value for dxFraction: " << dxFraction << std::endl;
             exit(EXIT_FAILURE);
           }
+        if (facet == NO_FACET) // The path doesn't leave the cell, so there's no normal to return
+          {
+            return py::make_tuple(facet, dxFraction, nullptr);
+          }
         if (returnStdArray == true)
           {
             return py::make_tuple(facet, dxFraction, &facetNormalVectors[facet*cellFNVdim]);
@@ -457,8 +465,8 @@ namespace dnt
               }
           }
 
-        std::cout << "dolfin_functions.cpp::find_facet() for gDim = 1: Should never get here!!!" << std::endl;
-        exit(EXIT_FAILURE);
+        // The path doesn't leave the cell
+        return py::make_tuple(facet, dxFraction, nullptr);
                                      
       } // else if (gDim == 1)
 
-- 
2.43.0


From 1a9453f4dd893dae09e14cc68fccbf649ab03031 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:40:04 +0000
Subject: [PATCH 22/24] fix: random interpolation of a field with several
 components raised a ValueError

---
 Dolfin_Module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 642abd2..499cdec 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1182,7 +1182,7 @@ class Field_C(object):
             if np_m.linalg.norm(fieldValue) != 0.0:
                 randomVals[0] = np_m.random.normal(0.0, stdDeviation, numberOfValues)
                 fieldValue *= randomVals[0]
-            field_at_points[ip] = fieldValue
+            field_at_points[ip] = tuple(fieldValue) # A tuple: this is an element of a structured array
 #        print 'field_at_points = ', field_at_points[0:points.shape[0]]
         return
 #    def interpolate_random_field_to_points(self, points, field_at_points):ENDDEF
-- 
2.43.0


From 03b2af44118db3aea7b719825abe216bd96cd46c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:42:05 +0000
Subject: [PATCH 23/24] fix: first write to a second particle output file
 opened on the same step was skipped

---
 Particle_Module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Particle_Module.py b/Particle_Module.py
index 5ed870b..eb83462 100644
--- a/Particle_Module.py
+++ b/Particle_Module.py
@@ -3163,6 +3163,7 @@ class Particle_C(object):
             h5File.attrs[key] = self.charge[s]
 
         self.h5_step_counter = 0
+        self.h5_last_write_step = -1 # Nothing has been written to this file yet
 
         # Flush the buffer
         self.particle_output_handle.flush()
-- 
2.43.0


From 08f9ab215077a9c83760fee6afb796ce56d23c17 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 17:45:23 +0000
Subject: [PATCH 24/24] fix: Gaussian values on a subdomain with more cells
 than degrees of freedom raised a ValueError

---
 Dolfin_Module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Dolfin_Module.py b/Dolfin_Module.py
index 499cdec..3a2e5b5 100644
--- a/Dolfin_Module.py
+++ b/Dolfin_Module.py
@@ -1049,8 +1049,8 @@ class Field_C(object):
         else:
             self.function_values[:] = 0.0 # Initialize all the elements to zero.
             numberOfValues = subdomain.ncell
-            randomVals = self.scratch_array # Alias to a numpy scratch array
-            randomVals[0:numberOfValues] = np_m.random.normal(0.0, standard_deviation, numberOfValues)
+            # One value per cell. (There can be more cells than DoFs, so the scratch array may be too short.)
+            randomVals = np_m.random.normal(0.0, standard_deviation, numberOfValues)
 
 # Replace cell-loop with a loop over unique DoFs. It's OK as-is for the E-field, which is a cell quantity.
             
-- 
2.43.0

