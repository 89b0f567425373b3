From dc336f8e90af231861a2a30ff2730c4abef7f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 01/34] fix: keep noDisconDepths of a split model out of the
 shared class attribute

---
 taupy/TauModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 0acbdab..1c0c9dd 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -325,7 +325,9 @@ class TauModel(object):
         tMod.sMod = outSMod
         tMod.rayParams = outRayParams
         tMod.tauBranches = newTauBranches
-        tMod.noDisconDepths.append(depth)
+        # Don't append in place: the list may be the class attribute, which is
+        # shared by all models.
+        tMod.noDisconDepths = self.noDisconDepths + [depth]
         if not tMod.validate():
             raise TauModelError("SplitBranch validation failed!")
         return tMod
-- 
2.43.0


From 441057ab584427236b7e9873d56bf79ebbbf4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 02/34] fix: splitLayer must not move the layers of the model
 it is called on

---
 taupy/SlownessModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8a4750..12a436a 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1299,7 +1299,7 @@ class SlownessModel(object):
             outLayers[layerNum - 1] = SlownessLayer(sLayer.topP,
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
@@ -1313,7 +1313,7 @@ class SlownessModel(object):
             outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth,
                                                     sLayer.botP,
                                                     sLayer.botDepth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
-- 
2.43.0


From ee8af2d6dac060b0513faf8e0eb7e686018a4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 03/34] fix: great_circle_dist domain error for coincident or
 antipodal points

---
 taupy/TauP_Time.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index cc3e204..84426b8 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -345,9 +345,12 @@ def great_circle_dist(stn, event):
     lonA = stn[1]
     latB = event[0]
     lonB = event[1]
-    return rtod * math.acos(math.sin(latA * dtor) * math.sin(latB * dtor)
-                            + math.cos(latA * dtor) * math.cos(latB * dtor)
-                            * math.cos((lonB - lonA) * dtor))
+    cosDist = (math.sin(latA * dtor) * math.sin(latB * dtor)
+               + math.cos(latA * dtor) * math.cos(latB * dtor)
+               * math.cos((lonB - lonA) * dtor))
+    # Rounding can push the cosine slightly outside the domain of acos for
+    # coincident or antipodal points.
+    return rtod * math.acos(max(-1.0, min(1.0, cosDist)))
 
 if __name__ == '__main__':
     # Replace the Java main method, which is a static (i.e. class) method
-- 
2.43.0


From 598bcd0496b39ee3f7a261f0566bb4108ff0651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 04/34] fix: findBranch returned the wrong branch for the
 centre of the Earth

---
 taupy/TauModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 1c0c9dd..9bd13b4 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -342,7 +342,7 @@ class TauModel(object):
                 return i
         # Check to see if depth is centre of the Earth.
         if self.tauBranches[0][len(self.tauBranches[0]) - 1].botDepth == depth:
-            return len(self.tauBranches) - 1
+            return len(self.tauBranches[0]) - 1
         else:
             raise TauModelError("No TauBranch contains this depth.")
 
-- 
2.43.0


From 3424861bf13b06fa7fee8e73a91e6d8c0fda0d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 05/34] fix: travel time of head waves ignored the refracted
 segment's slowness

---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index be6d4d3..c59cac4 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -681,7 +681,8 @@ class SeismicPhase(object):
                                self.maxDiffraction * math.pi / 180 * self.minRayParam
         elif "Pn" in self.name or "Sn" in self.name:
             self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
-            self.time[1] = self.time[0] + self.maxRefraction * math.pi / 180
+            self.time[1] = self.time[0] + \
+                self.maxRefraction * math.pi / 180 * self.minRayParam
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
-- 
2.43.0


From a534ac02ab8837be6fe350bf5a50aed24aa9fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 06/34] fix: surface wave (kmps) phases failed comparing unset
 ray parameters

---
 taupy/SeismicPhase.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index c59cac4..4a02bb9 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -588,15 +588,6 @@ class SeismicPhase(object):
 
     def sumBranches(self, tMod):
         """Sum the appropriate branches for this phase."""
-        if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
-            # Phase has no arrivals, possibly due to source depth.
-            self.rayParams = []
-            self.minRayParam = -1
-            self.maxRayParam = -1
-            self.dist = []
-            self.time = []
-            self.maxDistance = -1
-            return
         # Special case for surface waves.
         if self.name.endswith("kmps"):
             self.dist = [0, 0]
@@ -611,6 +602,15 @@ class SeismicPhase(object):
             self.maxDistance = 2 * math.pi
             self.downGoing.append(True)
             return
+        if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
+            # Phase has no arrivals, possibly due to source depth.
+            self.rayParams = []
+            self.minRayParam = -1
+            self.maxRayParam = -1
+            self.dist = []
+            self.time = []
+            self.maxDistance = -1
+            return
         # Find the ray parameter index that corresponds to the minRayParam
         # and maxRayParam.
         for i, rp in enumerate(tMod.rayParams):
-- 
2.43.0


From b50b97712e9266a7ee981bf9f15ba9ba2319e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 07/34] fix: fixOtherLayers used stale layer indices after the
 first split layer

If several layers of the other wave type contain the new slowness the wrong
layers were replaced; also the layer numbers of the critical depths of the
other wave type were not the ones that were shifted.
---
 taupy/SlownessModel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 12a436a..489ad6f 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1370,12 +1370,17 @@ class SlownessModel(object):
             del out[otherIndex]
             out.insert(otherIndex, newBotLayer)
             out.insert(otherIndex, newTopLayer)
+            self.fixCriticalDepths(criticalDepths, otherIndex, isPWave)
         except ValueError:
             # This will be raised by index if changedLayer can't be found,
             # but must not break program flow. I.e. that's ok, no error
             # should be raised, the try clause can be seen like an if.
             pass
+        # Number of layers added so far, i.e. the offset of the indices in out
+        # with respect to those in the copy that is iterated over.
+        numAdded = 0
         for otherLayerNum, sLayer in enumerate(out[:]):
+            otherLayerNum += numAdded
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 # Found a slowness layer with the other wave type that
                 # contains the new slowness sample.
@@ -1388,9 +1393,9 @@ class SlownessModel(object):
                 out.insert(otherLayerNum, botLayer)
                 out.insert(otherLayerNum, topLayer)
                 # Fix critical layers since we have added a slowness layer.
-                self.fixCriticalDepths(criticalDepths, otherLayerNum,
-                                       not isPWave)
+                self.fixCriticalDepths(criticalDepths, otherLayerNum, isPWave)
                 # Skip next layer as it was just added: achieved by slicing
                 # the list iterator.
+                numAdded += 1
 
         return out
-- 
2.43.0


From 83c708a241ac95f26000c3d91626f221ed03c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 08/34] fix: sample the slowness at the source depth when
 splitting a branch

splitBranch looked for the new ray parameter as if the ray parameters were
increasing, so it was never inserted, contrary to depthCorrect's
documentation. The code depending on it (TauBranch.insert/difference) is
corrected accordingly, and no longer modifies the branches of the original
model.
---
 taupy/TauBranch.py | 89 +++++++++-------------------------------------
 taupy/TauModel.py  | 31 +++++++++-------
 2 files changed, 35 insertions(+), 85 deletions(-)

diff --git a/taupy/TauBranch.py b/taupy/TauBranch.py
index 16cc6ae..a44660b 100644
--- a/taupy/TauBranch.py
+++ b/taupy/TauBranch.py
@@ -109,16 +109,7 @@ class TauBranch(object):
                 or botSLayer.botDepth != self.botDepth:
             raise TauModelError(
                 "TauBranch depths not compatible with slowness sampling.")
-        td = TimeDist(rayParam, 0, 0)
-        if topSLayer.botP >= rayParam and topSLayer.topP >= rayParam:
-            for i in range(botLayerNum + 1):
-                if sMod.getSlownessLayer(i, self.isPWave).botP < rayParam:
-                    # So we don't sum below the turning depth.
-                    break
-                else:
-                    temptd = sMod.layerTimeDist(rayParam, i, self.isPWave)
-                    td.distRadian += temptd.distRadian
-                    td.time += temptd.time
+        td = self.calcTimeDist(sMod, topLayerNum, botLayerNum, rayParam)
         self.shiftBranch(index)
         self.dist[index] = td.distRadian
         self.time[index] = td.time
@@ -210,69 +201,23 @@ class TauBranch(object):
         else:
             # In case indexS==P then only need one.
             indexS = -1
-        # This looks silly, but makes filling these later on easier
-        botBranch.dist = [0 for i in range(arrayLength)]
-        botBranch.time = [0 for i in range(arrayLength)]
-        botBranch.tau = [0 for i in range(arrayLength)]
-        if indexP == -1:
-            # Then both indices are -1 so no new ray parameters are added.
-            botBranch.dist = [a-b for a, b in zip(self.dist, topBranch.dist)]
-            botBranch.time = [a-b for a, b in zip(self.time, topBranch.time)]
-            botBranch.tau = [a-b for a, b in zip(self.tau, topBranch.tau)]
-        else:
-            if indexS == -1:
-                # Only indexP != -1.
-                # Slice to have the 'iteration' go only until indexP (zip
-                # ends with the shortest iterator).
-                botBranch.dist = [a-b for a, b in zip(self.dist[:indexP],
-                                                      topBranch.dist)]
-                botBranch.time = [a-b for a, b in zip(self.time[:indexP],
-                                                      topBranch.time)]
-                botBranch.tau = [a-b for a, b in zip(self.tau[:indexP],
-                                                     topBranch.tau)]
-                botBranch.dist.append(timeDistP.distRadian)
-                botBranch.time.append(timeDistP.time)
-                botBranch.tau.append(
-                    timeDistP.time - PRayParam * timeDistP.distRadian)
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
+        botBranch.dist, botBranch.time, botBranch.tau = [], [], []
+        # Index into the arrays of this branch, which (in contrast to those of
+        # topBranch) don't contain the new ray parameters yet.
+        oldIndex = 0
+        for i in range(arrayLength):
+            if i == indexP or i == indexS:
+                # New samples can't be obtained by subtracting.
+                p, timeDist = (PRayParam, timeDistP) if i == indexP \
+                    else (SRayParam, timeDistS)
+                botBranch.dist.append(timeDist.distRadian)
+                botBranch.time.append(timeDist.time)
+                botBranch.tau.append(timeDist.time - p * timeDist.distRadian)
             else:
-                # Both indexP and S are != -1 so have two new samples
-                # Note the following does the same (in the beginning) as the
-                # previous clause.
-                # I'm on the fence about which is better.
-                for i in range(indexS):
-                    botBranch.dist[i] = self.dist[i] - topBranch.dist[i]
-                    botBranch.time[i] = self.time[i] - topBranch.time[i]
-                    botBranch.tau[i] = self.tau[i] - topBranch.tau[i]
-                botBranch.dist[indexS] = timeDistS.distRadian
-                botBranch.time[indexS] = timeDistS.time
-                botBranch.tau[indexS] = \
-                    timeDistS.time - SRayParam * timeDistS.distRadian
-                for i in range(indexS, indexP):
-                    botBranch.dist[i + 1] = \
-                        self.dist[i] - topBranch.dist[i + 1]
-                    botBranch.time[i + 1] = \
-                        self.time[i] - topBranch.time[i + 1]
-                    botBranch.tau[i + 1] = \
-                        self.tau[i] - topBranch.tau[i + 1]
-                # Put in at indexP+1 because we have already shifted by 1
-                # due to indexS.
-                botBranch.dist[indexP + 1] = timeDistP.distRadian
-                botBranch.time[indexP + 1] = timeDistP.time
-                botBranch.tau[indexP + 1] = \
-                    timeDistP.time - PRayParam * timeDistP.distRadian
-                for i in range(indexP, len(self.dist)):
-                    botBranch.dist[i + 2] = \
-                        self.dist[i] - topBranch.dist[i + 2]
-                    botBranch.time[i + 2] = \
-                        self.time[i] - topBranch.time[i + 2]
-                    botBranch.tau[i + 2] = \
-                        self.tau[i] - topBranch.tau[i + 2]
+                botBranch.dist.append(self.dist[oldIndex] - topBranch.dist[i])
+                botBranch.time.append(self.time[oldIndex] - topBranch.time[i])
+                botBranch.tau.append(self.tau[oldIndex] - topBranch.tau[i])
+                oldIndex += 1
         return botBranch
 
     def path(self, rayParam, downgoing, sMod):
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 9bd13b4..adaed52 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -233,7 +233,7 @@ class TauModel(object):
         SWaveRayParam = -1
         outSMod = self.sMod
         outRayParams = deepcopy(self.rayParams)  # necessary?
-        oldRayParams = self.rayParams
+        branchToSplit = self.findBranch(depth)
         # Do S wave first since the S ray param is > P ray param.
         for isPWave in [False, True]:
             splitInfo = outSMod.splitLayer(depth, isPWave)
@@ -242,13 +242,17 @@ class TauModel(object):
                 # Split the slowness layers containing depth into two layers
                 # each.
                 newRayParam = splitInfo.rayParam
-                # Insert the new ray parameters into the rayParams array.
-                for index, trp, brp in zip(count(), oldRayParams[:-1],
-                                           oldRayParams[1:]):
-                    if trp < newRayParam < brp:
-                        outRayParams = oldRayParams[:index]
-                        outRayParams.append(newRayParam)
-                        outRayParams = outRayParams + oldRayParams[index:]
+                # As in calcTauIncFrom, ray parameters within a high slowness
+                # zone are not sampled.
+                if newRayParam > self.getTauBranch(branchToSplit,
+                                                   isPWave).maxRayParam:
+                    continue
+                # Insert the new ray parameters into the rayParams array,
+                # which is in decreasing order.
+                for index, trp, brp in zip(count(1), outRayParams[:-1],
+                                           outRayParams[1:]):
+                    if trp > newRayParam > brp:
+                        outRayParams.insert(index, newRayParam)
                         if isPWave:
                             indexP = index
                             PWaveRayParam = newRayParam
@@ -258,12 +262,12 @@ class TauModel(object):
                         break
         # Now add a sample to each branch above the depth, split the branch
         # containing the depth, and add a sample to each deeper branch.
-        branchToSplit = self.findBranch(depth)
         newTauBranches = [[TauBranch() for j in range(
             len(self.tauBranches[0]) + 1)] for i in range(2)]
         for i in range(branchToSplit):
-            newTauBranches[0][i] = self.tauBranches[0][i]
-            newTauBranches[1][i] = self.tauBranches[1][i]
+            # The branches of this model must not be modified.
+            newTauBranches[0][i] = deepcopy(self.tauBranches[0][i])
+            newTauBranches[1][i] = deepcopy(self.tauBranches[1][i])
             # Add the new ray parameter(s) from splitting the S and/or P
             # wave slowness layer to both the P and S wave tau branches (if
             # splitting occurred).
@@ -288,7 +292,8 @@ class TauModel(object):
                     outRayParams)
         for i in range(branchToSplit + 1, len(self.tauBranches[0])):
             for pOrS in range(2):
-                newTauBranches[pOrS][i + 1] = self.tauBranches[pOrS][i]
+                newTauBranches[pOrS][i + 1] = deepcopy(
+                    self.tauBranches[pOrS][i])
             if indexS != -1:
                 # Add the new ray parameter from splitting the S wave
                 # slownes layer to both the P and S wave tau branches.
@@ -300,7 +305,7 @@ class TauModel(object):
                 # slownes layer to both the P and S wave tau branches.
                 for pOrS in range(2):
                     newTauBranches[pOrS][i + 1].insert(PWaveRayParam, outSMod,
-                                                       indexS)
+                                                       indexP)
         # We have split a branch so possibly sourceBranch, mohoBranch,
         # cmbBranch and iocbBranch are off by 1.
         outSourceBranch = self.sourceBranch
-- 
2.43.0


From eebea01bec1fdc809de4fc6629cb32e52d293369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 09/34] fix: maximum ray parameter of phases from a source at a
 discontinuity

The larger of the slownesses above and below the source was used for both
upgoing and downgoing rays, leading to rays that cannot leave the source in
the requested direction and to domain errors for their takeoff angle.
---
 taupy/SeismicPhase.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 4a02bb9..0261437 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -198,11 +198,11 @@ class SeismicPhase(object):
                 "Must be one of P, Pg, Pn, Pdiff, p or the S equivalents.")
         # Set maxRayParam to be a horizontal ray leaving the source and set
         # minRayParam to be a vertical (p=0) ray.
-        if tMod.sourceBranch != 0:
-            self.maxRayParam = max(
-                tMod.getTauBranch(tMod.sourceBranch - 1,
-                                  isPWave).minTurnRayParam,
-                tMod.getTauBranch(tMod.sourceBranch, isPWave).maxRayParam)
+        # If the source is at a discontinuity these differ for upgoing and
+        # downgoing rays.
+        if self.endAction == self.REFLECTTOP:
+            self.maxRayParam = tMod.getTauBranch(tMod.sourceBranch - 1,
+                                                 isPWave).minTurnRayParam
         else:
             self.maxRayParam = tMod.getTauBranch(tMod.sourceBranch,
                                                  isPWave).maxRayParam
-- 
2.43.0


From f8b358177fcb15814e292057e367175dfdf1023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 10/34] fix: reflections and conversions at a numeric depth
 could not be requested

legPuller's P/S branch was taken for every character, so ^, v and digits
never reached their own cases; these ran past the end of the name. The depth
of a leg such as ^410 was taken from its second character only.
---
 taupy/SeismicPhase.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 0261437..f34da77 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -126,7 +126,7 @@ class SeismicPhase(object):
             # Find out if the next leg represents a phase conversion or
             # reflection depth.
             if currLeg.startswith("v") or currLeg.startswith("^"):
-                disconBranch = closestBranchToDepth(tMod, currLeg[1])
+                disconBranch = closestBranchToDepth(tMod, currLeg[1:])
                 legDepth = tMod.tauBranches[0][disconBranch].topDepth
                 puristName += currLeg[0]
                 puristName += str(legDepth)
@@ -251,7 +251,7 @@ class SeismicPhase(object):
                         "p and s must always be upgoing and cannot come "
                         "immediately before a top-sided reflection.")
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch >= disconBranch:
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -290,7 +290,7 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch <= disconBranch - 1:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
@@ -301,7 +301,7 @@ class SeismicPhase(object):
                             "{nextLeg} when currBranch > disconBranch".format(
                                 **locals()))
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if prevLeg == "K":
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -316,7 +316,7 @@ class SeismicPhase(object):
                     elif ((prevLeg.startswith("v") and
                                    disconBranch < closestBranchToDepth(tMod,
                                                                        prevLeg[
-                                                                           1])
+                                                                           1:])
                            or (prevLeg == "m" and
                                        disconBranch < tMod.mohoBranch)
                            or (prevLeg == "c" and
@@ -488,8 +488,8 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, tMod.iocbBranch,
                                      isPWave, self.TRANSUP)
             elif (any(currLeg == p for p in ("m", "c", "i"))
-                  or currLeg.startswith == "^"
-                  or currLeg.startswith == "v" or isLegDepth):
+                  or currLeg.startswith("^")
+                  or currLeg.startswith("v") or isLegDepth):
                 pass
             else:
                 raise TauModelError(
@@ -1109,7 +1109,7 @@ def legPuller(name):
                                         "m", "c")):
                 legs.append(nchar)
                 offset += 1
-            elif nchar == "P" or "S":
+            elif nchar == "P" or nchar == "S":
                 # Now it gets complicated, first see if the next char is
                 # part of a different leg or if it's the end.
                 if (offset + 1 == len(name) or
@@ -1137,14 +1137,15 @@ def legPuller(name):
             elif nchar == "^" or nchar == "v":
                 # Top side or bottom side reflections, check for standard
                 # boundaries and then check for numerical ones.
-                if any(name[offset + 1] == c for c in ("m", "c", "i")):
+                boundary = name[offset + 1:offset + 2]
+                if any(boundary == c for c in ("m", "c", "i")):
                     legs.append(name[offset:offset + 2])
                     offset += 2
-                elif name[offset + 1].isdigit() or name[offset + 1] == ".":
+                elif boundary.isdigit() or boundary == ".":
                     numString = name[offset]
                     offset += 1
-                    while name[offset + 1].isdigit() or name[
-                                offset + 1] == ".":
+                    while offset < len(name) and (name[offset].isdigit() or
+                                                  name[offset] == "."):
                         numString += name[offset]
                         offset += 1
                     legs.append(numString)
@@ -1154,7 +1155,8 @@ def legPuller(name):
             elif nchar.isdigit() or nchar == ".":
                 numString = name[offset]
                 offset += 1
-                while name[offset + 1].isdigit() or name[offset + 1] == ".":
+                while offset < len(name) and (name[offset].isdigit() or
+                                              name[offset] == "."):
                     numString += name[offset]
                     offset += 1
                 legs.append(numString)
-- 
2.43.0


From 13709421893336b9596cffb5709ae0c4fdd68c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 11/34] fix: Arrival.getPierce and getPath raised TypeError

---
 taupy/Arrival.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/taupy/Arrival.py b/taupy/Arrival.py
index ff2d0e7..0589429 100644
--- a/taupy/Arrival.py
+++ b/taupy/Arrival.py
@@ -53,15 +53,15 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.pierce:
-            self.pierce == self.phase.calcPierce(self).getPierce()
+            self.pierce = self.phase.calcPierceFromArrival(self).pierce
         return self.pierce
 
     def getPath(self):
         """
-        Returns pierce points as TimeDist objects.
+        Returns path points as TimeDist objects.
         """
         if not self.path:
-            self.path == self.phase.calcPath(self).getPath()
+            self.path = self.phase.calcPathFromArrival(self).path
         return self.path
 
     def getModuloDistDeg(self):
-- 
2.43.0


From 3f867a06aac93244c691122438c0cf857237da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 12/34] fix: arrivals completing whole laps were listed twice
 at zero distance

---
 taupy/SeismicPhase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index f34da77..27d8e21 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -770,8 +770,8 @@ class SeismicPhase(object):
         # less than the maximum distance for this phase. This ensures that
         # we get the time for phases that accumulate more than 180 degrees
         # of distance, for instance PKKKKP might wrap all of the way around.
-        # A special case exists at 180, so we skip the second case if
-        # tempDeg==180.
+        # A special case exists at 180 and 0, where both are the same, so we
+        # skip the second case if tempDeg==180 or tempDeg==0.
         n = 0
         while n * 2 * math.pi + radDist <= self.maxDistance:
             # Look for arrivals that are radDist + 2nPi, i.e. rays that have
@@ -796,7 +796,7 @@ class SeismicPhase(object):
             # Look for arrivals that are 2(n+1)Pi-radDist, i.e. rays that
             # have done more than one half lap plus some number of whole laps.
             searchDist = (n + 1) * 2 * math.pi - radDist
-            if tempDeg != 180:
+            if tempDeg != 180 and tempDeg != 0:
                 for rayNum in range(len(self.dist) - 1):
                     if searchDist == self.dist[rayNum + 1] \
                             and rayNum + 1 != len(self.dist) - 1:
-- 
2.43.0


From 412487594dfa79b9940e0ddc2daca88377639f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 13/34] fix: get_pierce_points and get_ray_paths could not be
 called

TauP_Pierce and TauP_Path still used the old constructor signature of
TauP_Time, and TauPyModel passed an attribute it does not have.
---
 taupy/TauP_Path.py   | 16 +++++-----------
 taupy/TauP_Pierce.py | 14 ++++----------
 taupy/tau.py         | 10 ++++------
 3 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 2f73df3..dbe8e4c 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -15,19 +15,13 @@ class TauP_Path(TauP_Pierce):
     Calcualate the ray paths for each phase, using TauP_Pierce and TauP_Time.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        TauP_Pierce.__init__(self, coordinate_list=coordinate_list,
-                             taup_model_path=taup_model_path)
-        phaseList = phaseList if phaseList is not None else []
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        # This type conversion is important (somehow).
+        TauP_Pierce.__init__(self, taupy_model, phaseList, float(depth),
+                             degrees, coordinate_list)
         self.maxPathTime = 1e300
         self.maxPathInc = 1
-        self.phaseList = phaseList
-        self.modelName = modelName
-        # This type conversion is important (somehow).
-        self.depth = float(depth)
-        self.degrees = degrees
 
     def calculate(self, degrees):
         """
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 5a881be..a5714e5 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -14,21 +14,15 @@ class TauP_Pierce(TauP_Time):
     relating to the different arrivals.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        phaseList = phaseList if phaseList is not None else []
-        TauP_Time.__init__(self, coordinate_list=coordinate_list,
-                           taup_model_path=taup_model_path)
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        TauP_Time.__init__(self, taupy_model, phaseList, depth, degrees,
+                           coordinate_list)
         self.onlyTurnPoints = False
         self.onlyRevPoints = False
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
-        self.phaseList = phaseList
-        self.modelName = modelName
-        self.depth = depth
-        self.degrees = degrees
 
     def depthCorrect(self, depth):
         """
diff --git a/taupy/tau.py b/taupy/tau.py
index 6a80947..1731b59 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -105,9 +105,8 @@ class TauPyModel(object):
                           phase_list=None, coordinate_list=None,
                           print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        pp = TauP_Pierce(phase_list, self.model.sMod.vMod.modelName,
-                         source_depth_in_km, distance_in_degree,
-                         coordinate_list, self.taup_model_path)
+        pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
+                         distance_in_degree, coordinate_list)
         pp.run(print_output)
         if print_output:
             return
@@ -117,9 +116,8 @@ class TauPyModel(object):
                       phase_list=None, coordinate_list=None,
                       print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        rp = TauP_Path(phase_list, self.model.sMod.vMod.modelName,
-                       source_depth_in_km, distance_in_degree,
-                       coordinate_list, self.taup_model_path)
+        rp = TauP_Path(self.model, phase_list, source_depth_in_km,
+                       distance_in_degree, coordinate_list)
         rp.run(print_output)
         if print_output:
             return
-- 
2.43.0


From db61c35a3e47b975890115f77a4f36fe057d79fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 14/34] fix: models with a radius other than 6371 km were
 computed inconsistently

---
 taupy/SlownessModel.py | 24 ++++++++++++++++--------
 taupy/TauModel.py      |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 489ad6f..6308d03 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -184,8 +184,10 @@ class SlownessModel(object):
             currVLayer.topSVelocity, currVLayer.topSVelocity,
             currVLayer.topDensity, currVLayer.topDensity, currVLayer.topQp,
             currVLayer.topQp, currVLayer.topQs, currVLayer.topQs)
-        currSLayer = create_from_vlayer(currVLayer, self.SWAVE)
-        currPLayer = create_from_vlayer(currVLayer, self.PWAVE)
+        currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                        self.radiusOfEarth)
+        currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                        self.radiusOfEarth)
         # We know that the top is always a critical slowness so add 0
         self.criticalDepths.append(CriticalDepth(0, 0, 0, 0))
         # Check to see if starting in fluid zone.
@@ -222,7 +224,8 @@ class SlownessModel(object):
                 self.fluidLayerDepths.append(fluidZone)
 
             currPLayer = create_from_vlayer(currVLayer,
-                                            self.PWAVE)
+                                            self.PWAVE,
+                                            self.radiusOfEarth)
             # If we are in a fluid zone ( S velocity = 0.0 ) or if we are below
             # the outer core and allowInnerCoreS=false then use the P velocity
             # structure to look for critical points.
@@ -231,7 +234,8 @@ class SlownessModel(object):
                 currSLayer = currPLayer
             else:
                 currSLayer = create_from_vlayer(currVLayer,
-                                                self.SWAVE)
+                                                self.SWAVE,
+                                                self.radiusOfEarth)
 
             if prevSLayer.botP != currSLayer.topP \
                     or prevPLayer.botP != currPLayer.topP:
@@ -592,7 +596,8 @@ class SlownessModel(object):
                     prevVLayer.botDepth, prevVLayer.botPVelocity,
                     origVLayer.topPVelocity, topSVel, botSVel)
                 currPLayer = create_from_vlayer(currVLayer,
-                                                self.PWAVE)
+                                                self.PWAVE,
+                                                self.radiusOfEarth)
                 self.PLayers.append(currPLayer)
                 if (prevVLayer.botSVelocity == 0
                     and origVLayer.topSVelocity == 0) \
@@ -601,10 +606,12 @@ class SlownessModel(object):
                     currSLayer = currPLayer
                 else:
                     currSLayer = create_from_vlayer(currVLayer,
-                                                    self.SWAVE)
+                                                    self.SWAVE,
+                                                    self.radiusOfEarth)
                 self.SLayers.append(currSLayer)
             currPLayer = create_from_vlayer(origVLayer,
-                                            self.PWAVE)
+                                            self.PWAVE,
+                                            self.radiusOfEarth)
             self.PLayers.append(currPLayer)
             if self.depthInFluid(origVLayer.topDepth) or (
                     self.allowInnerCoreS is False
@@ -612,7 +619,8 @@ class SlownessModel(object):
                 currSLayer = currPLayer
             else:
                 currSLayer = create_from_vlayer(origVLayer,
-                                                self.SWAVE)
+                                                self.SWAVE,
+                                                self.radiusOfEarth)
             self.SLayers.append(currSLayer)
         # Make sure that all high slowness layers are sampled exactly
         # at their bottom
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index adaed52..f354d5c 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -33,7 +33,7 @@ class TauModel(object):
 
     def __init__(self, sMod, spherical=True, debug=False):
         self.debug = debug
-        self.radiusOfEarth = 6371.0
+        self.radiusOfEarth = sMod.radiusOfEarth
         # True if this is a spherical slowness model. False if flat.
         self.spherical = spherical
         # Ray parameters used to construct the tau branches. This may only be
-- 
2.43.0


From 5dabdcc9c0fbeb1042bd3027e7cebbd4c262fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 15/34] fix: tvel files with blank or comment-only lines could
 not be read

---
 taupy/VelocityModel.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/taupy/VelocityModel.py b/taupy/VelocityModel.py
index 4f205a4..510e92d 100755
--- a/taupy/VelocityModel.py
+++ b/taupy/VelocityModel.py
@@ -333,10 +333,14 @@ class VelocityModel(object):
             f.readline()
             f.readline()
             # Read the first line to provide initial top values.
-            line = f.readline()
-            line = line.partition('#')[0]
-            line = line.rstrip()  # or just .strip()?'
-            columns = line.split()
+            columns = []
+            for line in f:
+                line = line.partition('#')[0]
+                line = line.rstrip()  # or just .strip()?'
+                columns = line.split()
+                # Skip blank lines and lines that only contain a comment.
+                if columns:
+                    break
             topDepth = float(columns[0])
             topPVel = float(columns[1])
             topSVel = float(columns[2])
@@ -355,6 +359,9 @@ class VelocityModel(object):
                 # needs the other comment options
                 line = line.rstrip()  # or just .strip()?'
                 columns = line.split()
+                # Skip blank lines and lines that only contain a comment.
+                if not columns:
+                    continue
                 botDepth = float(columns[0])
                 botPVel = float(columns[1])
                 botSVel = float(columns[2])
-- 
2.43.0


From 0e1468afe06b28763661ad6b63ddf877213f4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 16/34] fix: malformed phase names aborted the whole request

Boundary depths and surface wave velocities that are not numbers, and names
that do not end with a P or S leg, raised ValueError, ZeroDivisionError,
IndexError or TauPException instead of TauModelError.
---
 taupy/SeismicPhase.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 27d8e21..ceec7ec 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -153,6 +153,11 @@ class SeismicPhase(object):
         # case.
         if len(self.legs) == 2 and currLeg.endswith("kmps"):
             return
+        # Every other path ends with a P or S wave arriving at the surface.
+        if len(self.legs) < 2 or \
+                self.legs[-2][0] not in ("P", "S", "p", "s"):
+            raise TauModelError("Invalid phase name: {} does not end with a "
+                                "P or S leg.".format(self.name))
         # Make a check for J legs if the model doesn't allow J:
         if "J" in self.name and not tMod.sMod.allowInnerCoreS:
             raise TauModelError("J phases are not created for this model: {}"
@@ -1163,6 +1168,23 @@ def legPuller(name):
             else:
                 raise TauModelError(
                     "Invalid phase name {nchar} in {name}.".format(**locals()))
+    # Boundary depths and surface wave velocities must be numbers.
+    for leg in legs:
+        if leg.endswith("kmps"):
+            number = leg[:-4]
+        elif leg[0] in ("^", "v") and leg[1] not in ("m", "c", "i"):
+            number = leg[1:]
+        elif leg[0].isdigit() or leg[0] == ".":
+            number = leg
+        else:
+            continue
+        try:
+            validNumber = float(number) > 0 or not leg.endswith("kmps")
+        except ValueError:
+            validNumber = False
+        if not validNumber:
+            raise TauModelError("Invalid phase name: \n {} in {}."
+                                .format(leg, name))
     legs.append("END")
     # phaseValidate(legs)
     return legs
-- 
2.43.0


From 24d958bee251c5168e4438334eb945d4c8cef782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:13 +0000
Subject: [PATCH 17/34] fix: the last arrival before a shadow zone was missed

An arrival exactly at the last sample before a shadow zone was skipped in
favour of the next pair of samples, which then was discarded as well.
---
 taupy/SeismicPhase.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index ceec7ec..9deb579 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -756,6 +756,14 @@ class SeismicPhase(object):
                         self.time = newtime
                         self.rayParams = newrayParams
 
+    def isShadowZone(self, rayNum):
+        """
+        Checks if there is a shadow zone, i.e. a repeated ray parameter,
+        between the given sample and the next one.
+        """
+        return (len(self.rayParams) > 2
+                and self.rayParams[rayNum] == self.rayParams[rayNum + 1])
+
     def calcTime(self, degrees):
         """
         Calculates arrival times for this phase, sorted by time.
@@ -784,7 +792,8 @@ class SeismicPhase(object):
             searchDist = n * 2 * math.pi + radDist
             for rayNum in range(len(self.dist) - 1):
                 if searchDist == self.dist[rayNum + 1] and \
-                                        rayNum + 1 != len(self.dist) - 1:
+                        rayNum + 1 != len(self.dist) - 1 and \
+                        not self.isShadowZone(rayNum + 1):
                     # So we don't get 2 arrivals for the same ray.
                     continue
                 elif (self.dist[rayNum] - searchDist) * (
@@ -804,7 +813,8 @@ class SeismicPhase(object):
             if tempDeg != 180 and tempDeg != 0:
                 for rayNum in range(len(self.dist) - 1):
                     if searchDist == self.dist[rayNum + 1] \
-                            and rayNum + 1 != len(self.dist) - 1:
+                            and rayNum + 1 != len(self.dist) - 1 \
+                            and not self.isShadowZone(rayNum + 1):
                         # So we don't get 2 arrivals for the same ray.
                         continue
                     elif (self.dist[rayNum] - searchDist) * (
-- 
2.43.0


From 591908bb481bf54a00a19b436abc488cc09cc0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 18/34] fix: layers with a steep velocity gradient failed to
 interpolate

In the law p = A r^B the factor r^B overflows for layers in which the
slowness changes quickly (e.g. 5.0 to 5.8 km/s in the top 10 km), so that
bullenDepthFor refused slownesses inside the layer and evaluateAtBullen
fell back to linear interpolation. Compute relative to the top of the layer.
---
 taupy/SlownessLayer.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/taupy/SlownessLayer.py b/taupy/SlownessLayer.py
index f6ed845..ed9dbb8 100644
--- a/taupy/SlownessLayer.py
+++ b/taupy/SlownessLayer.py
@@ -94,17 +94,12 @@ class SlownessLayer:
                 B = np.divide(math.log(self.topP / self.botP),
                               math.log((radiusOfEarth - self.topDepth)
                               / (radiusOfEarth - self.botDepth)))
-                # This is a cludge but it's needed to mimic the Java behaviour.
-                try:
-                    denom = math.pow((radiusOfEarth - self.topDepth), B)
-                except OverflowError:
-                    denom = np.inf
-                A = np.divide(self.topP, denom)
+                # Relative to the top of the layer, as r^B overflows for thin
+                # layers.
                 with np.errstate(divide='ignore', invalid='ignore'):
-                    tempDepth = radiusOfEarth - math.exp(
-                        1.0 / B * math.log(np.divide(rayParam, A)))
-                # or equivalent (maybe better stability?):
-                # tempDepth = radiusOfEarth - math.pow(rayParam/A, 1/B)
+                    tempDepth = radiusOfEarth - (
+                        (radiusOfEarth - self.topDepth) *
+                        math.exp(math.log(rayParam / self.topP) / B))
                 # Check if slightly outside layer due to rounding or
                 # numerical instability:
                 if self.topDepth > tempDepth > self.topDepth - 0.000001:
@@ -175,16 +170,14 @@ class SlownessLayer:
             B = np.divide(math.log(np.divide(topP, botP)),
                           math.log(np.divide((radiusOfEarth - topDepth),
                                              (radiusOfEarth - botDepth))))
-            ADenominator = pow((radiusOfEarth - topDepth), B)
-            A = topP / ADenominator
-            answer = A * pow((radiusOfEarth - depth), B)
+            # Relative to the top of the layer, as r^B overflows for thin
+            # layers.
+            answer = topP * pow((radiusOfEarth - depth) /
+                                (radiusOfEarth - topDepth), B)
             if answer < 0 or math.isnan(answer) or math.isinf(answer):
                 # numerical instability in power law calculation???
                 # try a linear interpolation if the layer is small ( <2 km)
-                # or if denominator of A is infinity as we probably overflowed
-                # the double in that case.
                 if botDepth - topDepth < 2 \
-                        or math.isinf(ADenominator) \
                         or botP == 0:
                     linear = (botP - topP) / (botDepth - topDepth) * \
                              (depth - topDepth) + topP
-- 
2.43.0


From aadd40fda806fb3e0fbba8d01264efddf29be445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 19/34] fix: rounding moved a slowness sample out of its layer

A slowness that equals the one at the end of a layer except for rounding
was given a depth outside the layer, and the model was then refused because
of a layer with negative thickness (e.g. with allowInnerCoreS=False).
---
 taupy/SlownessModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 6308d03..c373858 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -784,6 +784,9 @@ class SlownessModel(object):
                         (sLayer.botDepth - sLayer.topDepth)
                     botDepth = self.interpolate(p, topVelocity,
                                                 sLayer.topDepth, slope)
+                    # Rounding must not move the sample out of its layer.
+                    botDepth = min(max(botDepth, sLayer.topDepth),
+                                   sLayer.botDepth)
                 botLayer = SlownessLayer(p, botDepth, sLayer.botP,
                                          sLayer.botDepth)
                 topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p,
-- 
2.43.0


From 90ef029006772083350f01a78b54076338924acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 20/34] fix: pierce points of surface wave phases failed an
 assertion

---
 taupy/SeismicPhase.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 9deb579..4609d54 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -605,7 +605,6 @@ class SeismicPhase(object):
             self.rayParams[1] = self.rayParams[0]
             self.minDistance = 0
             self.maxDistance = 2 * math.pi
-            self.downGoing.append(True)
             return
         if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
             # Phase has no arrivals, possibly due to source depth.
-- 
2.43.0


From 128773f29e08a6822918053121d9049cdd2760bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 21/34] fix: horizontal rays failed when computing the take-off
 angle

---
 taupy/SeismicPhase.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 4609d54..31ab6e5 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1060,13 +1060,15 @@ class SeismicPhase(object):
                 # Fake negative velocity so angle is negative in case of
                 # upgoing ray.
                 takeoffVelocity = -1 * vMod.evaluateAbove(sourceDepth, name[0])
-            takeoffAngle = (180 / math.pi) * math.asin(
-                takeoffVelocity * arrivalRayParam / (self.tMod.radiusOfEarth -
-                                                     self.sourceDepth))
+            # The slowness sampling only approximates the velocity model, so
+            # the sine can be slightly too large for a horizontal ray.
+            takeoffAngle = (180 / math.pi) * math.asin(max(-1.0, min(
+                1.0, takeoffVelocity * arrivalRayParam /
+                (self.tMod.radiusOfEarth - self.sourceDepth))))
             lastLeg = self.legs[-2][0]  # very last item is "END"
-            incidentAngle = (180 / math.pi) * math.asin(
-                vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
-                self.tMod.radiusOfEarth)
+            incidentAngle = (180 / math.pi) * math.asin(max(-1.0, min(
+                1.0, vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
+                self.tMod.radiusOfEarth)))
         return Arrival(self, arrivalTime, searchDist, arrivalRayParam, rayNum,
                        name, puristName, sourceDepth, takeoffAngle,
                        incidentAngle)
-- 
2.43.0


From d2168776210fcc6c4ed4d6db728a253c3f8aa804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 22/34] fix: phases that consist of a single ray failed at its
 distance

---
 taupy/SeismicPhase.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 31ab6e5..f0e3e84 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -865,7 +865,9 @@ class SeismicPhase(object):
         rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
         distA = self.dist[currArrival.rayParamIndex]
         distB = self.dist[currArrival.rayParamIndex + 1]
-        distRatio = (currArrival.dist - distA) / (distB - distA)
+        # Phases that consist of a single ray only have one distance.
+        distRatio = (currArrival.dist - distA) / (distB - distA) \
+            if distB != distA else 0
         distRayParam = distRatio * (rayParamB - rayParamA) + rayParamA
         # First pierce point is always 0 distance at the source depth.
         pierce = [TimeDist(distRayParam, 0, 0, self.tMod.sourceDepth)]
@@ -1040,15 +1042,20 @@ class SeismicPhase(object):
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-        arrivalTime = ((searchDist - self.dist[rayNum]) /
-                       (self.dist[rayNum + 1] - self.dist[rayNum])
-                       * (self.time[rayNum + 1] - self.time[rayNum]) +
-                       self.time[rayNum])
-        arrivalRayParam = ((searchDist - self.dist[rayNum + 1]) *
-                           (self.rayParams[rayNum] -
-                            self.rayParams[rayNum + 1])
-                           / (self.dist[rayNum] - self.dist[rayNum + 1]) +
-                           self.rayParams[rayNum + 1])
+        if self.dist[rayNum] == self.dist[rayNum + 1]:
+            # Only happens for phases that consist of a single ray.
+            arrivalTime = self.time[rayNum]
+            arrivalRayParam = self.rayParams[rayNum]
+        else:
+            arrivalTime = ((searchDist - self.dist[rayNum]) /
+                           (self.dist[rayNum + 1] - self.dist[rayNum])
+                           * (self.time[rayNum + 1] - self.time[rayNum]) +
+                           self.time[rayNum])
+            arrivalRayParam = ((searchDist - self.dist[rayNum + 1]) *
+                               (self.rayParams[rayNum] -
+                                self.rayParams[rayNum + 1])
+                               / (self.dist[rayNum] - self.dist[rayNum + 1]) +
+                               self.rayParams[rayNum + 1])
         if name.endswith("kmps"):
             takeoffAngle = 0
             incidentAngle = 0
-- 
2.43.0


From f89c9c9bf4bcc3ce8ee235216e734cffb3e5f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 23/34] fix: sample the slowness of sources on a slowness layer
 boundary

---
 taupy/SlownessModel.py | 18 ++++++++++++++++--
 taupy/TauModel.py      |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index c373858..ba9a156 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1297,8 +1297,22 @@ class SlownessModel(object):
         sLayer = self.getSlownessLayer(layerNum, isPWave)
         if sLayer.topDepth == depth or sLayer.botDepth == depth:
             # Depth is already on a slowness layer boundary so no need to
-            # split any slowness layers.
-            return SplitLayerInfo(self, False, False, 0)
+            # split this slowness layer. The other wave type must sample its
+            # slowness as well, though.
+            p = sLayer.topP if sLayer.topDepth == depth else sLayer.botP
+            otherLayers = self.SLayers if isPWave else self.PLayers
+            if not any((layer.topP - p) * (p - layer.botP) > 0
+                       for layer in otherLayers):
+                return SplitLayerInfo(self, False, False, p)
+            out = deepcopy(self)
+            otherLayers = self.fixOtherLayers(
+                otherLayers, p, SlownessLayer(p, depth, p, depth), None, None,
+                out.criticalDepths, not isPWave)
+            if isPWave:
+                out.SLayers = otherLayers
+            else:
+                out.PLayers = otherLayers
+            return SplitLayerInfo(out, False, False, p)
         elif abs(sLayer.topDepth - depth) < 0.000001:
             # Check for very thin layers, just move the layer to hit the
             # boundary.
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index f354d5c..a29bc49 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -238,9 +238,9 @@ class TauModel(object):
         for isPWave in [False, True]:
             splitInfo = outSMod.splitLayer(depth, isPWave)
             outSMod = splitInfo.sMod
-            if splitInfo.neededSplit and not splitInfo.movedSample:
+            if not splitInfo.movedSample:
                 # Split the slowness layers containing depth into two layers
-                # each.
+                # each (unless it is a layer boundary already).
                 newRayParam = splitInfo.rayParam
                 # As in calcTauIncFrom, ray parameters within a high slowness
                 # zone are not sampled.
-- 
2.43.0


From 1b4433e484752d8d3910d237d0c82ca2f06b9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:59 +0000
Subject: [PATCH 24/34] fix: head and diffracted segments of pierce points and
 ray paths

---
 taupy/SeismicPhase.py | 87 ++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 59 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index f0e3e84..f378b5d 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -106,6 +106,9 @@ class SeismicPhase(object):
         self.downGoing = []
         # ArrayList of wave types corresponding to each leg of the phase.
         self.waveType = []
+        # Indices into branchSeq after which the path follows the Moho (head
+        # waves) or the CMB (diffracted waves).
+        self.refractSeq = []
         # List containing strings for each leg.
         self.legs = legPuller(name)
         # Name with depths corrected to be actual discontinuities in the model.
@@ -402,6 +405,7 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch,
                                          tMod.cmbBranch - 1, isPWave,
                                          self.TURN)
+                        self.refractSeq.append(len(self.branchSeq) - 1)
                         self.maxRayParam = self.minRayParam
                         if nextLeg == "END" or nextLeg.startswith("P") \
                                 or nextLeg.startswith("S"):
@@ -437,6 +441,7 @@ class SeismicPhase(object):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
+                            self.refractSeq.append(len(self.branchSeq) - 1)
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TRANSUP)
@@ -877,9 +882,9 @@ class SeismicPhase(object):
         # so the pierce point when the ray leaves branch i is stored in i + 1.
         # Use linear interpolation between rays that we know.
         assert len(self.branchSeq) == len(self.waveType) == len(self.downGoing)
-        for branchNum, isPWave, isDownGoing in zip(self.branchSeq,
-                                                   self.waveType,
-                                                   self.downGoing):
+        for i, branchNum, isPWave, isDownGoing in zip(count(), self.branchSeq,
+                                                      self.waveType,
+                                                      self.downGoing):
             # Save the turning depths for the ray parameter for both P and
             # S waves. This way we get the depth correct for any rays that
             # turn within a layer. We have to do this on a per branch basis
@@ -923,9 +928,14 @@ class SeismicPhase(object):
             if abs(prevBranchTime - branchTime) > 1e-10:
                 pierce.append(TimeDist(distRayParam, branchTime, branchDist,
                                        branchDepth))
-        if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
-            pierce = self.handleHeadOrDiffractedWave(currArrival, pierce)
-        elif "kmps" in self.name:
+            # Special case for head and diffracted waves:
+            if i in self.refractSeq:
+                refractTD = self.refractedSegment(currArrival)
+                branchDist += refractTD.distRadian
+                branchTime += refractTD.time
+                pierce.append(TimeDist(distRayParam, branchTime, branchDist,
+                                       refractTD.depth))
+        if "kmps" in self.name:
             pierce.append(TimeDist(distRayParam, currArrival.time,
                                    currArrival.dist, 0))
         currArrival.pierce = pierce
@@ -964,28 +974,8 @@ class SeismicPhase(object):
                         raise RuntimeError("Path is backtracking, "
                                            "this is impossible.")
             # Special case for head and diffracted waves:
-            if(branchNum == self.tMod.cmbBranch - 1
-               and i < len(self.branchSeq) - 1
-               and self.branchSeq[i + 1] == self.tMod.cmbBranch - 1
-               and ("Pdiff" in self.name or "Sdiff" in self.name)):
-                diffTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])
-                                   * currArrival.rayParam,
-                                   currArrival.dist - self.dist[0],
-                                   self.tMod.cmbDepth)]
-                pathList.append(diffTD)
-            elif(branchNum == self.tMod.mohoBranch - 1
-                 and i < len(self.branchSeq) - 1
-                 and self.branchSeq[i + 1] == self.tMod.mohoBranch - 1
-                 and ("Pn" in self.name or "Sn" in self.name)):
-                # Can't have both Pn and Sn in a wave, so one of these is 0.
-                numFound = max(self.name.count("Pn"), self.name.count("Sn"))
-                headTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0]) / numFound
-                                   * currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])/numFound,
-                                   self.tMod.mohoDepth)]
-                pathList.append(headTD)
+            if i in self.refractSeq:
+                pathList.append([self.refractedSegment(currArrival)])
         if "kmps" in self.name:
             # kmps phases have no branches, so need to end them at the arrival
             # distance.
@@ -1003,42 +993,21 @@ class SeismicPhase(object):
                 currArrival.path.append(deepcopy(cumulative))
         return currArrival
 
-    def handleHeadOrDiffractedWave(self, currArrival, orig):
+    def refractedSegment(self, currArrival):
         """
-        Here we worry about the special case for head and diffracted
-        waves. It is assumed that a phase can be a diffracted wave or a
-        head wave, but not both. Nor can it be a head wave or diffracted
-        wave for both P and S.
+        Increments of a head or diffracted wave along the Moho or the CMB. It
+        is assumed that a phase can be a diffracted wave or a head wave, but
+        not both. If there are several such segments, they all have the same
+        length.
         """
-        for ps in ["Pn", "Sn", "Pdiff", "Sdiff"]:
-            if ps in self.name:
-                phaseSeg = ps
-                break
-        else:
-            raise TauModelError("No head/diff segment in" + str(self.name))
-        if phaseSeg in ["Pn", "Sn"]:
+        if "Pn" in self.name or "Sn" in self.name:
             headDepth = self.tMod.mohoDepth
         else:
             headDepth = self.tMod.cmbDepth
-        numFound = self.name.count(phaseSeg)
-        refractDist = currArrival.dist - self.dist[0]
-        refractTime = refractDist * currArrival.rayParam
-        out = []
-        j = 0
-        for td in orig:
-            # This is a little weird as we are not checking where we are in
-            # the phase name, but simply if the depth matches. This likely
-            # works in most cases, but may not for head/diffracted waves that
-            # undergo a phase change, if that type of phase can even exist.
-            out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                td.distRadian + j * refractDist / numFound,
-                                td.depth))
-            if td.depth == headDepth:
-                j += 1
-                out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                    td.distRadian + j * refractDist / numFound,
-                                    td.depth))
-        return out
+        refractDist = (currArrival.dist - self.dist[0]) / len(self.refractSeq)
+        return TimeDist(currArrival.rayParam,
+                        refractDist * currArrival.rayParam, refractDist,
+                        headDepth)
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-- 
2.43.0


From f0fecf61b8a42eb8c43451f7590e6d435898b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 25/34] fix: ray parameters lacked P slownesses at branch
 boundaries

---
 taupy/SlownessModel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index ba9a156..07ffa74 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -652,6 +652,15 @@ class SlownessModel(object):
                 self.addSlowness(topP, self.SWAVE)
             botP = layer.botP
             self.addSlowness(botP, self.SWAVE)
+        # Adding to the S sampling skips fluids. However, the ray parameters
+        # of the tau model are taken from the S sampling and must contain the
+        # P slownesses at the branch boundaries.
+        for critDepth in self.criticalDepths:
+            for layer in self.PLayers[:]:
+                if layer.topDepth == critDepth.depth:
+                    self.addSlowness(layer.topP, self.PWAVE)
+                if layer.botDepth == critDepth.depth:
+                    self.addSlowness(layer.botP, self.PWAVE)
         botP = -1
         for layer in self.SLayers:
             topP = layer.topP
-- 
2.43.0


From f48aca18800bbf10627b0f5ef4e2c991c81a4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 26/34] fix: core phases of models without an inner core

---
 taupy/SeismicPhase.py | 3 +++
 taupy/TauModel.py     | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index f378b5d..ce52556 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -111,6 +111,9 @@ class SeismicPhase(object):
         self.refractSeq = []
         # List containing strings for each leg.
         self.legs = legPuller(name)
+        if tMod.iocbBranch == len(tMod.tauBranches[0]) and \
+                any(leg in ("I", "J", "i", "^i", "vi") for leg in self.legs):
+            raise TauModelError("Model has no inner core: {}".format(name))
         # Name with depths corrected to be actual discontinuities in the model.
         self.puristName = self.createPuristName(tMod)
         self.parseName(tMod)
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index a29bc49..bacf217 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -157,7 +157,12 @@ class TauModel(object):
         # Now set mohoDepth etc. to the top of the branches we have decided on.
         self.mohoDepth = self.tauBranches[0][self.mohoBranch].topDepth
         self.cmbDepth = self.tauBranches[0][self.cmbBranch].topDepth
-        self.iocbDepth = self.tauBranches[0][self.iocbBranch].topDepth
+        if self.sMod.vMod.iocbDepth == self.radiusOfEarth:
+            # There is no inner core, the outer core extends to the centre.
+            self.iocbBranch = len(self.tauBranches[0])
+            self.iocbDepth = self.radiusOfEarth
+        else:
+            self.iocbDepth = self.tauBranches[0][self.iocbBranch].topDepth
         if not self.validate():
             raise TauModelError("TauModel.calcTauIncFrom: Validation failed!")
 
-- 
2.43.0


From 19fde34729d8a259d20d456f63b97ac9b5f30cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 27/34] fix: pierce points just before a shadow zone

---
 taupy/SeismicPhase.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index ce52556..49bcff4 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -856,21 +856,20 @@ class SeismicPhase(object):
         arrival is the same as the input argument but now has the pierce
         points filled in.
         """
-        # Find the ray parameter index that corresponds to the arrival ray
-        # parameter in the TauModel, ie it is between rayNum and rayNum+1,
-        # We know that it must be <tMod.rayParams.length-1 since the last
-        # ray parameter sample is 0 in a spherical model.
-        rayNum = 0
-        for i, rp in enumerate(self.tMod.rayParams[:-1]):
-            if rp >= currArrival.rayParam:
-                rayNum = i
-            else:
-                break
         # Here we use ray parameter and dist info stored within the
         # SeismicPhase so we can use currArrival.rayParamIndex, which
         # may not correspond to rayNum (for tMod.rayParams).
         rayParamA = self.rayParams[currArrival.rayParamIndex]
         rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
+        # Find the ray parameter index in the TauModel that corresponds to
+        # the sample just before the arrival, ie the arrival is between rayNum
+        # and rayNum+1.
+        rayNum = 0
+        for i, rp in enumerate(self.tMod.rayParams):
+            if rp >= rayParamA:
+                rayNum = i
+            else:
+                break
         distA = self.dist[currArrival.rayParamIndex]
         distB = self.dist[currArrival.rayParamIndex + 1]
         # Phases that consist of a single ray only have one distance.
@@ -909,11 +908,16 @@ class SeismicPhase(object):
                                                          tauBranch.topDepth,
                                                          tauBranch.botDepth,
                                                          isPWave)
-            if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
-                # Head waves and diffracted waves are a special case.
+            if rayParamA == rayParamB:
+                # Phases with a single ray, as head waves and diffracted
+                # waves, are a special case.
                 distA = tauBranch.dist[rayNum]
                 timeA = tauBranch.time[rayNum]
                 distB, timeB = distA, timeA
+            elif rayParamA > tauBranch.maxRayParam:
+                # The ray turns above this branch, even if it is just before
+                # a shadow zone.
+                distA, timeA, distB, timeB = 0, 0, 0, 0
             else:
                 distA = tauBranch.dist[rayNum]
                 timeA = tauBranch.time[rayNum]
-- 
2.43.0


From e88896d0a605083d348aec62d6757b0d36a286c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:59 +0000
Subject: [PATCH 28/34] fix: shadow zone of one wave type cut off the legs of
 the other

---
 taupy/SeismicPhase.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 49bcff4..9d06f96 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -708,7 +708,6 @@ class SeismicPhase(object):
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
                 else tMod.sMod.highSlownessLayerDepthsS
-            indexOffset = 0
             for hszi in hsz:
                 if self.maxRayParam > hszi.rayParam > self.minRayParam:
                     # There is a high slowness zone within our ray parameter
@@ -737,28 +736,24 @@ class SeismicPhase(object):
                         # Sum the branches with an appropriate multiplier.
                         newdist.append(0)
                         newtime.append(0)
+                        # A ray just above the zone only misses the branches
+                        # below its top with the zone's wave type.
+                        rpIndex = tMod.rayParams.index(hszi.rayParam)
                         for tb, tbs, taub, taubs in zip(timesBranches[0],
                                                         timesBranches[1],
                                                         tMod.tauBranches[0],
                                                         tMod.tauBranches[1]):
-                            if tb != 0 and taub.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tb * taub.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tb * taub.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                            if tbs != 0 and taubs.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tbs * taubs.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tbs * taubs.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                            if tb != 0 and (not isPwave or
+                                            taub.topDepth < hszi.topDepth):
+                                newdist[hszIndex] += tb * taub.dist[rpIndex]
+                                newtime[hszIndex] += tb * taub.time[rpIndex]
+                            if tbs != 0 and (isPwave or
+                                             taubs.topDepth < hszi.topDepth):
+                                newdist[hszIndex] += tbs * taubs.dist[rpIndex]
+                                newtime[hszIndex] += tbs * taubs.time[rpIndex]
                         newdist += self.dist[hszIndex:]
                         newtime += self.time[hszIndex:]
                         newrayParams += self.rayParams[hszIndex:]
-                        indexOffset += 1
                         self.dist = newdist
                         self.time = newtime
                         self.rayParams = newrayParams
-- 
2.43.0


From b7a7bd399d3f0519f9f737561de8df71f5266cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:02 +0000
Subject: [PATCH 29/34] fix: head and diffracted waves along a high slowness
 zone

---
 taupy/SeismicPhase.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 9d06f96..c9c124d 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -399,6 +399,12 @@ class SeismicPhase(object):
                             currLeg, nextLeg))
             elif currLeg.startswith("P") or currLeg.startswith("S"):
                 if currLeg == "Pdiff" or currLeg == "Sdiff":
+                    # No diffraction if there is a high slowness zone at the
+                    # CMB.
+                    if any(hsz.topDepth < tMod.cmbDepth <= hsz.botDepth
+                           for hsz in self.highSlowness(tMod, isPWave)):
+                        self.maxRayParam = -1
+                        return
                     # In the diffracted case we trick addtoBranch into
                     # thinking we are turning, but then make maxRayParam
                     # equal to minRayParam, which is the deepest turning ray.
@@ -434,6 +440,12 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                          self.REFLECTTOP)
                     elif currLeg == "Pn" or currLeg == "Sn":
+                        # No head wave if there is a high slowness zone below
+                        # the Moho.
+                        if any(hsz.topDepth <= tMod.mohoDepth < hsz.botDepth
+                               for hsz in self.highSlowness(tMod, isPWave)):
+                            self.maxRayParam = -1
+                            return
                         # In the diffracted case we trick addtoBranch into
                         # thinking we are turning below the Moho, but then
                         # make the minRayParam equal to maxRayParam,
@@ -509,6 +521,13 @@ class SeismicPhase(object):
                     "Phase not recognized: {} followed by {}".format(currLeg,
                                                                      nextLeg))
 
+    @staticmethod
+    def highSlowness(tMod, isPWave):
+        """The high slowness zones for the wave type."""
+        if isPWave:
+            return tMod.sMod.highSlownessLayerDepthsP
+        return tMod.sMod.highSlownessLayerDepthsS
+
     def phaseConversion(self, tMod, fromBranch, endAction, isPtoS):
         """
         Changes maxRayParam and minRayParam whenever there is a phase
@@ -675,22 +694,10 @@ class SeismicPhase(object):
                     self.dist[i - self.maxRayParamIndex] += tbs * taubs.dist[i]
                     self.time[i - self.maxRayParamIndex] += tbs * taubs.time[i]
         if "Sdiff" in self.name or "Pdiff" in self.name:
-            if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10,
-                                             self.minRayParam,
-                                             self.name[0] == "P"):
-                # No diffraction if there is a high slowness zone at the CMB.
-                self.minRayParam = -1
-                self.maxRayParam = -1
-                self.maxDistance = -1
-                self.time = []
-                self.dist = []
-                self.rayParams = []
-                return
-            else:
-                self.dist[1] = \
-                    self.dist[0] + self.maxDiffraction * math.pi / 180
-                self.time[1] = self.time[0] + \
-                               self.maxDiffraction * math.pi / 180 * self.minRayParam
+            self.dist[1] = \
+                self.dist[0] + self.maxDiffraction * math.pi / 180
+            self.time[1] = self.time[0] + \
+                self.maxDiffraction * math.pi / 180 * self.minRayParam
         elif "Pn" in self.name or "Sn" in self.name:
             self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
             self.time[1] = self.time[0] + \
-- 
2.43.0


From 8a5b0f9ddbe3c654fcddbfe10807600eb75c7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:21 +0000
Subject: [PATCH 30/34] fix: turning points slightly outside of their branch

---
 taupy/SeismicPhase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index c9c124d..af6fd97 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -910,6 +910,10 @@ class SeismicPhase(object):
                                                          tauBranch.topDepth,
                                                          tauBranch.botDepth,
                                                          isPWave)
+            # The slowness at the source is interpolated between slowness
+            # samples, so the depth can lie slightly outside of the branch.
+            turnDepth = min(max(turnDepth, tauBranch.topDepth),
+                            tauBranch.botDepth)
             if rayParamA == rayParamB:
                 # Phases with a single ray, as head waves and diffracted
                 # waves, are a special case.
-- 
2.43.0


From c48d6b45a128e7c444086520111c7d839d692863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 31/34] fix: reflections and conversions outside of the mantle
 or on the wrong side of the source

---
 taupy/SeismicPhase.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index af6fd97..d7789dc 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -271,7 +271,8 @@ class SeismicPhase(object):
                             "Phase not recognised: {currLeg} followed by "
                             "{nextLeg} when currBranch > disconBranch".format(
                                 **locals()))
-                elif nextLeg == "m" and self.currBranch >= tMod.mohoBranch:
+                elif nextLeg == "m" \
+                        and self.currBranch >= tMod.mohoBranch > 0:
                     self.addToBranch(tMod, self.currBranch, tMod.mohoBranch,
                                      isPWave, self.TRANSUP)
                 elif nextLeg.startswith("P") or nextLeg.startswith("S") or \
@@ -283,6 +284,11 @@ class SeismicPhase(object):
                                          and not nextLeg == "K" else self.REFLECTTOP))
                 elif isNextLegDepth:
                     disconBranch = closestBranchToDepth(tMod, nextLeg)
+                    if not 0 < disconBranch <= self.currBranch:
+                        raise TauModelError(
+                            "Phase not recognised: {currLeg} followed by "
+                            "{nextLeg} when currBranch < disconBranch".format(
+                                **locals()))
                     self.addToBranch(tMod, self.currBranch, disconBranch,
                                      isPWave, self.TRANSUP)
                 else:
@@ -302,7 +308,8 @@ class SeismicPhase(object):
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
                     disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
-                    if self.currBranch <= disconBranch - 1:
+                    if self.currBranch <= disconBranch - 1 \
+                            and disconBranch <= tMod.cmbBranch:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
                                          self.REFLECTBOT)
@@ -313,7 +320,11 @@ class SeismicPhase(object):
                                 **locals()))
                 elif nextLeg.startswith("^"):
                     disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
-                    if prevLeg == "K":
+                    if disconBranch >= tMod.cmbBranch:
+                        raise TauModelError(
+                            "Phase not recognised: {currLeg} followed by "
+                            "{nextLeg} below the mantle".format(**locals()))
+                    elif prevLeg == "K":
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
                     elif prevLeg.startswith("^") or any(
@@ -350,6 +361,10 @@ class SeismicPhase(object):
                     # Treat the Moho in the same way as 410 type
                     # discontinuities.
                     disconBranch = closestBranchToDepth(tMod, nextLeg)
+                    if not 0 < disconBranch < tMod.cmbBranch:
+                        raise TauModelError(
+                            "Phase not recognised: {currLeg} followed by "
+                            "{nextLeg} outside the mantle".format(**locals()))
                     if self.endAction == self.TURN \
                             or self.endAction == self.REFLECTBOT \
                             or self.endAction == self.TRANSUP:
-- 
2.43.0


From c3efb3435072965329fb2e8b4f7761891e872bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:43 +0000
Subject: [PATCH 32/34] fix: paths and names with a dot loaded another model

---
 taupy/TauModelLoader.py | 2 +-
 taupy/utils.py          | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/taupy/TauModelLoader.py b/taupy/TauModelLoader.py
index d6dcffe..b741cb6 100644
--- a/taupy/TauModelLoader.py
+++ b/taupy/TauModelLoader.py
@@ -17,7 +17,7 @@ def load(model_name):
     """
     #
     filename = _get_model_filename(model_name)
-    if not os.path.exists(filename):
+    if os.path.dirname(model_name) or not os.path.exists(filename):
         filename = model_name
 
     with open(filename, 'rb') as f:
diff --git a/taupy/utils.py b/taupy/utils.py
index 5ece3d0..bd2bffd 100755
--- a/taupy/utils.py
+++ b/taupy/utils.py
@@ -18,7 +18,10 @@ ROOT = os.path.dirname(os.path.abspath(inspect.getfile(
 
 def _get_model_filename(model_name):
     model_dir = os.path.join(ROOT, "data", "models")
-    model_name = os.path.splitext(os.path.basename(model_name))[0]
+    model_name = os.path.basename(model_name)
+    # Dots can be part of the name.
+    if model_name.endswith(".tvel"):
+        model_name = os.path.splitext(model_name)[0]
     filename = os.path.join(
         model_dir, model_name +
         ("__py%i%i__tvel" % sys.version_info[:2]) + os.path.extsep + "pickle")
-- 
2.43.0


From 98e5c149cef8897e460a9a90696dc6307a736105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:43 +0000
Subject: [PATCH 33/34] fix: models could not be written to the current
 directory

---
 taupy/TauP_Create.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index c2a90a6..7830a7d 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -120,8 +120,9 @@ class TauP_Create(object):
             if self.debug:
                 print("Done calculating Tau branches.")
 
-            if not os.path.exists(os.path.dirname(self.output_filename)):
-                os.makedirs(os.path.dirname(self.output_filename))
+            output_dir = os.path.dirname(os.path.abspath(self.output_filename))
+            if not os.path.exists(output_dir):
+                os.makedirs(output_dir)
             self.tMod.writeModel(self.output_filename)
             if self.debug:
                 print("Done Saving " + self.output_filename)
-- 
2.43.0


From 4b0879ffb3fec0a2178b4e94cef86fd74a5465eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 34/34] fix: create_taup_model called a method that does not
 exist

---
 taupy/tau.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/taupy/tau.py b/taupy/tau.py
index 1731b59..fbfbcea 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -11,6 +11,7 @@ from .TauP_Time import TauP_Time
 from .TauP_Pierce import TauP_Pierce
 from .TauP_Path import TauP_Path
 from .TauP_Create import TauP_Create
+from .utils import _get_model_filename
 
 
 class Arrivals(list):
@@ -134,4 +135,9 @@ def create_taup_model(model_name, output_dir, input_dir):
         model_file_name = model_name
     else:
         model_file_name = model_name + ".tvel"
-    TauP_Create.main(model_file_name, output_dir, input_dir)
+    creator = TauP_Create(
+        os.path.join(input_dir, model_file_name),
+        os.path.join(output_dir,
+                     os.path.basename(_get_model_filename(model_name))))
+    creator.loadVMod()
+    creator.run()
-- 
2.43.0

