From fa066f4011b08b71cc1c36973db300af2f784405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 01/35] fix: let the deprecated quadrilateral sampler redraw
 inadmissible edge lengths

The loops that sample edge lengths until they reach the minimum edge length
discarded the newly drawn value, and never terminated once the first draw
was inadmissible.
---
 frackit/sampling/quadrilateralsampler.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/sampling/quadrilateralsampler.hh b/frackit/sampling/quadrilateralsampler.hh
index 008a6c0..026adbb 100644
--- a/frackit/sampling/quadrilateralsampler.hh
+++ b/frackit/sampling/quadrilateralsampler.hh
@@ -252,10 +252,10 @@ public:
         rotate(axes[0], Direction(axes[1]), dip);
 
         // sample edge lengths until all are admissible
-        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) p_edge_(generator_);
-        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) p_edge_(generator_);
-        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) p_edge_(generator_);
-        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) p_edge_(generator_);
+        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) dx1 = p_edge_(generator_);
+        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) dx2 = p_edge_(generator_);
+        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) dy1 = p_edge_(generator_);
+        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) dy2 = p_edge_(generator_);
 
         auto dxVec1 = axes[0]; dxVec1 *= dx1/2.0;
         auto dxVec2 = axes[0]; dxVec2 *= dx2/2.0;
-- 
2.43.0


From 1cf53733e61c217eb146502e8815133dff2ba278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 02/35] fix: never accept non-positive lengths in the polygon
 sampler

The check after the loop sampling the dip length looked at the counter of the
strike length, such that negative dip lengths were accepted after 100 tries.
Zero lengths were accepted although the lengths are required to be positive,
and values were discarded if they were admissible in the last try.
---
 frackit/sampling/polygonsampler.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index c726dc5..309a623 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -166,7 +166,7 @@ public:
         while (numCorners < 3 && count < 100)
         { numCorners = p_num_corners_(generator_); count++; };
 
-        if (count == 100)
+        if (numCorners < 3)
         {
             std::string msg = "Did not obtain a value >= 3 for the number of corners after 100 tries. ";
             msg += "Please revisit your choice of distribution for that parameter.";
@@ -249,15 +249,15 @@ public:
         auto dipLength = p_dip_length_(generator_);
 
         int countStrike = 0;
-        while (strikeLength < 0.0 && countStrike < 100)
+        while (strikeLength <= 0.0 && countStrike < 100)
         { strikeLength = p_strike_length_(generator_); countStrike++; }
-        if (countStrike == 100)
+        if (strikeLength <= 0.0)
             throw std::runtime_error("Could not sample positive strike length in 100 tries");
 
         int countDip = 0;
-        while (dipLength < 0.0 && countDip < 100)
+        while (dipLength <= 0.0 && countDip < 100)
         { dipLength = p_dip_length_(generator_); countDip++; }
-        if (countStrike == 100)
+        if (dipLength <= 0.0)
             throw std::runtime_error("Could not sample positive dip length in 100 tries");
 
         std::vector<Vector> edgeVectors;
-- 
2.43.0


From 3fb23e65735c6773ddad3109cf7a1b0883c1427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 03/35] fix: sort polygon edges by their actual angle,
 independent of their absolute length

---
 frackit/sampling/polygonsampler.hh | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index 309a623..6f82802 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -267,13 +267,9 @@ public:
 
         auto getAngle = [] (const auto& v)
         {
-            if (abs(v.y()) < 1e-6) return v.x() > 0 ? 0 : M_PI;
-            if (abs(v.x()) < 1e-6) return v.y() > 0 ? M_PI/2.0 : 3.0*M_PI/2.0;
-
-            using std::atan;
-            const auto angle = atan(v.y()/v.x());
-            if (v.x() > 0.0) return angle < 0.0 ? 2.0*M_PI + angle : angle;
-            else return M_PI + angle;
+            using std::atan2;
+            const auto angle = atan2(v.y(), v.x());
+            return angle < 0.0 ? 2.0*M_PI + angle : angle;
         };
 
         // sort edges by angle
-- 
2.43.0


From bc38b834f637cd040a48e84e051e8acafe678631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:38 +0000
Subject: [PATCH 04/35] fix: don't keep a geometry sampler whose registration
 failed

---
 frackit/sampling/multigeometrysampler.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frackit/sampling/multigeometrysampler.hh b/frackit/sampling/multigeometrysampler.hh
index 1f34c43..de79785 100644
--- a/frackit/sampling/multigeometrysampler.hh
+++ b/frackit/sampling/multigeometrysampler.hh
@@ -120,8 +120,9 @@ public:
         // add the provided sampler to it
         samplerPtrPairVector.push_back( std::make_pair(currentPtr, id) );
 
-        // pass the id to the strategy
-        samplingStrategy_->addId(id);
+        // pass the id to the strategy (don't keep the sampler if this fails)
+        try { samplingStrategy_->addId(id); }
+        catch (...) { samplerPtrPairVector.pop_back(); throw; }
     }
 
     /*!
-- 
2.43.0


From c19a05f60288173c7c472d0659a92228355e24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:39 +0000
Subject: [PATCH 05/35] fix: queries on ids without target don't break
 SamplingStatus::finished

---
 frackit/sampling/status.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f96e3f9..7c82bd3 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -85,7 +85,9 @@ public:
      */
     void resetCounter(const Id& id)
     {
-        count_[id.get()] = 0;
+        auto it = count_.find(id.get());
+        if (it != count_.end())
+            it->second = 0;
     }
 
     /*!
@@ -134,7 +136,10 @@ public:
      * \brief Returns the entity count for the given id.
      */
     std::size_t getCount(const Id& id)
-    { return count_[id.get()]; }
+    {
+        auto it = count_.find(id.get());
+        return it != count_.end() ? it->second : 0;
+    }
 
     /*!
      * \brief Returns the overall entity count.
-- 
2.43.0


From 211bf6137b29bb829a66284e5737b8240f703840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:39 +0000
Subject: [PATCH 06/35] fix: print the sampling status also for zero targets
 and large progress values

---
 frackit/sampling/status.hh | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index 7c82bd3..9d1d480 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -171,8 +171,10 @@ public:
         for (const auto& pair : count_) curCount += pair.second;
         for (const auto& pair : targetCount_) curTargetCount += pair.second;
 
-        const auto ratio = 100.0*double(double(curCount)/double(curCount+rejectedCount_));
-        const auto progress = 100.0*double(curCount)/double(curTargetCount);
+        // avoid division by zero (no samples yet / nothing to be sampled)
+        const auto sampleCount = curCount + rejectedCount_;
+        const auto ratio = sampleCount == 0 ? 0.0 : 100.0*double(curCount)/double(sampleCount);
+        const auto progress = curTargetCount == 0 ? 100.0 : 100.0*double(curCount)/double(curTargetCount);
 
         std::cout << std::setprecision(2) << std::fixed;
         const auto ratioNumChars = std::to_string(int(ratio)).size() + 3;
@@ -181,12 +183,13 @@ public:
         const auto countString = std::to_string(curCount);
         const auto rejectedCountString = std::to_string(rejectedCount_);
 
-        using std::max;
-        const std::size_t zero = 0;
-        const std::size_t paddingCount    = max(zero, 13 - countString.size());
-        const std::size_t paddingRejected = max(zero, 13 - rejectedCountString.size());
-        const std::size_t paddingRatio    = max(zero, 16 - ratioNumChars);
-        const std::size_t paddingProgess  = max(zero, 8  - progressNumChars);
+        const auto getPadding = [] (std::size_t width, std::size_t numChars)
+        { return numChars < width ? width - numChars : 0; };
+
+        const auto paddingCount    = getPadding(13, countString.size());
+        const auto paddingRejected = getPadding(13, rejectedCountString.size());
+        const auto paddingRatio    = getPadding(16, ratioNumChars);
+        const auto paddingProgess  = getPadding(8, progressNumChars);
 
         std::cout << "  "      << std::string( paddingCount, ' ')    << countString + ' '
                   << "   |   " << std::string( paddingRejected, ' ') << rejectedCountString + ' '
-- 
2.43.0


From 15d885bb9f847ba5437be1bee9ebdaace905bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 07/35] fix: construct new sets of MultiGeometryEntitySet with
 the given id (did not compile)

---
 frackit/entitynetwork/multigeometryentityset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 8c03ed7..452d15a 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -96,7 +96,7 @@ public:
         }
 
         // define a new entity set
-        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id.get()) );
+        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id) );
         entityIdVectors.back().first.push_back(entity);
         entitySetGeometries_[id.get()] = geometryName(entity);
     }
-- 
2.43.0


From 69b0552ea26ed7c0b7ea67aac830e7210fc83500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 08/35] fix: don't keep an entity set that could not be
 registered

---
 frackit/entitynetwork/multigeometryentityset.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 452d15a..61592d9 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -95,10 +95,13 @@ public:
             throw std::runtime_error("MultiGeometryEntitySet::addEntity(): Could not find entity set!");
         }
 
-        // define a new entity set
+        // define a new entity set (don't keep it if it cannot be registered)
         entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id) );
-        entityIdVectors.back().first.push_back(entity);
-        entitySetGeometries_[id.get()] = geometryName(entity);
+        try {
+            entityIdVectors.back().first.push_back(entity);
+            entitySetGeometries_[id.get()] = geometryName(entity);
+        }
+        catch (...) { entityIdVectors.pop_back(); throw; }
     }
 
     /*!
-- 
2.43.0


From 13194a61e7c8d055c1e49b371efefc58dbed8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 09/35] fix: reject a list of constraint relations as a whole
 if one is defined already

---
 frackit/entitynetwork/constraintsmatrix.hh | 30 +++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/frackit/entitynetwork/constraintsmatrix.hh b/frackit/entitynetwork/constraintsmatrix.hh
index 22884f8..1cc632b 100644
--- a/frackit/entitynetwork/constraintsmatrix.hh
+++ b/frackit/entitynetwork/constraintsmatrix.hh
@@ -27,6 +27,7 @@
 #ifndef FRACKIT_ENTITYNETWORK_CONSTRAINTS_MATRIX_HH
 #define FRACKIT_ENTITYNETWORK_CONSTRAINTS_MATRIX_HH
 
+#include <algorithm>
 #include <stdexcept>
 #include <utility>
 #include <vector>
@@ -76,6 +77,16 @@ public:
     void addConstraints(const Constraints& c,
                         const std::initializer_list<IdPair>& idPairs)
     {
+        // make sure that no constraints are added if any of the relations is not admissible
+        IndexPairVector newRelations;
+        for (const auto& idPair : idPairs)
+        {
+            const auto relation = std::make_pair(idPair.first().get(), idPair.second().get());
+            if (isDefined_(idPair) || std::count(newRelations.begin(), newRelations.end(), relation))
+                throw std::runtime_error("ConstraintsMatrix: Relation was already defined!");
+            newRelations.push_back(relation);
+        }
+
         addConstraint_(c);
         for (const auto& idPair : idPairs)
             updateIndexMaps_(idPair);
@@ -126,6 +137,17 @@ private:
         constraints_.push_back(c);
     }
 
+    /*!
+     * \brief Returns true if the relation has been defined already.
+     */
+    bool isDefined_(const IdPair& idPair) const
+    {
+        auto it = relations_.find(idPair.first().get());
+        return it != relations_.end() && std::count(it->second.begin(),
+                                                    it->second.end(),
+                                                    idPair.second().get());
+    }
+
     /*!
      * \brief Updates the index maps after a call to addConstraint_().
      */
@@ -134,12 +156,8 @@ private:
         const auto firstIdx = idPair.first().get();
         const auto secondIdx = idPair.second().get();
 
-        auto it = relations_.find(idPair.first().get());
-        if (it != relations_.end())
-            if (std::count(it->second.begin(),
-                           it->second.end(),
-                           idPair.second().get()))
-                throw std::runtime_error("ConstraintsMatrix: Relation was already defined!");
+        if (isDefined_(idPair))
+            throw std::runtime_error("ConstraintsMatrix: Relation was already defined!");
 
         const auto cIdx = constraints_.size() - 1;
         constraintsIndexMap_[firstIdx].push_back(std::make_pair(secondIdx, cIdx));
-- 
2.43.0


From 583cc258d40b13511a19273aee34d28c4179f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 10/35] fix: section edges are no fragments of the entities of
 a network

---
 frackit/entitynetwork/networkbuilder.hh | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 601c8d8..998ab05 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -255,7 +255,7 @@ protected:
 
                 // map all fragments to this new index
                 const bool isDeleted = intersection.IsDeleted(entityShape);
-                const auto& generated = intersection.Generated(entityShape);
+                const auto generated = filterByType_(intersection.Generated(entityShape), entityShape.ShapeType());
                 const auto& modified = intersection.Modified(entityShape);
                 if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
                 {
@@ -348,7 +348,7 @@ protected:
 
             // map all fragments to this new index
             const bool isDeleted = fragmentAlgo.IsDeleted(shape);
-            const auto& generated = fragmentAlgo.Generated(shape);
+            const auto generated = filterByType_(fragmentAlgo.Generated(shape), shape.ShapeType());
             const auto& modified = fragmentAlgo.Modified(shape);
             auto& newList = newFragmentLists[subDomainIdx];
             auto& newMap = newFragmentMaps[subDomainIdx];
@@ -385,7 +385,7 @@ protected:
 
             // store the fragments of this sub-domain
             const bool isDeleted = fragmentAlgo.IsDeleted(domainShape);
-            const auto& generated = fragmentAlgo.Generated(domainShape);
+            const auto generated = filterByType_(fragmentAlgo.Generated(domainShape), domainShape.ShapeType());
             const auto& modified = fragmentAlgo.Modified(domainShape);
 
             auto& sdFragmentList = subDomainFragmentLists_[subDomainIdx];
@@ -400,6 +400,19 @@ protected:
         }
     }
 
+    /*!
+     * \brief Returns those shapes of a list that are of the given type. This is
+     *        used to discard e.g. the section edges generated by faces.
+     */
+    static TopTools_ListOfShape filterByType_(const TopTools_ListOfShape& shapes, TopAbs_ShapeEnum type)
+    {
+        TopTools_ListOfShape result;
+        for (const auto& shape : shapes)
+            if (shape.ShapeType() == type)
+                result.Append(shape);
+        return result;
+    }
+
     /*!
      * \brief Returns the tolerance value.
      */
-- 
2.43.0


From ce5fef33779f6fd8f21f3dc884c72c824be333c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 11/35] fix: build networks also if there are less than two
 shapes to be fragmented

---
 frackit/entitynetwork/networkbuilder.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 998ab05..4cd3b2b 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -321,6 +321,15 @@ protected:
         for (const auto& domainShape : allDomains)
             allShapes.Append(domainShape);
 
+        // there is nothing to be fragmented if there are less than two shapes
+        if (entityToSubDomainIndex.Extent() + domainToSubDomainIndex.Extent() < 2)
+        {
+            if (!fragmentNetworkOnly)
+                for (const auto& subDomainDataPair : subDomains_)
+                    subDomainFragmentLists_[subDomainDataPair.first].Append(subDomainDataPair.second);
+            return;
+        }
+
         // fragment all shapes
         BRepAlgoAPI_BuilderAlgo fragmentAlgo;
         fragmentAlgo.SetRunParallel(false);
-- 
2.43.0


From 72217008b6975d852f24d6bfe7ce8673f8dca249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 12/35] fix: never assign the same primary entity index to
 entities of different sub-domains

---
 frackit/entitynetwork/networkbuilder.hh | 3 ++-
 frackit/io/brepwriter.hh                | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 4cd3b2b..858339f 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -611,7 +611,8 @@ public:
             const auto& indexMap = dataPair.second;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
                 fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
-            entityIndexOffset += indexMap.Extent();
+            if (this->networks_.find(dataPair.first) != this->networks_.end())
+                entityIndexOffset += this->networks_.at(dataPair.first).Extent();
         }
 
         // create the network
diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 8d097c2..52bee0e 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -24,6 +24,7 @@
 #ifndef FRACKIT_BREP_WRITER_HH
 #define FRACKIT_BREP_WRITER_HH
 
+#include <algorithm>
 #include <string>
 #include <stdexcept>
 #include <unordered_map>
@@ -135,15 +136,17 @@ private:
             // the map maps to the entity index within the sub-domain network
             // Therefore, we add the offset in order to ensure that we don't add
             // entities from another network to the same primary entity index
+            std::size_t maxEntityIndex = 0;
             const auto& map = network.subDomainEntityFragmentsIndexMap(id);
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(map); it.More(); it.Next())
             {
                 allEntities_.Append(it.Key());
                 allEntitiesIndexMap_.Bind(it.Key(), it.Value() + subNetworkOffset);
+                maxEntityIndex = std::max<std::size_t>(maxEntityIndex, it.Value());
             }
 
             // the next sub-domain
-            subNetworkOffset += map.Extent();
+            subNetworkOffset += maxEntityIndex;
         }
     }
 
-- 
2.43.0


From c55f415a04a81b2a4543a64371b739cf603b4015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 13/35] fix: don't use the default tolerance of earlier builds
 in later builds

---
 frackit/entitynetwork/networkbuilder.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 858339f..a8dfddd 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -427,8 +427,12 @@ protected:
      */
     ctype getEpsilon_()
     {
+        // unless set by the user, adapt the tolerance to the current shapes
         if (!epsilonIsSet_)
+        {
             setDefaultEpsilon();
+            epsilonIsSet_ = false;
+        }
         return eps_;
     }
 
@@ -516,8 +520,8 @@ protected:
     std::unordered_map<std::size_t, TopTools_ListOfShape> networks_;
 
     // dimensionalities
-    int domainDimension_;
-    int entityDimension_;
+    int domainDimension_ = 0;
+    int entityDimension_ = 0;
 
     // The shape of the union of the user-defined sub-domains
     TopoDS_Shape subDomainUnion_;
-- 
2.43.0


From 5ed0d3942ec889f22d0aaf46532efa8bb183e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 14/35] fix: failures when adding shapes to a network builder
 don't affect later builds

---
 frackit/entitynetwork/networkbuilder.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index a8dfddd..b903095 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -142,8 +142,8 @@ public:
             throw std::runtime_error("Sub-domain id already taken!");
 
         domainDimension_ = domainDim;
-        subDomains_[subDomainId.get()] = OCCUtilities::getShape(domain);
         subDomainBoundsNetwork_[subDomainId.get()] = false;
+        subDomains_[subDomainId.get()] = OCCUtilities::getShape(domain);
     }
 
     /*!
@@ -178,8 +178,9 @@ public:
         if (!subDomains_.empty() && getDimension(entity) >= domainDimension_)
             throw std::runtime_error("Entity dimension must be smaller than domain dimension");
 
+        const auto entityShape = OCCUtilities::getShape(entity);
         entityDimension_ = entityDim;
-        networks_[subDomainId.get()].Append(OCCUtilities::getShape(entity));
+        networks_[subDomainId.get()].Append(entityShape);
     }
 
     /*!
@@ -573,8 +574,9 @@ public:
         if (!this->subDomains_.empty() && getDimension(entity) >= this->domainDimension_)
             throw std::runtime_error("Entity dimension must be smaller than domain dimension");
 
+        const auto entityShape = OCCUtilities::getShape(entity);
         this->entityDimension_ = entityDim;
-        this->networks_[0].Append(OCCUtilities::getShape(entity));
+        this->networks_[0].Append(entityShape);
     }
 
     /*!
-- 
2.43.0


From 53969605f6c96426672bd1f56cb241fe8fe53734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 15/35] fix: report failures when writing networks to disk

---
 frackit/io/brepwriter.hh | 3 ++-
 frackit/io/gmshwriter.hh | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 52bee0e..5d7b0f3 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -94,7 +94,8 @@ public:
     void write(const std::string& fileName)
     {
         const std::string brepFile = fileName + ".brep";
-        BRepTools::Write(compound_, brepFile.c_str());
+        if (!BRepTools::Write(compound_, brepFile.c_str()))
+            throw std::runtime_error("Could not write file " + brepFile);
     }
 
 protected:
diff --git a/frackit/io/gmshwriter.hh b/frackit/io/gmshwriter.hh
index 52dcacb..a2e8c96 100644
--- a/frackit/io/gmshwriter.hh
+++ b/frackit/io/gmshwriter.hh
@@ -29,6 +29,7 @@
 
 #include <string>
 #include <fstream>
+#include <stdexcept>
 
 #include "brepwriter.hh"
 
@@ -149,6 +150,11 @@ public:
                 geoFile << "};\n";
             }
         }
+
+        // make sure that everything has arrived in the file
+        geoFile.close();
+        if (!geoFile)
+            throw std::runtime_error("Could not write file " + fileName + ".geo");
     }
 
     /*!
-- 
2.43.0


From 423e9582ba39b7fc84cdb6c4bfd0136502e9b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 16/35] fix: report failures when reading shapes from .brep
 files

---
 frackit/occ/breputilities.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/frackit/occ/breputilities.hh b/frackit/occ/breputilities.hh
index d096cd7..3df20f6 100644
--- a/frackit/occ/breputilities.hh
+++ b/frackit/occ/breputilities.hh
@@ -110,7 +110,14 @@ namespace OCCUtilities {
     {
         TopoDS_Shape domainShape;
         std::ifstream file(fileName);
+        if (!file)
+            throw std::runtime_error("Could not open file " + fileName);
+
+        // let any failure to read the data surface as an exception
+        file.exceptions(std::ifstream::failbit | std::ifstream::badbit);
         BRepTools::Read(domainShape, file, BRep_Builder());
+        if (domainShape.IsNull())
+            throw std::runtime_error("Could not read a shape from file " + fileName);
         return domainShape;
     }
 
-- 
2.43.0


From 540af2adbdc5da80ac5fec9995aa931b3bba7df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 17/35] fix: recognize entity intersections independent of the
 orientation of the edges

---
 frackit/io/brepwriter.hh | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 5d7b0f3..0b6560a 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -185,7 +185,7 @@ private:
                 std::vector<std::size_t> handled;
                 for (unsigned int eIdx = 0; eIdx < edges.size(); ++eIdx)
                     for (const auto& isList : entityIntersections_)
-                        if (isList.Contains(edges[eIdx]))
+                        if (containsEdge_(isList, edges[eIdx]))
                             handled.push_back(eIdx);
 
                 if (handled.size() != edges.size())
@@ -199,6 +199,15 @@ private:
         }
     }
 
+    /*!
+     * \brief Returns true if the list contains the given edge, independent of its orientation.
+     */
+    static bool containsEdge_(const TopTools_ListOfShape& list, const TopoDS_Edge& edge)
+    {
+        return std::any_of(list.begin(), list.end(),
+                           [&edge] (const auto& e) { return e.IsSame(edge); });
+    }
+
     /*!
      * \brief Fill the sub-shape maps with all shapes that describe the network.
      * \note This overload is for contained entity networks.
@@ -325,7 +334,7 @@ private:
 
                 // start from index 1 in the map
                 for (std::size_t isIdx = 0; isIdx < entityIntersections_.size(); ++isIdx)
-                    if (entityIntersections_[isIdx].Contains(edge))
+                    if (containsEdge_(entityIntersections_[isIdx], edge))
                         entityIntersectionsToFragmentsMap_[isIdx+1].push_back(curEntityIdx);
 
                 addVertices_(edgeExp.Current());
-- 
2.43.0


From 35d543e483ed030c7feba454f669d3b4c405a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 18/35] fix: report failures that only show when closing .brep
 files

---
 frackit/io/brepwriter.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 0b6560a..e0fc045 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -26,6 +26,7 @@
 
 #include <algorithm>
 #include <string>
+#include <fstream>
 #include <stdexcept>
 #include <unordered_map>
 
@@ -94,7 +95,10 @@ public:
     void write(const std::string& fileName)
     {
         const std::string brepFile = fileName + ".brep";
-        if (!BRepTools::Write(compound_, brepFile.c_str()))
+        std::ofstream file(brepFile);
+        BRepTools::Write(compound_, file);
+        file.close();
+        if (!file)
             throw std::runtime_error("Could not write file " + brepFile);
     }
 
-- 
2.43.0


From bb2ecaad10e5a3013820814b9c6e66c0907f26b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 19/35] fix: sample the squared radius in the interval of
 squared radii in python's cylinder point samplers

---
 python/frackit/sampling/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 907b894..afe6ee4 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -121,7 +121,7 @@ def makePointSampler(geometry,
     # cylinder point sampler
     if geometry.name() == "Cylinder":
         import math
-        samplerR2  = samplerCreatorBase1(0.0, geometry.radius())
+        samplerR2  = samplerCreatorBase1(0.0, geometry.radius()**2)
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry, samplerR2, samplerPhi, samplerZ)
@@ -129,7 +129,7 @@ def makePointSampler(geometry,
     # hollow cylinder point sampler
     if geometry.name() == "HollowCylinder":
         import math
-        samplerR2  = samplerCreatorBase1(geometry.innerRadius(), geometry.outerRadius())
+        samplerR2  = samplerCreatorBase1(geometry.innerRadius()**2, geometry.outerRadius()**2)
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry.fullCylinder(), samplerR2, samplerPhi, samplerZ)
-- 
2.43.0


From e5fcedfb36b258d1c9c1d636c9046407451fe253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 20/35] fix: redraw inadmissible corner numbers and lengths in
 python's polygon sampler, and give up after 100 tries

---
 python/frackit/sampling/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index afe6ee4..3c7f213 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -231,8 +231,9 @@ class PolygonSampler:
         numCorners = 0
         while numCorners < 3 and count < 100:
             numCorners = self.numCornersSampler()
+            count += 1
 
-        if count == 100:
+        if numCorners < 3:
             raise RuntimeError("Did not obtain more than 3 corners after sampling " \
                                "100 times from the provided distribution.")
 
@@ -300,16 +301,16 @@ class PolygonSampler:
         dipLength = self.dipLengthSampler()
 
         countStrike = 0;
-        while strikeLength < 0.0 and countStrike < 100:
+        while strikeLength <= 0.0 and countStrike < 100:
             strikeLength = self.strikeLengthSampler()
             countStrike += 1
-        if countStrike == 100: raise RuntimeError("Could not sample strike dimension > 0.0 in 100 tries")
+        if strikeLength <= 0.0: raise RuntimeError("Could not sample strike dimension > 0.0 in 100 tries")
 
         countDip = 0;
-        while strikeLength < 0.0 and countDip < 100:
+        while dipLength <= 0.0 and countDip < 100:
             dipLength = self.dipLengthSampler()
             countDip += 1
-        if countDip == 100: raise RuntimeError("Could not sample dip dimension > 0.0 in 100 tries")
+        if dipLength <= 0.0: raise RuntimeError("Could not sample dip dimension > 0.0 in 100 tries")
 
         # construct edge vectors
         from frackit.geometry import Vector
-- 
2.43.0


From fd2ef1ffe12602b0587035e6f596fc7eb94d60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 21/35] fix: sort polygon edges by their actual angle in
 python's polygon sampler, independent of their absolute length

---
 python/frackit/sampling/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 3c7f213..12242f4 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -319,11 +319,8 @@ class PolygonSampler:
         # returns the angle w.r.t the standard x-y basis of an edge vector
         import math
         def getAngle(v):
-            if abs(v.y()) < 1e-6: return 0.0 if v.x() > 0.0 else math.pi
-            if abs(v.x()) < 1e-6: return math.pi/2.0 if v.y() > 0.0 else 3.0*math.pi/2.0
-
             angle = math.atan2(v.y(), v.x())
-            return 2.0*math.pi + angle if v.y() < 0.0 else angle
+            return 2.0*math.pi + angle if angle < 0.0 else angle
 
         # sort edges by angle
         edgeVectors.sort(key=lambda v: getAngle(v))
-- 
2.43.0


From aa6c01e06be9f4041d5977836d985664e44486a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:06 +0000
Subject: [PATCH 22/35] fix: don't take a failing sampler for the deprecated
 way of constructing python's quadrilateral sampler

---
 python/frackit/sampling/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 12242f4..31dc988 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -384,8 +384,7 @@ class QuadrilateralSampler:
 
         # if the last argument is not callable, we assume one is using the deprecated
         # way of construction and algorithm, where the last argument is the minumum edge length
-        try: tmp = dipLengthSampler()
-        except:
+        if not callable(dipLengthSampler):
             import warnings
             warnings.warn("Please use new quadrilateral sampler implementation", DeprecationWarning, stacklevel=2)
             self.pointSampler = pointSampler
-- 
2.43.0


From eea48f6ef7b6a3a4a0153628e6bd2a1d8c8941d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:23 +0000
Subject: [PATCH 23/35] fix: evaluate python's constraints between an entity
 and all entities of a list passed as second argument

---
 python/frackit/entitynetwork/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 50ebc20..2c4abc3 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -16,7 +16,7 @@ class EntityNetworkConstraints(_entitynetwork._EntityNetworkConstraints):
         isListB = isinstance(b, list)
 
         def evalList(theList, geo):
-            return all( super(EntityNetworkConstraints, self).evaluate(item, b) for item in theList )
+            return all( super(EntityNetworkConstraints, self).evaluate(item, geo) for item in theList )
 
         if isListA and not isListB:
             return evalList(a, b)
-- 
2.43.0


From d802bcd2c3fb344d79331e666ba050d093fd9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:23 +0000
Subject: [PATCH 24/35] fix: evaluate all relations defined for an id in
 python's constraints matrix

---
 python/frackit/entitynetwork/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 2c4abc3..290f4c6 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -72,7 +72,7 @@ class EntityNetworkConstraintsMatrix:
         if self.constraintsMatrix.get(id) == None:
             return True
 
-        for otherSetId in self.constraintsMatrix:
+        for otherSetId in self.constraintsMatrix.get(id):
             entitySet = entitySets.get(otherSetId)
 
             # set is empty, skip rest
-- 
2.43.0


From d832bec99ff8e9f694750f8d7072b69499ebd6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:23 +0000
Subject: [PATCH 25/35] fix: reject a list of id pairs as a whole in python's
 constraints matrix if one is taken already

---
 python/frackit/entitynetwork/__init__.py | 28 ++++++++++--------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 290f4c6..aa127c0 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -36,26 +36,22 @@ class EntityNetworkConstraintsMatrix:
 
     def addConstraints(self, constraints, idPairs):
 
-        def addIdPair(pair):
+        if not isinstance(idPairs, list):
+            raise RuntimeError("This expects id pairs in the form of index lists")
+        if not isinstance(idPairs[0], list): # single id pair
+            idPairs = [idPairs]
+
+        # make sure that no constraints are added if any of the pairs is not admissible
+        newPairs = []
+        for pair in idPairs:
             if len(pair) != 2:
                 raise RuntimeError("Id pairs are expected to be lists of length 2")
-
-            id1 = pair[0]
-            id2 = pair[1]
-            if self.constraintsMatrix.get(id1) == None:
-                self.constraintsMatrix[id1] = {id2 : constraints}
-            elif self.constraintsMatrix.get(id1).get(id2) == None:
-                self.constraintsMatrix[id1][id2] = constraints
-            else:
+            if self.constraintsMatrix.get(pair[0], {}).get(pair[1]) is not None or pair in newPairs:
                 raise RuntimeError("Id pair already taken!")
+            newPairs.append(pair)
 
-        if not isinstance(idPairs, list):
-            raise RuntimeError("This expects id pairs in the form of index lists")
-        if not isinstance(idPairs[0], list): # single id pair
-            addIdPair(idPairs)
-        else:
-            for pair in idPairs:
-                addIdPair(pair)
+        for id1, id2 in newPairs:
+            self.constraintsMatrix.setdefault(id1, {})[id2] = constraints
 
     def evaluate(self, entitySets, entity, id):
         """
-- 
2.43.0


From 57e46fbdda18fd0d11a1cdf6aa3c0bd670322b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 26/35] fix: intersections of planar faces near corners were
 reduced to points or empty

---
 .../algorithms/algo_planargeom_planargeom.hh  | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
index 51eced1..191d564 100644
--- a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
@@ -37,7 +37,6 @@
 #include <frackit/intersection/intersectiontraits.hh>
 #include <frackit/intersection/emptyintersection.hh>
 
-#include "algo_segment_segment.hh"
 #include "algo_plane_plane.hh"
 #include "algo_planargeom_line.hh"
 
@@ -97,14 +96,28 @@ intersect_planarGeometry_planarGeometry(const PlanarGeom1& faceGeom1,
         {
             const auto& seg1 = std::get<Segment<ctype, worldDim>>(is1);
             const auto& seg2 = std::get<Segment<ctype, worldDim>>(is2);
-            const auto segmentIS = intersect_segment_segment(seg1, seg2, eps);
-
-            if (std::holds_alternative<Segment<ctype, worldDim>>(segmentIS))
-                return ResultType( std::get<Segment<ctype, worldDim>>(segmentIS) );
-            if (std::holds_alternative<Point<ctype, worldDim>>(segmentIS))
-                return ResultType( std::get<Point<ctype, worldDim>>(segmentIS) );
-            else
-                return ResultType( EmptyIntersection<worldDim>() );
+
+            // Both segments are on the intersection line of the planes. Find the overlap via the
+            // positions along that line. Note that the segments may be slightly inclined to the
+            // line (and to each other), as the intersection points with the boundaries of the
+            // faces may have been snapped to corners in the vicinity.
+            const auto position = [&isLine, &seg1] (const Point<ctype, worldDim>& p) -> ctype
+            { return Vector<ctype, worldDim>(seg1.source(), p)*Vector<ctype, worldDim>(isLine.direction()); };
+
+            const auto ordered = [&position] (const Segment<ctype, worldDim>& s)
+            { return position(s.source()) > position(s.target()) ? s.getReversed() : s; };
+
+            const auto ordered1 = ordered(seg1);
+            const auto ordered2 = ordered(seg2);
+            const auto source = position(ordered1.source()) > position(ordered2.source()) ? ordered1.source() : ordered2.source();
+            const auto target = position(ordered1.target()) < position(ordered2.target()) ? ordered1.target() : ordered2.target();
+
+            const auto overlap = position(target) - position(source);
+            if (overlap > eps)
+                return ResultType( Segment<ctype, worldDim>(source, target) );
+            if (overlap > -eps)
+                return ResultType( source );
+            return ResultType( EmptyIntersection<worldDim>() );
         }
 
         // one of the faces might still touch the other face
-- 
2.43.0


From 42b3db1710536a83ecca676ee25521bd02506d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 27/35] fix: getShape() was missing for general shapes, so
 their bounding box could not be computed

---
 frackit/occ/breputilities.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frackit/occ/breputilities.hh b/frackit/occ/breputilities.hh
index 3df20f6..6fa1047 100644
--- a/frackit/occ/breputilities.hh
+++ b/frackit/occ/breputilities.hh
@@ -365,6 +365,7 @@ namespace OCCUtilities {
     const TopoDS_Shell& getShape(const TopoDS_Shell& s) { return s; }
     const TopoDS_Solid& getShape(const TopoDS_Solid& s) { return s; }
     const TopoDS_Compound& getShape(const TopoDS_Compound& c) { return c; }
+    const TopoDS_Shape& getShape(const TopoDS_Shape& s) { return s; }
 
     /*!
      * \ingroup OpenCascade
-- 
2.43.0


From 245d2201b6a5edcbbaa23efb1ddbdf521d580cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 28/35] fix: python's write() ignored files that could not be
 written

---
 frackit/python/occutilities/breputilities.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frackit/python/occutilities/breputilities.hh b/frackit/python/occutilities/breputilities.hh
index 12c3f05..e0c21dd 100644
--- a/frackit/python/occutilities/breputilities.hh
+++ b/frackit/python/occutilities/breputilities.hh
@@ -19,6 +19,7 @@
 #ifndef FRACKIT_PYTHON_BREP_UTILITIES_HH
 #define FRACKIT_PYTHON_BREP_UTILITIES_HH
 
+#include <fstream>
 #include <vector>
 #include <string>
 #include <stdexcept>
@@ -241,7 +242,11 @@ namespace OCCUtilities {
     template<class WrappedShape>
     void write(const WrappedShape& wrappedShape, const std::string& fileName)
     {
-        BRepTools::Write(wrappedShape.get(), fileName.c_str());
+        std::ofstream file(fileName);
+        BRepTools::Write(wrappedShape.get(), file);
+        file.close();
+        if (!file)
+            throw std::runtime_error("Could not write file " + fileName);
     }
 
 } // end namespace OCCUtilities
-- 
2.43.0


From 34fd61e110ec5e568b9eb9044dd54b7c4eb628e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 29/35] fix: angle between planar geometries and curved face
 shapes

The tangent plane was evaluated at the projection distance instead of the
first surface parameter, such that the angle was wrong on curved faces.
---
 frackit/intersection/intersectionangle.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index 050791f..dbdd062 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -380,7 +380,7 @@ public:
         // construct the tangent plane of the face in the point
         gp_Pnt p;
         gp_Vec baseVec1, baseVec2;
-        geomSurface->D1(projection, paramV, p, baseVec1, baseVec2);
+        geomSurface->D1(paramU, paramV, p, baseVec1, baseVec2);
 
         const auto base1 = OCCUtilities::vector(baseVec1);
         const auto base2 = OCCUtilities::vector(baseVec2);
-- 
2.43.0


From 8694619d46d8ff7e30b0030e6350ddec490006a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 30/35] fix: lengths of ellipses and elliptical arcs

The circumference was approximated by pi(a+b), which is too short by up to
27 percent, and the lengths of curves were integrated without tolerance,
being off by up to two percent.
---
 frackit/magnitude/length.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index ea25240..7db00e5 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -42,6 +42,7 @@
 #include <frackit/geometry/circle.hh>
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/ellipsearc.hh>
+#include <frackit/precision/precision.hh>
 
 namespace Frackit {
 
@@ -65,7 +66,7 @@ ctype computeLength(const Handle(Geom_Curve)& curve)
     const auto uMin = curve->FirstParameter();
     const auto uMax = curve->LastParameter();
     GeomAdaptor_Curve adaptorCurve(curve, uMin, uMax);
-    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax, Precision<ctype>::confusion());
 }
 
 /*!
@@ -103,7 +104,7 @@ ctype computeLength(const Circle<ctype, worldDim>& circle)
  */
 template<class ctype, int worldDim>
 ctype computeLength(const Ellipse<ctype, worldDim>& ellipse)
-{ return M_PI*(ellipse.majorAxisLength() + ellipse.minorAxisLength()); }
+{ return computeLength(OCCUtilities::getGeomHandle(ellipse)); }
 
 /*!
  * \ingroup Magnitude
@@ -113,7 +114,7 @@ template<class ctype>
 ctype computeLength(const EllipseArc<ctype, 3>& arc)
 {
     if (arc.isFullEllipse())
-         return M_PI*(arc.majorAxisLength() + arc.minorAxisLength());
+         return computeLength(arc.supportingEllipse());
     return computeLength(OCCUtilities::getGeomHandle(arc));
 }
 
-- 
2.43.0


From ca725544dc3d800008e7fe2c597aa76dea1c5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 31/35] fix: list fragments that several sets have in common
 only once

---
 frackit/entitynetwork/networkbuilder.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index b903095..f0496a2 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -32,6 +32,7 @@
 
 #include <TopTools_DataMapOfShapeInteger.hxx>
 #include <TopTools_ListOfShape.hxx>
+#include <TopTools_MapOfShape.hxx>
 #include <TopoDS_Shape.hxx>
 
 #include <frackit/common/id.hh>
@@ -604,10 +605,13 @@ public:
         // Then fragment the network entities
         this->fragment_(/*fragmentNetworkOnly*/true);
 
-        // merge all fragments into one list
+        // merge all fragments into one list (sets may have fragments in common)
+        TopTools_MapOfShape listedFragments;
         TopTools_ListOfShape fragmentList;
-        for (auto& sdFragmentDataPair : this->networkFragmentLists_)
-            fragmentList.Append(sdFragmentDataPair.second);
+        for (const auto& sdFragmentDataPair : this->networkFragmentLists_)
+            for (const auto& fragment : sdFragmentDataPair.second)
+                if (listedFragments.Add(fragment))
+                    fragmentList.Append(fragment);
 
         // merge all index maps into one
         std::size_t entityIndexOffset = 0;
-- 
2.43.0


From cf39b86b6257f6bd067c50c37c2100ff8b310745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 32/35] fix: fragment entities whose shape was added to several
 sub-domains in all of them

---
 frackit/entitynetwork/networkbuilder.hh | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index f0496a2..cd9fed7 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -29,6 +29,8 @@
 #include <stdexcept>
 #include <unordered_map>
 #include <memory>
+#include <utility>
+#include <vector>
 
 #include <TopTools_DataMapOfShapeInteger.hxx>
 #include <TopTools_ListOfShape.hxx>
@@ -291,15 +293,17 @@ protected:
      */
     void fragment_(bool fragmentNetworkOnly)
     {
-        // List with all entities of the network
+        // List with all entities of the network, together with the sub-domain index
+        // (the same shape may have been added to several sub-domains)
         TopTools_ListOfShape allEntities;
-        TopTools_DataMapOfShapeInteger entityToSubDomainIndex;
+        std::vector<std::pair<TopoDS_Shape, std::size_t>> entitySubDomainPairs;
         for (const auto& fragmentListPair : networkFragmentLists_)
         {
             for (const auto& fragment : fragmentListPair.second)
             {
-                allEntities.Append(fragment);
-                entityToSubDomainIndex.Bind(fragment, fragmentListPair.first);
+                if (!allEntities.Contains(fragment))
+                    allEntities.Append(fragment);
+                entitySubDomainPairs.emplace_back(fragment, fragmentListPair.first);
             }
         }
 
@@ -324,7 +328,7 @@ protected:
             allShapes.Append(domainShape);
 
         // there is nothing to be fragmented if there are less than two shapes
-        if (entityToSubDomainIndex.Extent() + domainToSubDomainIndex.Extent() < 2)
+        if (allEntities.Extent() + domainToSubDomainIndex.Extent() < 2)
         {
             if (!fragmentNetworkOnly)
                 for (const auto& subDomainDataPair : subDomains_)
@@ -344,13 +348,8 @@ protected:
         // map the resulting entities back to the original entity index
         std::unordered_map<std::size_t, TopTools_ListOfShape> newFragmentLists;
         std::unordered_map<std::size_t, TopTools_DataMapOfShapeInteger> newFragmentMaps;
-        for (const auto& shape : allEntities)
+        for (const auto& [shape, subDomainIdx] : entitySubDomainPairs)
         {
-            // get subdomain index
-            int subDomainIdx;
-            if (!entityToSubDomainIndex.Find(shape, subDomainIdx))
-                throw std::runtime_error("Could not find sub-domain index");
-
             // get original entity index
             int entityIdx;
             const auto& map = networkFragmentMaps_.at(subDomainIdx);
-- 
2.43.0


From 3227f9a6ccfabbf90ec9e54416ddff822da1559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 33/35] fix: sub-domain ids beyond 31 bits are kept, sub-domain
 shapes are not mapped to integers

The builder kept the ids of sub-domain shapes in a map of integers, so that
ids of 2^31 and more were truncated.
---
 frackit/entitynetwork/networkbuilder.hh | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index cd9fed7..83e1f7b 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -309,15 +309,11 @@ protected:
 
         // All sub-domains (omit this if only network is considered)
         TopTools_ListOfShape allDomains;
-        TopTools_DataMapOfShapeInteger domainToSubDomainIndex;
         if (!fragmentNetworkOnly)
         {
             for (const auto& subDomainDataPair : subDomains_)
-            {
-                allDomains.Append(subDomainDataPair.second);
-                domainToSubDomainIndex.Bind(subDomainDataPair.second,
-                                            subDomainDataPair.first);
-            }
+                if (!allDomains.Contains(subDomainDataPair.second))
+                    allDomains.Append(subDomainDataPair.second);
         }
 
         // List of both entity and sub-domain shapes
@@ -328,7 +324,7 @@ protected:
             allShapes.Append(domainShape);
 
         // there is nothing to be fragmented if there are less than two shapes
-        if (allEntities.Extent() + domainToSubDomainIndex.Extent() < 2)
+        if (allEntities.Extent() + allDomains.Extent() < 2)
         {
             if (!fragmentNetworkOnly)
                 for (const auto& subDomainDataPair : subDomains_)
@@ -385,14 +381,12 @@ protected:
         for (auto& dataPair : newFragmentMaps)
             networkFragmentMaps_[dataPair.first] = std::move(dataPair.second);
 
-        // map the resulting domain entities back to the original entity index
-        for (const auto& domainShape : allDomains)
-        {
-            // get subdomain index
-            int subDomainIdx;
-            if (!domainToSubDomainIndex.Find(domainShape, subDomainIdx))
-                throw std::runtime_error("Could not find sub-domain index");
+        // map the resulting domain entities back to their sub-domains
+        if (fragmentNetworkOnly)
+            return;
 
+        for (const auto& [subDomainIdx, domainShape] : subDomains_)
+        {
             // store the fragments of this sub-domain
             const bool isDeleted = fragmentAlgo.IsDeleted(domainShape);
             const auto generated = filterByType_(fragmentAlgo.Generated(domainShape), domainShape.ShapeType());
-- 
2.43.0


From c11eaa9f4ec05180e762888be61a548a9f640269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 34/35] fix: collinear segments that touch in a corner
 intersect in a point

The overlap was returned as a segment of zero length, so that constraints
rejected such segments as overlapping.
---
 .../intersection/algorithms/algo_segment_segment.hh  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index cb8ec48..f84f5ce 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -84,11 +84,15 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
         const bool t1On2 = segment2.contains(t1, eps, false);
         if (s1On2 && t1On2) return ResultType( segment1 );
 
-        if (s2On1 && s1On2) return ResultType( Segment(s2, s1) );
-        if (s2On1 && t1On2) return ResultType( Segment(s2, t1) );
+        // the overlap reduces to a point if the segments only touch in a corner
+        auto makeResult = [eps] (const auto& p1, const auto& p2)
+        { return p1.isEqual(p2, eps) ? ResultType( p1 ) : ResultType( Segment(p1, p2) ); };
 
-        if (t2On1 && s1On2) return ResultType( Segment(t2, s1) );
-        if (t2On1 && t1On2) return ResultType( Segment(t2, t1) );
+        if (s2On1 && s1On2) return makeResult(s2, s1);
+        if (s2On1 && t1On2) return makeResult(s2, t1);
+
+        if (t2On1 && s1On2) return makeResult(t2, s1);
+        if (t2On1 && t1On2) return makeResult(t2, t1);
     }
 
     // Fragment the lines to find the intersection point
-- 
2.43.0


From 0e22505ffa415b03bf5a457dd414238693ac96c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 35/35] fix: merge the .brep file relative to the folder of the
 .geo file

Gmsh appends the path of a merged file to the folder of the file that
merges it, so that networks written to a sub-folder by a relative name
could not be loaded.
---
 frackit/io/gmshwriter.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frackit/io/gmshwriter.hh b/frackit/io/gmshwriter.hh
index a2e8c96..2dc0719 100644
--- a/frackit/io/gmshwriter.hh
+++ b/frackit/io/gmshwriter.hh
@@ -72,7 +72,8 @@ public:
 
         std::ofstream geoFile(fileName + ".geo");
         geoFile << "Merge \"";
-        geoFile << fileName + ".brep";
+        // Gmsh looks for it relative to the folder of the .geo file
+        geoFile << fileName.substr(fileName.find_last_of('/') + 1) + ".brep";
         geoFile << "\";\n\n";
 
         geoFile << "// mesh size definitions\n";
-- 
2.43.0

