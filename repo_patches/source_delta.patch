From 86fb8c7382b54b94e812f01351ee401683baad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 01/29] fix: pass the velocity and gradient flags on when
 saving a numbered VTK file

---
 src/InputOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 27a77ae..927d91e 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -45,7 +45,7 @@ namespace slsm
         if (!outputDirectory.empty()) fileName << outputDirectory << "/";
         fileName << "level-set_" << num.str() << ".vtk";
 
-        saveLevelSetVTK(fileName.str(), levelSet);
+        saveLevelSetVTK(fileName.str(), levelSet, isVelocity, isGradient);
     }
 
     void InputOutput::saveLevelSetVTK(const std::string& fileName,
-- 
2.43.0


From ae867cda0fd87535439244fc3cfd344b601ff45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 02/29] fix: report failed writes when saving data to file

---
 src/InputOutput.cpp | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 927d91e..f247152 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -29,6 +29,21 @@
 
 namespace slsm
 {
+    //! Close a file that was opened for writing.
+    /*! \param pFile
+            A pointer to the file.
+
+        \return
+            Whether all of the data that was written reached the file.
+     */
+    static bool closeFile(FILE *pFile)
+    {
+        bool isGood = !ferror(pFile);
+
+        // Buffered data is flushed when the file is closed.
+        return (fclose(pFile) == 0) && isGood;
+    }
+
     InputOutput::InputOutput() {}
 
     void InputOutput::saveLevelSetVTK(const unsigned int& datapoint, const LevelSet& levelSet,
@@ -95,7 +110,8 @@ namespace slsm
                 fprintf(pFile, "%lf\n", levelSet.gradient[i]);
         }
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Failed to write file %s", fileName.c_str());
 
         return;
 
@@ -137,7 +153,8 @@ namespace slsm
             fprintf(pFile, "%lf %lf %lf\n", levelSet.signedDistance[i], levelSet.velocity[i], levelSet.gradient[i]);
         }
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Failed to write file %s", fileName.c_str());
 
         return;
 
@@ -172,6 +189,11 @@ namespace slsm
         slsm_check(outputFile.good(), "Cannot open file %s", fileName.c_str());
 
         outputFile.write((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
+        outputFile.close();
+
+        // Check that all of the data was written.
+        errno = EIO;
+        slsm_check(outputFile.good(), "Failed to write file %s", fileName.c_str());
 
         return;
 
@@ -312,7 +334,8 @@ namespace slsm
             fprintf(pFile, "%lf %lf %lf\n",
                 boundary.points[i].coord.x, boundary.points[i].coord.y, boundary.points[i].length);
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Failed to write file %s", fileName.c_str());
 
         return;
 
@@ -371,7 +394,8 @@ namespace slsm
             fprintf(pFile, "%lf %lf\n\n", x, y);
         }
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Failed to write file %s", fileName.c_str());
 
         return;
 
@@ -424,7 +448,8 @@ namespace slsm
         for (unsigned int i=0;i<mesh.nElements;i++)
             fprintf(pFile, "%lf\n", mesh.elements[i].area);
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Failed to write file %s", fileName.c_str());
 
         return;
 
@@ -465,7 +490,8 @@ namespace slsm
             fprintf(pFile, "%lf\n", mesh.elements[i].area);
         }
 
-        fclose(pFile);
+        errno = EIO;
+        slsm_check(closeFile(pFile), "Failed to write file %s", fileName.c_str());
 
         return;
 
-- 
2.43.0


From 2051e6bd1b50fee81b1d498db4177fa1562693d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 03/29] fix: reject truncated and oversized files when loading
 a binary level set

---
 src/InputOutput.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index f247152..fab87c0 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -296,6 +296,11 @@ namespace slsm
         // Read the nodal signed distance fom file.
         inputFile.read((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
 
+        // Check that the file holds exactly one value for each node.
+        errno = EIO;
+        slsm_check(inputFile.good() && inputFile.peek() == std::ifstream::traits_type::eof() && !inputFile.bad(),
+            "Input file contains incorrect number of nodes!");
+
         return;
 
     error:
-- 
2.43.0


From 9a1699e1c1b7bc2ed5b8df59ac4bab915c16c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 04/29] fix: reject malformed text files when loading a level
 set

---
 src/InputOutput.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index fab87c0..1d6a7b3 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -222,6 +222,7 @@ namespace slsm
         LevelSet& levelSet, bool isXY) const
     {
         unsigned int nLines = 0;
+        unsigned int node = 0;
         std::string line;
         std::ifstream inputFile(fileName.c_str());
 
@@ -241,26 +242,29 @@ namespace slsm
 
         // Read the nodal signed distance fom file.
 
-        // File contains additional nodal coordinate information.
-        if (isXY)
+        while (std::getline(inputFile, line))
         {
             double tmp;
-            unsigned int node = 0;
+            std::string extra;
+            std::istringstream values(line);
 
-            while (inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
-        }
+            errno = EINVAL;
+            slsm_check(node < levelSet.mesh.nNodes, "Input file contains incorrect number of nodes!");
 
-        // File only contains signed distance data.
-        else
-        {
-            double tmp;
-            unsigned int node = 0;
+            // File contains additional nodal coordinate information.
+            if (isXY) values >> tmp >> tmp;
 
-            while (inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
+            values >> levelSet.signedDistance[node] >> tmp >> tmp;
+
+            // Each line must hold the data for a single node, and nothing else.
+            slsm_check(!values.fail() && !(values >> extra), "Input file contains invalid data on line %u!", node + 1);
+
+            node++;
         }
 
+        errno = EIO;
+        slsm_check(node == levelSet.mesh.nNodes, "Failed to read file %s", fileName.c_str());
+
         return;
 
     error:
-- 
2.43.0


From 7c4aa49ba83ff96bb48fda3313da902b57076670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 05/29] fix: don't write past the end of boundary connectivity
 lists

---
 src/Boundary.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 372c46d..ac872fe 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -27,6 +27,23 @@
 
 namespace slsm
 {
+    //! Store an entry in an index list, growing the list if it is full.
+    /*! \param list
+            The list of indices.
+
+        \param nEntries
+            The number of entries already in the list.
+
+        \param index
+            The index to add.
+     */
+    static void addIndex(std::vector<unsigned int>& list, unsigned int& nEntries, unsigned int index)
+    {
+        if (nEntries < list.size()) list[nEntries] = index;
+        else list.push_back(index);
+        nEntries++;
+    }
+
     BoundaryPoint::BoundaryPoint() :
         length(0),
         velocity(0),
@@ -222,8 +239,8 @@ namespace slsm
                             length += segment.length;
 
                             // Create element to segment lookup.
-                            levelSet.mesh.elements[i].boundarySegments[levelSet.mesh.elements[i].nBoundarySegments] = nSegments;
-                            levelSet.mesh.elements[i].nBoundarySegments++;
+                            // (An element with several edges on the boundary has more than two.)
+                            addIndex(levelSet.mesh.elements[i].boundarySegments, levelSet.mesh.elements[i].nBoundarySegments, nSegments);
 
                             // Add segment to vector.
                             segments.push_back(segment);
@@ -889,20 +906,16 @@ namespace slsm
             points[segments[i].end].length += 0.5 * segments[i].length;
 
             // Update point to segment lookup for start point.
-            points[segments[i].start].segments[points[segments[i].start].nSegments] = i;
-            points[segments[i].start].nSegments++;
+            addIndex(points[segments[i].start].segments, points[segments[i].start].nSegments, i);
 
             // Update point to segment lookup for end point.
-            points[segments[i].end].segments[points[segments[i].end].nSegments] = i;
-            points[segments[i].end].nSegments++;
+            addIndex(points[segments[i].end].segments, points[segments[i].end].nSegments, i);
 
             // Update nearest neighbours for the start point.
-            points[segments[i].start].neighbours[points[segments[i].start].nNeighbours] = segments[i].end;
-            points[segments[i].start].nNeighbours++;
+            addIndex(points[segments[i].start].neighbours, points[segments[i].start].nNeighbours, segments[i].end);
 
             // Update nearest neighbours for the end point.
-            points[segments[i].end].neighbours[points[segments[i].end].nNeighbours] = segments[i].start;
-            points[segments[i].end].nNeighbours++;
+            addIndex(points[segments[i].end].neighbours, points[segments[i].end].nNeighbours, segments[i].start);
         }
     }
 }
-- 
2.43.0


From cf63ba4d5588fe7afeb0c93549382c4d830668fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 06/29] fix: discard cached normal deviates when seeding the
 random number generator

---
 src/MersenneTwister.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MersenneTwister.h b/src/MersenneTwister.h
index 7fadc83..3e76680 100644
--- a/src/MersenneTwister.h
+++ b/src/MersenneTwister.h
@@ -120,6 +120,10 @@ namespace slsm
         {
             seed = seed_;
             generator.seed(seed);
+
+            // Discard any deviates that are cached by the distributions.
+            default_uniform_real_distribution.reset();
+            default_normal_distribution.reset();
         }
 
     private:
-- 
2.43.0


From b32d341d0e37336ec681d03317a3c2fcd9efb43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 07/29] fix: avoid undefined boundary point normals where the
 level set is flat

---
 src/Boundary.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index ac872fe..640e9bc 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -642,6 +642,9 @@ namespace slsm
                 // Absolute gradient.
                 double grad = sqrt(gradX*gradX + gradY*gradY);
 
+                // The normal is undefined where the level set is flat.
+                if (grad == 0) continue;
+
                 // Compute the two normal vector components.
                 double xNormal = gradX / grad;
                 double yNormal = gradY / grad;
@@ -686,7 +689,9 @@ namespace slsm
         // Compute interpolated normal vector.
         for (unsigned int i=0;i<nPoints;i++)
         {
-            if (!points[i].isDomain)
+            // N.B. The normal remains zero when it can't be estimated, i.e. when
+            // there are no contributions from neighbouring nodes, or they cancel.
+            if (!points[i].isDomain && (weight[i] > 0))
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
@@ -695,8 +700,11 @@ namespace slsm
                 double norm = sqrt(points[i].normal.x*points[i].normal.x
                             + points[i].normal.y*points[i].normal.y);
 
-                points[i].normal.x /= norm;
-                points[i].normal.y /= norm;
+                if (norm > 0)
+                {
+                    points[i].normal.x /= norm;
+                    points[i].normal.y /= norm;
+                }
             }
         }
     }
-- 
2.43.0


From cfb6878f0255d347c0d9ea0a17b59fab98c1a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 08/29] fix: store optimiser gradients by active function index

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb1a653..c75ac09 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -711,7 +711,7 @@ namespace slsm
                     // Scale factor.
                     double scaleFactor = scaleFactors[index] * scaleFactors[j];
 
-                    gradient[k] += (boundaryPoints[i].sensitivities[indexMap[index]]
+                    gradient[j] += (boundaryPoints[i].sensitivities[indexMap[index]]
                                  *  boundaryPoints[i].sensitivities[k]
                                  *  boundaryPoints[i].length
                                  *  scaleFactor);
-- 
2.43.0


From c50b41e70de09f3d75499cafbe466ef1970f030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 09/29] fix: restore lambda values correctly when constraints
 are inactive

---
 src/Optimise.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index c75ac09..7cb42ff 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -281,15 +281,18 @@ namespace slsm
         if (nConstraints < nConstraintsInitial)
         {
             // Return the lambda vector to its original size.
-            lambdas.resize(1 + nConstraintsInitial);
+            // The lambda values for inactive constraints are zero.
+            lambdas.resize(1 + nConstraintsInitial, 0);
 
-            // Check for constraints.
-            if (nConstraints > 0)
+            // Copy the lambda values back into position.
+            // Loop backwards to avoid overwriting data.
+            for (unsigned int i=nConstraints;i>0;i--)
             {
-                // Copy the lambda values back into position.
-                // Loop backwards to avoid overwriting data.
-                for (unsigned int i=nConstraints+1;i>0;i--)
+                if (indexMap[i] != i)
+                {
                     lambdas[indexMap[i]] = lambdas[i];
+                    lambdas[i] = 0;
+                }
             }
         }
 
-- 
2.43.0


From bfd316c211852f5eaf50f722b2aa985be1ff3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 10/29] fix: don't retry the optimiser for ever, or depending
 on an uninitialised return code

---
 src/Optimise.cpp | 19 +++++++++++++------
 src/Optimise.h   |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 7cb42ff..116bcfb 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -228,15 +228,16 @@ namespace slsm
         }
 
         // The optimum value of the objective function.
-        double optObjective;
+        double optObjective = 0;
 
-        // Whether a single optimisation has been attempted.
-        bool isAttempted = false;
+        // The number of optimisation attempts.
+        unsigned int nAttempts = 0;
 
-        // Keep trying optmisation until a solution is found.
-        while (!isAttempted || (returnCode < 0))
+        // Keep trying optmisation until a solution is found. If roundoff errors
+        // persist, then settle for the best lambda values found so far.
+        do
         {
-            isAttempted = true;
+            nAttempts++;
 
             // Attempt optimisation.
             try
@@ -247,6 +248,8 @@ namespace slsm
             // Catch roundoff errors.
             catch (nlopt::roundoff_limited)
             {
+                returnCode = nlopt::ROUNDOFF_LIMITED;
+
                 // Reduce the constraint change targets.
                 for (unsigned int i=0;i<nConstraints;i++)
                     constraintDistancesScaled[i] *= 0.7;
@@ -257,8 +260,12 @@ namespace slsm
             {
                 errno = EINVAL;
                 slsm_log_err("Invalid arguments!");
+
+                // There is no point in trying again.
+                exit(EXIT_FAILURE);
             }
         }
+        while ((returnCode < 0) && (nAttempts < 100));
 
         // Compute the optimum displacement vector.
         computeDisplacements(lambdas);
diff --git a/src/Optimise.h b/src/Optimise.h
index 692ae39..a04334f 100644
--- a/src/Optimise.h
+++ b/src/Optimise.h
@@ -227,7 +227,7 @@ namespace slsm
         std::vector<std::vector<double> > gradients;
 
         /// Optimiser return code.
-        nlopt::result returnCode;
+        nlopt::result returnCode = nlopt::result(0);
 
         //! Compute scale factors.
         void computeScaleFactors();
-- 
2.43.0


From 1eaeac2994e2958158bfc658d9db11548819bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 11/29] fix: report the objective change of the displacements
 that are returned

---
 src/Optimise.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 116bcfb..26acd0e 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -271,7 +271,10 @@ namespace slsm
         computeDisplacements(lambdas);
 
         // Rescale the displacements and lambda values (if necessary).
-        optObjective *= rescaleDisplacements();
+        rescaleDisplacements();
+
+        // Calculate the objective change for the final displacements.
+        optObjective = computeFunction(0);
 
         // Calculate the unscaled lambda values.
         for (unsigned int i=0;i<nConstraints+1;i++)
-- 
2.43.0


From 78037e41313f9da9de2c196e39bde7c364551cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 12/29] fix: allow a fast marching object to be used more than
 once

---
 src/FastMarchingMethod.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 049bf73..4767ec1 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -110,6 +110,9 @@ namespace slsm
             // Make sure node isn't masked.
             if (nodeStatus[i] != FMM_NodeStatus::MASKED)
             {
+                // Clear the status left over from any previous march.
+                nodeStatus[i] = FMM_NodeStatus::NONE;
+
                 // Zero contour passes through node.
                 if (signedDistanceCopy[i] == 0)
                 {
@@ -212,6 +215,10 @@ namespace slsm
                 maxHeapSize++;
         }
 
+        // Delete the heap from any previous march.
+        delete heap;
+        heap = nullptr;
+
         heap = new Heap(maxHeapSize, isTest);
     }
 
-- 
2.43.0


From b4af7fe31b66c5a3b6d3c6c2841d18e57cb00683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 13/29] fix: restore the signed distance when fast marching
 runs out of memory

---
 src/FastMarchingMethod.cpp | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 4767ec1..e76fe70 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -57,14 +57,24 @@ namespace slsm
         // Initialise the set of frozen boundary nodes.
         initialiseFrozen();
 
-        // Initialise the heap data structure.
-        initialiseHeap();
+        try
+        {
+            // Initialise the heap data structure.
+            initialiseHeap();
+
+            // Initialise the set of trial nodes adjacent to the boundary.
+            initialiseTrial();
 
-        // Initialise the set of trial nodes adjacent to the boundary.
-        initialiseTrial();
+            // Find the fast marching solution.
+            solve();
+        }
 
-        // Find the fast marching solution.
-        solve();
+        // Restore the original signed distance function if we run out of memory.
+        catch (...)
+        {
+            (*signedDistance) = signedDistanceCopy;
+            throw;
+        }
     }
 
     void FastMarchingMethod::march(std::vector<double>& signedDistance_, std::vector<double>& velocity_)
@@ -83,14 +93,24 @@ namespace slsm
         // Initialise the set of frozen boundary nodes.
         initialiseFrozen();
 
-        // Initialise the heap data structure.
-        initialiseHeap();
+        try
+        {
+            // Initialise the heap data structure.
+            initialiseHeap();
+
+            // Initialise the set of trial nodes adjacent to the boundary.
+            initialiseTrial();
 
-        // Initialise the set of trial nodes adjacent to the boundary.
-        initialiseTrial();
+            // Find the fast marching solution.
+            solve();
+        }
 
-        // Find the fast marching solution.
-        solve();
+        // Restore the original signed distance function if we run out of memory.
+        catch (...)
+        {
+            (*signedDistance) = signedDistanceCopy;
+            throw;
+        }
 
         // Restore the original signed distance function. Only update velocities.
         (*signedDistance) = signedDistanceCopy;
-- 
2.43.0


From 0ddc6041c1c5c87190820e28a61ebfd49fe3d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 14/29] fix: don't leave the narrow band unfinished when
 running out of memory

---
 src/LevelSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f61f8bb..e19823f 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -374,6 +374,10 @@ namespace slsm
         // Initialise fast marching method object.
         FastMarchingMethod fmm(mesh, false);
 
+        // Make room for all possible mines, so that updating the narrow band can't
+        // fail once the signed distance has been modified.
+        mines.resize(mesh.nNodes);
+
         // Reinitialise the signed distance function.
         fmm.march(signedDistance);
 
-- 
2.43.0


From 602f4bdf5234974e5c3ffcfc1c480a76a33460e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 15/29] fix: clear the mine flag of nodes that are no longer
 mines

---
 src/LevelSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index e19823f..09c0f18 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -654,6 +654,7 @@ namespace slsm
         {
             // Flag node as inactive.
             mesh.nodes[i].isActive = false;
+            mesh.nodes[i].isMine = false;
 
             /* Check that the node isn't in a masked region. If it's not, then check
                whether it lies on the domain boundary, and if it does then check that
-- 
2.43.0


From 2466e44d7b88370a920083d176835c1271a9a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 16/29] fix: don't truncate the side of a line to an integer
 when testing polygons

---
 src/LevelSet.cpp | 2 +-
 src/LevelSet.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 09c0f18..5d598cd 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1337,7 +1337,7 @@ namespace slsm
         else return true;
     }
 
-    int LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
+    double LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
     {
         return ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
             - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 38a5d82..3bd73d8 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -394,7 +394,7 @@ namespace slsm
                 = 0 if the point is on the line,
                 < 0 if right of the line.
          */
-        int isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
+        double isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
 
         //! Calculate the material area for an element cut by the boundary.
         /*! \param element
-- 
2.43.0


From 5ab7dcab89b853b22e80a1cb200e77b125a59c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 17/29] fix: put boundary points back when a sensitivity
 callback throws

---
 src/Sensitivity.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/Sensitivity.cpp b/src/Sensitivity.cpp
index 2ef8ea9..7a32812 100644
--- a/src/Sensitivity.cpp
+++ b/src/Sensitivity.cpp
@@ -40,19 +40,30 @@ namespace slsm
         // Store the initial boundary point coordinates.
         Coord coord = point.coord;
 
-        // Displace the boundary point in the positive normal direction.
-        point.coord.x = coord.x + delta*point.normal.x;
-        point.coord.y = coord.y + delta*point.normal.y;
+        double f1, f2;
 
-        // Compute the new value of the function.
-        double f1 = callback(point);
+        try
+        {
+            // Displace the boundary point in the positive normal direction.
+            point.coord.x = coord.x + delta*point.normal.x;
+            point.coord.y = coord.y + delta*point.normal.y;
+
+            // Compute the new value of the function.
+            f1 = callback(point);
 
-        // Displace the boundary point in the negative normal direction.
-        point.coord.x = coord.x - delta*point.normal.x;
-        point.coord.y = coord.y - delta*point.normal.y;
+            // Displace the boundary point in the negative normal direction.
+            point.coord.x = coord.x - delta*point.normal.x;
+            point.coord.y = coord.y - delta*point.normal.y;
 
-        // Compute the new value of the function.
-        double f2 = callback(point);
+            // Compute the new value of the function.
+            f2 = callback(point);
+        }
+        catch (...)
+        {
+            // Don't leave the boundary point displaced.
+            point.coord = coord;
+            throw;
+        }
 
         // Compute the finite-difference derivative.
         double sens = (f1 - f2) / (2.0 * delta);
-- 
2.43.0


From 173b17c0820042d4301d56c016339427f90b96e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 18/29] fix: keep the caller's lambda values when the optimiser
 fails

---
 src/Optimise.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 26acd0e..ca6b696 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -159,6 +159,18 @@ namespace slsm
         // Compute the scale factors for the objective end constraints.
         computeScaleFactors();
 
+        // Put the initial lambda estimates back if anything goes wrong, so
+        // that the caller can try again.
+        struct LambdaGuard
+        {
+            LambdaGuard(std::vector<double>& lambdas_) : lambdas(lambdas_), initial(lambdas_), isDone(false) {}
+            ~LambdaGuard() { if (!isDone) lambdas.swap(initial); }
+
+            std::vector<double>& lambdas;
+            std::vector<double> initial;
+            bool isDone;
+        } lambdaGuard(lambdas);
+
         // Scale inital lambda estimates.
         for (unsigned int i=0;i<nConstraints+1;i++)
             lambdas[i] /= scaleFactors[i];
@@ -306,6 +318,9 @@ namespace slsm
             }
         }
 
+        // The lambda values are final.
+        lambdaGuard.isDone = true;
+
         // Return the unscaled objective change.
         return (optObjective / scaleFactors[0]);
     }
-- 
2.43.0


From 9e5cbfd4eb21196df1981f20537b4879ff7beeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 19/29] fix: don't truncate names of numbered files when
 running out of memory

---
 src/InputOutput.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 1d6a7b3..3a7fb95 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -51,6 +51,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
@@ -124,6 +128,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
@@ -167,6 +175,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
@@ -206,6 +218,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
@@ -276,6 +292,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
@@ -317,6 +337,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
@@ -357,6 +381,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
@@ -417,6 +445,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
@@ -471,6 +503,10 @@ namespace slsm
     {
         std::ostringstream fileName, num;
 
+        // Report a lack of memory, rather than truncating the file name.
+        fileName.exceptions(std::ios::badbit);
+        num.exceptions(std::ios::badbit);
+
         num.str("");
         num.width(4);
         num.fill('0');
-- 
2.43.0


From 300df569333a43b3e983bfecfffd95bc3336cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 20/29] fix: don't put arrays of the mesh size on the stack

---
 src/Boundary.cpp | 4 ++--
 src/LevelSet.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 640e9bc..20b2b98 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -557,10 +557,10 @@ namespace slsm
     void Boundary::computeNormalVectors(const LevelSet& levelSet)
     {
         // Whether the normal vector at a boundary point has been set.
-        bool isSet[nPoints];
+        std::vector<bool> isSet(nPoints);
 
         // Weighting factor for each point.
-        double weight[nPoints];
+        std::vector<double> weight(nPoints);
 
         // Initialise arrays.
         for (unsigned int i=0;i<nPoints;i++)
diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 5d598cd..8341b7b 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -708,10 +708,10 @@ namespace slsm
         // using inverse squared distance interpolation.
 
         // Whether the velocity at a node has been set.
-        bool isSet[mesh.nNodes];
+        std::vector<bool> isSet(mesh.nNodes);
 
         // Weighting factor for each node.
-        double weight[mesh.nNodes];
+        std::vector<double> weight(mesh.nNodes);
 
         // Initialise arrays.
         for (unsigned int i=0;i<mesh.nNodes;i++)
-- 
2.43.0


From 9331f59ee0b057679c199cab1f05b3136248b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 21/29] fix: count boundary nodes of elements cut at the edge
 of a fixed domain in area fractions

---
 src/LevelSet.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 8341b7b..dc54888 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1385,10 +1385,11 @@ namespace slsm
                 unsigned int n2 = (i == 0) ? 3 : (i - 1);
                 n2 = element.nodes[n2];
 
-                // Check that node isn't part of a boundary segment, i.e. both of its
-                // neighbours are inside the structure.
-                if ((mesh.nodes[n1].status & NodeStatus::INSIDE) &&
-                    (mesh.nodes[n2].status & NodeStatus::INSIDE))
+                // Check that node isn't the end point of a segment that cuts the element,
+                // i.e. that neither of its neighbours is outside the structure. (An edge
+                // along the boundary of a fixed domain has no segment.)
+                if (!(mesh.nodes[n1].status & NodeStatus::OUTSIDE) &&
+                    !(mesh.nodes[n2].status & NodeStatus::OUTSIDE))
                 {
                     // Add coordinates to vertex array.
                     vertices[nVertices].x = mesh.nodes[node].coord.x;
-- 
2.43.0


From c7b2e266df72c8de2a61d4dfff386d503069fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 22/29] fix: make segments of saddle elements agree with their
 status when the centre lies on the interface

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 20b2b98..595f4bc 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -374,7 +374,7 @@ namespace slsm
                     NodeStatus::NodeStatus status = levelSet.mesh.nodes[node].status;
 
                     if (((status & NodeStatus::INSIDE) && (lsfSum > 0))  ||
-                        ((status & NodeStatus::OUTSIDE) && (lsfSum < 0)))
+                        ((status & NodeStatus::OUTSIDE) && (lsfSum <= 0)))
                     {
                         segment.start = boundaryPoints[0];
                         segment.end = boundaryPoints[1];
-- 
2.43.0


From 8e7fcf82879fae8d8164a1be2642fea61a2a14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 23/29] fix: normalise the velocities of masked and fixed nodes
 before they are extended

---
 src/LevelSet.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index dc54888..6ea2a65 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -789,12 +789,10 @@ namespace slsm
             }
         }
 
-        // Compute interpolated velocity.
-        for (unsigned int i=0;i<nNarrowBand;i++)
-        {
-            unsigned int node = narrowBand[i];
-            if (velocity[node]) velocity[node] /= weight[node];
-        }
+        // Compute interpolated velocity. (The velocity of masked or fixed nodes next to
+        // the boundary is needed too, since it's extended into the narrow band.)
+        for (unsigned int i=0;i<mesh.nNodes;i++)
+            if (velocity[i]) velocity[i] /= weight[i];
     }
 
     double LevelSet::computeGradient(const unsigned int node) const
-- 
2.43.0


From 4f7c87faab1c1bd5cecf70c0a56314c5da9f175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 24/29] fix: clear the displacements left by an earlier problem

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index ca6b696..26f2e45 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -150,7 +150,7 @@ namespace slsm
         nPoints = boundaryPoints.size();
 
         // Resize boundary point dependent data structures.
-        displacements.resize(nPoints);
+        displacements.assign(nPoints, 0);
 
         // Initialise the index map.
         indexMap.resize(nConstraints + 1);
-- 
2.43.0


From 1fe9d2d1a7f50f5a72ac814b09c261b18cc25e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 25/29] fix: start every optimisation from the full set of
 constraints

---
 src/Optimise.cpp | 18 ++++++++++++++++++
 src/Optimise.h   |  6 ++++++
 2 files changed, 24 insertions(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 26f2e45..67448fa 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -76,6 +76,10 @@ namespace slsm
         // Set default as inequality constraints.
         if (isEquality.size() == 0) isEquality.resize(nConstraints, false);
 
+        // Store the initial constraint data.
+        constraintDistancesInitial = constraintDistances;
+        isEqualityInitial = isEquality;
+
         return;
 
     error:
@@ -123,6 +127,10 @@ namespace slsm
         // Set default as inequality constraints.
         if (isEquality.size() == 0) isEquality.resize(nConstraints, false);
 
+        // Store the initial constraint data.
+        constraintDistancesInitial = constraintDistances;
+        isEqualityInitial = isEquality;
+
         return;
 
     error:
@@ -152,6 +160,16 @@ namespace slsm
         // Resize boundary point dependent data structures.
         displacements.assign(nPoints, 0);
 
+        // Start from the full set of constraints. Inactive constraints may
+        // have been removed by a previous call.
+        nConstraints = nConstraintsInitial;
+        constraintDistances = constraintDistancesInitial;
+        constraintDistancesScaled = constraintDistancesInitial;
+        isEquality = isEqualityInitial;
+        negativeLambdaLimits.resize(nConstraints + 1);
+        positiveLambdaLimits.resize(nConstraints + 1);
+        scaleFactors.resize(nConstraints + 1);
+
         // Initialise the index map.
         indexMap.resize(nConstraints + 1);
         std::iota(indexMap.begin(), indexMap.end(), 0);
diff --git a/src/Optimise.h b/src/Optimise.h
index a04334f..d389123 100644
--- a/src/Optimise.h
+++ b/src/Optimise.h
@@ -187,6 +187,9 @@ namespace slsm
         /// A vector of distances from the constraint manifold.
         std::vector<double> constraintDistances;
 
+        /// The initial vector of distances from the constraint manifold.
+        std::vector<double> constraintDistancesInitial;
+
         /// A reference to a vector of optimum lambda values (to be found by the solver).
         std::vector<double>& lambdas;
 
@@ -202,6 +205,9 @@ namespace slsm
         /// Whether the constraints are equality constraints.
         std::vector<bool> isEquality;
 
+        /// Whether the initial constraints are equality constraints.
+        std::vector<bool> isEqualityInitial;
+
         /// The NLopt algorithm.
         nlopt::algorithm algorithm;
 
-- 
2.43.0


From cc380f415ed39651ff1340c9111896688035b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:51 +0000
Subject: [PATCH 26/29] fix: refuse a Swiss cheese on a small mesh before
 counting its holes

On a mesh less than 15 elements wide (or high) the number of holes in the
inner grid wrapped around, so that the constructor tried to allocate about
100 GB before it reached the check that refuses the mesh.
---
 src/LevelSet.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 6ea2a65..3a7ed42 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -501,19 +501,26 @@ namespace slsm
 #endif
 
         // Number of holes.
-        unsigned int n1 = (nx * ny);                // outer grid
-        unsigned int n2 = ((nx - 1) * (ny - 1));    // inner grid
-        unsigned int nHoles = n1 + n2;
+        unsigned int n1, n2, nHoles;
 
-        // Initialise a vector of holes.
-        std::vector<Hole> holes(nHoles);
+        // Vector of holes.
+        std::vector<Hole> holes;
 
         // Hole separations.
         double dx, dy;
 
-        // Check that mesh is large enough.
+        // Check that mesh is large enough. (On a smaller mesh the number of
+        // holes in the inner grid could wrap around.)
         slsm_check(((nx > 2) && (ny > 2)), "Mesh is too small for Swiss cheese initialisation.");
 
+        // Initialise the number of holes.
+        n1 = (nx * ny);                // outer grid
+        n2 = ((nx - 1) * (ny - 1));    // inner grid
+        nHoles = n1 + n2;
+
+        // Initialise the vector of holes.
+        holes.resize(nHoles);
+
         // Initialise hole separations.
         dx = ((double) mesh.width / (2 * nx));
         dy = ((double) mesh.height / (2 * ny));
-- 
2.43.0


From 105d8eea6b8e360809eb883151efde111ba11937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:41 +0000
Subject: [PATCH 27/29] fix: leave the boundary points at rest when the
 optimiser finds no time step

When the solver finds no solution (round-off failures that persist, or an
objective without a part in the solution) the objective's lambda value is
zero, and so is the time step. The velocities were then 0/0, and the level
set function became NaN everywhere in the following update.
---
 src/Optimise.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 67448fa..abc9922 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -313,9 +313,13 @@ namespace slsm
         // Effective time step.
         timeStep = std::abs(lambdas[0]);
 
-        // Calculate boundary point velocities.
+        // Calculate boundary point velocities. The points are at rest if there
+        // is no time step, e.g. when the optimiser failed to find a solution.
         for (unsigned int i=0;i<nPoints;i++)
-            boundaryPoints[i].velocity = displacements[i] / timeStep;
+        {
+            if (timeStep < std::numeric_limits<double>::min()) boundaryPoints[i].velocity = 0;
+            else boundaryPoints[i].velocity = displacements[i] / timeStep;
+        }
 
         // Remap data if there are inactive constraints.
         if (nConstraints < nConstraintsInitial)
-- 
2.43.0


From d54d32b560b9e5cd2e4874d3f3c23586bf4b8296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:41 +0000
Subject: [PATCH 28/29] fix: add no noise to the velocities when there is no
 time step

The noise is proportional to one over the square root of the time step. It
was infinite for a time step of zero, as returned by the optimiser when it
finds no solution.
---
 src/LevelSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 3a7ed42..07b7c42 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -416,8 +416,8 @@ namespace slsm
             timeStep /= scale;
         }
 
-        // Calculate noise prefactor.
-        double noise = sqrt2T / sqrt(timeStep);
+        // Calculate noise prefactor. Nothing moves if there is no time step.
+        double noise = (timeStep > 0) ? sqrt2T / sqrt(timeStep) : 0;
 
         /* Add random noise to velocity of each boundary point.
 
-- 
2.43.0


From e6ec6bd5819fc8316a5f5c7cecab88da4dd65686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:13 +0000
Subject: [PATCH 29/29] fix: discretise: don't join nodes that were never found
 when the contour has left the narrow band

---
 src/Boundary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 595f4bc..411a38c 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -476,6 +476,9 @@ namespace slsm
                         }
                     }
 
+                    // Only part of the boundary is seen when it has left the narrow band.
+                    if (nCut < 2) continue;
+
                     // Create boundary segment.
                     BoundarySegment segment;
                     segment.element = i;
-- 
2.43.0

