From 60a70767f0f017fdfb02297a20baf45954dc90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 01/67] fix: Array.lookup1DCubic falls back to the linear
 lookup method

The unqualified name raised NameError for every cubic 1D LUT.
---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 14cbbf7..5b666f9 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -511,7 +511,7 @@ class Array:
         dimensions = self._dimensions
 
         if dimensions[0] < 4 or not useSciPy or not sciPyEnabled:
-            return lookup1DLinear(position, channel)
+            return self.lookup1DLinear(position, channel)
 
         index = position*(dimensions[0]-1)
 
-- 
2.43.0


From 3c800de252a59862d180d9ee425f305fb8c07d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 02/67] fix: nearest half-domain lookup no longer tests an
 undefined name

---
 python/aces/clf/Array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 5b666f9..30ed40d 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -351,10 +351,9 @@ class Array:
 
         # Input half-float values are treated as 16 bit unsigned integers
         # Those integers are the index into the LUT
-        if not interpolate:
-            index = halfToUInt16(position)
-            value = self.lookup1D(index, channel)
-            result = value
+        index = halfToUInt16(position)
+        value = self.lookup1D(index, channel)
+        result = value
 
         return result
 
-- 
2.43.0


From 9cdaab85a99fc626f4d6bd4bd46168095da8fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 03/67] fix: index non-cubic 3D LUTs by their own green and
 blue sizes

Lookup and sampling agreed only for equal sizes along the three axes.
---
 python/aces/clf/Array.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 30ed40d..e6fda15 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -537,7 +537,7 @@ class Array:
         # Corner cases
         index3 = map(lambda a, b: max(0, min(a, b-1)), index3, dimensions)
 
-        index1 = (index3[0]*dimensions[0]*dimensions[1] + index3[1]*dimensions[1] + index3[2])*3 
+        index1 = ((index3[0]*dimensions[1] + index3[1])*dimensions[2] + index3[2])*3 
 
         #result = [values[index1], values[index1+1], values[index1+2]]
         result = values[index1:index1+3]
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index e164def..2d360fc 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -226,7 +226,7 @@ def simple3DLUT(id,
                 samplez = float(z)/(resolution[2]-1)
 
                 # Red changes fastest
-                lutValueIndex = (((x*resolution[0] +y)*resolution[1] + z))*channels
+                lutValueIndex = (((x*resolution[1] +y)*resolution[2] + z))*channels
 
                 fvalue = f(samplex, sampley, samplez)
                 lutValues[lutValueIndex:lutValueIndex+channels] = fvalue
-- 
2.43.0


From c3bbf4e1f92cf8d28db194d50e9133ea9ca628b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 04/67] fix: LUT3D.setArray no longer appends to the caller's
 dimension list

---
 python/aces/clf/LUT3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 2d360fc..fcbc78b 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -87,7 +87,7 @@ class LUT3D(ProcessNode):
     # setIndexMaps
 
     def setArray(self, dimension, values, floatEncoding='string'):
-        dimensions = dimension
+        dimensions = list(dimension)
         dimensions.append(3)
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
-- 
2.43.0


From e0455e1baacb768804c3a0a57a91e1b67404c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 05/67] fix: index map dimension getter used by the LUTs, and
 cache refresh on setValues

---
 python/aces/clf/IndexMap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 10d231e..7cd73c5 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -79,10 +79,13 @@ class IndexMap:
     def getDimension(self):
         return self._dimension
 
+    def getDimensions(self):
+        return self.getDimension()
+
     def setValues(self, values):
         self._values = values
         if self._useCachedProcess and self._values != [] and self._dimension != []:
-            self._createCachedEval()
+            self._createCachedProcess()
     def getValues(self):
         return self._values
 
-- 
2.43.0


From 5ceb54e5a89928180223911d6b2ee7d8e5fe6f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 06/67] fix: Gamma basicRev with an integer gamma used integer
 division

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 6fe9372..241c836 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -151,7 +151,7 @@ class Gamma(ProcessNode):
             elif style == 'basicRev':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-                    outValue[i] = pow(max(0.0, outValue[i]), 1/gamma[i])
+                    outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
-- 
2.43.0


From 4db3b45b35f58aa01bc1a4a136a803df65afa6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 07/67] fix: Gamma moncurveRev switches to the toe at the pivot
 of the reverse curve

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 241c836..9320f93 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -171,7 +171,7 @@ class Gamma(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= (offset[i]/(gamma[i]-1)) ):
+                    if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From 30cbba0ac19c3a3719afe29503b1c4c7ee2f3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 08/67] fix: Gamma moncurveFwd with integer gamma and offset
 used integer division

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 9320f93..9deed25 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -158,7 +158,7 @@ class Gamma(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = (offset[i]/(gamma[i]-1))
+                    pivot = (offset[i]/(gamma[i]-1.0))
                     if( outValue[i] <= pivot ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
                     else:
-- 
2.43.0


From 41e142c144b571ddf70355d4103da74291c73a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 09/67] fix: ExposureContrast style video raised TypeError on
 misplaced parenthesis

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 9f0f882..38aae5f 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -148,7 +148,7 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot),1.0/1.83)), contrast)
+                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From 4e1d55b562706ef605a2d1c2571823a8c703395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 10/67] fix: ExposureContrast style log lacked the math import
 and overwrote the pixel index

---
 python/aces/clf/ExtensionExposureContrast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 38aae5f..5d0413c 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import math
+
 from ProcessNode import *
 
 #
@@ -156,8 +158,8 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    p = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
-                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - p)*contrast + p
+                    logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
+                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From 75a08d71cc3ea0c0d05fe9900c63d1327cf111ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 11/67] fix: ExposureContrast copies each pixel's own extra
 channels

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 5d0413c..64996d6 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -165,7 +165,7 @@ class ExposureContrast(ProcessNode):
 
             # Copy the extra channels
             for i in range(min(3, stride),stride):
-                outValue[i] = values[i]
+                outValue[i] = value[i]
 
             # Copy to the output array
             outValues[p*stride:(p+1)*stride] = outValue
-- 
2.43.0


From 029a16682af6bffe25d33f339bbaa18275b891fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 12/67] fix: ExposureContrast prints its contrast instead of
 its exposure

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 64996d6..da74aba 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -183,7 +183,7 @@ class ExposureContrast(ProcessNode):
         print( "\tPivot     : %s" % param[2] )
         '''
 
-        values = {"exposure":param[0], "contrast":param[0], "pivot":param[2]}
+        values = {"exposure":param[0], "contrast":param[1], "pivot":param[2]}
 
         for key, value in values.iteritems():
             print( "%20s : %15s : %15s" % ("Value", key, value) )
-- 
2.43.0


From 384caa2b80c0540c68bb39a1d5f659aced76a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 13/67] fix: Log.process takes an optional stride as every
 other node does

---
 python/aces/clf/ExtensionLog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 6ae50b5..e7aeade 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -112,7 +112,7 @@ class Log(ProcessNode):
         return None
     # readChild
 
-    def process(self, values, stride, verbose=False):
+    def process(self, values, stride=0, verbose=False):
         # Base attributes
         inBitDepth = self._attributes['inBitDepth']
         outBitDepth = self._attributes['outBitDepth']
-- 
2.43.0


From bbe3be376b7ea8f2e0df7e1bc293205881110b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 14/67] fix: ASC CDL RevNoClamp clamped its values

---
 python/aces/clf/ASCCDL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index dfeefe2..ce86252 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -218,9 +218,9 @@ class ASCCDL(ProcessNode):
                 for i in range(3):
                     outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                     if outSat < 0:
-                        outValue[i] = ( clamp(outSat) - offset[i] ) / slope[i]
+                        outValue[i] = ( outSat - offset[i] ) / slope[i]
                     else:
-                        outValue[i] = ( pow( clamp(outSat), 1.0/power[i] ) - offset[i] ) / slope[i]
+                        outValue[i] = ( pow( outSat, 1.0/power[i] ) - offset[i] ) / slope[i]
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
-- 
2.43.0


From b552f32ec9ed6553203606a4083ddf90e557170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 15/67] fix: ColorCorrection can be processed without bit depth
 and style attributes

The constructor removes them, and process raised KeyError or left the colour alone.
---
 python/aces/clf/ASCCDL.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index ce86252..49bef6c 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -130,11 +130,12 @@ class ASCCDL(ProcessNode):
             return values
 
         # Base attributes
-        inBitDepth = self._attributes['inBitDepth']
-        outBitDepth = self._attributes['outBitDepth']
+        # ColorCorrection elements don't carry them
+        inBitDepth = self.getAttribute('inBitDepth')
+        outBitDepth = self.getAttribute('outBitDepth')
 
         # Node attributes
-        style = ''
+        style = 'Fwd'
         if 'style' in self._attributes: style = self._attributes['style']
 
         if (not(getFeatureCompatibility() & featureSets["Autodesk"]) and
-- 
2.43.0


From 844d88211f611b7d15d3016d18ae86f715b300dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 16/67] fix: LUT3D without a known interpolation is trilinear
 instead of a no-op

---
 python/aces/clf/LUT3D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index fcbc78b..c5f5b35 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -172,14 +172,14 @@ class LUT3D(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
             # Run color through LUT
-            # trilinear interpolation
-            if interpolation == 'trilinear':
-                outValue[0:3] = self._array.lookup3DTrilinear(outValue)
-
             # tetrahedral interpolation
-            elif interpolation == 'tetrahedral':
+            if interpolation == 'tetrahedral':
                 outValue[0:3] = self._array.lookup3DTetrahedral(outValue)
 
+            # trilinear interpolation is the default
+            else:
+                outValue[0:3] = self._array.lookup3DTrilinear(outValue)
+
             # Bit Depth conversion for output is ignored for LUTs
             # as LUT values are assumed to target a specific bit depth
             #for i in range(min(3, len(value))):
-- 
2.43.0


From 98b5e8062dbef7015d01ed79cfbd020b49bbef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 17/67] fix: Range honours defaultRange="False" read from a
 file

---
 python/aces/clf/Range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Range.py b/python/aces/clf/Range.py
index 99e860a..233703a 100644
--- a/python/aces/clf/Range.py
+++ b/python/aces/clf/Range.py
@@ -109,7 +109,7 @@ class Range(ProcessNode):
         if 'style' in self._attributes: 
             clamp = (self._attributes['style'] == 'clamp')
         if 'defaultRange' in self._attributes: 
-            defaultRange = True
+            defaultRange = not (self._attributes['defaultRange'] in [None, False])
 
         # Node parameters
         minInValue = None
-- 
2.43.0


From 0b558a7df5d042b0e8fb571e1665b8fda87d781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 18/67] fix: bypass="False" no longer bypasses a node

---
 python/aces/clf/ExtensionGroup.py | 2 +-
 python/aces/clf/ProcessList.py    | 2 +-
 python/aces/clf/ProcessNode.py    | 4 ++++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 873413c..4d46cac 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,7 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') == None:
+            if not processNode.getBypass():
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 485a487..3ce5a95 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -354,7 +354,7 @@ class ProcessList:
             #print( "processing : %s" % result )
 
             # Process the current value using the ProcessNode
-            if (processNode.getAttribute('bypass') == None or
+            if (not processNode.getBypass() or
                 not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index b0b1a28..f257a56 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -275,6 +275,10 @@ class ProcessNode():
             value = None
         return value
 
+    # Whether the node is marked as bypassed
+    def getBypass(self):
+        return not (str(self.getAttribute('bypass')).lower() in ['none', 'false', ''])
+
     # Elements
     def addElement(self, element):
         self._elements.append(element)
-- 
2.43.0


From f88f169ae15b0eefb389829178d6a4ac1b40bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 19/67] fix: bypass inside a Group depends on the Autodesk
 feature set as in a list

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 4d46cac..d48c3f8 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,8 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if not processNode.getBypass():
+            if (not processNode.getBypass() or
+                not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
-- 
2.43.0


From a4c8b6d5544a3bcaf1338f9d8a466f94c76be185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 20/67] fix: a bypassed node at the end of a list adapts the
 bit depth too

The node's own in or out depth stands in for the missing neighbour's.
---
 python/aces/clf/ExtensionGroup.py | 32 +++++++++++++++++--------------
 python/aces/clf/ProcessList.py    | 32 +++++++++++++++++--------------
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index d48c3f8..334144a 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -135,23 +135,27 @@ class Group(ProcessNode):
                         (processNode.getAttribute('name'), processNode.getNodeType()))
 
                 # Handle bit-depth mismatches
-                if i > 0 and i < (len(self._processes)-1):
-                    RangeClass = ProcessList.serializableClasses['Range']
+                # The node's own bit depths stand in at the ends of the list
+                RangeClass = ProcessList.serializableClasses['Range']
+                inBitDepth = processNode.getInBitDepth()
+                outBitDepth = processNode.getOutBitDepth()
+                if i > 0:
                     inBitDepth = self._processes[i-1].getOutBitDepth()
+                if i < (len(self._processes)-1):
                     outBitDepth = self._processes[i+1].getInBitDepth()
 
-                    if inBitDepth != outBitDepth:
-                        if verbose:
-                            print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
-                                processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
-
-                        RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
-                        result = RangeAdapter.process(result, stride, verbose=verbose)
-                        if verbose:
-                            print( "%s (%s) - result value : %s, result type : %s" % 
-                                (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
-                                    " ".join(map(lambda x: "%3.6f" % x, result)),
-                                    type(result) ) )
+                if inBitDepth != outBitDepth:
+                    if verbose:
+                        print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
+                            processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
+
+                    RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
+                    result = RangeAdapter.process(result, stride, verbose=verbose)
+                    if verbose:
+                        print( "%s (%s) - result value : %s, result type : %s" % 
+                            (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
+                                " ".join(map(lambda x: "%3.6f" % x, result)),
+                                type(result) ) )
 
         return result
     # process
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 3ce5a95..619c808 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -375,23 +375,27 @@ class ProcessList:
                         (processNode.getAttribute('name'), processNode.getNodeType()))
 
                 # Handle bit-depth mismatches
-                if i > 0 and i < (len(self._processes)-1):
-                    RangeClass = ProcessList.serializableClasses['Range']
+                # The node's own bit depths stand in at the ends of the list
+                RangeClass = ProcessList.serializableClasses['Range']
+                inBitDepth = processNode.getInBitDepth()
+                outBitDepth = processNode.getOutBitDepth()
+                if i > 0:
                     inBitDepth = self._processes[i-1].getOutBitDepth()
+                if i < (len(self._processes)-1):
                     outBitDepth = self._processes[i+1].getInBitDepth()
 
-                    if inBitDepth != outBitDepth:
-                        if verbose:
-                            print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
-                                processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
-
-                        RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
-                        result = RangeAdapter.process(result, verbose=verbose)
-                        if verbose:
-                            print( "%s (%s) - result value : %s, result type : %s" % 
-                                (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
-                                    " ".join(map(lambda x: "%3.6f" % x, result)),
-                                    type(result) ) )
+                if inBitDepth != outBitDepth:
+                    if verbose:
+                        print( "%s (%s) - Adding a Range node to adapt bit depth %s to bit depth %s" % (
+                            processNode.getAttribute('name'), processNode.getNodeType(), inBitDepth, outBitDepth))
+
+                    RangeAdapter = RangeClass(inBitDepth, outBitDepth, "adapter", "adapter", style='noClamp')
+                    result = RangeAdapter.process(result, verbose=verbose)
+                    if verbose:
+                        print( "%s (%s) - result value : %s, result type : %s" % 
+                            (RangeAdapter.getAttribute('name'), RangeAdapter.getNodeType(), 
+                                " ".join(map(lambda x: "%3.6f" % x, result)),
+                                type(result) ) )
 
         return result
     # process
-- 
2.43.0


From 327b738a877a449f889628f234cd35ea438002cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 21/67] fix: strict reading of a gzipped file raises for
 unsupported and unknown nodes

---
 python/aces/clf/ProcessList.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 619c808..ed6d38b 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -240,21 +240,20 @@ class ProcessList:
             try:
                 f = gzip.open(clfPath, 'rb')
                 tree = etree.parse(f)
-                root = tree.getroot()
-                self.read(root, strict)
                 f.close()
 
             # Read as normal XML otherwise
             except:
                 tree = etree.parse(clfPath)
-                root = tree.getroot()
-                self.read(root, strict)
 
         # Read as XML otherwise
         else:
             tree = etree.parse(clfPath)
-            root = tree.getroot()
-            self.read(root, strict)
+
+        # Interpret the nodes outside of the handling of unreadable files,
+        # so that errors raised for unsupported nodes reach the caller
+        root = tree.getroot()
+        self.read(root, strict)
     # readFile
 
     # Attributes
-- 
2.43.0


From 1b5f88a2ba32184a6ee3f951fc34e2f4d677b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 22/67] fix: non-ASCII text can be written, as UTF-8

---
 python/aces/clf/ProcessList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index ed6d38b..84947f2 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -70,7 +70,7 @@ class ProcessList:
         documentString = etree.tostring(document.getroot(), encoding='UTF-8')
             
         from xml.dom import minidom
-        prettyString = minidom.parseString(documentString).toprettyxml()
+        prettyString = minidom.parseString(documentString).toprettyxml(encoding='UTF-8')
        
         return prettyString
     #xmlPrettify
-- 
2.43.0


From c3e1be769ee3aaccd78c6fcce35ee244953cd0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 23/67] fix: the namespace of a file is kept when it is read

---
 python/aces/clf/ProcessList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 84947f2..34c9613 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -187,6 +187,10 @@ class ProcessList:
     def read(self, element, strict=False):
         root = element
 
+        # The XML parser moves the namespace from the attributes to the tag
+        if root.tag[:1] == '{':
+            self.setNamespace(root.tag[1:root.tag.find('}')])
+
         # Store attributes
         for key, value in root.attrib.iteritems():
             self.setAttribute(key, value)
-- 
2.43.0


From 7b78637171aef3c599e01ea2498865d6c0dd7722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 24/67] fix: hex32bit stores doubles beyond the single range as
 infinity, as integer32bit does

---
 python/aces/clf/Common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/Common.py b/python/aces/clf/Common.py
index 1e270d8..e53d564 100644
--- a/python/aces/clf/Common.py
+++ b/python/aces/clf/Common.py
@@ -121,7 +121,8 @@ def hexToHalf(hex16Value):
     return uint16ToHalf(uint16Value)
 
 def float32ToHex(float32Value):
-    return struct.pack(">f", float32Value).encode("hex")
+    uint32Value = float32ToUInt32(float32Value)
+    return struct.pack(">I", uint32Value).encode("hex")
 
 def hexToFloat32(hex32Value):
     return struct.unpack(">f", hex32Value.decode("hex"))[0]
-- 
2.43.0


From 1b2bda4d13444933f5532150f08d8087fc2c3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 25/67] fix: nodes inside a Group are read strictly and checked
 against the feature set

---
 python/aces/clf/ExtensionGroup.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 334144a..34732a8 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -62,6 +62,7 @@ class Group(ProcessNode):
         "%s - Initialize the standard class variables" % 'Group'
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
+        self._strict = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -94,6 +95,12 @@ class Group(ProcessNode):
         return node
     # write
 
+    def read(self, element, strict=False):
+        # The nodes in the group are read as strictly as the group
+        self._strict = strict
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, child):
         elementType = self.getElementType(child.tag)
         elementClass = ProcessList.getClass(elementType)
@@ -101,15 +108,33 @@ class Group(ProcessNode):
 
         if elementClass != None:
             element = elementClass()
-            element.read(child)
 
             processNodeClass = ProcessList.getClass("ProcessNode")
             if issubclass(elementClass, processNodeClass):
+                element.read(child, strict=self._strict)
+
+                # Check that a given ProcessNode class is compatible with 
+                # the current feature set
+                if ( (elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
+                    not (getFeatureCompatibility() & featureSets["Autodesk"])) or
+                    (elementType in ["Group"] and
+                        not (getFeatureCompatibility() & featureSets["Duiker Research"])) ):
+                    msg = "Unsupported feature : ProcessNode type %s" % elementType
+                    if self._strict:
+                        raise Errors.UnsupportedExtensionError(msg)
+                    else:
+                        print( "Group::read - %s" % msg )
+
                 self.addProcess( element )
             else:
+                element.read(child)
                 self.addElement( element )
         else:
-            print( "Group::read - Ignoring element : %s" % child.tag)
+            msg = "Ignoring element : %s" % child.tag
+            if self._strict:
+                raise Errors.UnknownProcessNodeError(msg)
+            else:
+                print( "Group::read - %s" % msg )
 
         return None
     # readChild
-- 
2.43.0


From a6d77c0193dd2e576861e772024c070f71d21f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 26/67] fix: processing through a node leaves the caller's
 values alone

---
 python/aces/clf/ASCCDL.py                    | 3 ++-
 python/aces/clf/ExtensionExposureContrast.py | 3 ++-
 python/aces/clf/ExtensionGamma.py            | 4 +++-
 python/aces/clf/ExtensionLog.py              | 3 ++-
 python/aces/clf/LUT1D.py                     | 4 +++-
 python/aces/clf/LUT3D.py                     | 4 +++-
 python/aces/clf/Range.py                     | 4 +++-
 7 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index 49bef6c..0639182 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -52,6 +52,7 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
 import xml.etree.ElementTree as etree
 
 from ProcessNode import *
@@ -171,7 +172,7 @@ class ASCCDL(ProcessNode):
         # Support CLF spec and Autodesk CTF style keywords
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             if style == 'Fwd' or style == 'v1.2_Fwd':
                 for i in range(3):
diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index da74aba..c9893de 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,7 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
 import math
 
 from ProcessNode import *
@@ -136,7 +137,7 @@ class ExposureContrast(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             if style == 'linear':
                 for i in range(3):
diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 9deed25..435ee28 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
+
 from ProcessNode import *
 
 #
@@ -140,7 +142,7 @@ class Gamma(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             if style == 'basicFwd':
                 for i in range(3):
diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index e7aeade..71fdbba 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -52,6 +52,7 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
 import math
 
 from ProcessNode import *
@@ -164,7 +165,7 @@ class Log(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             if style == 'log10':
                 for i in range(3):
diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 938bf0e..4079df6 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
+
 from ProcessNode import *
 from Array import Array
 from IndexMap import IndexMap
@@ -166,7 +168,7 @@ class LUT1D(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             for i in range(min(3, stride)):
                 # Run through per-channel Index Map then normalize
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index c5f5b35..79cf1a5 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
+
 from ProcessNode import *
 from Array import Array
 from IndexMap import IndexMap
@@ -152,7 +154,7 @@ class LUT3D(ProcessNode):
 
         for p in range(len(values)/stride):
             value = values[p*stride:(p+1)*stride]
-            outValue = values[p*stride:(p+1)*stride]
+            outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             # Run each channel through the index map, or base normalization
             for i in range(min(3, len(value))):
diff --git a/python/aces/clf/Range.py b/python/aces/clf/Range.py
index 233703a..6511b27 100644
--- a/python/aces/clf/Range.py
+++ b/python/aces/clf/Range.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import copy
+
 from ProcessNode import *
 
 class Range(ProcessNode):
@@ -145,7 +147,7 @@ class Range(ProcessNode):
         '''
 
         # Actually process a value or two
-        outValue = value
+        outValue = copy.copy(value)
         for i in range(len(value)):
             # Convert to normalized range
             outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-- 
2.43.0


From 81817b0a769c660ea36c1d5e1289426089ebd4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 27/67] fix: a Reference with a base path but no path refers to
 nothing

---
 python/aces/clf/ExtensionReference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 33ea651..c89363f 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -62,8 +62,8 @@ from ProcessNode import *
 # Ignores the 'alias' attribute for now
 def resolvePath(path, basePath, alias):
     fullPath = None
-    if 'path' != '':
-        if 'basePath' != '':
+    if path != '':
+        if basePath != '':
             fullPath = os.path.join(basePath, path)
             #print( fullPath )
         else:
-- 
2.43.0


From 4aaeb94edc0634fc039b8e7acbe9df44d7940c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 28/67] fix: self-contained writing inlines References in
 Groups and chains, and keeps unresolved ones

---
 python/aces/clf/ExtensionGroup.py     |  5 ++++-
 python/aces/clf/ExtensionReference.py | 12 ++++++++++--
 python/aces/clf/ProcessList.py        |  5 ++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 34732a8..af583cc 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -90,7 +90,10 @@ class Group(ProcessNode):
             # Choose whether to write Reference node or nodes referred to
             if isinstance(process, ProcessList.getClass("Reference")):
                 process.setWriteReferencedNodes(writeSelfContained)
-            process.write(node)
+            if isinstance(process, Group):
+                process.write(node, writeSelfContained)
+            else:
+                process.write(node)
         
         return node
     # write
diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index c89363f..29639f0 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -105,10 +105,18 @@ class Reference(ProcessNode):
 
     # Read / Write
     def write(self, tree):
-        if self._writeReferencedNodes:
+        # A Reference that could not be resolved is always written as such
+        if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
             for process in processes:
-                process.write(tree)
+                # Nodes referred to may hold other References themselves
+                if isinstance(process, Reference):
+                    process.setWriteReferencedNodes(True)
+                    process.write(tree)
+                elif isinstance(process, ProcessList.ProcessList.getClass("Group")):
+                    process.write(tree, True)
+                else:
+                    process.write(tree)
             return tree
         else:
             node = ProcessNode.write(self, tree)
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 34c9613..cc38b81 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -140,7 +140,10 @@ class ProcessList:
             # Choose whether to write Reference node or nodes referred to
             if isinstance(process, self.getClass("Reference")):
                 process.setWriteReferencedNodes(writeSelfContained)
-            process.write(tree)
+            if isinstance(process, self.getClass("Group")):
+                process.write(tree, writeSelfContained)
+            else:
+                process.write(tree)
         
         document = etree.ElementTree(tree)
 
-- 
2.43.0


From 1e56d43a2b611de29e8411a2da8565fb0524f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 29/67] fix: Reference.setPaths keeps the written attributes in
 step with the paths in use

---
 python/aces/clf/ExtensionReference.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 29639f0..835e243 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -91,6 +91,13 @@ class Reference(ProcessNode):
     # __init__
 
     def setPaths(self, path='', basePath='', alias=''):
+        # Keep the attributes that are written in step with the paths in use
+        for key, value in [('path', path), ('basePath', basePath), ('alias', alias)]:
+            if value != '':
+                self._attributes[key] = value
+            elif key in self._attributes:
+                del self._attributes[key]
+
         self._resolvedPath = resolvePath(path, basePath, alias)
         if self._resolvedPath != None and os.path.exists(self._resolvedPath):
             self._processList = ProcessList.ProcessList(self._resolvedPath)
-- 
2.43.0


From 2db0c0b77b0fcce0924e2456eebc28c54bb642ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 30/67] fix: setting a table, matrix or index maps again
 replaces the earlier ones

---
 python/aces/clf/LUT1D.py       | 7 +++++++
 python/aces/clf/LUT3D.py       | 7 +++++++
 python/aces/clf/Matrix.py      | 4 ++++
 python/aces/clf/ProcessNode.py | 3 +++
 4 files changed, 21 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 4079df6..6c7e85c 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -79,6 +79,11 @@ class LUT1D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        # Setting index maps again replaces the earlier ones
+        for indexMap in self._indexMaps:
+            self.removeElement( indexMap )
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
@@ -100,6 +105,8 @@ class LUT1D(ProcessNode):
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
         rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
 
+        # Setting the table again replaces the earlier one
+        self.removeElement( self._array )
         self._array = Array(dimensions, 
             values, 
             rawHalfs=rawHalfs, 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 79cf1a5..323730d 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -73,6 +73,11 @@ class LUT3D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        # Setting index maps again replaces the earlier ones
+        for indexMap in self._indexMaps:
+            self.removeElement( indexMap )
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
@@ -94,6 +99,8 @@ class LUT3D(ProcessNode):
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
+        # Setting the table again replaces the earlier one
+        self.removeElement( self._array )
         self._array = Array(dimensions, 
             values, 
             integers,
diff --git a/python/aces/clf/Matrix.py b/python/aces/clf/Matrix.py
index 9fe54d2..6b9ed7e 100644
--- a/python/aces/clf/Matrix.py
+++ b/python/aces/clf/Matrix.py
@@ -63,6 +63,8 @@ class Matrix(ProcessNode):
     def __init__(self, inBitDepth=bitDepths["FLOAT16"], outBitDepth=bitDepths["FLOAT16"], id="", name=""):
         "%s - Initialize the standard class variables" % 'Matrix'
         ProcessNode.__init__(self, 'Matrix', inBitDepth, outBitDepth, id, name)
+
+        self._array = None
     # __init__
 
     def setMatrix(self, dimensions, values, floatEncoding='string'):
@@ -71,6 +73,8 @@ class Matrix(ProcessNode):
             values, 
             integers,
             floatEncoding=floatEncoding)
+        # Setting the matrix again replaces the earlier one
+        self.removeElement( self._array )
         self._array = values
         self.addElement( values )
     # setMatrix
diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index f257a56..6625b32 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -282,6 +282,9 @@ class ProcessNode():
     # Elements
     def addElement(self, element):
         self._elements.append(element)
+
+    def removeElement(self, element):
+        self._elements = [e for e in self._elements if e is not element]
     # XXX
     # To be implemented
     def getElement(self):
-- 
2.43.0


From aeb9e0dda2dfbe5e08f7eaf4a0730c854c183465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 31/67] fix: blank lines in an spi1d file are skipped

---
 python/aces/lutFormats/LutSPI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 948e3ed..cc25a74 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -170,6 +170,10 @@ class LutFormatSPI(LutFormat.LutFormat):
             #print( "line : %s" % line )
             tokens = line.split()
 
+            # Skip blank lines
+            if not tokens:
+                continue
+
             if tokens[0] == "Version":
                 version = int(tokens[1])
                 if version != 1:
-- 
2.43.0


From 42666e97be66352e6357115de0844e01a4952589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 32/67] fix: csp lattices that are not cubic are read in the
 right order

---
 python/aces/lutFormats/LutCSP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7d45565..d459de1 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -334,7 +334,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         indexB = cspIndex/(resolution[0]*resolution[1])
 
                         # Convert from LUT index to sample number, CLF-style
-                        clfIndex = (indexR*resolution[0] + indexG)*resolution[1] + indexB
+                        clfIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
                         clfIndex *= 3
 
                         # Convert from text to float
-- 
2.43.0


From 24c9179b2efa88fcaf3490243a286381fedda58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 33/67] fix: csp preluts that differ per channel or have two
 points are honoured

---
 python/aces/lutFormats/LutCSP.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index d459de1..45c14df 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -172,6 +172,9 @@ class LutFormatCSP(LutFormat.LutFormat):
         outputResolution = inputResolution
 
         # If the prelut only affects the range, skip this step
+        rangeOnly = all([prelut[0] == prelutR[0] and list(prelut[1]) == [0.0, 1.0]
+                         for prelut in cspPreluts])
+
         if inputResolution > 2:
             outputResolution *= 2
 
@@ -195,7 +198,7 @@ class LutFormatCSP(LutFormat.LutFormat):
         prelutpns.append(rangepn)
 
         # If the prelut only affects the range, skip generating a lut to represent it
-        if inputResolution > 2:
+        if not rangeOnly:
             # Generate 1d LUT by running values through the
             # - inverse normalization
             # - the cspprelut
@@ -212,16 +215,20 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                 # For each channel
                 for channel in range(len(cspPreluts)):
+                    # The preluts may have different resolutions and ranges
+                    prelutInput = cspPreluts[channel][0]
+                    channelValue = min(max(rangedValue, prelutInput[0]), prelutInput[-1])
+
                     # Find the location of the de-normalized value in the prelut
-                    for prelutIndex in range(inputResolution):
-                        if cspPreluts[channel][0][prelutIndex] > rangedValue:
+                    for prelutIndex in range(len(prelutInput)):
+                        if prelutInput[prelutIndex] > channelValue:
                             break
 
                     # Get the interpolation value
                     prelutIndexLow = max(0, prelutIndex-1)
-                    prelutIndexHigh = min(inputResolution-1, prelutIndex)
-                    prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
-                        cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
+                    prelutIndexHigh = min(len(prelutInput)-1, prelutIndex)
+                    prelutInterp = (channelValue - prelutInput[prelutIndexLow])/(
+                        prelutInput[prelutIndexHigh] - prelutInput[prelutIndexLow])
 
                     # Find the output value
                     outputInterpolationRange = (cspPreluts[channel][1][prelutIndexHigh] - cspPreluts[channel][1][prelutIndexLow])
-- 
2.43.0


From 2d99621a3337f68a9587f68ab29a97d6777b049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 34/67] fix: blank lines anywhere in a csp file are skipped

---
 python/aces/lutFormats/LutCSP.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 45c14df..c8ba289 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -251,8 +251,9 @@ class LutFormatCSP(LutFormat.LutFormat):
     # Or implement one. That would be slow in Python (or C, or OpenCL) though
     @staticmethod
     def readCSP(lutPath, inverse=False, interpolation='linear'):
+        # Blank lines carry no meaning
         with open(lutPath) as f:
-            lines = f.read().splitlines()
+            lines = [line for line in f.read().splitlines() if line.strip() != '']
 
         resolution = []
         samples = []
@@ -282,11 +283,6 @@ class LutFormatCSP(LutFormat.LutFormat):
                         #print( "metadata line : %s" % line.rstrip() )
 
                 #print( "metadata : %s" % metadata)
-                dataStart += 1
-                
-                while lines[dataStart].rstrip() == '':
-                    #print( "blank line")
-                    dataStart += 1
 
                 #print( "Prelut data starts on line : %d" % dataStart )
 
@@ -316,11 +312,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                 #
                 # Read LUT data
                 #
-                dataStart = dataStart+10
-
-                while lines[dataStart].rstrip() == '':
-                    #print( "blank line")
-                    dataStart += 1
+                dataStart = dataStart+9
 
                 resolution = map(int, lines[dataStart].split())
                 dataStart += 1
-- 
2.43.0


From 0e65b03eebb6809b0bc6fb1f9ea321c5550ee9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 35/67] fix: a 1D CTL LUT holds each channel's own values

---
 python/aces/lutFormats/LutCTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 62dbfbd..1358d85 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -176,7 +176,7 @@ class LutFormatCTL(LutFormat.LutFormat):
               for j in range(components):
                 fp.write('const float lut%d[] = {\n' % j)
                 for i in range(0, entries):
-                    fp.write('%s' % data[i * channels])
+                    fp.write('%s' % data[i * channels + j])
                     if i != (entries-1):
                       fp.write(',')
                     fp.write('\n')
-- 
2.43.0


From 4aabd9d7d620e6b9e8bc163b6113c935727f5d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 36/67] fix: the output shaper of a 1D/3D/1D LUT is sampled
 from the output shaper

---
 python/aces/lutFormats/Sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c189838..6d1ebd6 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -514,7 +514,7 @@ def sample1D3D1D(processList,
         for lutIndex in range(lutResolution1dOut):
             sampleValue = float(lutIndex)/(lutResolution1dOut-1)
 
-            lutValue = shaperInPLInverse.process([sampleValue]*3)
+            lutValue = shaperOutPLInverse.process([sampleValue]*3)
 
             samples1dOut[lutIndex*3:(lutIndex+1)*3] = lutValue
     else:
-- 
2.43.0


From fd5f378d77a8ba2cfb64b2f763dec18e9577cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 37/67] fix: a 1D/3D/1D CLF starts with the input shaper, not
 its inverse

---
 python/aces/lutFormats/LutCLF.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/python/aces/lutFormats/LutCLF.py b/python/aces/lutFormats/LutCLF.py
index f14c496..515dcc5 100644
--- a/python/aces/lutFormats/LutCLF.py
+++ b/python/aces/lutFormats/LutCLF.py
@@ -125,23 +125,25 @@ class LutFormatCLF(LutFormat.LutFormat):
                        samples1dOut,
                        lutResolution1dOut,
                        outputMin,
-                       outputMax,
-                       inversesUseIndexMaps=True,
-                       inversesUseHalfDomain=True):
+                       outputMax):
         lutpns = []
 
         # Create the input shaper
         if samples1dIn:
-            if inversesUseIndexMaps:
-                #print( "Generating inverse of 1D LUT using Index Maps")
-                lutpnInverses = Sampling.generateLUT1DInverseIndexMap([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)
-            elif inversesUseHalfDomain:
-                #print( "Generating full half-domain inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseHalfDomain([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax, rawHalfs=True)
-            else:
-                #print( "Generating resampled inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseResampled([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)            
-            lutpns.extend(lutpnInverses)
+            # Remap input range
+            rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "range", "range")
+            rangepn.setMinInValue(inputMin)
+            rangepn.setMaxInValue(inputMax)
+            rangepn.setMinOutValue(0.0)
+            rangepn.setMaxOutValue(1.0)
+
+            lutpns.append(rangepn)
+
+            interpolation = 'linear'
+            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d_in", "lut1d_in", interpolation=interpolation)
+            lutpn.setArray(3, samples1dIn)
+
+            lutpns.append(lutpn)
 
         # Create the 3D LUT
         clfSamples = [0.0]*(lutResolution3d[0]*lutResolution3d[1]*lutResolution3d[2])*3
-- 
2.43.0


From 5fd42e631cac3468fa8592ec09cbf53458e15a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 38/67] fix: a 1D/3D/1D csp without an input shaper can be
 written

---
 python/aces/lutFormats/LutCSP.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index c8ba289..ca12234 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -144,6 +144,14 @@ class LutFormatCSP(LutFormat.LutFormat):
                     outputMin,
                     outputMax):
         #print( "%s format write 1D 3D 1D - %s" % (LutFormatCSP.formatType, lutPath) )
+
+        # Without an input shaper, the range is all that the prelut holds
+        if not samples1dIn:
+            return LutFormatCSP.writeCSP3D(lutPath,
+                                           inputMin,
+                                           inputMax,
+                                           samples3d,
+                                           lutResolution3d)
         return LutFormatCSP.writeCSP1D3D(lutPath,
                                          samples1dIn,
                                          lutResolution1dIn,
-- 
2.43.0


From 8c0d20d08642ed18c22052bbb34a8b0534e2a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 39/67] fix: flat stretches at the end of a 1D LUT can be
 inverted

---
 python/aces/lutFormats/Sampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 6d1ebd6..53c1200 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -146,7 +146,8 @@ def generateLUT1DInverseResampled(resolution, samples, minInputValue, maxInputVa
             sampleIndexLow = lutIndexLow*channels + channel
             sampleIndexHigh = lutIndexHigh*channels + channel
 
-            if lutIndexLow == lutIndexHigh:
+            # Where the LUT is flat, any index between the two will do
+            if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                 lutInterp = 0.0
             else:
                 lutInterp = (rangedValue - samples[sampleIndexLow])/(
@@ -223,7 +224,8 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 sampleIndexLow = lutIndexLow*channels + channel
                 sampleIndexHigh = lutIndexHigh*channels + channel
 
-                if lutIndexLow == lutIndexHigh:
+                # Where the LUT is flat, any index between the two will do
+                if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                     lutInterp = 0.0
                 else:
                     lutInterp = (inputValue - samples[sampleIndexLow])/(
-- 
2.43.0


From 6937781c445c3ea58b49a6fe9f7fd3a314b4a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 40/67] fix: the half-domain inverse of a 1D LUT honours its
 input range

---
 python/aces/lutFormats/Sampling.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 53c1200..37917ad 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -249,6 +249,16 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
 
     lutpns.append(lutpn)
 
+    # Create a Range node to expaand from [0,1] to [minIn, maxIn]
+    if minInputValue != 0.0 or maxInputValue != 1.0:
+        rangepn2 = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "inverse_1d_range_1", "inverse_1d_range_1")
+        rangepn2.setMinInValue(0.0)
+        rangepn2.setMaxInValue(1.0)
+        rangepn2.setMinOutValue(minInputValue)
+        rangepn2.setMaxOutValue(maxInputValue)
+
+        lutpns.append(rangepn2)
+
     return lutpns
 
 # Generate an inverse 1D LUT using an IndexMap to hold the mapping directly.
-- 
2.43.0


From c583bcef33f11da6e06aef3bc4f06a1e1266a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 41/67] fix: single-threaded filtering processes every row

---
 python/aces/filterImageWithCLF.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index e79cceb..ba61501 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -585,9 +585,7 @@ def filterImageWithCLF(inputPath,
     else:
         print( "Filtering image - single threaded" )
 
-        #for j in range(height):
-        j = 5
-        if True:
+        for j in range(height):
             # Using filterRow_stride instead of filterRow_pixel
             # Processing a full row is ~10% faster than processing individual pixels
             filterRow_stride(j,
-- 
2.43.0


From 1e7fc4904ae9235367f14549e89d4c1761d2ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 42/67] fix: images of a single row can be filtered

---
 python/aces/filterImageWithCLF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ba61501..774bf50 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -344,8 +344,8 @@ def filterRow_pixel(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     for i in range(width):
         index = (row*width + i)*channels
@@ -388,8 +388,8 @@ def filterRow_stride(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     index = (row*width)*channels
 
@@ -437,8 +437,8 @@ def filterRow_parallel(row,
     if verbose:
         print( "process %d - row %d" % (os.getpid(), row) )
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     # Copy a single row
     ovalue = pixels
-- 
2.43.0


From 23f7bcd771821f188dd3362629a81e139a83c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 43/67] fix: an image that cannot be opened is reported

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 774bf50..2cc1a52 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -194,7 +194,7 @@ def readPixelArray(inputPath,
             print( "Unpacking half-float values" )
             sourceData = oiioFloatPixelsToNPHalfArray(width, height, channels, sourceData)
     else:
-        (sourceData, bitDepth, width, height, channels, metadata) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
+        (sourceData, bitDepth, width, height, channels, metadata, channelnames) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
 
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
@@ -492,7 +492,7 @@ def filterImageWithCLF(inputPath,
     t0 = timeit.default_timer()
 
     pixels, inBitDepth, width, height, channels, metadata, channelnames = readPixelArray(inputPath)
-    if pixels == None:
+    if pixels is None:
         print( "\nImage %s could not be opened. Filtering aborted.\n" % inputPath )
         return
     #print( len(pixels), bitDepth, width, height, channels )
-- 
2.43.0


From 34dd05834817870a4bbfe499b8b5d20a4327bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 44/67] fix: integer image output is rounded and clamped, not
 truncated and wrapped

---
 python/aces/filterImageWithCLF.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 2cc1a52..2c102cd 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -228,8 +228,9 @@ def writePixelArray(outputPath,
     # Convert float values to 8-bit unsigned integer
     if type == oiio.UINT8:
         pixels8 = np.zeros(width*height*channels, dtype=np.uint8)
+        # Round to the nearest code and clamp, rather than truncate and wrap
         for i in range(len(pixels)):
-            pixels8[i] = int(pixels[i])
+            pixels8[i] = int(math.floor(min(max(pixels[i], 0.0), 255.0) + 0.5))
         pixels = pixels8
 
     # Convert float values to 16-bit unsigned integer
@@ -245,9 +246,11 @@ def writePixelArray(outputPath,
             bitShift = 4
 
         pixels16 = np.zeros(width*height*channels, dtype=np.uint16)
-        # Cast to 16 bit and reset integer bit-depth if necessary
+        maxCode = float((1 << (16 - bitShift)) - 1)
+        # Round to the nearest code and clamp, cast to 16 bit and reset
+        # integer bit-depth if necessary
         for i in range(len(pixels)):
-            pixels16[i] = int(pixels[i]) << bitShift
+            pixels16[i] = int(math.floor(min(max(pixels[i], 0.0), maxCode) + 0.5)) << bitShift
         pixels = pixels16
 
     # OIIO doesn't store half-float values directly, so this will
-- 
2.43.0


From 5f615851af534c8739ca9a2eb016c8f602e2415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 45/67] fix: bits per sample metadata does not stop float image
 output

---
 python/aces/filterImageWithCLF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 2c102cd..7a60886 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -274,7 +274,9 @@ def writePixelArray(outputPath,
         clf.bitDepths["UINT8"] : 8,
         clf.bitDepths["UINT10"] : 10,
         clf.bitDepths["UINT12"] : 12,
-        clf.bitDepths["UINT16"] : 16
+        clf.bitDepths["UINT16"] : 16,
+        clf.bitDepths["FLOAT16"] : 16,
+        clf.bitDepths["FLOAT32"] : 32
     }
 
     # Add the metadata tags
-- 
2.43.0


From 2d48be77b2faa4fa5776c37c4427896857284aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 46/67] fix: 16-bit samples are only shifted for the 10 and 12
 bit depths

---
 python/aces/filterImageWithCLF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 7a60886..0f9a664 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -164,7 +164,7 @@ def readPixelArray(inputPath,
                 if 'oiio:BitsPerSample' in metanames:
                     oiioBitDepth = metadata[ metanames.index( "oiio:BitsPerSample" ) ].value
 
-                    if type == oiio.UINT16:
+                    if type == oiio.UINT16 and oiioBitDepth in [10, 12]:
                         bitShift = (16 - oiioBitDepth)
                         print( "Reading as 16-bit int, then shifting by %d bits" % bitShift )
 
-- 
2.43.0


From aa2af2d73d52dcfe050350d5dd83d040689d3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 47/67] fix: OCIO matrices keep their alpha entries and offsets

---
 python/aces/convertOCIOtoCLF.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 4c6dd2d..c23ba58 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -79,17 +79,20 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
-            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11 == 0.0] and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14 == 0.0] and matrix[15 == 1.0]) ):
+            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
-                resolution = [3, 4, 3]
-                matrix[3] = offset[0]
-                matrix[7] = offset[1]
-                matrix[11] = offset[2]
+                matrix34 = [0.0]*12
+                matrix34[0:4] = matrix[0:3] + [offset[0]]
+                matrix34[4:8] = matrix[4:7] + [offset[1]]
+                matrix34[8:12] = matrix[8:11] + [offset[2]]
                 # CLF ignores the alpha offset
 
+                resolution = [3, 4, 3]
+                matrix = matrix34
+
             # Or just copy into a smaller matrix
             else:
                 matrix33 = [0.0]*9
@@ -100,6 +103,15 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 resolution = [3, 3, 3]
                 matrix = matrix33
 
+        # Otherwise a 4x4 matrix has its offset as a fifth column
+        elif len(matrix) == 16 and any(offset):
+            matrix45 = []
+            for i in range(4):
+                matrix45.extend(matrix[i*4:i*4+4] + [offset[i]])
+
+            resolution = [4, 5, 3]
+            matrix = matrix45
+
         mpn1 = clf.Matrix(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "matrix1", "matrix1")
         mpn1.setMatrix(resolution, matrix)
     else:
-- 
2.43.0


From 5f883f8deaf996cebac0f7a922a69faebd1aec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 48/67] fix: an OCIO file transform of an unknown LUT format
 gives no node

---
 python/aces/convertOCIOtoCLF.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index c23ba58..3e99525 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -168,7 +168,10 @@ def convertTransformsToProcessNodes( ocioTransform,
             inversesUseHalfDomain=inversesUseHalfDomain,
             returnProcessNodes=True)
         #print( "Created %d CLF process nodes" % len(lutpns) )
-        pns.extend( lutpns )
+        if lutpns:
+            pns.extend( lutpns )
+        else:
+            print( "LUT file %s could not be converted" % lutPath )
 
     elif isinstance(ocioTransform, OCIO.MatrixTransform):
         matrix = ocioTransform.getMatrix()
-- 
2.43.0


From 7114839aab45545a010b116d4bb1759fdce1d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 49/67] fix: the lutResolution3d option is not overridden by
 the 1D/3D/1D resolutions

---
 python/aces/convertCLFtoLUT.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/convertCLFtoLUT.py b/python/aces/convertCLFtoLUT.py
index 7627e64..d5ef078 100644
--- a/python/aces/convertCLFtoLUT.py
+++ b/python/aces/convertCLFtoLUT.py
@@ -193,10 +193,10 @@ def main():
     if options.lutResolution1d3d1d is not None:
         #print( options.shaperIn )
         shaperInLutResolution = int(options.lutResolution1d3d1d[0][0])
-        lutResolution3d = int(options.lutResolution1d3d1d[0][1])
+        shaperLutResolution3d = int(options.lutResolution1d3d1d[0][1])
         shaperOutLutResolution = int(options.lutResolution1d3d1d[0][2])
     else:
-        (shaperInLutResolution, lutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
+        (shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
 
     # Figure out the data format
     lutDataFormat = lutFormats.LUTDATAFORMAT_1D
@@ -222,7 +222,7 @@ def main():
     print( "%25s : %s" % ("data format", lutDataFormat))
     print( "%25s : %s" % ("1D lut resolution", lutResolution1d))
     print( "%25s : %s" % ("3D lut resolution", lutResolution3d))
-    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, lutResolution3d, shaperOutLutResolution)))
+    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution)))
     print( "%25s : %s" % ("min input value", inputMinValue))
     print( "%25s : %s" % ("max input value", inputMaxValue))
     print( "%25s : %s" % ("shaper in", "%s, %s, %s" % (shaperInType, shaperInMin, shaperInMax)))
@@ -238,7 +238,7 @@ def main():
                         lutDataFormat,
                         lutResolution1d,
                         lutResolution3d,
-                        [shaperInLutResolution, lutResolution3d, shaperOutLutResolution],
+                        [shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution],
                         inputMinValue,
                         inputMaxValue,
                         [shaperInType, shaperInMin, shaperInMax],
-- 
2.43.0


From 8212ca254af63fbd7125e0e1d4d776d854121287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 50/67] fix: true and false are read as XML spells them for the
 boolean attributes

---
 python/aces/clf/ProcessNode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index 6625b32..4cfa4cd 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -196,8 +196,11 @@ class ProcessNode():
         # Store attributes
         for key, value in element.attrib.iteritems():
             # Convert text to booleans where appropriate
-            if value in ["True", "False"]:
-                value = (value == "True")
+            # The attributes that are booleans are also spelled as XML booleans
+            if (value in ["True", "False"] or
+                (key in ["bypass", "defaultRange", "halfDomain", "rawHalfs"] and
+                    value.lower() in ["true", "false"]) ):
+                value = (value.lower() == "true")
             self.setAttribute(key, value)
 
         elementType = self.getElementType(element.tag)
-- 
2.43.0


From b82351c75f39aa49ae784fdf383e5810b0479673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 51/67] fix: tables with an integer output depth holding
 infinities or NaNs can be written

---
 python/aces/clf/Array.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index e6fda15..a098635 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -145,15 +145,9 @@ class Array:
         else:
             columns = self._dimensions[1]
 
-        integers = self._valuesAreIntegers
-
         for n in range(len(self._values)/columns):
             sample = self._values[n*columns:(n+1)*columns]
 
-            # Integer values
-            if integers:
-                sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
-
             # Float Values
             # Floats encoded using bitwise equivalent hex or integer values
             if self._floatEncoding != 'string':
-- 
2.43.0


From 509aa3ccd9ef35ca4efb33c2a8763c0992358241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 52/67] fix: Gamma, Log and ExposureContrast process pixels of
 fewer than three channels

They raised IndexError on one- and two-channel images.
---
 python/aces/clf/ExtensionExposureContrast.py |  6 +++---
 python/aces/clf/ExtensionGamma.py            |  8 ++++----
 python/aces/clf/ExtensionLog.py              | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index c9893de..25aa7ed 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -140,7 +140,7 @@ class ExposureContrast(ProcessNode):
             outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             if style == 'linear':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = pivot*pow(max(0.0,(pow(2.0,exposure)*outValue[i]/pivot)), contrast)
@@ -148,7 +148,7 @@ class ExposureContrast(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'video':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot,1.0/1.83))), contrast)
@@ -156,7 +156,7 @@ class ExposureContrast(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'log':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 435ee28..73102f6 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -145,19 +145,19 @@ class Gamma(ProcessNode):
             outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             if style == 'basicFwd':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
                     outValue[i] = pow(max(0.0, outValue[i]), gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'basicRev':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
                     outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = (offset[i]/(gamma[i]-1.0))
@@ -169,7 +169,7 @@ class Gamma(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveRev':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 71fdbba..a746170 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -168,7 +168,7 @@ class Log(ProcessNode):
             outValue = copy.copy(values[p*stride:(p+1)*stride])
 
             if style == 'log10':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = math.log10(max(outValue[i], FLOAT_MIN))
@@ -176,7 +176,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'log2':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = math.log10(max(outValue[i], FLOAT_MIN))/math.log10(2.0)
@@ -184,7 +184,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'antiLog10':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = pow(10.0, outValue[i])
@@ -192,7 +192,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'antiLog2':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     outValue[i] = pow(2.0, outValue[i])
@@ -200,7 +200,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'logToLin':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     linearRefBlack = pow(10.0, min(-0.00001, (refBlack[i]-refWhite[i])*0.002/gamma[i]))
                     gain = (highlight[i] - shadow[i])/(1.0 - linearRefBlack)
 
@@ -212,7 +212,7 @@ class Log(ProcessNode):
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'linToLog':
-                for i in range(3):
+                for i in range(min(3, stride)):
                     linearRefBlack = pow(10.0, min(-0.00001, (refBlack[i]-refWhite[i])*0.002/gamma[i]))
                     gain = (highlight[i] - shadow[i])/(1.0 - linearRefBlack)
 
-- 
2.43.0


From b377e937da99fc82fc075f3605b31aec6d4514ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 53/67] fix: an inverted OCIO group transform inverts its
 members in reverse order

---
 python/aces/convertOCIOtoCLF.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 3e99525..6c60819 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -140,23 +140,36 @@ def convertLogToProcessNode(base, direction):
 def convertTransformsToProcessNodes( ocioTransform, 
                                      lutSearchPath=None,
                                      inversesUseIndexMaps=True, 
-                                     inversesUseHalfDomain=True ):
+                                     inversesUseHalfDomain=True,
+                                     groupDirection='forward' ):
     pns = []
 
+    # A transform in an inverted group is applied the other way around
+    def getDirection(transform):
+        if groupDirection == 'forward':
+            return transform.getDirection()
+        elif transform.getDirection() == 'forward':
+            return groupDirection
+        else:
+            return 'forward'
+
     #print( ocioTransform )
 
     if isinstance(ocioTransform, OCIO.GroupTransform):
         print( "Group Transform" )
         children = ocioTransform.getTransforms()
+        direction = getDirection(ocioTransform)
+        if direction != 'forward':
+            children = list(children)[::-1]
         for childTransform in children:
             childpns = convertTransformsToProcessNodes(childTransform, 
-                lutSearchPath, inversesUseIndexMaps, inversesUseHalfDomain)
+                lutSearchPath, inversesUseIndexMaps, inversesUseHalfDomain, direction)
             pns.extend( childpns )
 
     elif isinstance(ocioTransform, OCIO.FileTransform):
         lutPath = ocioTransform.getSrc()
         interpolation = ocioTransform.getInterpolation()
-        direction = ocioTransform.getDirection()
+        direction = getDirection(ocioTransform)
         print( "File Transform : %s, %s, %s" % (lutPath, interpolation, direction) )
 
         if lutSearchPath != None:
@@ -176,7 +189,7 @@ def convertTransformsToProcessNodes( ocioTransform,
     elif isinstance(ocioTransform, OCIO.MatrixTransform):
         matrix = ocioTransform.getMatrix()
         offset = ocioTransform.getOffset()
-        direction = ocioTransform.getDirection()
+        direction = getDirection(ocioTransform)
         print( "Matrix Transform : %s, %s, %s" % (matrix, offset, direction) )
         matrixpn = convertMatrixToProcessNode(matrix, offset, direction)
         if matrixpn != None:
@@ -184,7 +197,7 @@ def convertTransformsToProcessNodes( ocioTransform,
 
     elif isinstance(ocioTransform, OCIO.LogTransform):
         base = ocioTransform.getBase()
-        direction = ocioTransform.getDirection()
+        direction = getDirection(ocioTransform)
         print( "Log Transform : %s, %s" % (base, direction) )
         logpn = convertLogToProcessNode(base, direction)
         if logpn != None:
-- 
2.43.0


From c788ba451cf688357359b8e11297de86f6e524db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 54/67] fix: a bypassed Reference stays bypassed in a
 self-contained file

---
 python/aces/clf/ExtensionReference.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 835e243..7ecd679 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -115,6 +115,7 @@ class Reference(ProcessNode):
         # A Reference that could not be resolved is always written as such
         if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
+            written = len(tree)
             for process in processes:
                 # Nodes referred to may hold other References themselves
                 if isinstance(process, Reference):
@@ -124,6 +125,11 @@ class Reference(ProcessNode):
                     process.write(tree, True)
                 else:
                     process.write(tree)
+
+            # The nodes take the place of the Reference, bypassed if it is
+            if self.getBypass():
+                for node in list(tree)[written:]:
+                    node.set('bypass', "%s" % True)
             return tree
         else:
             node = ProcessNode.write(self, tree)
-- 
2.43.0


From c6485723a4123e0ae13fee20a192ce2a2f9b87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 55/67] fix: a table entry beside an infinite one was looked up
 as NaN

---
 python/aces/clf/Array.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index a098635..90a0cda 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -437,7 +437,11 @@ class Array:
             value2 = self.lookup1D(index2, channel)
 
             # Interpolate
-            result = (1-ratio)*value1 + ratio*value2
+            # An infinite neighbor has no part in an exact match
+            if ratio == 0.0:
+                result = value1
+            else:
+                result = (1-ratio)*value1 + ratio*value2
 
             '''
             print( "lookup1DHalfDomain - normal numbers" )
@@ -494,7 +498,11 @@ class Array:
             value1 = self.lookup1D(indexLow, channel)
             value2 = self.lookup1D(indexHigh, channel)
 
-            result = (1-interp)*value1 + interp*value2
+            # An infinite entry is not interpolated with itself
+            if interp == 0.0:
+                result = value1
+            else:
+                result = (1-interp)*value1 + interp*value2
 
         return result
     # lookup1DLinear
-- 
2.43.0


From 6828913538cdf76a16738c6c9e948ae6681cdbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 56/67] fix: printing an integer-depth table failed on NaN and
 infinities and truncated fractions

---
 python/aces/clf/Array.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 90a0cda..177e755 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -241,6 +241,15 @@ class Array:
         self.setValues(numValues)
     # read
 
+    # Values for integer bit depths are printed as integers, if they are
+    def valueText(self, value):
+        value = float(value)
+        if self._valuesAreIntegers and value % 1 == 0.0:
+            return "%15s" % str(int(value))
+        else:
+            return "%15s" % ("%6.9f" % value)
+    # valueText
+
     def printInfo(self):
         print( "%20s" % "Array" )
         print( "%20s : %s" % ("Dimensions", self._dimensions) )
@@ -259,28 +268,19 @@ class Array:
         if rows > 10:
             for n in (range(3)):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
-                    sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
-                else:
-                    sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
+                sampleText = " ".join(map(self.valueText, sample))
                 print( " "*30 + sampleText )
 
             print( " "*30 + " "*(columns/2*16) + "    ...    " )
 
             for n in (range(rows-3,rows)):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
-                    sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
-                else:
-                    sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
+                sampleText = " ".join(map(self.valueText, sample))
                 print( " "*30 + sampleText )
         else:
             for n in range(rows):
                 sample = self._values[n*columns:(n+1)*columns]
-                if self._valuesAreIntegers:
-                    sampleText = " ".join(map(lambda x: "%15s" % str(int(x)), sample))
-                else:
-                    sampleText = " ".join(map(lambda x: "%15s" % ("%6.9f" % float(x)), sample))
+                sampleText = " ".join(map(self.valueText, sample))
                 print( " "*30 + sampleText )
     # printInfo
 
-- 
2.43.0


From 9e5ff32e083485b115a01bfc94a92b7567eeb0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 57/67] fix: a cached index map kept the results of its earlier
 points

---
 python/aces/clf/IndexMap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 7cd73c5..9c9562c 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -84,6 +84,7 @@ class IndexMap:
 
     def setValues(self, values):
         self._values = values
+        self._processCached = None
         if self._useCachedProcess and self._values != [] and self._dimension != []:
             self._createCachedProcess()
     def getValues(self):
@@ -174,6 +175,7 @@ class IndexMap:
         self._values = []
         self._values.append( map(lambda p: float(p.split('@')[0]), element.text.split()) )
         self._values.append( map(lambda p: float(p.split('@')[1]), element.text.split()) )
+        self._processCached = None
     # read
 
     # Process values
-- 
2.43.0


From 7fbf9f3fbd7a0812ab25e82877d0410cc28fb229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 58/67] fix: a half-domain LUT with cubic interpolation was
 looked up as an ordinary one

---
 python/aces/clf/LUT1D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 6c7e85c..4a7ce93 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -194,14 +194,14 @@ class LUT1D(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                 # Run through LUT
+                # Use halfDomain lookup and interpolation, whatever the interpolation
+                if halfDomain:
+                    outValue[i] = self._array.lookup1DHalfDomain(outValue[i], i, interpolate=True)
+
                 # Use Cubic interpolation
-                if interpolation == 'cubic':
+                elif interpolation == 'cubic':
                     outValue[i] = self._array.lookup1DCubic(outValue[i], i)
 
-                # Use halfDomain lookup and interpolation
-                elif halfDomain:
-                    outValue[i] = self._array.lookup1DHalfDomain(outValue[i], i, interpolate=True)
-
                 # Linear interpolation is the default
                 #elif interpolation == 'linear':
                 else:
-- 
2.43.0


From feda60e587df7c3d43a26ee88380bfb25e6c393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 59/67] fix: an element named ProcessNode could not be skipped

---
 python/aces/clf/ExtensionGroup.py | 4 ++++
 python/aces/clf/ProcessList.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index af583cc..baf471a 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -109,6 +109,10 @@ class Group(ProcessNode):
         elementClass = ProcessList.getClass(elementType)
         #print( elementType, elementClass )
 
+        # The base class of the ProcessNodes isn't an element itself
+        if elementType == "ProcessNode":
+            elementClass = None
+
         if elementClass != None:
             element = elementClass()
 
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index cc38b81..185bf39 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -205,6 +205,10 @@ class ProcessList:
             elementClass = self.getClass(elementType)
             #print( child.tag, elementType, elementClass )
 
+            # The base class of the ProcessNodes isn't an element itself
+            if elementType == "ProcessNode":
+                elementClass = None
+
             if elementClass != None:
                 # Instantiate the class and read XML data
                 element = elementClass()
-- 
2.43.0


From 21f7cc5e7363a4ad8ece3126ec1e77a73077941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 60/67] fix: a moncurve gamma with gamma 1 or offset 0 divided
 by zero

---
 python/aces/clf/ExtensionGamma.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 73102f6..1652810 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -160,8 +160,12 @@ class Gamma(ProcessNode):
                 for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = (offset[i]/(gamma[i]-1.0))
-                    if( outValue[i] <= pivot ):
+                    # A gamma of 1 or an offset of 0 leaves a single segment
+                    if( gamma[i] == 1.0 ):
+                        outValue[i] = outValue[i]/(offset[i] + 1.0)
+                    elif( offset[i] == 0.0 ):
+                        outValue[i] = pow(max(0.0, outValue[i]), gamma[i])
+                    elif( outValue[i] <= offset[i]/(gamma[i]-1.0) ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, (outValue[i] + offset[i])/(offset[i] + 1.0)), gamma[i])
@@ -172,8 +176,12 @@ class Gamma(ProcessNode):
                 for i in range(min(3, stride)):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= pivot ):
+                    # A gamma of 1 or an offset of 0 leaves a single segment
+                    if( gamma[i] == 1.0 ):
+                        outValue[i] = outValue[i]*(offset[i] + 1.0)
+                    elif( offset[i] == 0.0 ):
+                        outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
+                    elif( outValue[i] <= pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i]) ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From 1ebecb6e8c8886ab86f5ae1a627bfacd4c3b458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 61/67] fix: a name or id of 'True' or 'False' was read as a
 boolean

---
 python/aces/clf/ProcessNode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index 4cfa4cd..96ba23f 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -197,7 +197,8 @@ class ProcessNode():
         for key, value in element.attrib.iteritems():
             # Convert text to booleans where appropriate
             # The attributes that are booleans are also spelled as XML booleans
-            if (value in ["True", "False"] or
+            # and those that are names or paths are always text
+            if ((value in ["True", "False"] and not key in ["id", "name", "alias", "path", "basePath"]) or
                 (key in ["bypass", "defaultRange", "halfDomain", "rawHalfs"] and
                     value.lower() in ["true", "false"]) ):
                 value = (value.lower() == "true")
-- 
2.43.0


From 175031c149c29fcb3e26c4591d8e14416bce6d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 62/67] fix: an empty description or info text was written as
 'None'

---
 python/aces/clf/Comment.py | 2 +-
 python/aces/clf/Info.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/Comment.py b/python/aces/clf/Comment.py
index c4b0da3..a2ed973 100644
--- a/python/aces/clf/Comment.py
+++ b/python/aces/clf/Comment.py
@@ -79,7 +79,7 @@ class Comment:
     # write
 
     def read(self, element):
-        self._comment = element.text
+        self._comment = element.text or ''
     # read
 
     def printInfo(self):
diff --git a/python/aces/clf/Info.py b/python/aces/clf/Info.py
index d713e6e..0a3015d 100644
--- a/python/aces/clf/Info.py
+++ b/python/aces/clf/Info.py
@@ -97,13 +97,13 @@ class Info:
             elementType = self.getElementType(child.tag)
 
             if elementType == 'AppRelease':
-                self._children.append( Comment(child.text, 'AppRelease') )
+                self._children.append( Comment(child.text or '', 'AppRelease') )
             if elementType == 'Copyright':
-                self._children.append( Comment(child.text, 'Copyright') )
+                self._children.append( Comment(child.text or '', 'Copyright') )
 
             # Autodesk-specific attribute
             if elementType == 'Release':
-                self._children.append( Comment(child.text, 'Release') )
+                self._children.append( Comment(child.text or '', 'Release') )
     # read
 
     def printInfo(self):
-- 
2.43.0


From 4545f99c221419bd36b02e849233dd46be68d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 63/67] fix: the interpolation asked for was ignored when a csp
 3D LUT was read

---
 python/aces/lutFormats/LutCSP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index ca12234..c9c4374 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -392,11 +392,14 @@ class LutFormatCSP(LutFormat.LutFormat):
                     lutpns.append(prelutpn)
 
         if format == "3D":
-            lutpn = clf.LUT3D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut3d", "lut3d")
+            # Translate between different names for the same interpolation if necessary
+            if interpolation == 'linear':
+                interpolation = 'trilinear'
+            lutpn = clf.LUT3D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut3d", "lut3d", interpolation=interpolation)
             lutpn.setArray(resolution, samples)
             lutpns.append(lutpn)
         elif format == "1D":
-            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d", "lut1d")
+            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d", "lut1d", interpolation=interpolation)
             lutpn.setArray(3, samples)
             lutpns.append(lutpn)
 
-- 
2.43.0


From 2b110300284f62338ba95f6f77ed081c26587425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 64/67] fix: a NaN pixel stopped an integer image from being
 written

---
 python/aces/filterImageWithCLF.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 0f9a664..bbde364 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -229,8 +229,9 @@ def writePixelArray(outputPath,
     if type == oiio.UINT8:
         pixels8 = np.zeros(width*height*channels, dtype=np.uint8)
         # Round to the nearest code and clamp, rather than truncate and wrap
+        # A NaN, which compares as neither, becomes 0
         for i in range(len(pixels)):
-            pixels8[i] = int(math.floor(min(max(pixels[i], 0.0), 255.0) + 0.5))
+            pixels8[i] = int(math.floor(min(max(0.0, pixels[i]), 255.0) + 0.5))
         pixels = pixels8
 
     # Convert float values to 16-bit unsigned integer
@@ -250,7 +251,7 @@ def writePixelArray(outputPath,
         # Round to the nearest code and clamp, cast to 16 bit and reset
         # integer bit-depth if necessary
         for i in range(len(pixels)):
-            pixels16[i] = int(math.floor(min(max(pixels[i], 0.0), maxCode) + 0.5)) << bitShift
+            pixels16[i] = int(math.floor(min(max(0.0, pixels[i]), maxCode) + 0.5)) << bitShift
         pixels = pixels16
 
     # OIIO doesn't store half-float values directly, so this will
-- 
2.43.0


From 5f0c82e6ea8c1ab622007616fd3678047e4f104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 65/67] fix: a lattice of different sizes per axis could not be
 sampled

---
 python/aces/lutFormats/Sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 37917ad..513bf64 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -346,7 +346,7 @@ def sample3D(processList,
     #print( "sample3D" )
 
     # Sample all values in 3D range
-    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
@@ -484,7 +484,7 @@ def sample1D3D1D(processList,
     #
     #print( "sampleAndWrite1D3D1D - create 3D LUT" )
 
-    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
-- 
2.43.0


From 4353183d1b46dbecff7a348bae5459b3fe2e2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 66/67] fix: the csp writer exchanged the red and blue sizes of
 a lattice

---
 python/aces/lutFormats/LutCSP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index c9c4374..6593f87 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -517,9 +517,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, resolution)) )
      
             # Note: CSP increments red fastest
-            for b in range(resolution[0]):
+            for b in range(resolution[2]):
                 for g in range(resolution[1]):
-                    for r in range(resolution[2]):
+                    for r in range(resolution[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, data[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
@@ -563,9 +563,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, lutResolution3d)) )
      
             # Note: CSP increments red fastest
-            for b in range(lutResolution3d[0]):
+            for b in range(lutResolution3d[2]):
                 for g in range(lutResolution3d[1]):
-                    for r in range(lutResolution3d[2]):
+                    for r in range(lutResolution3d[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, samples3d[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
-- 
2.43.0


From d63f2206675ebe64a2a90cd9bf49ebdf126d84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:04 +0000
Subject: [PATCH 67/67] fix: a format that implements no reading failed instead
 of being passed over

---
 python/aces/lutFormats/LutFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutFormat.py b/python/aces/lutFormats/LutFormat.py
index 85d5c85..613943e 100644
--- a/python/aces/lutFormats/LutFormat.py
+++ b/python/aces/lutFormats/LutFormat.py
@@ -146,7 +146,7 @@ class LutFormat():
              interpolation='linear',
              inversesUseIndexMaps=True, 
              inversesUseHalfDomain=True):
-        print( "Format %s can not be read" % self.formatType )
+        print( "Format %s can not be read" % cls.formatType )
         return False
 
     @classmethod
-- 
2.43.0

