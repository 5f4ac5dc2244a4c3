From 36000f8158c2ea56ada2af4f4e6da325a360a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:57 +0000
Subject: [PATCH 001/101] fix: causal filter keeps enough past outputs for
 low-order denominators

The output buffer had one column less than the denominator has coefficients:
none for a finite-impulse-response filter (read and written out of bounds) and
one for a first-order filter (the second derivative used the same output
twice).
---
 src/filters/causal-filter.cpp | 41 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 0ace0ad..ee6013d 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -14,10 +14,19 @@
  * with sot-torque-control.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <sot/core/causal-filter.hh>
 
 using namespace dynamicgraph::sot;
+
+// Number of past outputs to remember: the difference equation needs the
+// denominator's order, and the second finite difference needs two of them.
+static Eigen::VectorXd::Index output_history(
+    const Eigen::VectorXd::Index &filter_order_n) {
+  return std::max<Eigen::VectorXd::Index>(filter_order_n - 1, 2);
+}
+
 /*
 Filter data with an IIR or FIR filter.
 
@@ -47,8 +56,8 @@ CausalFilter::CausalFilter(const double &timestep, const int &xSize,
       m_pt_numerator(0),
       m_pt_denominator(0),
       m_input_buffer(Eigen::MatrixXd::Zero(xSize, filter_numerator.size())),
-      m_output_buffer(
-          Eigen::MatrixXd::Zero(xSize, filter_denominator.size() - 1)) {
+      m_output_buffer(Eigen::MatrixXd::Zero(
+          xSize, output_history(filter_denominator.size()))) {
   assert(timestep > 0.0 && "Timestep should be > 0");
   assert(m_filter_numerator.size() == m_filter_order_m);
   assert(m_filter_denominator.size() == m_filter_order_n);
@@ -57,9 +66,10 @@ CausalFilter::CausalFilter(const double &timestep, const int &xSize,
 void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
                                 Eigen::VectorXd &x_output_dx_ddx) {
   // const dynamicgraph::Vector &base_x = m_xSIN(iter);
+  const Eigen::VectorXd::Index n_outputs = m_output_buffer.cols();
   if (m_first_sample) {
     for (int i = 0; i < m_filter_order_m; i++) m_input_buffer.col(i) = base_x;
-    for (int i = 0; i < m_filter_order_n - 1; i++)
+    for (int i = 0; i < n_outputs; i++)
       m_output_buffer.col(i) =
           base_x * m_filter_numerator.sum() / m_filter_denominator.sum();
     m_first_sample = false;
@@ -68,23 +78,25 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
   m_input_buffer.col(m_pt_numerator) = base_x;
 
   Eigen::VectorXd b(m_filter_order_m);
-  Eigen::VectorXd a(m_filter_order_n - 1);
+  // Coefficients of the past outputs, zero for those beyond the order.
+  Eigen::VectorXd a_past(Eigen::VectorXd::Zero(n_outputs));
+  a_past.head(m_filter_order_n - 1) =
+      m_filter_denominator.tail(m_filter_order_n - 1);
+  Eigen::VectorXd a(n_outputs);
   b.head(m_pt_numerator + 1) =
       m_filter_numerator.head(m_pt_numerator + 1).reverse();
   b.tail(m_filter_order_m - m_pt_numerator - 1) =
       m_filter_numerator.tail(m_filter_order_m - m_pt_numerator - 1).reverse();
 
-  a.head(m_pt_denominator + 1) =
-      m_filter_denominator.segment(1, m_pt_denominator + 1).reverse();
-  a.tail(m_filter_order_n - m_pt_denominator - 2) =
-      m_filter_denominator.tail(m_filter_order_n - m_pt_denominator - 2)
-          .reverse();
+  a.head(m_pt_denominator + 1) = a_past.head(m_pt_denominator + 1).reverse();
+  a.tail(n_outputs - m_pt_denominator - 1) =
+      a_past.tail(n_outputs - m_pt_denominator - 1).reverse();
   x_output_dx_ddx.head(m_x_size) =
       (m_input_buffer * b - m_output_buffer * a) / m_filter_denominator[0];
 
   // Finite Difference
   Eigen::VectorXd::Index m_pt_denominator_prev =
-      (m_pt_denominator == 0) ? m_filter_order_n - 2 : m_pt_denominator - 1;
+      (m_pt_denominator == 0) ? n_outputs - 1 : m_pt_denominator - 1;
   x_output_dx_ddx.segment(m_x_size, m_x_size) =
       (x_output_dx_ddx.head(m_x_size) - m_output_buffer.col(m_pt_denominator)) /
       m_dt;
@@ -96,9 +108,8 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
 
   m_pt_numerator =
       (m_pt_numerator + 1) < m_filter_order_m ? (m_pt_numerator + 1) : 0;
-  m_pt_denominator = (m_pt_denominator + 1) < m_filter_order_n - 1
-                         ? (m_pt_denominator + 1)
-                         : 0;
+  m_pt_denominator =
+      (m_pt_denominator + 1) < n_outputs ? (m_pt_denominator + 1) : 0;
   m_output_buffer.col(m_pt_denominator) = x_output_dx_ddx.head(m_x_size);
   return;
 }
@@ -111,11 +122,11 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   Eigen::VectorXd current_x(m_input_buffer.col(m_pt_numerator));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
-  m_output_buffer.resize(Eigen::NoChange, filter_order_n - 1);
+  m_output_buffer.resize(Eigen::NoChange, output_history(filter_order_n));
 
   for (int i = 0; i < filter_order_m; i++) m_input_buffer.col(i) = current_x;
 
-  for (int i = 0; i < filter_order_n - 1; i++)
+  for (int i = 0; i < m_output_buffer.cols(); i++)
     m_output_buffer.col(i) =
         current_x * filter_numerator.sum() / filter_denominator.sum();
 
-- 
2.43.0


From ae8cb6384f34d84c90c428193493986f22ec557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:57 +0000
Subject: [PATCH 002/101] fix: causal filter is switched from its latest
 sample, not its oldest one

---
 src/filters/causal-filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index ee6013d..2c575c2 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -119,7 +119,9 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-  Eigen::VectorXd current_x(m_input_buffer.col(m_pt_numerator));
+  // m_pt_numerator is where the next sample goes: the latest one is before it.
+  Eigen::VectorXd current_x(m_input_buffer.col(
+      m_pt_numerator == 0 ? m_filter_order_m - 1 : m_pt_numerator - 1));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
   m_output_buffer.resize(Eigen::NoChange, output_history(filter_order_n));
-- 
2.43.0


From 72de366d45871c576c512c113c9f58b2c2ff9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:11 +0000
Subject: [PATCH 003/101] fix: task and feature exceptions keep the message
 given before the format

---
 src/exception/exception-feature.cpp | 2 +-
 src/exception/exception-task.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exception/exception-feature.cpp b/src/exception/exception-feature.cpp
index 4c8c556..97f8a76 100644
--- a/src/exception/exception-feature.cpp
+++ b/src/exception/exception-feature.cpp
@@ -35,7 +35,7 @@ ExceptionFeature::ExceptionFeature(
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
diff --git a/src/exception/exception-task.cpp b/src/exception/exception-task.cpp
index 0d916fd..3868d0a 100644
--- a/src/exception/exception-task.cpp
+++ b/src/exception/exception-task.cpp
@@ -34,7 +34,7 @@ ExceptionTask::ExceptionTask(const ExceptionTask::ErrorCodeEnum &errcode,
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
-- 
2.43.0


From 4ba61f29647cf55bd8d35ec0835713fd91024594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 004/101] fix: pausing a stopwatch uses the clock and the unit
 of its mode

---
 src/utils/stop-watch.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 0157fce..b844466 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -154,7 +154,7 @@ void Stopwatch::stop(string perf_name) {
 void Stopwatch::pause(string perf_name) {
   if (!active) return;
 
-  long double clock_end = clock();
+  long double clock_end = take_time();
 
   // Try to recover performance data
   if (!performance_exists(perf_name))
@@ -167,6 +167,8 @@ void Stopwatch::pause(string perf_name) {
 
   long double lapse = clock_end - perf_info.clock_start;
 
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
   // Update total time
   perf_info.last_time += lapse;
   perf_info.total_time += lapse;
-- 
2.43.0


From 933dbffb052501b3218470476d5fef26216d08d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 005/101] fix: the shortest lap of a stopwatch may last zero

---
 src/utils/stop-watch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index b844466..b2d5dbe 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -144,7 +144,7 @@ void Stopwatch::stop(string perf_name) {
 
   // Update min/max time
   if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
     perf_info.min_time = lapse;
 
   // Update total time
-- 
2.43.0


From 99c67b25a9a9e2e32d9b6e7fb6a63cc180dbdeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 006/101] fix: continuous file reader handles empty, long and
 unfinished lines

An empty line stopped the reading for ever, a line that was not finished yet
sent the cursor back to the beginning of the file (every line was delivered
again), and a character was lost every 256 in long lines.
---
 src/debug/contiifstream.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/debug/contiifstream.cpp b/src/debug/contiifstream.cpp
index 3774a84..da75c98 100644
--- a/src/debug/contiifstream.cpp
+++ b/src/debug/contiifstream.cpp
@@ -21,24 +21,17 @@ bool Contiifstream::loop(void) {
   sotDEBUGIN(25);
   bool res = false;
 
-  std::fstream file(filename.c_str());
+  std::ifstream file(filename.c_str());
 
   file.seekg(cursor);
-  file.sync();
-
-  while (1) {
-    file.get(buffer, BUFFER_SIZE);
-    if (file.gcount()) {
-      res = true;
-      std::string line(buffer);
-      if (!first) reader.push_back(line);
-      cursor = file.tellg();
-      cursor++;
-      file.get(*buffer);  // get the last char ( = '\n')
-      sotDEBUG(15) << "line: " << line << std::endl;
-    } else {
-      break;
-    }
+
+  std::string line;
+  // A line without its end of line is still being written: leave it for later.
+  while (std::getline(file, line) && !file.eof()) {
+    res = true;
+    if (!first) reader.push_back(line);
+    cursor = file.tellg();
+    sotDEBUG(15) << "line: " << line << std::endl;
   }
 
   first = false;
-- 
2.43.0


From 67a966539b7b9f642c8bb41e98ed0e95263d01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 007/101] fix: generateOrthonormalM returns a rotation, not a
 reflection

---
 src/dynamic_graph/sot/core/matrix_util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dynamic_graph/sot/core/matrix_util.py b/src/dynamic_graph/sot/core/matrix_util.py
index 2d90144..6b37534 100644
--- a/src/dynamic_graph/sot/core/matrix_util.py
+++ b/src/dynamic_graph/sot/core/matrix_util.py
@@ -5,7 +5,7 @@ Tiny matrix functions, taken from Oscar source code.
 from math import atan2
 from random import random
 
-from numpy import array, cos, inner, matrix, pi, sin, sqrt
+from numpy import array, cos, cross, inner, matrix, pi, sin, sqrt
 from numpy.linalg import norm
 
 
@@ -43,13 +43,12 @@ def distVector(M2, M1):
 
 # Obtain an orthonormal matrix SO3 using the given vector as its first column
 # (it computes Gram Schmidt to obtain an orthonormal basis using the
-#  first vector and 2 other 'random' vectors)
+#  first vector and another 'random' vector)
 
 
 def generateOrthonormalM(v1):
 
     v2 = matrix([random(), random(), random()])
-    v3 = matrix([random(), random(), random()])
 
     v1 = matrix(v1)
     e1 = v1 / norm(v1)
@@ -57,8 +56,8 @@ def generateOrthonormalM(v1):
     u2 = v2 - inner(v2, e1) * e1
     e2 = u2 / norm(u2)
 
-    u3 = v3 - inner(v3, e1) * e1 - inner(v3, e2) * e2
-    e3 = u3 / norm(u3)
+    # the last column makes the basis direct: the determinant is 1, not -1
+    e3 = cross(e1, e2)
 
     e1 = e1.tolist()
     e2 = e2.tolist()
-- 
2.43.0


From 41ec0b58f447708e7d6ca1488b3885db421f43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 008/101] fix: a calendar of events can be printed with Python
 3

---
 src/dynamic_graph/sot/core/utils/attime.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 3ac1548..8fdbfb1 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -33,11 +33,15 @@ class Calendar:
 
     def __repr__(self):
         res = ""
-        for iter, funpairs in sorted(self.events.iteritems()):
+        # times in increasing order, then the events that have no time
+        iters = sorted(i for i in self.events if i not in (ALWAYS, STOP))
+        iters += [i for i in (ALWAYS, STOP) if i in self.events]
+        for iter in iters:
+            funpairs = self.events[iter]
             res += str(iter) + ": \n"
             for funpair in funpairs:
-                if funpair[1] == "":
-                    res += funpair[0] + "\n"
+                if funpair[1] is None or funpair[1] == "":
+                    res += str(funpair[0]) + "\n"
                 else:
                     res += str(funpair[1]) + "\n"
         return res
-- 
2.43.0


From 70182a738a3d0880323bd32a2b3a695f6fd6dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 009/101] fix: a permanent action that stops itself does not
 make the next one miss a step

---
 src/dynamic_graph/sot/core/utils/attime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 8fdbfb1..0512278 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -86,7 +86,8 @@ class Calendar:
 
     def run(self, iter, *args):
         if ALWAYS in self.events:
-            for fun, doc in self.events[ALWAYS]:
+            # on a copy: an action may stop itself, which must not skip the next
+            for fun, doc in list(self.events[ALWAYS]):
                 fun(*args)
         if iter in self.events:
             self.callPing()
-- 
2.43.0


From f00bdaf949bad5d8fbbeedddd343f232223b3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 010/101] fix: history restores the time of the sample, not its
 index

---
 src/dynamic_graph/sot/core/utils/history.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index 2e6dcd8..ed2653c 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -28,10 +28,11 @@ class History:
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
 
     def restore(self, t):
-        t = int(t / self.freq)
-        print("robot.set(", self.q[t], ")")
-        print("robot.setVelocity(", self.qdot[t], ")")
-        print("T0 = ", t)
+        i = int(t / self.freq)
+        print("robot.set(", self.q[i], ")")
+        print("robot.setVelocity(", self.qdot[i], ")")
+        # the time of the sample, which is not its index in the lists
+        print("T0 = ", i * self.freq)
         print("robot.state.time = T0")
         print("[ t.feature.position.recompute(T0) for t in refreshTaskList]")
         print("attime.fastForward(T0)")
-- 
2.43.0


From 0633ad306672b8582d2b813e29414821b45a9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 011/101] fix: the viewer shows a robot named robot as hrp
 again

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index ca78b11..3de355a 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -13,7 +13,7 @@ def stateFullSize(robot, additionalData=()):
 def refreshView(robot):
     if robot.name == "robot":
         name = "hrp"
-    if robot.name == "robot_device":
+    elif robot.name == "robot_device":
         name = "hrp"
     else:
         name = robot.name
-- 
2.43.0


From 80fe29e9230a1d95e84b4daeead40765dead59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 012/101] fix: posture targets given as matrices or arrays are
 not dropped

---
 src/dynamic_graph/sot/core/meta_task_posture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 0109cb8..139a298 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -75,7 +75,7 @@ class MetaTaskPosture(object):
             limbRange = self.postureRange[limbName]
             for i in limbRange:
                 act[i] = True
-            if jointValues != []:
+            if len(jointValues) > 0:
                 if isinstance(jointValues, matrix):
                     qdes[limbRange, 0] = vectorToTuple(jointValues)
                 else:
-- 
2.43.0


From 14c037b5f07b682490a3461e4b3d84625d95bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 013/101] fix: the size of the robot is known to each posture
 task, also when a posture is given

---
 src/dynamic_graph/sot/core/meta_task_posture.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 139a298..3a76ee9 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -60,17 +60,18 @@ class MetaTaskPosture(object):
 
     def gotoq(self, gain=None, qdes=None, **kwargs):
         act = list()
+        # the size of this robot, needed whether or not qdes is given
+        if self.nbDof is None:
+            self.nbDof = len(self.feature.errorIN.value)
         if qdes is not None:
             if isinstance(qdes, tuple):
                 qdes = matrix(qdes).T
         else:
-            if MetaTaskPosture.nbDof is None:
-                MetaTaskPosture.nbDof = len(self.feature.errorIN.value)
-            qdes = zeros((MetaTaskPosture.nbDof, 1))
+            qdes = zeros((self.nbDof, 1))
 
         act = [
             False,
-        ] * MetaTaskPosture.nbDof
+        ] * self.nbDof
         for limbName, jointValues in kwargs.items():
             limbRange = self.postureRange[limbName]
             for i in limbRange:
-- 
2.43.0


From b1ef90c8b667c2683a099053aab72184c915d742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 014/101] fix: visual point tasks can be created with Python 3

---
 src/dynamic_graph/sot/core/meta_task_visual_point.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_visual_point.py b/src/dynamic_graph/sot/core/meta_task_visual_point.py
index a5629b3..096073d 100644
--- a/src/dynamic_graph/sot/core/meta_task_visual_point.py
+++ b/src/dynamic_graph/sot/core/meta_task_visual_point.py
@@ -17,12 +17,10 @@ class MetaTaskVisualPoint(object):
     proj = 0
 
     def opPointExist(self, opPoint):
-        sigsP = filter(
-            lambda x: x.getName().split(":")[-1] == opPoint, self.dyn.signals()
-        )
-        sigsJ = filter(
-            lambda x: x.getName().split(":")[-1] == "J" + opPoint, self.dyn.signals()
-        )
+        sigsP = [x for x in self.dyn.signals() if x.getName().split(":")[-1] == opPoint]
+        sigsJ = [
+            x for x in self.dyn.signals() if x.getName().split(":")[-1] == "J" + opPoint
+        ]
         return len(sigsP) == 1 & len(sigsJ) == 1
 
     def defineDynEntities(self, dyn):
-- 
2.43.0


From 2084d014fa88a013c554b94b86a7c7a886d24d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 015/101] fix: keep the errors already stacked when the task
 error vector grows

---
 src/task/task.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 7bf4f65..cdf0f5a 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -191,8 +191,7 @@ dynamicgraph::Vector &Task::computeError(dynamicgraph::Vector &error,
       while (cursorError + dim > dimError)  // DEBUG It was >=
       {
         dimError *= 2;
-        error.resize(dimError);
-        error.setZero();
+        error.conservativeResize(dimError);
       }
 
       for (int k = 0; k < dim; ++k) {
-- 
2.43.0


From 69ec9256fc885c474dd64c42e17b9865f637f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 016/101] fix: accept feature Jacobians whose width differs
 from the previous evaluation

---
 src/task/task.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index cdf0f5a..adafed8 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -257,7 +257,9 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
   try {
     dynamicgraph::Matrix::Index dimJ = J.rows();
-    dynamicgraph::Matrix::Index nbc = J.cols();
+    dynamicgraph::Matrix::Index nbc =
+        featureList.front()->jacobianSOUT(time).cols();
+    if (J.cols() != nbc) J.resize(dimJ, nbc);
     if (0 == dimJ) {
       dimJ = 1;
       J.resize(dimJ, nbc);
@@ -277,10 +279,7 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
       const dynamicgraph::Matrix::Index nbr = partialJacobian.rows();
       sotDEBUG(25) << "Jp =" << endl << partialJacobian << endl;
 
-      if (0 == nbc) {
-        nbc = partialJacobian.cols();
-        J.resize(nbc, dimJ);
-      } else if (partialJacobian.cols() != nbc)
+      if (partialJacobian.cols() != nbc)
         throw ExceptionTask(
             ExceptionTask::NON_ADEQUATE_FEATURES,
             "Features from the list don't have compatible-size jacobians.");
-- 
2.43.0


From 249e0f41ecc66a4f34cd268251069f269cae0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 017/101] fix: reallocate the task memory when the task or
 robot dimension changes

---
 src/sot/sot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 88ee365..4ec9620 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -399,7 +399,8 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
 MemoryTaskSOT *getMemory(TaskAbstract &t, const Matrix::Index &tDim,
                          const Matrix::Index &nDof) {
   MemoryTaskSOT *mem = dynamic_cast<MemoryTaskSOT *>(t.memoryInternal);
-  if (NULL == mem) {
+  if (NULL == mem || mem->tmpTask.size() != tDim ||
+      mem->tmpVar.size() != nDof) {
     if (NULL != t.memoryInternal) delete t.memoryInternal;
     mem = new MemoryTaskSOT(tDim, nDof);
     t.memoryInternal = mem;
-- 
2.43.0


From adffac586b9c72013afd4e568ddbdf44c6acb85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 018/101] fix: do not skip the remaining tasks when the first
 one is disabled

---
 src/sot/sot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 4ec9620..b20355b 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -634,7 +634,7 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     sotPRINTCOUNTER(4);
     sotPRINTCOUNTER(5);
     sotPRINTCOUNTER(6);
-    if (last || kernel.cols() == 0) break;
+    if (last || (has_kernel && kernel.cols() == 0)) break;
   }
 
   sotCHRONO1;
-- 
2.43.0


From 6ea5917aa046bbb15ffd71d272a61175b8a698a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 019/101] fix: do not dereference a null posture feature in the
 full posture test

---
 src/sot/sot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index b20355b..5b57ebb 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -392,7 +392,7 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
   FeaturePosture *posture =
       dynamic_cast<FeaturePosture *>(task->getFeatureList().front());
 
-  assert(posture->dimensionSOUT(iterTime) <= nDof - 6);
+  assert(posture == NULL || posture->dimensionSOUT(iterTime) <= nDof - 6);
   return posture != NULL && posture->dimensionSOUT(iterTime) == nDof - 6;
 }
 
-- 
2.43.0


From 8b106837f2148cdd12d891707f35f8480b8d9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 020/101] fix: apply an accelerated posture task that is alone
 in the stack

---
 src/sot/sot.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 5b57ebb..662e508 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -557,9 +557,12 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
 
       /* --- COMPUTE QDOT AND P --- */
       if (!controlIsZero) mem->err.noalias() -= control.tail(nbJoints - 6);
-      mem->tmpVar.head(rankJ).noalias() =
-          kernel.transpose().rightCols(nbJoints - 6) * mem->err;
-      control.noalias() += kernel * mem->tmpVar.head(rankJ);
+      if (has_kernel) {
+        mem->tmpVar.head(rankJ).noalias() =
+            kernel.transpose().rightCols(nbJoints - 6) * mem->err;
+        control.noalias() += kernel * mem->tmpVar.head(rankJ);
+      } else
+        control.tail(nbJoints - 6) += mem->err;
       controlIsZero = false;
     } else {
       assert(taskA.jacobianSOUT.accessCopy().cols() == nbJoints);
-- 
2.43.0


From 7ad516d65b3ed210d8e69a3e641685c9142bc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 021/101] fix: skip tasks without any row instead of
 decomposing an empty matrix

---
 src/sot/sot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 662e508..63b77ab 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -540,6 +540,12 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     const Matrix::Index dim = taskA.taskSOUT.accessCopy().size();
     sotCOUNTER(0, 1);  // Direct Dynamic
 
+    // A task without any row has no effect (and no SVD).
+    if (dim == 0) {
+      iterTask++;
+      continue;
+    }
+
     /* Init memory. */
     MemoryTaskSOT *mem = getMemory(taskA, dim, nbJoints);
     /***/ sotCOUNTER(1, 2);  // first allocs
-- 
2.43.0


From 4027d6016006bddcd0f02770a0196081802b5adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 022/101] fix: compute no task when the initial projector
 leaves no motion

---
 src/sot/sot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 63b77ab..288141c 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -522,6 +522,7 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     }
   }
   for (StackType::iterator iter = stack.begin(); iter != stack.end(); ++iter) {
+    if (has_kernel && kernel.cols() == 0) break;
     sotSTARTPARTCOUNTERS;
 
     sotDEBUGF(5, "Rank %d.", iterTask);
-- 
2.43.0


From 6653e45f75e5a205b1395148cb847a40f43e87d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 023/101] fix: a continuity task without previous control falls
 back to the basic law

---
 src/task/task-conti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/task-conti.cpp b/src/task/task-conti.cpp
index 4129f95..538216c 100644
--- a/src/task/task-conti.cpp
+++ b/src/task/task-conti.cpp
@@ -51,7 +51,7 @@ VectorMultiBound &TaskConti::computeContiDesiredVelocity(
     dynamicgraph::Vector deref(J.rows());
     sotDEBUG(15) << "q0 = " << q0 << std::endl;
     sotDEBUG(25) << "J = " << J << std::endl;
-    if (q0.size() != (J.cols() - 6)) throw;  // TODO
+    if (q0.size() != (J.cols() - 6)) throw 1;  // TODO
     for (int i = 0; i < J.rows(); ++i) {
       deref(i) = 0;
       for (int j = 6; j < J.cols(); ++j) deref(i) += J(i, j) * q0(j - 6);
-- 
2.43.0


From 473abd2f69e7bbc5346d729c0177959ede9bc2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 024/101] fix: reading an empty list of bounds consumes its
 closing parenthesis

---
 src/task/multi-bound.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index 650d132..fd1e89c 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -246,6 +246,7 @@ std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
 
   /* Loop for the vals. */
   SOT_MULTI_BOUND_CHECK_C(is, '(', v);
+  if (vali == 0) SOT_MULTI_BOUND_CHECK_C(is, ')', v);
   for (unsigned int i = 0; i < vali; ++i) {
     is >> v[i];
     if (i != vali - 1) {
-- 
2.43.0


From 7b02dce2a0634de05b034d21f48ca5a7547add78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 025/101] fix: a task is evaluated again after its list of
 features changed

---
 src/task/task.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index adafed8..25cefe5 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -110,6 +110,9 @@ void Task::addFeature(FeatureAbstract &s) {
   jacobianSOUT.addDependency(s.jacobianSOUT);
   errorSOUT.addDependency(s.errorSOUT);
   errorTimeDerivativeSOUT.addDependency(s.getErrorDot());
+  jacobianSOUT.setReady();
+  errorSOUT.setReady();
+  errorTimeDerivativeSOUT.setReady();
 }
 
 void Task::addFeatureFromName(const std::string &featureName) {
@@ -128,6 +131,9 @@ void Task::clearFeatureList(void) {
   }
 
   featureList.clear();
+  jacobianSOUT.setReady();
+  errorSOUT.setReady();
+  errorTimeDerivativeSOUT.setReady();
 }
 
 void Task::setControlSelection(const Flags &act) { controlSelectionSIN = act; }
-- 
2.43.0


From 29aa4405ca34b18bc272ae41941741ba82576124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 026/101] fix: spaces between flags are separators, not
 additional flags

---
 src/sot/flags.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sot/flags.cpp b/src/sot/flags.cpp
index 8744bb0..6765429 100644
--- a/src/sot/flags.cpp
+++ b/src/sot/flags.cpp
@@ -30,14 +30,14 @@ using namespace dynamicgraph::sot;
 Flags::Flags(const bool &b) : flags(), outOfRangeFlag(b) {}
 
 Flags::Flags(const char *_flags)
-    : flags(strlen(_flags)), outOfRangeFlag(false) {
-  for (unsigned int i = 0; i < flags.size(); ++i) {
+    : flags(), outOfRangeFlag(false) {
+  for (std::size_t i = 0; i < strlen(_flags); ++i) {
     switch (_flags[i]) {
       case '0':
-        flags[i] = false;
+        flags.push_back(false);
         break;
       case '1':
-        flags[i] = true;
+        flags.push_back(true);
         break;
       case ' ':
         break;
-- 
2.43.0


From 0cdce5ccb89a4fe8ca3248216937dec33695b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 027/101] fix: flags read from text do not keep the tail of
 their previous value

---
 src/sot/flags.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sot/flags.cpp b/src/sot/flags.cpp
index 6765429..531644e 100644
--- a/src/sot/flags.cpp
+++ b/src/sot/flags.cpp
@@ -131,6 +131,7 @@ std::ostream &operator<<(std::ostream &os, const Flags &fl) {
 std::istream &operator>>(std::istream &is, Flags &fl) {
   char c;
   fl.flags.clear();
+  fl.outOfRangeFlag = false;
   while (is.get(c).good()) {
     switch (c) {
       case '0':
-- 
2.43.0


From 164b4707170080d7ce99d6707ed98c6ec6841ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 028/101] fix: a generic feature follows the size of its error

---
 src/feature/feature-generic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index a330dc7..77c20eb 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -36,6 +36,7 @@ FeatureGeneric::FeatureGeneric(const string &pointName)
 {
   jacobianSOUT.addDependency(jacobianSIN);
   errorSOUT.addDependency(errorSIN);
+  dimensionSOUT.addDependency(errorSIN);
 
   signalRegistration(errorSIN << jacobianSIN << errordotSIN << errordotSOUT);
 }
@@ -65,7 +66,7 @@ unsigned int &FeatureGeneric::getDimension(unsigned int &dim, int time) {
 
   const Flags &fl = selectionSIN.access(time);
 
-  if (dimensionDefault == 0) dimensionDefault = errorSIN.access(time).size();
+  dimensionDefault = errorSIN.access(time).size();
 
   dim = 0;
   for (unsigned int i = 0; i < dimensionDefault; ++i)
-- 
2.43.0


From 8b2c875104375eca6e476f6940b082b8828d9173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 029/101] fix: a generic feature refuses references and
 Jacobians too short for its selection

---
 src/feature/feature-generic.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index 77c20eb..2e807cb 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -97,17 +97,18 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
   if (isReferenceSet()) {
     const Vector &errDes = getReference()->errorSIN(time);
     sotDEBUG(15) << "Err* = " << errDes;
-    if (errDes.size() < dim) {
-      SOT_THROW ExceptionFeature(
-          ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size."
-          " (while considering feature <%s>).",
-          getName().c_str());
-    }
 
     for (int i = 0; i < err.size(); ++i)
-      if (fl(i))
-        if (fl(i)) res(curr++) = err(i) - errDes(i);
+      if (fl(i)) {
+        if (errDes.size() <= i) {
+          SOT_THROW ExceptionFeature(
+              ExceptionFeature::UNCOMPATIBLE_SIZE,
+              "Error: dimension uncompatible with des->errorIN size."
+              " (while considering feature <%s>).",
+              getName().c_str());
+        }
+        res(curr++) = err(i) - errDes(i);
+      }
   } else {
     for (int i = 0; i < err.size(); ++i)
       if (fl(i)) res(curr++) = err(i);
@@ -128,6 +129,13 @@ Matrix &FeatureGeneric::computeJacobian(Matrix &res, int time) {
 
   for (unsigned int i = 0; curr < dim; ++i)
     if (fl(i)) {
+      if (Jac.rows() <= (int)i) {
+        SOT_THROW ExceptionFeature(
+            ExceptionFeature::UNCOMPATIBLE_SIZE,
+            "Error: dimension uncompatible with jacobianIN size."
+            " (while considering feature <%s>).",
+            getName().c_str());
+      }
       for (int j = 0; j < Jac.cols(); ++j) res(curr, j) = Jac(i, j);
       curr++;
     }
-- 
2.43.0


From 6d27305c69db26a129ccf4e604907ea7cd79c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 030/101] fix: the error rate of a feature never exceeds its
 dimension

---
 src/feature/feature-abstract.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 42c0791..56da8a4 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -106,16 +106,16 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     const dynamicgraph::Vector &errdotDes =
         getReferenceAbstract()->errordotSIN(time);
     sotDEBUG(15) << "Err* = " << errdotDes;
-    if (errdotDes.size() < dim) {
+    for (int i = 0; i < errdotDes.size() && (int)curr < dim; ++i)
+      if (fl(i)) res(curr++) = -errdotDes(i);
+
+    if ((int)curr < dim) {
       SOT_THROW ExceptionFeature(
           ExceptionFeature::UNCOMPATIBLE_SIZE,
           "Error: dimension uncompatible with des->errorIN size."
           " (while considering feature <%s>).",
           getName().c_str());
     }
-
-    for (int i = 0; i < errdotDes.size(); ++i)
-      if (fl(i)) res(curr++) = -errdotDes(i);
   } else
     res.setZero();
 
-- 
2.43.0


From 1794b58a711b653d98843c66d8315a57be9831c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 031/101] fix: a feature no longer depends on the reference
 that was replaced

---
 include/sot/core/feature-abstract.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 18fea95..225f345 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -257,6 +257,7 @@ void FeatureReferenceHelper<FeatureSpecialized>::setReference(
       SP::unsetReference();                                         \
     } else {                                                        \
       /* SET */                                                     \
+      if (SP::isReferenceSet()) removeDependenciesFromReference();  \
       SP::setReference(sdes);                                       \
       if (SP::isReferenceSet()) addDependenciesFromReference();     \
     }                                                               \
-- 
2.43.0


From 5e4c3eac0a134200206833a47ce249e05ff7a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 032/101] fix: truncated lists of bounds are refused whatever
 the stack holds

---
 src/task/multi-bound.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index fd1e89c..78628be 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -129,7 +129,7 @@ void MultiBound::setSingleBound(double boundValue) {
 
 inline static void SOT_MULTI_BOUND_CHECK_C(std::istream &is, char check,
                                            VectorMultiBound &v) {
-  char c;
+  char c = 0;
   is.get(c);
   if (c != check) {
     v.resize(0);
@@ -169,8 +169,8 @@ std::ostream &operator<<(std::ostream &os, const MultiBound &m) {
 
 std::istream &operator>>(std::istream &is, MultiBound &m) {
   sotDEBUGIN(15);
-  char c;
-  double val;
+  char c = 0;
+  double val = 0;
   is.get(c);
   if (c == '(') {
     sotDEBUG(15) << "Double" << std::endl;
@@ -187,6 +187,7 @@ std::istream &operator>>(std::istream &is, MultiBound &m) {
     } else {
       m.unsetDoubleBound(MultiBound::BOUND_INF);
     }
+    c = 0;
     is.get(c);
     if (c != ',') {
       sotERROR << "Error while parsing multi-bound. Waiting for a ','. Get '"
@@ -206,6 +207,7 @@ std::istream &operator>>(std::istream &is, MultiBound &m) {
     } else {
       m.unsetDoubleBound(MultiBound::BOUND_SUP);
     }
+    c = 0;
     is.get(c);
     if (c != ')') {
       sotERROR << "Error while parsing multi-bound. Waiting for a ')'. Get '"
@@ -236,7 +238,7 @@ std::ostream &operator<<(std::ostream &os, const VectorMultiBound &v) {
 }
 
 std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
-  unsigned int vali;
+  unsigned int vali = 0;
 
   /* Read the vector size. */
   SOT_MULTI_BOUND_CHECK_C(is, '[', v);
-- 
2.43.0


From 19da288da88a8625dc18091ffc0e40ddf83e0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 033/101] fix: a posture feature follows its posture, its
 posture rate and its selected degrees of freedom

---
 src/feature/feature-posture.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index ca60c5c..4a66fed 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -44,6 +44,8 @@ FeaturePosture::FeaturePosture(const std::string &name)
   signalRegistration(state_ << posture_ << postureDot_);
 
   errorSOUT.addDependency(state_);
+  errorSOUT.addDependency(posture_);
+  errordotSOUT.addDependency(postureDot_);
   jacobianSOUT.setConstant(Matrix());
 
   std::string docstring;
@@ -147,6 +149,9 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   }
 
   jacobianSOUT.setConstant(J);
+  dimensionSOUT.setReady();
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
 }
 
 DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeaturePosture, "FeaturePosture");
-- 
2.43.0


From 7542f6b8816924706eda254da49d9cfa6e2835b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 034/101] fix: the outputs of features depend on every input
 they are computed from

---
 src/feature/feature-1d.cpp            | 1 +
 src/feature/feature-line-distance.cpp | 6 +++---
 src/feature/feature-vector3.cpp       | 1 +
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index 9635784..e1530d5 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -33,6 +33,7 @@ Feature1D::Feature1D(const string &pointName)
       jacobianSIN(NULL,
                   "sotFeature1D(" + name + ")::input(matrix)::jacobianIN") {
   jacobianSOUT.addDependency(jacobianSIN);
+  jacobianSOUT.addDependency(errorSIN);
   errorSOUT.addDependency(errorSIN);
 
   signalRegistration(errorSIN << jacobianSIN);
diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index 48d2b24..1244268 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -41,12 +41,12 @@ FeatureLineDistance::FeatureLineDistance(const string &pointName)
                 "sotFeatureVector3(" + name + ")::input(vector3)::vector"),
       lineSOUT(boost::bind(&FeatureLineDistance::computeLineCoordinates, this,
                            _1, _2),
-               positionSIN << positionRefSIN,
+               positionSIN << positionRefSIN << vectorSIN,
                "sotFeatureAbstract(" + name + ")::output(vector)::line") {
-  jacobianSOUT.addDependency(positionSIN);
+  jacobianSOUT.addDependency(lineSOUT);
   jacobianSOUT.addDependency(articularJacobianSIN);
 
-  errorSOUT.addDependency(positionSIN);
+  errorSOUT.addDependency(lineSOUT);
 
   signalRegistration(positionSIN << articularJacobianSIN << positionRefSIN
                                  << lineSOUT << vectorSIN);
diff --git a/src/feature/feature-vector3.cpp b/src/feature/feature-vector3.cpp
index 9b7899d..70de434 100644
--- a/src/feature/feature-vector3.cpp
+++ b/src/feature/feature-vector3.cpp
@@ -40,6 +40,7 @@ FeatureVector3::FeatureVector3(const string &pointName)
           NULL, "sotFeatureVector3(" + name + ")::input(matrix)::Jq"),
       positionRefSIN(
           NULL, "sotFeatureVector3(" + name + ")::input(vector)::positionRef") {
+  jacobianSOUT.addDependency(vectorSIN);
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
 
-- 
2.43.0


From bca0c1db873103df53a9fb6e5406d21d68e97db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 035/101] fix: a joint limits feature follows its limits

---
 src/feature/feature-joint-limits.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index c36ef57..3ce6897 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -46,6 +46,9 @@ FeatureJointLimits::FeatureJointLimits(const string &fName)
           boost::bind(&FeatureJointLimits::computeWidthJl, this, _1, _2),
           upperJlSIN << lowerJlSIN,
           "sotFeatureJointLimits(" + name + ")::input(vector)::widthJl") {
+  dimensionSOUT.addDependency(upperJlSIN);
+  jacobianSOUT.addDependency(jointSIN);
+  jacobianSOUT.addDependency(widthJlSINTERN);
   errorSOUT.addDependency(jointSIN);
   errorSOUT.addDependency(upperJlSIN);
   errorSOUT.addDependency(lowerJlSIN);
-- 
2.43.0


From 7716dc6f68ba64d3bcb0d9b9b0750d7ecfed718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 036/101] fix: the Jacobian of joint limits is the derivative
 of their error

---
 src/feature/feature-joint-limits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index 3ce6897..68e9770 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -125,7 +125,7 @@ Matrix &FeatureJointLimits::computeJacobian(Matrix &J, int time) {
   for (unsigned int i = 0; i < SIZE_TOTAL; ++i) {
     if (fl(i)) {
       if (fabs(WJL(i)) > 1e-3)
-        J(idx, i) = 1 / WJL(i);
+        J(idx, i) = 2 / WJL(i);
       else
         J(idx, i) = 1.;
       idx++;
-- 
2.43.0


From af10dc5fd127f7f28bf132f135385f4f073990ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 037/101] fix: actuate selects the actuated joints of joint
 limits instead of none

---
 src/feature/feature-joint-limits-command.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-joint-limits-command.h b/src/feature/feature-joint-limits-command.h
index 08fface..f0054c2 100644
--- a/src/feature/feature-joint-limits-command.h
+++ b/src/feature/feature-joint-limits-command.h
@@ -33,7 +33,7 @@ class Actuate : public Command {
       : Command(entity, std::vector<Value::Type>(), docstring) {}
   virtual Value doExecute() {
     FeatureJointLimits &fjl = static_cast<FeatureJointLimits &>(owner());
-    Flags fl(63);  // 0x0000003f = 00000000000000000000000000111111
+    Flags fl("111111");  // the free-flyer
     fjl.selectionSIN = (!fl);
     // return void
     return Value();
-- 
2.43.0


From f1e4fb673ed8a4e6bbee5ca8f7de3fcd7abf7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 038/101] fix: the error rate of a 6D point follows the
 velocity of its reference

---
 src/feature/feature-point6d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 6e63116..3328431 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -115,12 +115,14 @@ FeaturePoint6d::FeaturePoint6d(const string &pointName)
 void FeaturePoint6d::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->velocitySIN);
   jacobianSOUT.addDependency(getReference()->positionSIN);
 }
 
 void FeaturePoint6d::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->velocitySIN);
   jacobianSOUT.removeDependency(getReference()->positionSIN);
 }
 
-- 
2.43.0


From b8130df24571eb9f3df9060645a200d6a1061cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 039/101] fix: project a 3D point with the pose of the camera

---
 src/feature/visual-point-projecter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/visual-point-projecter.cpp b/src/feature/visual-point-projecter.cpp
index 6f1c500..4ec2012 100644
--- a/src/feature/visual-point-projecter.cpp
+++ b/src/feature/visual-point-projecter.cpp
@@ -51,7 +51,7 @@ dynamicgraph::Vector &VisualPointProjecter::point3DgazeSOUT_function(
   const MatrixHomogeneous &M = m_transfoSIN(iter);
   MatrixHomogeneous Mi;
   Mi = M.inverse(Eigen::Affine);
-  p3g = Mi.matrix() * p3;
+  p3g = Mi.linear() * p3 + Mi.translation();
   return p3g;
 }
 
-- 
2.43.0


From 7eb5b849967d4eff194c52115e997695c085e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 040/101] fix: the Jacobian of a line distance accounts for
 every coordinate of the direction

---
 src/feature/feature-line-distance.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index 1244268..14f976b 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -218,6 +218,11 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
       2 * a0 * b1 * z0 * b0 * c1 * c1 - 2 * a0 * b1 * b1 * z0 * c1 * c0 -
       2 * a0 * b1 * z1 * b0 * c1 * c1 + 2 * a0 * b1 * b1 * z1 * c1 * c0;
 
+  const double diffc0 =
+      (b1 * (x0 - x1) - a1 * (y0 - y1)) * K -
+      (diffx0 * (x0 - x1) + diffy0 * (y0 - y1) + diffz0 * (z0 - z1)) * 2 *
+          (c0 * a1 * a1 - a1 * a0 * c1 - b1 * b0 * c1 + c0 * b1 * b1);
+
   Matrix diffh(1, 6);
   diffh(0, 0) = diffx0 / K;
   diffh(0, 1) = diffy0 / K;
@@ -225,7 +230,7 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
   K *= K;
   diffh(0, 3) = diffa0 / K;
   diffh(0, 4) = diffb0 / K;
-  diffh(0, 5) = 0;
+  diffh(0, 5) = diffc0 / K;
 
   /* --- Multiply Jline=dline/dq with diffh=de/dline --- */
   J.resize(1, J.cols());
-- 
2.43.0


From 845dc5c04a759b1f183ee44bd684cab80787b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 041/101] fix: a change of reference takes effect on a feature
 whose inputs do not change

---
 include/sot/core/feature-abstract.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 225f345..8adf2bd 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -261,6 +261,9 @@ void FeatureReferenceHelper<FeatureSpecialized>::setReference(
       SP::setReference(sdes);                                       \
       if (SP::isReferenceSet()) addDependenciesFromReference();     \
     }                                                               \
+    this->errorSOUT.setReady();                                     \
+    this->errordotSOUT.setReady();                                  \
+    this->jacobianSOUT.setReady();                                  \
   }                                                                 \
   virtual const FeatureAbstract *getReferenceAbstract(void) const { \
     return SP::getReference();                                      \
-- 
2.43.0


From 0ba44ed8e76445d99d69bb8e457eac53b8dbcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 042/101] fix: a change of computation frame takes effect on a
 6D point whose inputs do not change

---
 src/feature/feature-point6d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 3328431..826d80b 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -140,6 +140,9 @@ void FeaturePoint6d::computationFrame(const std::string &inFrame) {
                     "expecting 'current' or 'desired'");
     throw ExceptionFeature(ExceptionFeature::GENERIC, msg);
   }
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
+  jacobianSOUT.setReady();
 }
 
 /// \brief Get computation frame
-- 
2.43.0


From 86ad60ccf2186fa21d994feef02493a34702a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 043/101] fix: the error of a relative 6D point depends on both
 poses of its reference

---
 include/sot/core/feature-point6d-relative.hh |  2 ++
 src/feature/feature-point6d-relative.cpp     | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/sot/core/feature-point6d-relative.hh b/include/sot/core/feature-point6d-relative.hh
index 260e675..27861a2 100644
--- a/include/sot/core/feature-point6d-relative.hh
+++ b/include/sot/core/feature-point6d-relative.hh
@@ -75,6 +75,8 @@ class [[deprecated("replaced by FeaturePose")]] SOTFEATUREPOINT6DRELATIVE_EXPORT
   /*! @} */
 
   using FeaturePoint6d::getReference;
+  virtual void addDependenciesFromReference(void);
+  virtual void removeDependenciesFromReference(void);
 
  public:
   FeaturePoint6dRelative(const std::string &name);
diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index 471d5e1..f72827a 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -68,6 +68,20 @@ FeaturePoint6dRelative::FeaturePoint6dRelative(const string &pointName)
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
+void FeaturePoint6dRelative::addDependenciesFromReference(void) {
+  FeaturePoint6d::addDependenciesFromReference();
+  FeaturePoint6dRelative *sdes6d =
+      dynamic_cast<FeaturePoint6dRelative *>(getReference());
+  if (NULL != sdes6d) errorSOUT.addDependency(sdes6d->positionReferenceSIN);
+}
+
+void FeaturePoint6dRelative::removeDependenciesFromReference(void) {
+  FeaturePoint6d::removeDependenciesFromReference();
+  FeaturePoint6dRelative *sdes6d =
+      dynamic_cast<FeaturePoint6dRelative *>(getReference());
+  if (NULL != sdes6d) errorSOUT.removeDependency(sdes6d->positionReferenceSIN);
+}
+
 /** Compute the interaction matrix from a subset of
  * the possible features.
  */
-- 
2.43.0


From 93fe6602e522146c5528553c4f5fa83ee418f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 044/101] fix: the error rate of a visual point follows the
 rate of its reference

---
 src/feature/feature-visual-point.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/feature/feature-visual-point.cpp b/src/feature/feature-visual-point.cpp
index b216727..b2847e8 100644
--- a/src/feature/feature-visual-point.cpp
+++ b/src/feature/feature-visual-point.cpp
@@ -48,11 +48,13 @@ FeatureVisualPoint::FeatureVisualPoint(const string &pointName)
 void FeatureVisualPoint::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->xySIN);
+  errordotSOUT.addDependency(getReference()->errordotSIN);
 }
 
 void FeatureVisualPoint::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->xySIN);
+  errordotSOUT.removeDependency(getReference()->errordotSIN);
 }
 
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 518b289c2e44e745174dada88cc5f19f00f2dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 045/101] fix: the vector of a skew-symmetric matrix keeps its
 sign

---
 src/matrix/operator.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index bd11c8b..43936a0 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -298,9 +298,9 @@ struct MatrixHomoToPoseUTheta
 struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
   inline void operator()(const Matrix &M, Vector &res) {
     res.resize(3);
-    res(0) = M(7);
-    res(1) = M(2);
-    res(2) = M(3);
+    res(0) = M(2, 1);
+    res(1) = M(0, 2);
+    res(2) = M(1, 0);
   }
 };
 
-- 
2.43.0


From 0b04a79ee38fb83af7b8dbd6d5f4a773fed653af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 046/101] fix: selectors, stacks and weighted sums start from
 defined parameters

---
 src/matrix/operator.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 43936a0..b6064a6 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -115,6 +115,7 @@ struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
     res = m(index);
   }
 
+  VectorComponent() : index(0) {}
   int index;
   inline void setIndex(const int &m) { index = m; }
 
@@ -148,6 +149,7 @@ struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
   }
 
  public:
+  MatrixSelector() : imin(0), imax(0), jmin(0), jmax(0) {}
   int imin, imax;
   int jmin, jmax;
 
@@ -190,6 +192,7 @@ struct MatrixColumnSelector : public UnaryOpHeader<dg::Matrix, dg::Vector> {
     for (int i = imin; i < imax; ++i) res(i - imin) = m(i, jcol);
   }
 
+  MatrixColumnSelector() : imin(0), imax(0), jcol(0) {}
   int imin, imax;
   int jcol;
   inline void selectCol(const int &m) { jcol = m; }
@@ -594,6 +597,7 @@ struct VectorStack
     : public BinaryOpHeader<dynamicgraph::Vector, dynamicgraph::Vector,
                             dynamicgraph::Vector> {
  public:
+  VectorStack() : v1min(0), v1max(0), v2min(0), v2max(0) {}
   int v1min, v1max;
   int v2min, v2max;
   inline void operator()(const dynamicgraph::Vector &v1,
@@ -782,6 +786,7 @@ namespace sot {
 template <typename T>
 struct WeightedAdder : public BinaryOpHeader<T, T, T> {
  public:
+  WeightedAdder() : gain1(1.), gain2(1.) {}
   double gain1, gain2;
   inline void operator()(const T &v1, const T &v2, T &res) const {
     res = v1;
-- 
2.43.0


From a55f072d5a7923c917382a88677eb7116f95563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 047/101] fix: an operator with a variable number of inputs
 follows inputs added and removed one by one

---
 include/sot/core/variadic-op.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 034660e..2fb7f34 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -72,6 +72,7 @@ class VariadicAbstract : public Entity {
       _declareSignal(sig);
       signalsIN.push_back(sig);
       // names.push_back (name);
+      updateSignalNumber((int)signalsIN.size());
       return signalsIN.size() - 1;
     } catch (const ExceptionAbstract &) {
       delete sig;
@@ -84,6 +85,7 @@ class VariadicAbstract : public Entity {
     _removeSignal(signalsIN.size() - 1);
     // names.pop_back();
     signalsIN.pop_back();
+    updateSignalNumber((int)signalsIN.size());
   }
 
   void setSignalNumber(const int &n) {
@@ -126,11 +128,13 @@ class VariadicAbstract : public Entity {
     // signalDeregistration(names[i]);
     signalDeregistration(signalsIN[i]->shortName());
     SOUT.removeDependency(*signalsIN[i]);
+    SOUT.setReady();
     delete signalsIN[i];
   }
   void _declareSignal(signal_t *s) {
     signalRegistration(*s);
     SOUT.addDependency(*s);
+    SOUT.setReady();
   }
   const std::string baseSigname;
 };
-- 
2.43.0


From 3dbea9f9829941a779499875c9912aa07133d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:30 +0000
Subject: [PATCH 048/101] fix: check the position bounds under position control

---
 src/tools/device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index d07de74..5bb4855 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -512,6 +512,10 @@ void Device::integrate(const double &dt) {
 
   if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
     state_.tail(controlIN.size()) = controlIN;
+    // Position bounds check
+    if (sanityCheck_) {
+      CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
+    }
     return;
   }
 
-- 
2.43.0


From 99d018ca017f344eb35f445f4cccdf0ad09acd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:30 +0000
Subject: [PATCH 049/101] fix: check the velocity bounds under velocity control

---
 src/tools/device.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 5bb4855..c17edb6 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -537,7 +537,12 @@ void Device::integrate(const double &dt) {
 
   // Velocity bounds check
   if (sanityCheck_) {
-    CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
+    if (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION) {
+      CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
+    } else {
+      CHECK_BOUNDS(vel_control_, lowerVelocity_.tail(vel_control_.size()),
+                   upperVelocity_.tail(vel_control_.size()), "velocity");
+    }
   }
 
   if (vel_control_.size() == state_.size()) {
-- 
2.43.0


From 1f9b02e3539f51e9a9d9db586afa9929280f10f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:30 +0000
Subject: [PATCH 050/101] fix: set the position of the root of the device

---
 src/tools/device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index c17edb6..858b7b4 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -298,8 +298,11 @@ void Device::setRoot(const Matrix &root) {
 void Device::setRoot(const MatrixHomogeneous &worldMwaist) {
   VectorRollPitchYaw r = (worldMwaist.linear().eulerAngles(2, 1, 0)).reverse();
   Vector q = state_;
-  q = worldMwaist.translation();  // abusive ... but working.
+  q.head<3>() = worldMwaist.translation();
   for (unsigned int i = 0; i < 3; ++i) q(i + 3) = r(i);
+  state_ = q;
+  stateSOUT.setConstant(state_);
+  motorcontrolSOUT.setConstant(state_);
 }
 
 void Device::setSecondOrderIntegration() {
-- 
2.43.0


From de376f24bd49888c51dafa7e0baebdab5e1bdc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:46 +0000
Subject: [PATCH 051/101] fix: do not read bounds of the device that were not
 set

---
 src/tools/device.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 858b7b4..8d8097b 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -513,10 +513,16 @@ void Device::integrate(const double &dt) {
     return;
   }
 
+  // Only the bounds set for the current size of the state can be checked
+  const bool checkPosition =
+      sanityCheck_ && lowerPosition_.size() == state_.size();
+  const bool checkVelocity =
+      sanityCheck_ && lowerVelocity_.size() == velocity_.size();
+
   if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
     state_.tail(controlIN.size()) = controlIN;
     // Position bounds check
-    if (sanityCheck_) {
+    if (checkPosition) {
       CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
     }
     return;
@@ -539,7 +545,7 @@ void Device::integrate(const double &dt) {
   }
 
   // Velocity bounds check
-  if (sanityCheck_) {
+  if (checkVelocity) {
     if (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION) {
       CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
     } else {
@@ -559,7 +565,7 @@ void Device::integrate(const double &dt) {
   }
 
   // Position bounds check
-  if (sanityCheck_) {
+  if (checkPosition) {
     CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
   }
 }
-- 
2.43.0


From b7b23d56682b2f79e58da4486dfe60693b806204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 052/101] fix: reset the output of the scalar FIR filter before
 summing

---
 src/matrix/fir-filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/fir-filter.cpp b/src/matrix/fir-filter.cpp
index 358cf45..a6ed1ce 100644
--- a/src/matrix/fir-filter.cpp
+++ b/src/matrix/fir-filter.cpp
@@ -51,6 +51,11 @@ SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, double, vec_double,
 SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, Matrix, vec_mat,
                                    "FIRFilter")
 
+template <>
+void FIRFilter<double, double>::reset_signal(double &res, const double &) {
+  res = 0;
+}
+
 template <>
 void FIRFilter<Vector, double>::reset_signal(Vector &res,
                                              const Vector &sample) {
-- 
2.43.0


From b06c8ab6865d8268057f7e8f382e51101d8ebdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 053/101] fix: refuse to integrate with a memory that does not
 match the coefficients

---
 include/sot/core/integrator-euler.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sot/core/integrator-euler.hh b/include/sot/core/integrator-euler.hh
index 92b761b..aeb7e60 100644
--- a/include/sot/core/integrator-euler.hh
+++ b/include/sot/core/integrator-euler.hh
@@ -106,6 +106,13 @@ class IntegratorEuler : public IntegratorAbstract<sigT, coefT> {
   sigT &integrate(sigT &res, int time) {
     sotDEBUG(15) << "# In {" << std::endl;
 
+    if (numerator.empty() || denominator.empty() ||
+        inputMemory.size() != numerator.size() ||
+        outputMemory.size() != denominator.size())
+      throw dynamicgraph::ExceptionSignal(
+          dynamicgraph::ExceptionSignal::GENERIC,
+          "Integrator not initialized for its current coefficients.");
+
     sigT sum;
     sigT tmp1, tmp2;
     const std::vector<coefT> &num = numerator;
-- 
2.43.0


From 7dff554e39845076f24f16ca0c516845239e141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 054/101] fix: make the Kalman variance depend on all the
 inputs it reads

---
 src/tools/kalman.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/kalman.cpp b/src/tools/kalman.cpp
index 84defc4..71d9269 100644
--- a/src/tools/kalman.cpp
+++ b/src/tools/kalman.cpp
@@ -78,6 +78,8 @@ Matrix &Kalman::computeVarianceUpdate(Matrix &Pk_k, const int &time) {
     // Set dependency to input signals for latter computations
     varianceUpdateSOUT.addDependency(noiseTransitionSIN);
     varianceUpdateSOUT.addDependency(modelTransitionSIN);
+    varianceUpdateSOUT.addDependency(modelMeasureSIN);
+    varianceUpdateSOUT.addDependency(noiseMeasureSIN);
   } else {
     const Matrix &Q = noiseTransitionSIN(time);
     const Matrix &R = noiseMeasureSIN(time);
-- 
2.43.0


From 4bb8867724b9131b8d487276ec04316c84eea874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 055/101] fix: recompute the admittance force when the sensor
 moves

---
 src/control/admittance-control-op-point.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 5b0b01d..7a7b70b 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -61,7 +61,8 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_IN(w_forceDes, dynamicgraph::Vector),
       CONSTRUCT_SIGNAL_IN(opPose, dynamicgraph::sot::MatrixHomogeneous),
       CONSTRUCT_SIGNAL_IN(sensorPose, dynamicgraph::sot::MatrixHomogeneous),
-      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector, m_forceSIN),
+      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector,
+                             m_forceSIN << m_sensorPoseSIN),
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
-- 
2.43.0


From 2e6b8aea41ad6d306d875ec0562dd456d2bf4e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 056/101] fix: give the admittance state its size from
 construction

---
 src/control/admittance-control-op-point.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 7a7b70b..458a138 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -66,6 +66,7 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
+      m_n(6),
       m_initSucceeded(false) {
   Entity::signalRegistration(INPUT_SIGNALS << INNER_SIGNALS << OUTPUT_SIGNALS);
 
-- 
2.43.0


From 218d6bfc8fdc7aafde807b0c9f8cd784be38241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 057/101] fix: recompute the shifted Jacobian when the frame
 moves

---
 src/math/op-point-modifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index f77af94..6b2e613 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -32,7 +32,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
           NULL, "OpPointModifior(" + name + ")::input(matrixhomo)::positionIN"),
       jacobianSOUT(
           boost::bind(&OpPointModifier::jacobianSOUT_function, this, _1, _2),
-          jacobianSIN,
+          jacobianSIN << positionSIN,
           "OpPointModifior(" + name + ")::output(matrix)::jacobian"),
       positionSOUT(
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
-- 
2.43.0


From 850d7499099e7b453791619c58a076f75aeb9f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 058/101] fix: remove destroyed tasks and features from the
 registry

---
 include/sot/core/feature-abstract.hh |  2 +-
 include/sot/core/pool.hh             |  5 +++++
 include/sot/core/task-abstract.hh    |  1 +
 src/factory/pool.cpp                 | 12 ++++++++++++
 src/feature/feature-abstract.cpp     |  4 ++++
 src/task/task-abstract.cpp           |  4 ++++
 6 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 8adf2bd..f07d5d0 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -90,7 +90,7 @@ class SOT_CORE_EXPORT FeatureAbstract : public Entity {
   /*! \brief Default constructor: the name of the class should be given. */
   FeatureAbstract(const std::string &name);
   /*! \brief Default destructor */
-  virtual ~FeatureAbstract(void){};
+  virtual ~FeatureAbstract(void);
 
   /*! \name Methods returning the dimension of the feature.
     @{ */
diff --git a/include/sot/core/pool.hh b/include/sot/core/pool.hh
index f68118d..9ab92d3 100644
--- a/include/sot/core/pool.hh
+++ b/include/sot/core/pool.hh
@@ -101,6 +101,9 @@ class SOT_CORE_EXPORT PoolStorage {
   /*! \brief Registering a feature. */
   void registerFeature(const std::string &entname, FeatureAbstract *ent);
 
+  /*! \brief Remove a feature, if it is the one registered by this name. */
+  void deregisterFeature(const std::string &entname, FeatureAbstract *ent);
+
   /*! \brief Get a reference to a feature. */
   FeatureAbstract &getFeature(const std::string &name);
   /*! @} */
@@ -110,6 +113,8 @@ class SOT_CORE_EXPORT PoolStorage {
    */
   /*! \brief Registering a task. */
   void registerTask(const std::string &entname, TaskAbstract *ent);
+  /*! \brief Remove a task, if it is the one registered by this name. */
+  void deregisterTask(const std::string &entname, TaskAbstract *ent);
   /*! \brief Get a reference to a task. */
   TaskAbstract &getTask(const std::string &name);
   /*! @} */
diff --git a/include/sot/core/task-abstract.hh b/include/sot/core/task-abstract.hh
index 99000b0..718709e 100644
--- a/include/sot/core/task-abstract.hh
+++ b/include/sot/core/task-abstract.hh
@@ -76,6 +76,7 @@ class SOT_CORE_EXPORT TaskAbstract : public dynamicgraph::Entity {
 
  public:
   TaskAbstract(const std::string &n);
+  virtual ~TaskAbstract(void);
 
  public: /* --- SIGNALS --- */
   dynamicgraph::SignalTimeDependent<VectorMultiBound, int> taskSOUT;
diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index c77cd8c..61721de 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -52,6 +52,12 @@ void PoolStorage::registerTask(const std::string &entname, TaskAbstract *ent) {
   }
 }
 
+void PoolStorage::deregisterTask(const std::string &entname,
+                                 TaskAbstract *ent) {
+  Tasks::iterator entkey = task.find(entname);
+  if (entkey != task.end() && entkey->second == ent) task.erase(entkey);
+}
+
 TaskAbstract &PoolStorage::getTask(const std::string &name) {
   Tasks::iterator entPtr = task.find(name);
   if (entPtr == task.end()) {
@@ -79,6 +85,12 @@ void PoolStorage::registerFeature(const std::string &entname,
   }
 }
 
+void PoolStorage::deregisterFeature(const std::string &entname,
+                                    FeatureAbstract *ent) {
+  Features::iterator entkey = feature.find(entname);
+  if (entkey != feature.end() && entkey->second == ent) feature.erase(entkey);
+}
+
 FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
   Features::iterator entPtr = feature.find(name);
   if (entPtr == feature.end()) {
diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 56da8a4..0075e46 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -80,6 +80,10 @@ std::ostream &FeatureAbstract::writeGraph(std::ostream &os) const {
   return os;
 }
 
+FeatureAbstract::~FeatureAbstract(void) {
+  PoolStorage::getInstance()->deregisterFeature(name, this);
+}
+
 void FeatureAbstract::setReferenceByName(const std::string &name) {
   setReference(
       &dynamicgraph::sot::PoolStorage::getInstance()->getFeature(name));
diff --git a/src/task/task-abstract.cpp b/src/task/task-abstract.cpp
index 7070b93..ea8a874 100644
--- a/src/task/task-abstract.cpp
+++ b/src/task/task-abstract.cpp
@@ -31,6 +31,10 @@ TaskAbstract::TaskAbstract(const std::string &n)
   signalRegistration(taskSOUT << jacobianSOUT);
 }
 
+TaskAbstract::~TaskAbstract(void) {
+  PoolStorage::getInstance()->deregisterTask(name, this);
+}
+
 void TaskAbstract::taskRegistration(void) {
   PoolStorage::getInstance()->registerTask(name, this);
 }
-- 
2.43.0


From 2d56b0ca59b0a5e68c3aad1050fa6b6dd4e90a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:24 +0000
Subject: [PATCH 059/101] fix: start the sequencer without a stack

---
 src/tools/sequencer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 14de302..54aaef6 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -22,6 +22,7 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(Sequencer, "Sequencer");
 
 Sequencer::Sequencer(const std::string &name)
     : Entity(name),
+      sotPtr(NULL),
       timeInit(-1),
       playMode(false),
       outputStreamPtr(NULL),
-- 
2.43.0


From f69e2d9bc74baf8b75bd9f43a1e646e7754449b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 060/101] fix: let the first evaluation of an event differ from
 both values

---
 include/sot/core/event.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sot/core/event.hh b/include/sot/core/event.hh
index c2196af..ccef1da 100644
--- a/include/sot/core/event.hh
+++ b/include/sot/core/event.hh
@@ -115,7 +115,7 @@ class SOT_CORE_DLLAPI Event : public dynamicgraph::Entity {
   Triggers_t triggers;
   SignalPtr<bool, int> conditionSIN;
 
-  bool lastVal_;
+  int lastVal_;
   int timeSinceUp_, repeatAfterNIterations_;
 };
 }  // namespace sot
-- 
2.43.0


From 6e6d8d6395996b55b881dce64b9ed67f2a8f409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:59 +0000
Subject: [PATCH 061/101] fix: do not repeat an event while its condition is
 down

---
 src/tools/event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/event.cpp b/src/tools/event.cpp
index ae388ca..683d4d7 100644
--- a/src/tools/event.cpp
+++ b/src/tools/event.cpp
@@ -18,7 +18,7 @@ bool &Event::check(bool &ret, const int &time) {
     ++timeSinceUp_;
   }
   // If repetition is activated, trigger again after given number of iterations
-  bool trigger = up || (repeatAfterNIterations_ > 0 &&
+  bool trigger = up || (val && repeatAfterNIterations_ > 0 &&
                         timeSinceUp_ >= repeatAfterNIterations_);
   if (ret) {
     lastVal_ = val;
-- 
2.43.0


From 4489469d4cdca3a9d0801a92c65690521f35bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 062/101] fix: weight the gripper velocity joint by joint

---
 src/tools/gripper-control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index 29fb5fb..4afe5eb 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -148,7 +148,7 @@ dynamicgraph::Vector &GripperControl::computeDesiredPosition(
 
   // multiply the velocity elmt per elmt
   dynamicgraph::Vector weightedVel(SIZE);
-  weightedVel = velocity * factor;
+  weightedVel = velocity.cwiseProduct(factor);
   sotDEBUG(25) << " weightedVel " << weightedVel << std::endl;
 
   // integrate the desired velocity
-- 
2.43.0


From f7834a9a44530db3a73292fe098b95720f7c2f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 063/101] fix: remember whether the pattern generator was
 running

---
 src/tools/com-freezer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/com-freezer.cpp b/src/tools/com-freezer.cpp
index 700e344..87d9972 100644
--- a/src/tools/com-freezer.cpp
+++ b/src/tools/com-freezer.cpp
@@ -51,13 +51,13 @@ dynamicgraph::Vector &CoMFreezer::computeFreezedCoM(
   if (PGInProcess) /* CoM unfreezed */
   {
     m_lastCoM = CoMRefSIN(time);
-    m_previousPGInProcess = (PGInProcess == 0);
+    m_previousPGInProcess = (PGInProcess != 0);
   } else {
     if (m_previousPGInProcess) /* pg.inprocess switch from 1 to 0 */
     {
       m_lastStopTime = time;
       m_lastCoM = CoMRefSIN(time);
-      m_previousPGInProcess = (PGInProcess == 0);
+      m_previousPGInProcess = (PGInProcess != 0);
     } else if (time < m_lastStopTime + 200) /* keep updating for 1s */
     {
       m_lastCoM = CoMRefSIN(time);
-- 
2.43.0


From 198bc55fc0851408796a3db57bd5faa0114fc864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 064/101] fix: keep the phase of periodic motions before their
 first period

---
 src/tools/motion-period.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/motion-period.cpp b/src/tools/motion-period.cpp
index 7c7bc05..2637bb3 100644
--- a/src/tools/motion-period.cpp
+++ b/src/tools/motion-period.cpp
@@ -50,7 +50,8 @@ dynamicgraph::Vector &MotionPeriod::computeMotion(dynamicgraph::Vector &res,
   res.resize(size);
   for (unsigned int i = 0; i < size; ++i) {
     const sotMotionParam &p = motionParams[i];
-    double x = ((((time - p.initPeriod) % p.period) + 0.0) / (p.period + 0.0));
+    const long long elapsed = static_cast<long long>(time) - p.initPeriod;
+    double x = (elapsed % static_cast<long long>(p.period) + 0.0) / p.period;
     res(i) = p.initAmplitude;
     switch (p.motionType) {
       case MOTION_CONSTANT: {
-- 
2.43.0


From 146d9772c43b2565f2d9db7dcf1585325192d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 065/101] fix: give the empty mailbox a time stamp

---
 include/sot/core/mailbox.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index 110a712..ea228ad 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -23,6 +23,7 @@ Mailbox<Object>::Mailbox(const std::string &name)
     : Entity(name),
       mainObjectMutex(),
       mainObject(),
+      mainTimeStamp(),
       update(false)
 
       ,
-- 
2.43.0


From 2c499ffdc1314b822067320b44a9736ce7a37c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 066/101] fix: do not lose a message posted during a read of
 the mailbox

---
 include/sot/core/mailbox.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index ea228ad..ef830df 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -34,7 +34,7 @@ Mailbox<Object>::Mailbox(const std::string &name)
       timeSOUT(boost::bind(&Mailbox::getTimestamp, this, _1, _2), SOUT,
                "Mailbox(" + name + ")::output(Object)::timestamp") {
   signalRegistration(SOUT << objSOUT << timeSOUT);
-  SOUT.setDependencyType(TimeDependency<int>::BOOL_DEPENDENT);
+  SOUT.setDependencyType(TimeDependency<int>::ALWAYS_READY);
 }
 
 template <class Object>
@@ -81,7 +81,6 @@ void Mailbox<Object>::post(const Object &value) {
   mainObject = value;
   gettimeofday(&this->mainTimeStamp, NULL);
   update = true;
-  SOUT.setReady();
 
   return;
 }
-- 
2.43.0


From c4bfe1bc9c7f0357bb2e0275bae0797e3ccefab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 067/101] fix: do not go back to an older message when the
 mailbox is busy

---
 include/sot/core/mailbox.hh  | 2 ++
 include/sot/core/mailbox.hxx | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/sot/core/mailbox.hh b/include/sot/core/mailbox.hh
index 7794300..1d0108f 100644
--- a/include/sot/core/mailbox.hh
+++ b/include/sot/core/mailbox.hh
@@ -64,6 +64,8 @@ class Mailbox : public dg::Entity {
   boost::timed_mutex mainObjectMutex;
   Object mainObject;
   struct timeval mainTimeStamp;
+  // What the reading thread got last, given again while a post is under way.
+  sotTimestampedObject lastRead;
   bool update;
 
  public: /* --- SIGNALS --- */
diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index ef830df..d765718 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -24,6 +24,7 @@ Mailbox<Object>::Mailbox(const std::string &name)
       mainObjectMutex(),
       mainObject(),
       mainTimeStamp(),
+      lastRead(),
       update(false)
 
       ,
@@ -69,6 +70,9 @@ typename Mailbox<Object>::sotTimestampedObject &Mailbox<Object>::get(
 
     update = false;
     res.obj = this->mainObject;
+    lastRead = res;
+  } else {
+    res = lastRead;
   }
 
   return res;
-- 
2.43.0


From cd48c27f8eaa0614f9697579eb13366650abe14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 068/101] fix: count no joint before the joint map is given

---
 src/tools/robot-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index f628855..09033e9 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -226,7 +226,7 @@ void ForceUtil::display(std::ostream &os) const {
 }
 
 /**************** FromURDFToSot *************************/
-RobotUtil::RobotUtil() {}
+RobotUtil::RobotUtil() : m_nbJoints(0) {}
 
 void RobotUtil::set_joint_limits_for_id(const Index &idx, const double &lq,
                                         const double &uq) {
-- 
2.43.0


From 84bf56deac230bf5a6462e6a85bc66f430575012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 069/101] fix: start without force sensor identifiers

---
 include/sot/core/robot-utils.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sot/core/robot-utils.hh b/include/sot/core/robot-utils.hh
index fa256e7..2573b04 100644
--- a/include/sot/core/robot-utils.hh
+++ b/include/sot/core/robot-utils.hh
@@ -76,6 +76,12 @@ struct SOT_CORE_EXPORT ForceUtil {
   Index m_Force_Id_Left_Hand, m_Force_Id_Right_Hand, m_Force_Id_Left_Foot,
       m_Force_Id_Right_Foot;
 
+  ForceUtil()
+      : m_Force_Id_Left_Hand(-1),
+        m_Force_Id_Right_Hand(-1),
+        m_Force_Id_Left_Foot(-1),
+        m_Force_Id_Right_Foot(-1) {}
+
   void set_name_to_force_id(const std::string &name, const Index &force_id);
 
   void set_force_id_to_limits(const Index &force_id,
-- 
2.43.0


From 911d3dc65e01afa3c2f5726fe2cab2e630500c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 070/101] fix: forget the previous identifier of a renumbered
 joint or sensor

---
 src/tools/robot-utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index 09033e9..51e3d91 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -174,6 +174,7 @@ std::string ForceUtil::cp_get_name_from_id(Index idx) {
 }
 void ForceUtil::create_force_id_to_name_map() {
   std::map<std::string, Index>::const_iterator it;
+  m_force_id_to_name.clear();
   for (it = m_name_to_force_id.begin(); it != m_name_to_force_id.end(); it++)
     m_force_id_to_name[it->second] = it->first;
 }
@@ -251,6 +252,7 @@ void RobotUtil::set_name_to_id(const std::string &jointName,
 
 void RobotUtil::create_id_to_name_map() {
   std::map<std::string, Index>::const_iterator it;
+  m_id_to_name.clear();
   for (it = m_name_to_id.begin(); it != m_name_to_id.end(); it++)
     m_id_to_name[it->second] = it->first;
 }
-- 
2.43.0


From a1136776321aa6c085930fd78bc034c2653fcb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 071/101] fix: report a missing joint map before looking at
 sizes

---
 src/tools/robot-utils.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index 51e3d91..cadf8a0 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -303,13 +303,12 @@ bool RobotUtil::joints_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
 }
 
 bool RobotUtil::joints_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints));
-  assert(q_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints));
-
   if (m_nbJoints == 0) {
     SEND_MSG("set_urdf_to_sot should be called", MSG_TYPE_ERROR);
     return false;
   }
+  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints));
+  assert(q_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints));
 
   for (unsigned int idx = 0; idx < m_nbJoints; idx++)
     q_urdf[idx] = q_sot[m_urdf_to_sot[idx]];
@@ -318,14 +317,14 @@ bool RobotUtil::joints_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
 
 bool RobotUtil::velocity_urdf_to_sot(ConstRefVector q_urdf,
                                      ConstRefVector v_urdf, RefVector v_sot) {
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
-  assert(v_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
-  assert(v_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
-
   if (m_nbJoints == 0) {
     SEND_MSG("velocity_urdf_to_sot should be called", MSG_TYPE_ERROR);
     return false;
   }
+  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
+  assert(v_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
+  assert(v_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
+
   const Eigen::Quaterniond q(q_urdf(6), q_urdf(3), q_urdf(4), q_urdf(5));
   Eigen::Matrix3d oRb = q.toRotationMatrix();
   v_sot.head<3>() = oRb * v_urdf.head<3>();
@@ -337,14 +336,14 @@ bool RobotUtil::velocity_urdf_to_sot(ConstRefVector q_urdf,
 
 bool RobotUtil::velocity_sot_to_urdf(ConstRefVector q_urdf,
                                      ConstRefVector v_sot, RefVector v_urdf) {
-  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
-  assert(v_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
-  assert(v_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
-
   if (m_nbJoints == 0) {
     SEND_MSG("velocity_sot_to_urdf should be called", MSG_TYPE_ERROR);
     return false;
   }
+  assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
+  assert(v_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
+  assert(v_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
+
   // compute rotation from world to base frame
   const Eigen::Quaterniond q(q_urdf(6), q_urdf(3), q_urdf(4), q_urdf(5));
   Eigen::Matrix3d oRb = q.toRotationMatrix();
-- 
2.43.0


From f437d25d5333a61d195d2fa1e639147c6c5ccd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 072/101] fix: stay uninitialised when no single robot is
 registered

---
 src/tools/parameter-server.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index face65a..c55382a 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -207,11 +207,6 @@ ParameterServer::ParameterServer(const std::string &name)
 void ParameterServer::init_simple(const double &dt) {
   if (dt <= 0.0) return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
 
-  m_dt = dt;
-
-  m_emergency_stop_triggered = false;
-  m_initSucceeded = true;
-
   std::string localName("robot");
   std::shared_ptr<std::vector<std::string> > listOfRobots =
       sot::getListOfRobots();
@@ -232,6 +227,10 @@ void ParameterServer::init_simple(const double &dt) {
     m_robot_util = getRobotUtil(localName);
   }
 
+  m_dt = dt;
+  m_emergency_stop_triggered = false;
+  m_initSucceeded = true;
+
   addCommand(
       "getJointsUrdfToSot",
       makeDirectGetter(*this, &m_robot_util->m_dgv_urdf_to_sot,
-- 
2.43.0


From e4288de70741d98be5769ed68803c805b52020ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:25 +0000
Subject: [PATCH 073/101] fix: refuse to display the robot description before
 initialisation

---
 src/tools/parameter-server.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index c55382a..7e76b24 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -374,7 +374,14 @@ void ParameterServer::setImuJointName(const std::string &JointName) {
   m_robot_util->m_imu_joint_name = JointName;
 }
 
-void ParameterServer::displayRobotUtil() { m_robot_util->display(std::cout); }
+void ParameterServer::displayRobotUtil() {
+  if (!m_initSucceeded) {
+    SEND_WARNING_STREAM_MSG(
+        "Cannot display the robot util before initialization!");
+    return;
+  }
+  m_robot_util->display(std::cout);
+}
 
 /* --- PROTECTED MEMBER METHODS
  * ---------------------------------------------------------- */
-- 
2.43.0


From 303747f985f92421babf0b931736cbd463182c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 074/101] fix: read the time stamp of a trajectory

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 3036a5d..45512ee 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -104,8 +104,10 @@ void RulesJointTrajectory::parse_header(std::string &trajectory,
   if (search_exp_sub_string(trajectory, what, header_re, sub_text1)) {
     is.str(what[1]);
     is >> TrajectoryToFill_.header_.seq_;
+    is.clear();
     is.str(what[2]);
     is >> TrajectoryToFill_.header_.stamp_.secs_;
+    is.clear();
     is.str(what[3]);
     is >> TrajectoryToFill_.header_.stamp_.nsecs_;
     TrajectoryToFill_.header_.frame_id_ = what[4];
-- 
2.43.0


From 7234ee3d6d83f1e953dc497d93dffc8230fda6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 075/101] fix: copy the joint names of a trajectory

---
 src/tools/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 45512ee..60c84bb 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -286,6 +286,7 @@ void RulesJointTrajectory::parse_string(std::string &atext) {
 Trajectory::Trajectory(void) {}
 
 Trajectory::Trajectory(const Trajectory &copy) {
+  joint_names_ = copy.joint_names_;
   header_ = copy.header_;
   time_from_start_ = copy.time_from_start_;
   points_ = copy.points_;
-- 
2.43.0


From 331b7afefe5cc7ce51123b68dc8d1374db9e2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 076/101] fix: initialise the time from start of a trajectory

---
 src/tools/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 60c84bb..a0ba9e1 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -283,7 +283,7 @@ void RulesJointTrajectory::parse_string(std::string &atext) {
   parse_points(sub_text1, sub_text2);
 }
 
-Trajectory::Trajectory(void) {}
+Trajectory::Trajectory(void) : time_from_start_(0.) {}
 
 Trajectory::Trajectory(const Trajectory &copy) {
   joint_names_ = copy.joint_names_;
-- 
2.43.0


From 0ad316e928cc7d8f9fcbc3286025ede03db52b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:24 +0000
Subject: [PATCH 077/101] fix: stop reading joint names when none is left

---
 src/tools/trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index a0ba9e1..372ee7e 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -147,7 +147,8 @@ void RulesJointTrajectory::parse_joint_names(
                   << std::endl;
         std::cout << "sub_text1:" << sub_text1 << std::endl;
       }
-    }
+    } else
+      joint_names_loop = false;
     trajectory = sub_text1;
 
   } while (joint_names_loop);
-- 
2.43.0


From de62c1a3d1866ed84e8be32aa54169914962597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 078/101] fix: read a trajectory text into an emptied
 trajectory

---
 src/tools/trajectory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 372ee7e..1c47dd3 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -297,6 +297,9 @@ Trajectory::~Trajectory(void) {}
 
 int Trajectory::deserialize(std::istringstream &is) {
   std::string aStr = is.str();
+  header_ = Header();
+  joint_names_.clear();
+  points_.clear();
   RulesJointTrajectory aRJT(*this);
   aRJT.parse_string(aStr);
 
-- 
2.43.0


From 19df105809869b27bfa985549042d2006709cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 079/101] fix: play a trajectory without an initial one

---
 src/tools/joint-trajectory-entity.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 18317b5..3db3b20 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -206,10 +206,10 @@ void SotJointTrajectoryEntity::UpdateTrajectory(const Trajectory &aTrajectory) {
 int &SotJointTrajectoryEntity::OneStepOfUpdate(int &dummy, const int &time) {
   sotDEBUGIN(4);
   const Trajectory &atraj = trajectorySIN(time);
-  if ((atraj.header_.stamp_.secs_ !=
-       deque_traj_.front().header_.stamp_.secs_) ||
-      (atraj.header_.stamp_.nsecs_ !=
-       deque_traj_.front().header_.stamp_.nsecs_)) {
+  if (!deque_traj_.empty() && ((atraj.header_.stamp_.secs_ !=
+                                deque_traj_.front().header_.stamp_.secs_) ||
+                               (atraj.header_.stamp_.nsecs_ !=
+                                deque_traj_.front().header_.stamp_.nsecs_))) {
     if (index_ < deque_traj_.front().points_.size() - 1) {
       sotDEBUG(4) << "Overwrite trajectory without completion." << index_ << " "
                   << deque_traj_.front().points_.size() << std::endl;
-- 
2.43.0


From 88ec439fce59970f6cf69c51fcb287a5811086e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 080/101] fix: publish only the joint values as position

---
 src/tools/joint-trajectory-entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 3db3b20..78cc89f 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -93,7 +93,7 @@ void SotJointTrajectoryEntity::UpdatePoint(const JointTrajectoryPoint &aJTP) {
   std::vector<JointTrajectoryPoint>::size_type possize = aJTP.positions_.size();
   if (possize == 0) return;
 
-  pose_.resize(aJTP.positions_.size());
+  pose_.resize(possize - 5);
   for (std::vector<JointTrajectoryPoint>::size_type i = 0; i < possize - 5;
        i++) {
     pose_(i) = aJTP.positions_[i];
-- 
2.43.0


From 080a4f8e346fbf84f886ee2e5d1bb42fca54409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 081/101] fix: ignore points too short to hold a com and a zmp

---
 src/tools/joint-trajectory-entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 78cc89f..c381f67 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -91,7 +91,7 @@ void SotJointTrajectoryEntity::UpdatePoint(const JointTrajectoryPoint &aJTP) {
   sotDEBUGIN(5);
   // Posture
   std::vector<JointTrajectoryPoint>::size_type possize = aJTP.positions_.size();
-  if (possize == 0) return;
+  if (possize < 5) return;
 
   pose_.resize(possize - 5);
   for (std::vector<JointTrajectoryPoint>::size_type i = 0; i < possize - 5;
-- 
2.43.0


From 3667cfd6df93bfb8320130849f26c0c0fa78d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:35 +0000
Subject: [PATCH 082/101] fix: place the waist at the position of the
 trajectory

---
 src/tools/joint-trajectory-entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index c381f67..ca564ff 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -235,7 +235,7 @@ sot::MatrixHomogeneous SotJointTrajectoryEntity::XYZThetaToMatrixHomogeneous(
   trans = Eigen::Translation3d(t);
   Eigen::Affine3d _Rd(Eigen::AngleAxisd(xyztheta(3), Eigen::Vector3d::UnitZ()));
   sot::MatrixHomogeneous res;
-  res = _Rd * trans;
+  res = trans * _Rd;
   return res;
 }
 
-- 
2.43.0


From 8154f230cc10475ac6fc5e4cca425939e2218ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:02 +0000
Subject: [PATCH 083/101] fix: load data files with lines of any length

---
 src/traces/reader.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index def2806..4198406 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -57,14 +57,9 @@ void sotReader::load(const string &filename) {
   sotDEBUGIN(15);
 
   std::ifstream datafile(filename.c_str());
-  const unsigned int SIZE = 1024;
-  char buffer[SIZE];
+  std::string buffer;
   std::vector<double> newline;
-  while (datafile.good()) {
-    datafile.getline(buffer, SIZE);
-    const unsigned int gcount = (unsigned int)(datafile.gcount());
-    if (gcount >= SIZE) { /* TODO read error, line to long. */
-    }
+  while (std::getline(datafile, buffer)) {
     std::istringstream iss(buffer);
     newline.clear();
     sotDEBUG(25) << "Get line = '" << buffer << "'" << std::endl;
-- 
2.43.0


From b4cb743f170ada51644f4feb021354e9bc60ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:02 +0000
Subject: [PATCH 084/101] fix: hold the last row read at the end of the data

---
 src/traces/reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index 4198406..ff32885 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -107,6 +107,7 @@ dynamicgraph::Vector &sotReader::getNextData(dynamicgraph::Vector &res,
 
   if (currentData == dataSet.end()) {
     sotDEBUGOUT(15);
+    res = vectorSOUT.accessCopy();
     return res;
   }
 
-- 
2.43.0


From d492b9f87b1a94d012d9b3b97414c80ee4821621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:02 +0000
Subject: [PATCH 085/101] fix: hold the last matrix read when a row is too
 short

---
 src/traces/reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index ff32885..093d027 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -131,7 +131,10 @@ dynamicgraph::Matrix &sotReader::getNextMatrix(dynamicgraph::Matrix &res,
                                                const unsigned int time) {
   sotDEBUGIN(15);
   const dynamicgraph::Vector &vect = vectorSOUT(time);
-  if (vect.size() < rows * cols) return res;
+  if (vect.size() < rows * cols) {
+    res = matrixSOUT.accessCopy();
+    return res;
+  }
 
   res.resize(rows, cols);
   for (int i = 0; i < rows; ++i)
-- 
2.43.0


From ca6ea83a690ca7ffd650ca8dbbc7a099b1bc4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:37 +0000
Subject: [PATCH 086/101] fix: declare the loader's help option once so that
 --help works

---
 src/tools/sot-loader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index e94a364..cd0c1d7 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -43,8 +43,7 @@ SotLoader::~SotLoader() { cleanUp(); }
 int SotLoader::parseOptions(int argc, char *argv[]) {
   po::options_description desc("Allowed options");
   desc.add_options()("help", "produce help message")(
-      "sot-dynamic-library", po::value<std::string>(), "Library to load");
-  desc.add_options()("help", "produce help message")(
+      "sot-dynamic-library", po::value<std::string>(), "Library to load")(
       "input-file", po::value<std::string>(), "Library to load");
 
   // Input variable map from the command line (int argc, char* argv[]).
-- 
2.43.0


From 3c2ceefbf11761862bbab781361f243596765f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:37 +0000
Subject: [PATCH 087/101] fix: rethrow the loader's original exception instead
 of a sliced copy

---
 src/tools/sot-loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index cd0c1d7..47630a3 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -177,7 +177,7 @@ void SotLoader::oneIteration(
     } catch (std::exception &e) {
       std::cout << "Exception while running the graph:\n"
                 << e.what() << std::endl;
-      throw e;
+      throw;
     }
   }
 }
-- 
2.43.0


From 0ba7a4322d3392c357072f3d95c824d944e497eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 088/101] fix: Task outputs its desired velocity again after a
 change of its feature list

---
 src/task/task.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 25cefe5..59fd11c 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -113,6 +113,7 @@ void Task::addFeature(FeatureAbstract &s) {
   jacobianSOUT.setReady();
   errorSOUT.setReady();
   errorTimeDerivativeSOUT.setReady();
+  taskSOUT.setReady();
 }
 
 void Task::addFeatureFromName(const std::string &featureName) {
@@ -134,6 +135,7 @@ void Task::clearFeatureList(void) {
   jacobianSOUT.setReady();
   errorSOUT.setReady();
   errorTimeDerivativeSOUT.setReady();
+  taskSOUT.setReady();
 }
 
 void Task::setControlSelection(const Flags &act) { controlSelectionSIN = act; }
-- 
2.43.0


From 6142940378b183ad097ca3d579149ae84681eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 089/101] fix: FilterDifferentiator refuses use before init and
 frees its filter

---
 include/sot/core/filter-differentiator.hh |  1 +
 src/filters/filter-differentiator.cpp     | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/sot/core/filter-differentiator.hh b/include/sot/core/filter-differentiator.hh
index 5bbbb6b..df952ae 100644
--- a/include/sot/core/filter-differentiator.hh
+++ b/include/sot/core/filter-differentiator.hh
@@ -94,6 +94,7 @@ class SOTFILTERDIFFERENTIATOR_EXPORT FilterDifferentiator
 
   /** --- CONSTRUCTOR ---- */
   FilterDifferentiator(const std::string &name);
+  virtual ~FilterDifferentiator();
 
   /** Initialize the FilterDifferentiator.
    * @param timestep Period (in seconds) after which
diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index 4769606..6b285a5 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -28,6 +28,7 @@
 #include <dynamic-graph/factory.h>
 
 #include <sot/core/debug.hh>
+#include <stdexcept>
 #include <sot/core/filter-differentiator.hh>
 //#include <sot/torque_control/motor-model.hh>
 #include <Eigen/Dense>
@@ -61,7 +62,10 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
       CONSTRUCT_SIGNAL_OUT(x_filtered, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(dx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(ddx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
-      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN) {
+      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN),
+      m_dt(0.),
+      m_x_size(0),
+      m_filter(NULL) {
   Entity::signalRegistration(ALL_INPUT_SIGNALS << ALL_OUTPUT_SIGNALS);
 
   /* Commands. */
@@ -86,16 +90,20 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
                                  "Denominator of the filter")));
 }
 
+FilterDifferentiator::~FilterDifferentiator() { delete m_filter; }
+
 /* --- COMMANDS ------------------------------------------------------ */
 /* --- COMMANDS ------------------------------------------------------ */
 /* --- COMMANDS ------------------------------------------------------ */
 void FilterDifferentiator::init(const double &timestep, const int &xSize,
                                 const Eigen::VectorXd &filter_numerator,
                                 const Eigen::VectorXd &filter_denominator) {
+  CausalFilter *filter =
+      new CausalFilter(timestep, xSize, filter_numerator, filter_denominator);
+  delete m_filter;
+  m_filter = filter;
   m_x_size = xSize;
   m_dt = timestep;
-  m_filter =
-      new CausalFilter(timestep, xSize, filter_numerator, filter_denominator);
 
   LOG("Filtering started with "
       << "Numerator " << filter_numerator << std::endl
@@ -106,6 +114,9 @@ void FilterDifferentiator::init(const double &timestep, const int &xSize,
 void FilterDifferentiator::switch_filter(
     const Eigen::VectorXd &filter_numerator,
     const Eigen::VectorXd &filter_denominator) {
+  if (!m_filter)
+    throw std::runtime_error("FilterDifferentiator " + getName() +
+                             " is not initialized.");
   LOG("Filter switched with "
       << "Numerator " << filter_numerator << std::endl
       << "Denominator" << filter_denominator << std::endl
@@ -119,6 +130,9 @@ void FilterDifferentiator::switch_filter(
 
 DEFINE_SIGNAL_INNER_FUNCTION(x_dx_ddx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute x_dx inner signal " << iter << std::endl;
+  if (!m_filter)
+    throw std::runtime_error("FilterDifferentiator " + getName() +
+                             " is not initialized.");
   if (s.size() != 3 * m_x_size) s.resize(3 * m_x_size);
   // read encoders
   const dynamicgraph::Vector &base_x = m_xSIN(iter);
-- 
2.43.0


From 9baf2e41afbb0c195b61c55c47975d015e46f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:47 +0000
Subject: [PATCH 090/101] fix: FIR filters refuse the coefficient ranks they do
 not have

---
 include/sot/core/fir-filter.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/fir-filter.hh b/include/sot/core/fir-filter.hh
index 26a48a2..d83bbbe 100644
--- a/include/sot/core/fir-filter.hh
+++ b/include/sot/core/fir-filter.hh
@@ -185,10 +185,10 @@ class FIRFilter : public Entity {
   }
 
   void setElement(const unsigned int &rank, const coefT &coef) {
-    coefs[rank] = coef;
+    coefs.at(rank) = coef;
   }
 
-  coefT getElement(const unsigned int &rank) const { return coefs[rank]; }
+  coefT getElement(const unsigned int &rank) const { return coefs.at(rank); }
 
   static void reset_signal(sigT & /*res*/, const sigT & /*sample*/) {}
 
-- 
2.43.0


From a0cc1574e3b55fef07af10eb00757eb15acc15c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:59 +0000
Subject: [PATCH 091/101] fix: integrators refuse to remove a coefficient they
 do not have

---
 include/sot/core/integrator-abstract.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/integrator-abstract.hh b/include/sot/core/integrator-abstract.hh
index 840797b..fe7ed07 100644
--- a/include/sot/core/integrator-abstract.hh
+++ b/include/sot/core/integrator-abstract.hh
@@ -27,6 +27,7 @@
 #include <sot/core/flags.hh>
 
 /* STD */
+#include <stdexcept>
 #include <string>
 
 /* --------------------------------------------------------------------- */
@@ -88,8 +89,15 @@ class IntegratorAbstract : public dynamicgraph::Entity {
   void pushDenomCoef(const coefT &denomCoef) {
     denominator.push_back(denomCoef);
   }
-  void popNumCoef() { numerator.pop_back(); }
-  void popDenomCoef() { denominator.pop_back(); }
+  void popNumCoef() {
+    if (numerator.empty()) throw std::out_of_range("no numerator coefficient");
+    numerator.pop_back();
+  }
+  void popDenomCoef() {
+    if (denominator.empty())
+      throw std::out_of_range("no denominator coefficient");
+    denominator.pop_back();
+  }
 
   const std::vector<coefT> &numCoeffs() const { return numerator; }
   void numCoeffs(const std::vector<coefT> &coeffs) { numerator = coeffs; }
-- 
2.43.0


From f3320a4095d51b20c6cd4af155185e381c27077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:59 +0000
Subject: [PATCH 092/101] fix: FeatureTask starts without a task

---
 src/feature/feature-task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-task.cpp b/src/feature/feature-task.cpp
index 2177dab..397e725 100644
--- a/src/feature/feature-task.cpp
+++ b/src/feature/feature-task.cpp
@@ -29,7 +29,8 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeatureTask, "FeatureTask");
 /* --- CLASS ----------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
-FeatureTask::FeatureTask(const string &pointName) : FeatureGeneric(pointName) {}
+FeatureTask::FeatureTask(const string &pointName)
+    : FeatureGeneric(pointName), taskPtr(NULL) {}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 17a65fc4356181d222581fce17a9a68c06696767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:25 +0000
Subject: [PATCH 093/101] fix: derivators hold their first sample only once
 they have read it

---
 include/sot/core/derivator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/derivator.hh b/include/sot/core/derivator.hh
index ea72dcd..17c560e 100644
--- a/include/sot/core/derivator.hh
+++ b/include/sot/core/derivator.hh
@@ -81,8 +81,8 @@ class Derivator : public dynamicgraph::Entity {
       res += memory;
       if (timestep != 1.) res *= (1. / timestep);
     } else {
-      initialized = true;
       memory = SIN(time);
+      initialized = true;
       res = memory;
       res *= 0;
     }
@@ -100,8 +100,8 @@ VectorQuaternion &Derivator<VectorQuaternion>::computeDerivation(
     res.coeffs() += memory.coeffs();
     if (timestep != 1.) res.coeffs() *= (1. / timestep);
   } else {
-    initialized = true;
     memory = SIN(time);
+    initialized = true;
     res = memory;
     res.coeffs() *= 0;
   }
-- 
2.43.0


From 1dff78e99d1ea17c6fe3997d18719cdc2ef0c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:25 +0000
Subject: [PATCH 094/101] fix: Device starts with a defined attitude

---
 src/tools/device.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 8d8097b..8bec02d 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -120,6 +120,7 @@ Device::Device(const std::string &n)
   velocity_.resize(state_.size());
   velocity_.setZero();
   velocitySOUT.setConstant(velocity_);
+  attitudeSOUT.setConstant(MatrixRotation::Identity());
 
   /* --- Commands --- */
   {
-- 
2.43.0


From 591edd7ef8fd6c1f3da3cb2cacfff7155c6f2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:44 +0000
Subject: [PATCH 095/101] fix: ClampWorkspace computes its outputs at time 0 as
 at any other time

---
 src/tools/clamp-workspace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/clamp-workspace.cpp b/src/tools/clamp-workspace.cpp
index 02c73d2..97a3adf 100644
--- a/src/tools/clamp-workspace.cpp
+++ b/src/tools/clamp-workspace.cpp
@@ -41,7 +41,7 @@ ClampWorkspace::ClampWorkspace(const string &fName)
                   "ClampWorkspace(" + name + ")::output(vector)::ref")
 
       ,
-      timeUpdate(0)
+      timeUpdate(-1)
 
       ,
       alpha(6, 6),
@@ -65,6 +65,8 @@ ClampWorkspace::ClampWorkspace(const string &fName)
 {
   alpha.setZero();
   alphabar.fill(1.);
+  prefMp.setIdentity();
+  pd.setZero();
   bounds[0] = std::make_pair(0.15, 0.5);
   bounds[1] = std::make_pair(-0.4, -0.25);
   bounds[2] = std::make_pair(0.15, 0.55);
-- 
2.43.0


From 2faa6dce7b787b4f8bbe871f3de51e7afd584426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:18 +0000
Subject: [PATCH 096/101] fix: OpPointModifier shifts nothing until a
 transformation is set

---
 src/math/op-point-modifier.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 6b2e613..7cfa3e3 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -41,6 +41,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
       transformation(),
       isEndEffector(true) {
   sotDEBUGIN(15);
+  transformation.setIdentity();
 
   signalRegistration(jacobianSIN << positionSIN << jacobianSOUT
                                  << positionSOUT);
-- 
2.43.0


From 906bad93d9c9edf94a47bf60dda50c2a0f9ddecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:45 +0000
Subject: [PATCH 097/101] fix: write the task graph as a complete, parsable
 description

---
 src/factory/pool.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index 61721de..797fca4 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -102,14 +102,11 @@ FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
 }
 
 void PoolStorage::writeGraph(const std::string &aFileName) {
-  size_t IdxPointFound = aFileName.rfind(".");
-  std::string tmp1 = aFileName.substr(0, IdxPointFound);
   size_t IdxSeparatorFound = aFileName.rfind("/");
-  std::string GenericName;
+  std::string GenericName = aFileName;
   if (IdxSeparatorFound != std::string::npos)
-    GenericName = tmp1.substr(IdxSeparatorFound, tmp1.length());
-  else
-    GenericName = tmp1;
+    GenericName = aFileName.substr(IdxSeparatorFound + 1);
+  GenericName = GenericName.substr(0, GenericName.rfind("."));
 
   /* Reading local time */
   time_t ltime;
@@ -131,7 +128,7 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
             << " Time: " << ltimeformatted.tm_hour << ":"
             << ltimeformatted.tm_min;
   GraphFile << " */" << std::endl;
-  GraphFile << "digraph " << GenericName << " { ";
+  GraphFile << "digraph \"" << GenericName << "\" { ";
   GraphFile << "\t graph [ label=\"" << GenericName
             << "\" bgcolor = white rankdir=LR ]" << std::endl
             << "\t node [ fontcolor = black, color = black, "
@@ -142,13 +139,14 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
 
   for (Tasks::iterator iter = task.begin(); iter != task.end(); iter++) {
     TaskAbstract *ent = iter->second;
-    GraphFile << "\t\t" << ent->getName() << " [ label = \"" << ent->getName()
-              << "\" ," << std::endl
+    GraphFile << "\t\t\"" << ent->getName() << "\" [ label = \""
+              << ent->getName() << "\" ," << std::endl
               << "\t\t   fontcolor = black, color = black, "
                  "fillcolor = magenta, style=filled, shape=box ]"
               << std::endl;
   }
 
+  GraphFile << "}" << std::endl;
   GraphFile << "}" << std::endl;
 
   GraphFile.close();
-- 
2.43.0


From 3f0766549fc4cd938d4de8626e2cd7b1599b159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:50 +0000
Subject: [PATCH 098/101] fix: FeaturePoint6dRelative error rate uses its own
 rotation error

---
 include/sot/core/feature-point6d.hh      | 5 ++++-
 src/feature/feature-point6d-relative.cpp | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/sot/core/feature-point6d.hh b/include/sot/core/feature-point6d.hh
index 10c65fc..06092a3 100644
--- a/include/sot/core/feature-point6d.hh
+++ b/include/sot/core/feature-point6d.hh
@@ -112,10 +112,13 @@ class [[deprecated(
  public:
   void servoCurrentPosition(void);
 
+ protected:
+  // Rotation error: set by computeError, used by computeErrordot
+  VectorUTheta error_th_;
+
  private:
   // Intermediate variables for internal computations
   Eigen::Vector3d v_, omega_, errordot_t_, errordot_th_, Rreftomega_, t_, tref_;
-  VectorUTheta error_th_;
   MatrixRotation R_, Rref_, Rt_, Rreft_;
   Eigen::Matrix3d P_, Pinv_;
   double accuracy_;
diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index f72827a..73f775d 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -173,7 +173,7 @@ Vector &FeaturePoint6dRelative::computeError(Vector &error, int time) {
 
   MatrixRotation Rerr;
   Rerr = Merr.linear();
-  VectorUTheta rerr(Rerr);
+  error_th_.fromRotationMatrix(Rerr);
 
   const Flags &fl = selectionSIN(time);
   error.resize(dimensionSOUT(time));
@@ -182,7 +182,8 @@ Vector &FeaturePoint6dRelative::computeError(Vector &error, int time) {
     if (fl(i)) error(cursor++) = Merr(i, 3);
   }
   for (unsigned int i = 0; i < 3; ++i) {
-    if (fl(i + 3)) error(cursor++) = rerr.angle() * rerr.axis()(i);
+    if (fl(i + 3))
+      error(cursor++) = error_th_.angle() * error_th_.axis()(i);
   }
 
   sotDEBUGOUT(15);
-- 
2.43.0


From 56b631ff950185b613c140b9b0f9069464f51d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:06 +0000
Subject: [PATCH 099/101] fix: addControlSelection adds to the control
 selection of a task

---
 src/task/task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 59fd11c..87c3476 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -141,7 +141,7 @@ void Task::clearFeatureList(void) {
 void Task::setControlSelection(const Flags &act) { controlSelectionSIN = act; }
 void Task::addControlSelection(const Flags &act) {
   Flags fl = controlSelectionSIN.accessCopy();
-  fl &= act;
+  fl |= act;
   controlSelectionSIN = fl;
 }
 void Task::clearControlSelection(void) { controlSelectionSIN = Flags(false); }
-- 
2.43.0


From ad4515e4e288c511f70fc070fc5ce5029c7c02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:00 +0000
Subject: [PATCH 100/101] fix: several robots of one class can have a viewer

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index 3de355a..a757207 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -56,17 +56,19 @@ def addRobotViewer(robot, **args):
         if small:
             if verbose:
                 print("using a small robot")
-            RobotClass.stateFullSize = lambda x: stateFullSize(x, small_extra * (0.0,))
+            robot.stateFullSize = lambda: stateFullSize(robot, small_extra * (0.0,))
         else:
-            RobotClass.stateFullSize = stateFullSize
+            robot.stateFullSize = lambda: stateFullSize(robot)
 
         robot.viewer = robotviewer.client(server)
 
         RobotClass.refresh = refreshView
-        RobotClass.incrementNoView = RobotClass.increment
-        RobotClass.increment = incrementView
-        RobotClass.setNoView = RobotClass.set
-        RobotClass.set = setView
+        # The methods of a class are replaced once, whatever its number of robots
+        if RobotClass.increment is not incrementView:
+            RobotClass.incrementNoView = RobotClass.increment
+            RobotClass.increment = incrementView
+            RobotClass.setNoView = RobotClass.set
+            RobotClass.set = setView
 
         robot.displayList = []
 
-- 
2.43.0


From a22554e337472548d53b833908a4abb61b23c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:38 +0000
Subject: [PATCH 101/101] fix: the interruptible loop heeds commands given
 while it starts

play() started the thread again when the new thread had not yet raised its
flag, and run() forgot a quit() given before it began.
---
 src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index 7b937c0..4b0f6da 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -37,7 +37,7 @@ class ThreadInterruptibleLoop(threading.Thread):
         self.isPlay = mode
 
     def play(self):
-        if not self.isRunning:
+        if not self.is_alive():
             self.start()
         self.isOnce = False
         self.setPlay(True)
@@ -50,7 +50,6 @@ class ThreadInterruptibleLoop(threading.Thread):
         self.setPlay(True)
 
     def run(self):
-        self.isQuit = False
         self.isRunning = True
         while not self.isQuit:
             if self.isPlay:
@@ -63,6 +62,7 @@ class ThreadInterruptibleLoop(threading.Thread):
         print("Thread loop will now end.")
 
     def start(self):
+        self.isQuit = False
         self.setPlay(True)
         threading.Thread.start(self)
 
-- 
2.43.0

