From d57dcde56e58b72edef86885ed3f41b1a0637232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 01/29] fix: ExceptionTask keeps its message when built with a
 format

---
 src/exception/exception-task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exception/exception-task.cpp b/src/exception/exception-task.cpp
index 0d916fd..3868d0a 100644
--- a/src/exception/exception-task.cpp
+++ b/src/exception/exception-task.cpp
@@ -34,7 +34,7 @@ ExceptionTask::ExceptionTask(const ExceptionTask::ErrorCodeEnum &errcode,
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
-- 
2.43.0


From 3babbb80f6aa0f6a1617274621ba82d0636f4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 02/29] fix: ExceptionFeature keeps its message when built with
 a format

---
 src/exception/exception-feature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exception/exception-feature.cpp b/src/exception/exception-feature.cpp
index 4c8c556..97f8a76 100644
--- a/src/exception/exception-feature.cpp
+++ b/src/exception/exception-feature.cpp
@@ -35,7 +35,7 @@ ExceptionFeature::ExceptionFeature(
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
-- 
2.43.0


From 943f7cf76839fb60ad8a816e68cd0ffc920c2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 03/29] fix: Stopwatch::pause measures with the clock of the
 current mode

---
 src/utils/stop-watch.cpp | 628 ++++++++++++++++++++-------------------
 1 file changed, 315 insertions(+), 313 deletions(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 0157fce..715a0db 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -1,313 +1,315 @@
-/*
-Copyright (c) 2010-2013 Tommaso Urli
-
-Tommaso Urli    tommaso.urli@uniud.it   University of Udine
-
-Permission is hereby granted, free of charge, to any person obtaining
-a copy of this software and associated documentation files (the
-"Software"), to deal in the Software without restriction, including
-without limitation the rights to use, copy, modify, merge, publish,
-distribute, sublicense, and/or sell copies of the Software, and to
-permit persons to whom the Software is furnished to do so, subject to
-the following conditions:
-
-The above copyright notice and this permission notice shall be
-included in all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
-EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
-MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
-NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
-LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
-OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
-WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
-
-*/
-
-#ifndef WIN32
-#include <sys/time.h>
-#else
-#include <Windows.h>
-
-#include <iomanip>
-#endif
-
-#include <iomanip>  // std::setprecision
-
-#include "sot/core/stop-watch.hh"
-
-using std::map;
-using std::ostringstream;
-using std::string;
-
-//#define START_PROFILER(name) getProfiler().start(name)
-//#define STOP_PROFILER(name) getProfiler().stop(name)
-
-Stopwatch &getProfiler() {
-  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
-  return s;
-}
-
-Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
-  records_of = new map<string, PerformanceData>();
-}
-
-Stopwatch::~Stopwatch() { delete records_of; }
-
-void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
-
-bool Stopwatch::performance_exists(string perf_name) {
-  return (records_of->find(perf_name) != records_of->end());
-}
-
-long double Stopwatch::take_time() {
-  if (mode == CPU_TIME) {
-    // Use ctime
-    return clock();
-
-  } else if (mode == REAL_TIME) {
-    // Query operating system
-
-#ifdef WIN32
-    /* In case of usage under Windows */
-    FILETIME ft;
-    LARGE_INTEGER intervals;
-
-    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
-    // (UTC)
-    GetSystemTimeAsFileTime(&ft);
-    intervals.LowPart = ft.dwLowDateTime;
-    intervals.HighPart = ft.dwHighDateTime;
-
-    long double measure = intervals.QuadPart;
-    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
-    measure /= 10000000.0;            // Convert to seconds
-
-    return measure;
-#else
-    /* Linux, MacOS, ... */
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-
-    long double measure = tv.tv_usec;
-    measure /= 1000000.0;  // Convert to seconds
-    measure += tv.tv_sec;  // Add seconds part
-
-    return measure;
-#endif
-
-  } else {
-    // If mode == NONE, clock has not been initialized, then throw exception
-    throw StopwatchException("Clock not initialized to a time taking mode!");
-  }
-}
-
-void Stopwatch::start(string perf_name) {
-  if (!active) return;
-
-  // Just works if not already present
-  records_of->insert(make_pair(perf_name, PerformanceData()));
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // Take ctime
-  perf_info.clock_start = take_time();
-
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
-}
-
-void Stopwatch::stop(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update last time
-  perf_info.last_time = lapse;
-
-  // Update min/max time
-  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
-    perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::pause(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = clock();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  long double lapse = clock_end - perf_info.clock_start;
-
-  // Update total time
-  perf_info.last_time += lapse;
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::reset_all() {
-  if (!active) return;
-
-  map<string, PerformanceData>::iterator it;
-
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    reset(it->first);
-  }
-}
-
-void Stopwatch::report_all(int precision, std::ostream &output) {
-  if (!active) return;
-
-  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
-            "nSamples - totalTime) ***\n";
-  map<string, PerformanceData>::iterator it;
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    report(it->first, precision, output);
-  }
-}
-
-void Stopwatch::reset(string perf_name) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
-}
-
-void Stopwatch::turn_on() {
-  std::cout << "Stopwatch active." << std::endl;
-  active = true;
-}
-
-void Stopwatch::turn_off() {
-  std::cout << "Stopwatch inactive." << std::endl;
-  active = false;
-}
-
-void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  string pad = "";
-  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
-    pad.append(" ");
-
-  output << perf_name << pad;
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.min_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.max_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.last_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision) << perf_info.stops
-         << std::endl;
-  output << std::fixed << std::setprecision(precision)
-         << perf_info.total_time * 1e3 << std::endl;
-}
-
-long double Stopwatch::get_time_so_far(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  long double lapse =
-      (take_time() - (records_of->find(perf_name)->second).clock_start);
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  return lapse;
-}
-
-long double Stopwatch::get_total_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.total_time;
-}
-
-long double Stopwatch::get_average_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return (perf_info.total_time / (long double)perf_info.stops);
-}
-
-long double Stopwatch::get_min_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.min_time;
-}
-
-long double Stopwatch::get_max_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.max_time;
-}
-
-long double Stopwatch::get_last_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.last_time;
-}
+/*
+Copyright (c) 2010-2013 Tommaso Urli
+
+Tommaso Urli    tommaso.urli@uniud.it   University of Udine
+
+Permission is hereby granted, free of charge, to any person obtaining
+a copy of this software and associated documentation files (the
+"Software"), to deal in the Software without restriction, including
+without limitation the rights to use, copy, modify, merge, publish,
+distribute, sublicense, and/or sell copies of the Software, and to
+permit persons to whom the Software is furnished to do so, subject to
+the following conditions:
+
+The above copyright notice and this permission notice shall be
+included in all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
+MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
+LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
+OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+
+*/
+
+#ifndef WIN32
+#include <sys/time.h>
+#else
+#include <Windows.h>
+
+#include <iomanip>
+#endif
+
+#include <iomanip>  // std::setprecision
+
+#include "sot/core/stop-watch.hh"
+
+using std::map;
+using std::ostringstream;
+using std::string;
+
+//#define START_PROFILER(name) getProfiler().start(name)
+//#define STOP_PROFILER(name) getProfiler().stop(name)
+
+Stopwatch &getProfiler() {
+  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
+  return s;
+}
+
+Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
+  records_of = new map<string, PerformanceData>();
+}
+
+Stopwatch::~Stopwatch() { delete records_of; }
+
+void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
+
+bool Stopwatch::performance_exists(string perf_name) {
+  return (records_of->find(perf_name) != records_of->end());
+}
+
+long double Stopwatch::take_time() {
+  if (mode == CPU_TIME) {
+    // Use ctime
+    return clock();
+
+  } else if (mode == REAL_TIME) {
+    // Query operating system
+
+#ifdef WIN32
+    /* In case of usage under Windows */
+    FILETIME ft;
+    LARGE_INTEGER intervals;
+
+    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
+    // (UTC)
+    GetSystemTimeAsFileTime(&ft);
+    intervals.LowPart = ft.dwLowDateTime;
+    intervals.HighPart = ft.dwHighDateTime;
+
+    long double measure = intervals.QuadPart;
+    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
+    measure /= 10000000.0;            // Convert to seconds
+
+    return measure;
+#else
+    /* Linux, MacOS, ... */
+    struct timeval tv;
+    gettimeofday(&tv, NULL);
+
+    long double measure = tv.tv_usec;
+    measure /= 1000000.0;  // Convert to seconds
+    measure += tv.tv_sec;  // Add seconds part
+
+    return measure;
+#endif
+
+  } else {
+    // If mode == NONE, clock has not been initialized, then throw exception
+    throw StopwatchException("Clock not initialized to a time taking mode!");
+  }
+}
+
+void Stopwatch::start(string perf_name) {
+  if (!active) return;
+
+  // Just works if not already present
+  records_of->insert(make_pair(perf_name, PerformanceData()));
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // Take ctime
+  perf_info.clock_start = take_time();
+
+  // If this is a new start (i.e. not a restart)
+  //  if (!perf_info.paused)
+  //    perf_info.last_time = 0;
+
+  perf_info.paused = false;
+}
+
+void Stopwatch::stop(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  perf_info.stops++;
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update last time
+  perf_info.last_time = lapse;
+
+  // Update min/max time
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+    perf_info.min_time = lapse;
+
+  // Update total time
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::pause(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update total time
+  perf_info.last_time += lapse;
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::reset_all() {
+  if (!active) return;
+
+  map<string, PerformanceData>::iterator it;
+
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    reset(it->first);
+  }
+}
+
+void Stopwatch::report_all(int precision, std::ostream &output) {
+  if (!active) return;
+
+  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
+            "nSamples - totalTime) ***\n";
+  map<string, PerformanceData>::iterator it;
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    report(it->first, precision, output);
+  }
+}
+
+void Stopwatch::reset(string perf_name) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  perf_info.clock_start = 0;
+  perf_info.total_time = 0;
+  perf_info.min_time = 0;
+  perf_info.max_time = 0;
+  perf_info.last_time = 0;
+  perf_info.paused = false;
+  perf_info.stops = 0;
+}
+
+void Stopwatch::turn_on() {
+  std::cout << "Stopwatch active." << std::endl;
+  active = true;
+}
+
+void Stopwatch::turn_off() {
+  std::cout << "Stopwatch inactive." << std::endl;
+  active = false;
+}
+
+void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  string pad = "";
+  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
+    pad.append(" ");
+
+  output << perf_name << pad;
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.min_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.max_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.last_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision) << perf_info.stops
+         << std::endl;
+  output << std::fixed << std::setprecision(precision)
+         << perf_info.total_time * 1e3 << std::endl;
+}
+
+long double Stopwatch::get_time_so_far(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  long double lapse =
+      (take_time() - (records_of->find(perf_name)->second).clock_start);
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  return lapse;
+}
+
+long double Stopwatch::get_total_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.total_time;
+}
+
+long double Stopwatch::get_average_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return (perf_info.total_time / (long double)perf_info.stops);
+}
+
+long double Stopwatch::get_min_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.min_time;
+}
+
+long double Stopwatch::get_max_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.max_time;
+}
+
+long double Stopwatch::get_last_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.last_time;
+}
-- 
2.43.0


From a99e721a4f2aa63ee37c70aef02a1a64b93eb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 04/29] fix: Stopwatch keeps a minimum time of zero

---
 src/utils/stop-watch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 715a0db..15ddcc8 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -144,7 +144,7 @@ void Stopwatch::stop(string perf_name) {
 
   // Update min/max time
   if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
     perf_info.min_time = lapse;
 
   // Update total time
-- 
2.43.0


From dba60a4c1377d745b8d14cf5a146460d5d816705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 05/29] fix: CausalFilter::switch_filter restarts from the
 latest input

---
 src/filters/causal-filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 0ace0ad..9ea6af3 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -108,7 +108,9 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-  Eigen::VectorXd current_x(m_input_buffer.col(m_pt_numerator));
+  // m_pt_numerator is the place of the next input: the latest one precedes it
+  Eigen::VectorXd current_x(m_input_buffer.col(
+      (m_pt_numerator == 0) ? m_filter_order_m - 1 : m_pt_numerator - 1));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
   m_output_buffer.resize(Eigen::NoChange, filter_order_n - 1);
-- 
2.43.0


From 8731b1dbcb5b52162d1c31fcf822de369b3b447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 06/29] fix: CausalFilter keeps two past outputs for
 denominators of size 1 and 2

---
 src/filters/causal-filter.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 9ea6af3..aed94c9 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -18,6 +18,15 @@
 #include <sot/core/causal-filter.hh>
 
 using namespace dynamicgraph::sot;
+
+// The second derivative needs two past outputs: shorter denominators are
+// completed with null coefficients.
+static Eigen::VectorXd completedDenominator(const Eigen::VectorXd &a) {
+  Eigen::VectorXd res(Eigen::VectorXd::Zero(a.size() < 3 ? 3 : a.size()));
+  res.head(a.size()) = a;
+  return res;
+}
+
 /*
 Filter data with an IIR or FIR filter.
 
@@ -40,15 +49,14 @@ CausalFilter::CausalFilter(const double &timestep, const int &xSize,
     : m_dt(timestep),
       m_x_size(xSize),
       m_filter_order_m(filter_numerator.size()),
-      m_filter_order_n(filter_denominator.size()),
+      m_filter_order_n(completedDenominator(filter_denominator).size()),
       m_filter_numerator(filter_numerator),
-      m_filter_denominator(filter_denominator),
+      m_filter_denominator(completedDenominator(filter_denominator)),
       m_first_sample(true),
       m_pt_numerator(0),
       m_pt_denominator(0),
       m_input_buffer(Eigen::MatrixXd::Zero(xSize, filter_numerator.size())),
-      m_output_buffer(
-          Eigen::MatrixXd::Zero(xSize, filter_denominator.size() - 1)) {
+      m_output_buffer(Eigen::MatrixXd::Zero(xSize, m_filter_order_n - 1)) {
   assert(timestep > 0.0 && "Timestep should be > 0");
   assert(m_filter_numerator.size() == m_filter_order_m);
   assert(m_filter_denominator.size() == m_filter_order_n);
@@ -103,8 +111,11 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
   return;
 }
 
-void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
-                                 const Eigen::VectorXd &filter_denominator) {
+void CausalFilter::switch_filter(
+    const Eigen::VectorXd &filter_numerator,
+    const Eigen::VectorXd &given_filter_denominator) {
+  const Eigen::VectorXd filter_denominator(
+      completedDenominator(given_filter_denominator));
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-- 
2.43.0


From 133aca4ba221af0888c78aba8e1e41c16dc48233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 07/29] fix: Contiifstream delivers every complete line once,
 whatever its length and the end of the file

---
 src/debug/contiifstream.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/debug/contiifstream.cpp b/src/debug/contiifstream.cpp
index 3774a84..6a81239 100644
--- a/src/debug/contiifstream.cpp
+++ b/src/debug/contiifstream.cpp
@@ -26,19 +26,14 @@ bool Contiifstream::loop(void) {
   file.seekg(cursor);
   file.sync();
 
-  while (1) {
-    file.get(buffer, BUFFER_SIZE);
-    if (file.gcount()) {
-      res = true;
-      std::string line(buffer);
-      if (!first) reader.push_back(line);
-      cursor = file.tellg();
-      cursor++;
-      file.get(*buffer);  // get the last char ( = '\n')
-      sotDEBUG(15) << "line: " << line << std::endl;
-    } else {
-      break;
-    }
+  // Only complete lines are consumed: a line still being written is left in
+  // the file for a next call.
+  std::string line;
+  while (std::getline(file, line) && !file.eof()) {
+    res = true;
+    if (!first) reader.push_back(line);
+    cursor = file.tellg();
+    sotDEBUG(15) << "line: " << line << std::endl;
   }
 
   first = false;
-- 
2.43.0


From 1b8ba76503f194167d8accfb5c9094be57aa640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 08/29] fix: stop-watch.cpp keeps its original line endings

---
 src/utils/stop-watch.cpp | 630 +++++++++++++++++++--------------------
 1 file changed, 315 insertions(+), 315 deletions(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 15ddcc8..b2d5dbe 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -1,315 +1,315 @@
-/*
-Copyright (c) 2010-2013 Tommaso Urli
-
-Tommaso Urli    tommaso.urli@uniud.it   University of Udine
-
-Permission is hereby granted, free of charge, to any person obtaining
-a copy of this software and associated documentation files (the
-"Software"), to deal in the Software without restriction, including
-without limitation the rights to use, copy, modify, merge, publish,
-distribute, sublicense, and/or sell copies of the Software, and to
-permit persons to whom the Software is furnished to do so, subject to
-the following conditions:
-
-The above copyright notice and this permission notice shall be
-included in all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
-EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
-MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
-NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
-LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
-OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
-WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
-
-*/
-
-#ifndef WIN32
-#include <sys/time.h>
-#else
-#include <Windows.h>
-
-#include <iomanip>
-#endif
-
-#include <iomanip>  // std::setprecision
-
-#include "sot/core/stop-watch.hh"
-
-using std::map;
-using std::ostringstream;
-using std::string;
-
-//#define START_PROFILER(name) getProfiler().start(name)
-//#define STOP_PROFILER(name) getProfiler().stop(name)
-
-Stopwatch &getProfiler() {
-  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
-  return s;
-}
-
-Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
-  records_of = new map<string, PerformanceData>();
-}
-
-Stopwatch::~Stopwatch() { delete records_of; }
-
-void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
-
-bool Stopwatch::performance_exists(string perf_name) {
-  return (records_of->find(perf_name) != records_of->end());
-}
-
-long double Stopwatch::take_time() {
-  if (mode == CPU_TIME) {
-    // Use ctime
-    return clock();
-
-  } else if (mode == REAL_TIME) {
-    // Query operating system
-
-#ifdef WIN32
-    /* In case of usage under Windows */
-    FILETIME ft;
-    LARGE_INTEGER intervals;
-
-    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
-    // (UTC)
-    GetSystemTimeAsFileTime(&ft);
-    intervals.LowPart = ft.dwLowDateTime;
-    intervals.HighPart = ft.dwHighDateTime;
-
-    long double measure = intervals.QuadPart;
-    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
-    measure /= 10000000.0;            // Convert to seconds
-
-    return measure;
-#else
-    /* Linux, MacOS, ... */
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-
-    long double measure = tv.tv_usec;
-    measure /= 1000000.0;  // Convert to seconds
-    measure += tv.tv_sec;  // Add seconds part
-
-    return measure;
-#endif
-
-  } else {
-    // If mode == NONE, clock has not been initialized, then throw exception
-    throw StopwatchException("Clock not initialized to a time taking mode!");
-  }
-}
-
-void Stopwatch::start(string perf_name) {
-  if (!active) return;
-
-  // Just works if not already present
-  records_of->insert(make_pair(perf_name, PerformanceData()));
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // Take ctime
-  perf_info.clock_start = take_time();
-
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
-}
-
-void Stopwatch::stop(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update last time
-  perf_info.last_time = lapse;
-
-  // Update min/max time
-  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.stops == 1)
-    perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::pause(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update total time
-  perf_info.last_time += lapse;
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::reset_all() {
-  if (!active) return;
-
-  map<string, PerformanceData>::iterator it;
-
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    reset(it->first);
-  }
-}
-
-void Stopwatch::report_all(int precision, std::ostream &output) {
-  if (!active) return;
-
-  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
-            "nSamples - totalTime) ***\n";
-  map<string, PerformanceData>::iterator it;
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    report(it->first, precision, output);
-  }
-}
-
-void Stopwatch::reset(string perf_name) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
-}
-
-void Stopwatch::turn_on() {
-  std::cout << "Stopwatch active." << std::endl;
-  active = true;
-}
-
-void Stopwatch::turn_off() {
-  std::cout << "Stopwatch inactive." << std::endl;
-  active = false;
-}
-
-void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  string pad = "";
-  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
-    pad.append(" ");
-
-  output << perf_name << pad;
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.min_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.max_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.last_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision) << perf_info.stops
-         << std::endl;
-  output << std::fixed << std::setprecision(precision)
-         << perf_info.total_time * 1e3 << std::endl;
-}
-
-long double Stopwatch::get_time_so_far(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  long double lapse =
-      (take_time() - (records_of->find(perf_name)->second).clock_start);
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  return lapse;
-}
-
-long double Stopwatch::get_total_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.total_time;
-}
-
-long double Stopwatch::get_average_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return (perf_info.total_time / (long double)perf_info.stops);
-}
-
-long double Stopwatch::get_min_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.min_time;
-}
-
-long double Stopwatch::get_max_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.max_time;
-}
-
-long double Stopwatch::get_last_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.last_time;
-}
+/*
+Copyright (c) 2010-2013 Tommaso Urli
+
+Tommaso Urli    tommaso.urli@uniud.it   University of Udine
+
+Permission is hereby granted, free of charge, to any person obtaining
+a copy of this software and associated documentation files (the
+"Software"), to deal in the Software without restriction, including
+without limitation the rights to use, copy, modify, merge, publish,
+distribute, sublicense, and/or sell copies of the Software, and to
+permit persons to whom the Software is furnished to do so, subject to
+the following conditions:
+
+The above copyright notice and this permission notice shall be
+included in all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
+MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
+LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
+OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+
+*/
+
+#ifndef WIN32
+#include <sys/time.h>
+#else
+#include <Windows.h>
+
+#include <iomanip>
+#endif
+
+#include <iomanip>  // std::setprecision
+
+#include "sot/core/stop-watch.hh"
+
+using std::map;
+using std::ostringstream;
+using std::string;
+
+//#define START_PROFILER(name) getProfiler().start(name)
+//#define STOP_PROFILER(name) getProfiler().stop(name)
+
+Stopwatch &getProfiler() {
+  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
+  return s;
+}
+
+Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
+  records_of = new map<string, PerformanceData>();
+}
+
+Stopwatch::~Stopwatch() { delete records_of; }
+
+void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
+
+bool Stopwatch::performance_exists(string perf_name) {
+  return (records_of->find(perf_name) != records_of->end());
+}
+
+long double Stopwatch::take_time() {
+  if (mode == CPU_TIME) {
+    // Use ctime
+    return clock();
+
+  } else if (mode == REAL_TIME) {
+    // Query operating system
+
+#ifdef WIN32
+    /* In case of usage under Windows */
+    FILETIME ft;
+    LARGE_INTEGER intervals;
+
+    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
+    // (UTC)
+    GetSystemTimeAsFileTime(&ft);
+    intervals.LowPart = ft.dwLowDateTime;
+    intervals.HighPart = ft.dwHighDateTime;
+
+    long double measure = intervals.QuadPart;
+    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
+    measure /= 10000000.0;            // Convert to seconds
+
+    return measure;
+#else
+    /* Linux, MacOS, ... */
+    struct timeval tv;
+    gettimeofday(&tv, NULL);
+
+    long double measure = tv.tv_usec;
+    measure /= 1000000.0;  // Convert to seconds
+    measure += tv.tv_sec;  // Add seconds part
+
+    return measure;
+#endif
+
+  } else {
+    // If mode == NONE, clock has not been initialized, then throw exception
+    throw StopwatchException("Clock not initialized to a time taking mode!");
+  }
+}
+
+void Stopwatch::start(string perf_name) {
+  if (!active) return;
+
+  // Just works if not already present
+  records_of->insert(make_pair(perf_name, PerformanceData()));
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // Take ctime
+  perf_info.clock_start = take_time();
+
+  // If this is a new start (i.e. not a restart)
+  //  if (!perf_info.paused)
+  //    perf_info.last_time = 0;
+
+  perf_info.paused = false;
+}
+
+void Stopwatch::stop(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  perf_info.stops++;
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update last time
+  perf_info.last_time = lapse;
+
+  // Update min/max time
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
+    perf_info.min_time = lapse;
+
+  // Update total time
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::pause(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update total time
+  perf_info.last_time += lapse;
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::reset_all() {
+  if (!active) return;
+
+  map<string, PerformanceData>::iterator it;
+
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    reset(it->first);
+  }
+}
+
+void Stopwatch::report_all(int precision, std::ostream &output) {
+  if (!active) return;
+
+  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
+            "nSamples - totalTime) ***\n";
+  map<string, PerformanceData>::iterator it;
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    report(it->first, precision, output);
+  }
+}
+
+void Stopwatch::reset(string perf_name) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  perf_info.clock_start = 0;
+  perf_info.total_time = 0;
+  perf_info.min_time = 0;
+  perf_info.max_time = 0;
+  perf_info.last_time = 0;
+  perf_info.paused = false;
+  perf_info.stops = 0;
+}
+
+void Stopwatch::turn_on() {
+  std::cout << "Stopwatch active." << std::endl;
+  active = true;
+}
+
+void Stopwatch::turn_off() {
+  std::cout << "Stopwatch inactive." << std::endl;
+  active = false;
+}
+
+void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  string pad = "";
+  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
+    pad.append(" ");
+
+  output << perf_name << pad;
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.min_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.max_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.last_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision) << perf_info.stops
+         << std::endl;
+  output << std::fixed << std::setprecision(precision)
+         << perf_info.total_time * 1e3 << std::endl;
+}
+
+long double Stopwatch::get_time_so_far(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  long double lapse =
+      (take_time() - (records_of->find(perf_name)->second).clock_start);
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  return lapse;
+}
+
+long double Stopwatch::get_total_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.total_time;
+}
+
+long double Stopwatch::get_average_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return (perf_info.total_time / (long double)perf_info.stops);
+}
+
+long double Stopwatch::get_min_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.min_time;
+}
+
+long double Stopwatch::get_max_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.max_time;
+}
+
+long double Stopwatch::get_last_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.last_time;
+}
-- 
2.43.0


From 17feaeeaed7c7d21bcd5e8336039efd2328345ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:37 +0000
Subject: [PATCH 09/29] fix: Task::computeError keeps the errors of the first
 features when it grows the error vector

---
 src/task/task.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 7bf4f65..cdf0f5a 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -191,8 +191,7 @@ dynamicgraph::Vector &Task::computeError(dynamicgraph::Vector &error,
       while (cursorError + dim > dimError)  // DEBUG It was >=
       {
         dimError *= 2;
-        error.resize(dimError);
-        error.setZero();
+        error.conservativeResize(dimError);
       }
 
       for (int k = 0; k < dim; ++k) {
-- 
2.43.0


From 1a634a3dbe0aebe500d9625e45bdfd7895793761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:37 +0000
Subject: [PATCH 10/29] fix: Task::computeJacobian takes the number of columns
 from its features, not from its previous value

---
 src/task/task.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index cdf0f5a..99a25c5 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -257,11 +257,8 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
   try {
     dynamicgraph::Matrix::Index dimJ = J.rows();
-    dynamicgraph::Matrix::Index nbc = J.cols();
-    if (0 == dimJ) {
-      dimJ = 1;
-      J.resize(dimJ, nbc);
-    }
+    dynamicgraph::Matrix::Index nbc = 0;
+    if (0 == dimJ) dimJ = 1;
 
     dynamicgraph::Matrix::Index cursorJ = 0;
     // const Flags& selection = controlSelectionSIN(time);
@@ -277,9 +274,9 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
       const dynamicgraph::Matrix::Index nbr = partialJacobian.rows();
       sotDEBUG(25) << "Jp =" << endl << partialJacobian << endl;
 
-      if (0 == nbc) {
+      if (iter == featureList.begin()) {
         nbc = partialJacobian.cols();
-        J.resize(nbc, dimJ);
+        J.resize(dimJ, nbc);
       } else if (partialJacobian.cols() != nbc)
         throw ExceptionTask(
             ExceptionTask::NON_ADEQUATE_FEATURES,
-- 
2.43.0


From c48b8354f9c5c118b38b2bbeeddcf5ce61cdf9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:23 +0000
Subject: [PATCH 11/29] fix: FIRFilter of double starts each sum from zero
 instead of its previous output

---
 src/matrix/fir-filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/fir-filter.cpp b/src/matrix/fir-filter.cpp
index 358cf45..a6ed1ce 100644
--- a/src/matrix/fir-filter.cpp
+++ b/src/matrix/fir-filter.cpp
@@ -51,6 +51,11 @@ SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, double, vec_double,
 SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, Matrix, vec_mat,
                                    "FIRFilter")
 
+template <>
+void FIRFilter<double, double>::reset_signal(double &res, const double &) {
+  res = 0;
+}
+
 template <>
 void FIRFilter<Vector, double>::reset_signal(Vector &res,
                                              const Vector &sample) {
-- 
2.43.0


From e3309ef77947bf6815d930cc8bf9e8839a52f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:23 +0000
Subject: [PATCH 12/29] fix: ExpMovingAvg::setAlpha checks the value it is
 given

---
 src/tools/exp-moving-avg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/exp-moving-avg.cpp b/src/tools/exp-moving-avg.cpp
index 1efca5c..9f9d38b 100644
--- a/src/tools/exp-moving-avg.cpp
+++ b/src/tools/exp-moving-avg.cpp
@@ -59,7 +59,7 @@ ExpMovingAvg::~ExpMovingAvg() {}
 /* --- COMPUTE ----------------------------------------------------------- */
 
 void ExpMovingAvg::setAlpha(const double &alpha_) {
-  assert(alpha <= 1. && alpha >= 0.);
+  assert(alpha_ <= 1. && alpha_ >= 0.);
   alpha = alpha_;
 }
 
-- 
2.43.0


From 7e70f2901f7be524bb5836a9170ab8313b430b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:20 +0000
Subject: [PATCH 13/29] fix: GripperControl multiplied two column vectors
 instead of applying each joint's factor

---
 src/tools/gripper-control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index 29fb5fb..4afe5eb 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -148,7 +148,7 @@ dynamicgraph::Vector &GripperControl::computeDesiredPosition(
 
   // multiply the velocity elmt per elmt
   dynamicgraph::Vector weightedVel(SIZE);
-  weightedVel = velocity * factor;
+  weightedVel = velocity.cwiseProduct(factor);
   sotDEBUG(25) << " weightedVel " << weightedVel << std::endl;
 
   // integrate the desired velocity
-- 
2.43.0


From 46f4ca8485285ecd5289422b0c7ed6a77cfd509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:41 +0000
Subject: [PATCH 14/29] fix: rebuild the index-to-name tables of RobotUtil from
 scratch so that they agree with the name tables

---
 src/tools/robot-utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index f628855..caf2517 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -173,6 +173,7 @@ std::string ForceUtil::cp_get_name_from_id(Index idx) {
   return default_rtn;
 }
 void ForceUtil::create_force_id_to_name_map() {
+  m_force_id_to_name.clear();
   std::map<std::string, Index>::const_iterator it;
   for (it = m_name_to_force_id.begin(); it != m_name_to_force_id.end(); it++)
     m_force_id_to_name[it->second] = it->first;
@@ -250,6 +251,7 @@ void RobotUtil::set_name_to_id(const std::string &jointName,
 }
 
 void RobotUtil::create_id_to_name_map() {
+  m_id_to_name.clear();
   std::map<std::string, Index>::const_iterator it;
   for (it = m_name_to_id.begin(); it != m_name_to_id.end(); it++)
     m_id_to_name[it->second] = it->first;
-- 
2.43.0


From 9e5f8657e8542959855331de31196ecea067c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:41 +0000
Subject: [PATCH 15/29] fix: a new RobotUtil has no joints (m_nbJoints was read
 uninitialised by the conversions)

---
 src/tools/robot-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index caf2517..bdfeeb2 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -227,7 +227,7 @@ void ForceUtil::display(std::ostream &os) const {
 }
 
 /**************** FromURDFToSot *************************/
-RobotUtil::RobotUtil() {}
+RobotUtil::RobotUtil() : m_nbJoints(0) {}
 
 void RobotUtil::set_joint_limits_for_id(const Index &idx, const double &lq,
                                         const double &uq) {
-- 
2.43.0


From 2202d2bc15e7ceb1602d3ecfd47ab1a6168edfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:38 +0000
Subject: [PATCH 16/29] fix: SkewSymToVector returned the opposite of the
 vector (linear indices assumed row-major storage)

---
 src/matrix/operator.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index bd11c8b..43936a0 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -298,9 +298,9 @@ struct MatrixHomoToPoseUTheta
 struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
   inline void operator()(const Matrix &M, Vector &res) {
     res.resize(3);
-    res(0) = M(7);
-    res(1) = M(2);
-    res(2) = M(3);
+    res(0) = M(2, 1);
+    res(1) = M(0, 2);
+    res(2) = M(1, 0);
   }
 };
 
-- 
2.43.0


From 288a59e905fa10266064c60074b500b1e0ba794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:41 +0000
Subject: [PATCH 17/29] fix: FeatureGeneric read past the end of a shorter
 reference error when a later component was selected

---
 src/feature/feature-generic.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index a330dc7..8317666 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -96,17 +96,17 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
   if (isReferenceSet()) {
     const Vector &errDes = getReference()->errorSIN(time);
     sotDEBUG(15) << "Err* = " << errDes;
-    if (errDes.size() < dim) {
-      SOT_THROW ExceptionFeature(
-          ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size."
-          " (while considering feature <%s>).",
-          getName().c_str());
-    }
-
     for (int i = 0; i < err.size(); ++i)
-      if (fl(i))
-        if (fl(i)) res(curr++) = err(i) - errDes(i);
+      if (fl(i)) {
+        if (errDes.size() <= i) {
+          SOT_THROW ExceptionFeature(
+              ExceptionFeature::UNCOMPATIBLE_SIZE,
+              "Error: des->errorIN lacks a selected component."
+              " (while considering feature <%s>).",
+              getName().c_str());
+        }
+        res(curr++) = err(i) - errDes(i);
+      }
   } else {
     for (int i = 0; i < err.size(); ++i)
       if (fl(i)) res(curr++) = err(i);
-- 
2.43.0


From 2c46c509e3c303994086d6ee7b72d1a65a897b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:41 +0000
Subject: [PATCH 18/29] fix: FeatureAbstract::computeErrorDot wrote past its
 result (longer reference rate) or left it unset (later component selected)

---
 src/feature/feature-abstract.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 42c0791..a71f149 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -106,16 +106,16 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     const dynamicgraph::Vector &errdotDes =
         getReferenceAbstract()->errordotSIN(time);
     sotDEBUG(15) << "Err* = " << errdotDes;
-    if (errdotDes.size() < dim) {
-      SOT_THROW ExceptionFeature(
-          ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size."
-          " (while considering feature <%s>).",
-          getName().c_str());
-    }
-
-    for (int i = 0; i < errdotDes.size(); ++i)
+    for (int i = 0; curr < (unsigned int)dim; ++i) {
+      if (errdotDes.size() <= i) {
+        SOT_THROW ExceptionFeature(
+            ExceptionFeature::UNCOMPATIBLE_SIZE,
+            "Error: des->errordotIN lacks a selected component."
+            " (while considering feature <%s>).",
+            getName().c_str());
+      }
       if (fl(i)) res(curr++) = -errdotDes(i);
+    }
   } else
     res.setZero();
 
-- 
2.43.0


From 8128e0b56847454b7598ac784161cb3bf070c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:41 +0000
Subject: [PATCH 19/29] fix: FeaturePosture::selectDof refused a joint after
 having reset the selection, leaving count and Jacobian in disagreement

---
 src/feature/feature-posture.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index ca60c5c..815391f 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -110,12 +110,6 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   if (dim != (std::size_t)posture.size()) {
     throw std::runtime_error("Posture and State should have same dimension.");
   }
-  // If activeDof_ vector not initialized, initialize it
-  if (activeDofs_.size() != dim) {
-    activeDofs_ = std::vector<bool>(dim, false);
-    nbActiveDofs_ = 0;
-  }
-
   // Check that selected dof id is valid
   if (dofId >= dim) {
     std::ostringstream oss;
@@ -124,6 +118,12 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
     throw ExceptionAbstract(ExceptionAbstract::TOOLS, oss.str());
   }
 
+  // If activeDof_ vector not initialized, initialize it
+  if (activeDofs_.size() != dim) {
+    activeDofs_ = std::vector<bool>(dim, false);
+    nbActiveDofs_ = 0;
+  }
+
   if (control) {
     if (!activeDofs_[dofId]) {
       activeDofs_[dofId] = true;
-- 
2.43.0


From 0c4b7292499cb2e75e296e1ae39b9f9b43fb2570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:59 +0000
Subject: [PATCH 20/29] fix: a downsampling factor of zero made
 PeriodicCall::runSignals divide by zero; refuse it at registration

---
 src/tools/periodic-call.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/periodic-call.cpp b/src/tools/periodic-call.cpp
index 9790808..60b2cf6 100644
--- a/src/tools/periodic-call.cpp
+++ b/src/tools/periodic-call.cpp
@@ -50,6 +50,10 @@ void PeriodicCall::addSignal(const std::string &sigpath) {
 void PeriodicCall::addDownsampledSignal(
     const std::string &name, SignalBase<int> &sig,
     const unsigned int &downsamplingFactor) {
+  if (downsamplingFactor == 0)
+    throw ExceptionTools(ExceptionTools::GENERIC,
+                         "The downsampling factor should be at least one.",
+                         "(for signal %s)", name.c_str());
   signalMap[name] = SignalToCall(&sig, downsamplingFactor);
   return;
 }
-- 
2.43.0


From 34f1b8e92976275f77e70b1ea19dba7ce32021fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 21/29] fix: a new Sequencer's stack pointer was uninitialised;
 events fired before setSotRef used it

---
 src/tools/sequencer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 14de302..54aaef6 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -22,6 +22,7 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(Sequencer, "Sequencer");
 
 Sequencer::Sequencer(const std::string &name)
     : Entity(name),
+      sotPtr(NULL),
       timeInit(-1),
       playMode(false),
       outputStreamPtr(NULL),
-- 
2.43.0


From af5e2349df12ef41c3dcd3120e680ce676f5966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 22/29] fix: Sequencer::rmTask removed every entry of the event
 instead of the matching one

---
 src/tools/sequencer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 54aaef6..0cbbc4f 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -185,7 +185,7 @@ void Sequencer::rmTask(int eventType, const std::string &name,
     TaskList &tl = listKey->second;
     for (TaskList::iterator itL = tl.begin(); itL != tl.end(); ++itL) {
       if ((*itL)->getEventType() == eventType && (*itL)->getName() == name) {
-        tl.remove(*itL);
+        tl.erase(itL);
         break;
       }
     }
-- 
2.43.0


From 0b620bf58ffa1342ae4411f880e45ad419e55686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 23/29] fix: Device::setRoot assigned the root to a local copy
 of the state; the root never moved

---
 src/tools/device.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index d07de74..8a0a7c8 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -297,9 +297,10 @@ void Device::setRoot(const Matrix &root) {
 
 void Device::setRoot(const MatrixHomogeneous &worldMwaist) {
   VectorRollPitchYaw r = (worldMwaist.linear().eulerAngles(2, 1, 0)).reverse();
-  Vector q = state_;
-  q = worldMwaist.translation();  // abusive ... but working.
-  for (unsigned int i = 0; i < 3; ++i) q(i + 3) = r(i);
+  state_.head<3>() = worldMwaist.translation();
+  state_.segment<3>(3) = r;
+  stateSOUT.setConstant(state_);
+  motorcontrolSOUT.setConstant(state_);
 }
 
 void Device::setSecondOrderIntegration() {
-- 
2.43.0


From 7176e0c65150b3d83c707433f7008b175b311ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 24/29] fix: Device's bound checks read bounds that were not
 set; unset bounds do not apply

---
 src/tools/device.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 8a0a7c8..98f6783 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -491,10 +491,13 @@ inline bool saturateBounds(double &val, const double &lower,
   return false;
 }
 
+// The bounds of the last degrees of freedom apply to val, which may not include
+// the free flyer. Bounds that have not been set do not apply.
 #define CHECK_BOUNDS(val, lower, upper, what)                                \
-  for (int i = 0; i < val.size(); ++i) {                                     \
+  for (int i = 0, ff = (int)(lower.size() - val.size());                     \
+       ff >= 0 && lower.size() == upper.size() && i < val.size(); ++i) {     \
     double old = val(i);                                                     \
-    if (saturateBounds(val(i), lower(i), upper(i))) {                        \
+    if (saturateBounds(val(i), lower(ff + i), upper(ff + i))) {              \
       std::ostringstream oss;                                                \
       oss << "Robot " what " bound violation at DoF " << i << ": requested " \
           << old << " but set " << val(i) << '\n';                           \
-- 
2.43.0


From 686b6630ca3ddf15b5e42cbf4f5c4323b3d0b20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 25/29] fix: Device checked the velocity bounds on the
 integrated velocity instead of the commanded one under velocity control

---
 src/tools/device.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 98f6783..45bad0d 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -537,7 +537,11 @@ void Device::integrate(const double &dt) {
 
   // Velocity bounds check
   if (sanityCheck_) {
-    CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
+    if (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION) {
+      CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
+    } else {
+      CHECK_BOUNDS(vel_control_, lowerVelocity_, upperVelocity_, "velocity");
+    }
   }
 
   if (vel_control_.size() == state_.size()) {
-- 
2.43.0


From 639c589c6004ec07498dbbaebc7e5762ee05493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 26/29] fix: Device did not check the position bounds under
 position control

---
 src/tools/device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 45bad0d..5e8f351 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -516,6 +516,9 @@ void Device::integrate(const double &dt) {
 
   if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
     state_.tail(controlIN.size()) = controlIN;
+    if (sanityCheck_) {
+      CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
+    }
     return;
   }
 
-- 
2.43.0


From 4574c5227fc1b2525f8c0f413e11ce374bfd1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:19 +0000
Subject: [PATCH 27/29] fix: the stack allocates the memory of a task again
 when the task or the robot changed size (heap overflow)

---
 src/sot/sot.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 88ee365..c21a2ab 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -399,7 +399,10 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
 MemoryTaskSOT *getMemory(TaskAbstract &t, const Matrix::Index &tDim,
                          const Matrix::Index &nDof) {
   MemoryTaskSOT *mem = dynamic_cast<MemoryTaskSOT *>(t.memoryInternal);
-  if (NULL == mem) {
+  // The buffers have the sizes of the task and of the robot: allocate them
+  // again when one of these sizes changed.
+  if (NULL == mem || mem->tmpTask.size() != tDim ||
+      mem->tmpVar.size() != nDof) {
     if (NULL != t.memoryInternal) delete t.memoryInternal;
     mem = new MemoryTaskSOT(tDim, nDof);
     t.memoryInternal = mem;
-- 
2.43.0


From 0aa1c8b31f2c4243213def24c70d75ed27999d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:19 +0000
Subject: [PATCH 28/29] fix: the stack skipped every lower-priority task when
 the first task was refused for its norm

---
 src/sot/sot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index c21a2ab..33308df 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -636,7 +636,7 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     sotPRINTCOUNTER(4);
     sotPRINTCOUNTER(5);
     sotPRINTCOUNTER(6);
-    if (last || kernel.cols() == 0) break;
+    if (last || (has_kernel && kernel.cols() == 0)) break;
   }
 
   sotCHRONO1;
-- 
2.43.0


From b961fde202561ab0d620e32a2889b64bfc4bc045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:19 +0000
Subject: [PATCH 29/29] fix: the stack ignored a single posture task when the
 posture acceleration is on

---
 src/sot/sot.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 33308df..cb56cdc 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -531,8 +531,10 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     Task *task = dynamic_cast<Task *>(*iter);
 
     bool last = (iterTask + 1 == stack.size());
-    bool fullPostureTask = (last && enablePostureTaskAcceleration &&
-                            isFullPostureTask(task, nbJoints, iterTime));
+    // Without kernel, there is nothing to accelerate.
+    bool fullPostureTask =
+        (last && has_kernel && enablePostureTaskAcceleration &&
+         isFullPostureTask(task, nbJoints, iterTime));
 
     sotDEBUG(15) << "Task: e_" << taskA.getName() << std::endl;
 
-- 
2.43.0

