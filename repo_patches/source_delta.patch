From 3b885a4c4ab94ebccc4281ab77380143e2b37d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 01/23] fix: report failures of worker threads instead of
 terminating

An exception thrown while a worker evaluates an individual, or the failure to
start a worker, terminated the program.
---
 src/main/cxx/core/optimize.h | 132 ++++++++++++++++++++++++-----------
 1 file changed, 91 insertions(+), 41 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 3334019..502f622 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <limits>
 #include <thread>
 #include <valarray>
@@ -53,6 +54,82 @@ private:
   const Compare &compare;
 };
 
+/// Performs a number of independent tasks concurrently and waits until all of
+/// the tasks started have completed.
+///
+/// @tparam Task The task type.
+///
+/// @param[in] n The number of tasks.
+/// @param[in] task The task. Called with the number of the task.
+/// @throw exception the exception thrown by a task (the one with the lowest
+/// number, if there are several) or by the attempt to start a thread.
+template <class Task>
+void
+perform_concurrently (natural n, const Task &task)
+{
+  using std::current_exception;
+  using std::exception_ptr;
+  using std::rethrow_exception;
+  using std::thread;
+  using std::vector;
+
+  vector<exception_ptr> failures (n);
+
+#ifdef _OPENMP
+#pragma omp parallel for
+  for (natural k = 0; k < n; ++k)
+    {
+      try
+        {
+          task (k);
+        }
+      catch (...)
+        {
+          failures[k] = current_exception ();
+        }
+    }
+#else // C++-11
+  vector<thread> threads;
+  threads.reserve (n);
+  exception_ptr start_failure;
+  try
+    {
+      for (natural k = 0; k < n; ++k)
+        {
+          threads.push_back (thread ([k, &task, &failures] () {
+            try
+              {
+                task (k);
+              }
+            catch (...)
+              {
+                failures[k] = current_exception ();
+              }
+          }));
+        }
+    }
+  catch (...)
+    {
+      start_failure = current_exception ();
+    }
+  for (thread &t : threads)
+    {
+      t.join ();
+    }
+  if (start_failure)
+    {
+      rethrow_exception (start_failure);
+    }
+#endif
+  for (const exception_ptr &failure : failures)
+    {
+      if (failure)
+        {
+          rethrow_exception (failure);
+        }
+    }
+}
+
 /// Evolution strategy with covariance matrix adaption (CMA-ES) for nonlinear
 /// function optimization. Based on Hansen (2014,
 /// http://cma.gforge.inria.fr/purecmaes.m).
@@ -125,9 +202,7 @@ optimize (const F &f, const Constraint &constraint, natural n,
   using std::numeric_limits;
   using std::partial_sort;
   using std::sqrt;
-  using std::thread;
   using std::valarray;
-  using std::vector;
 
   const real expected_norm = (n - 0.25 + 1.0 / (21 * n)) / sqrt (real (n));
   const real max_covariance_matrix_condition
@@ -174,28 +249,14 @@ optimize (const F &f, const Constraint &constraint, natural n,
               vw = v[k];
             }
         }
-#ifdef _OPENMP
-#pragma omp parallel for
-      for (natural k = 0; k < population_size; ++k)
-        {
-          y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
-          indexes[k] = k;
-        }
-#else // C++-11
-      vector<thread> threads;
-      threads.reserve (population_size);
-      for (natural k = 0; k < population_size; ++k)
-        {
-          threads.push_back (thread ([k, &f, &constraint, &x, n, &y] () {
+      perform_concurrently (
+          population_size, [&f, &constraint, &x, n, &y] (natural k) {
             y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
-          }));
-        }
+          });
       for (natural k = 0; k < population_size; ++k)
         {
-          threads[k].join ();
           indexes[k] = k;
         }
-#endif
       partial_sort (&indexes[0], &indexes[parent_number],
                     &indexes[population_size],
                     Index_Compare<real, Compare> (y, compare));
@@ -326,7 +387,6 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
   using std::exp;
   using std::log;
   using std::sqrt;
-  using std::thread;
   using std::valarray;
 
   const real zx = f (&x[0], n) + constraint.cost (&x[0], n);
@@ -351,27 +411,17 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
             }
           real zp;
           real zq;
-#ifdef _OPENMP
-#pragma omp parallel
-          {
-#pragma omp sections
-            {
-#pragma omp section
-              zp = f (&p[0], n) + constraint.cost (&p[0], n);
-#pragma omp section
-              zq = f (&q[0], n) + constraint.cost (&q[0], n);
-            }
-          }
-#else // C++-11
-          thread tp ([&f, &constraint, &p, n, &zp] () {
-            zp = f (&p[0], n) + constraint.cost (&p[0], n);
-          });
-          thread tq ([&f, &constraint, &q, n, &zq] () {
-            zq = f (&q[0], n) + constraint.cost (&q[0], n);
-          });
-          tp.join ();
-          tq.join ();
-#endif
+          perform_concurrently (
+              2, [&f, &constraint, &p, &q, n, &zp, &zq] (natural k) {
+                if (k == 0)
+                  {
+                    zp = f (&p[0], n) + constraint.cost (&p[0], n);
+                  }
+                else
+                  {
+                    zq = f (&q[0], n) + constraint.cost (&q[0], n);
+                  }
+              });
           // Compute the rescaled global step size
           g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
 
-- 
2.43.0


From eecbe61f19332738fcf5ac545a1b4983a75415a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 02/23] fix: let the parabola search end when the objective is
 flat or undefined

The search for the computation step never ended when the cost did not depend
on the parameters or was not a number.
---
 src/main/cxx/core/optimize.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 502f622..6bfd00b 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -386,6 +386,7 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
   using std::abs;
   using std::exp;
   using std::log;
+  using std::numeric_limits;
   using std::sqrt;
   using std::valarray;
 
@@ -437,8 +438,10 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
               c = c * 0.618;
             }
         }
-      while (a == 0.0
-             or b == 0.0); // the computation step is too small or too large
+      while ((a == 0.0 or b == 0.0) // the computation step is too small or too
+                                    // large
+             and c >= numeric_limits<real>::min ()
+             and c <= numeric_limits<real>::max ());
     }
   // Take the geometric mean to rescale the covariance matrix
   const real h = exp (g.apply (log).sum () / real (n));
-- 
2.43.0


From 3e08fa7dca40c03c2995e800b9947ee032e8a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 03/23] fix: do not succeed when the output could not be
 written

A full disk or any other output error was ignored by all programs.
---
 src/main/cxx/apps/ecom.cxx     |  9 +++++++++
 src/main/cxx/apps/edat.cxx     |  8 ++++++++
 src/main/cxx/apps/elog.cxx     |  8 ++++++++
 src/main/cxx/apps/emes.cxx     |  8 ++++++++
 src/main/cxx/apps/emod.cxx     |  8 ++++++++
 src/main/cxx/apps/ezip.cxx     | 15 ++++++++-------
 src/main/cxx/core/runner.h     |  3 +++
 src/main/cxx/core/streams.h    | 30 ++++++++++++++++++++++++++++++
 src/main/cxx/util/airtovac.cxx |  2 ++
 src/main/cxx/util/helicorr.cxx | 15 ++++++++-------
 src/main/cxx/util/vactoair.cxx |  2 ++
 11 files changed, 94 insertions(+), 14 deletions(-)
 create mode 100644 src/main/cxx/core/streams.h

diff --git a/src/main/cxx/apps/ecom.cxx b/src/main/cxx/apps/ecom.cxx
index 369cef6..98623db 100644
--- a/src/main/cxx/apps/ecom.cxx
+++ b/src/main/cxx/apps/ecom.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts the command from Especia result HTML. Reads from standard
@@ -30,5 +32,12 @@ main ()
           found = (s == "<command>");
         }
     }
+
+  if (not cout.flush ())
+    {
+      cerr << "Error: an output error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
+
   return 0;
 }
diff --git a/src/main/cxx/apps/edat.cxx b/src/main/cxx/apps/edat.cxx
index 1c06ea6..513b3b3 100644
--- a/src/main/cxx/apps/edat.cxx
+++ b/src/main/cxx/apps/edat.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts the section data from Especia result HTML. Reads from standard
@@ -31,5 +33,11 @@ main ()
         }
     }
 
+  if (not cout.flush ())
+    {
+      cerr << "Error: an output error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
+
   return 0;
 }
diff --git a/src/main/cxx/apps/elog.cxx b/src/main/cxx/apps/elog.cxx
index 85b4f49..a5ce97d 100644
--- a/src/main/cxx/apps/elog.cxx
+++ b/src/main/cxx/apps/elog.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts the log data from Especia result HTML. Reads from standard
@@ -31,5 +33,11 @@ main ()
         }
     }
 
+  if (not cout.flush ())
+    {
+      cerr << "Error: an output error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
+
   return 0;
 }
diff --git a/src/main/cxx/apps/emes.cxx b/src/main/cxx/apps/emes.cxx
index 0f29297..cb87f66 100644
--- a/src/main/cxx/apps/emes.cxx
+++ b/src/main/cxx/apps/emes.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts status messages from Especia result HTML. Reads from standard
@@ -36,5 +38,11 @@ main ()
         }
     }
 
+  if (not cout.flush ())
+    {
+      cerr << "Error: an output error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
+
   return 0;
 }
diff --git a/src/main/cxx/apps/emod.cxx b/src/main/cxx/apps/emod.cxx
index 9d72810..30e48eb 100644
--- a/src/main/cxx/apps/emod.cxx
+++ b/src/main/cxx/apps/emod.cxx
@@ -5,6 +5,8 @@
 /// @copyright MIT License
 #include <iostream>
 
+#include "../core/exitcodes.h"
+
 using namespace std;
 
 /// Extracts the model definition from Especia result HTML. Reads from standard
@@ -36,5 +38,11 @@ main ()
         }
     }
 
+  if (not cout.flush ())
+    {
+      cerr << "Error: an output error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
+
   return 0;
 }
diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 1b09c7f..27aacbc 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -8,6 +8,7 @@
 #include "../core/base.h"
 #include "../core/dataio.h"
 #include "../core/exitcodes.h"
+#include "../core/streams.h"
 
 using namespace std;
 
@@ -47,15 +48,14 @@ write_usage_message (ostream &os, const string &program_name)
 int
 main (int argc, char *argv[])
 {
-  const string program_name (argv[0]);
-
-  if (argc == 1)
-    {
-      write_usage_message (cout, program_name);
-      return 0;
-    }
   try
     {
+      if (argc == 1)
+        {
+          write_usage_message (cout, string (argv[0]));
+          especia::verify_output (cout);
+          return 0;
+        }
       if (argc != 3 and argc != 4)
         {
           throw invalid_argument (
@@ -85,6 +85,7 @@ main (int argc, char *argv[])
       if (fxy and fxz and y.size () == z.size ())
         {
           especia::put (cout, x, y, z);
+          especia::verify_output (cout);
         }
       else
         {
diff --git a/src/main/cxx/core/runner.h b/src/main/cxx/core/runner.h
index 056e5d3..59010cd 100644
--- a/src/main/cxx/core/runner.h
+++ b/src/main/cxx/core/runner.h
@@ -15,6 +15,7 @@
 #include "config.h"
 #include "exitcodes.h"
 #include "optimizer.h"
+#include "streams.h"
 
 namespace especia
 {
@@ -157,6 +158,7 @@ public:
     if (get_arg_count () == 1)
       {
         write_usage_message (cout);
+        verify_output (cout);
         return 0;
       }
     if (get_arg_count () != 8)
@@ -208,6 +210,7 @@ public:
     model.set (&result.get_parameter_values ()[0],
                &result.get_parameter_uncertainties ()[0]);
     model.put (cout);
+    verify_output (cout);
 
     if (result.is_optimized ())
       {
diff --git a/src/main/cxx/core/streams.h b/src/main/cxx/core/streams.h
new file mode 100644
index 0000000..f392196
--- /dev/null
+++ b/src/main/cxx/core/streams.h
@@ -0,0 +1,30 @@
+/// @file streams.h
+/// Procedures to verify the state of input and output streams.
+/// @author Ralf Quast
+/// @date 2024
+/// @copyright MIT License
+#ifndef ESPECIA_STREAMS_H
+#define ESPECIA_STREAMS_H
+
+#include <ostream>
+#include <stdexcept>
+
+namespace especia
+{
+
+/// Flushes an output stream and verifies that all output has been written.
+///
+/// @param os The output stream.
+/// @throw runtime_error if any output could not be written.
+inline void
+verify_output (std::ostream &os)
+{
+  if (not os.flush ())
+    {
+      throw std::runtime_error ("Error: an output error occurred");
+    }
+}
+
+} // namespace especia
+
+#endif // ESPECIA_STREAMS_H
diff --git a/src/main/cxx/util/airtovac.cxx b/src/main/cxx/util/airtovac.cxx
index 51f05e9..74ac6c6 100644
--- a/src/main/cxx/util/airtovac.cxx
+++ b/src/main/cxx/util/airtovac.cxx
@@ -9,6 +9,7 @@
 #include "../core/dataio.h"
 #include "../core/equations.h"
 #include "../core/exitcodes.h"
+#include "../core/streams.h"
 
 using namespace std;
 
@@ -71,6 +72,7 @@ main (int argc, char *argv[])
                                        real (10.0) / x[i], real (1.0E-08));
             }
           especia::put (cout, x, y, z);
+          especia::verify_output (cout);
         }
       else
         {
diff --git a/src/main/cxx/util/helicorr.cxx b/src/main/cxx/util/helicorr.cxx
index 2cf4642..13541b3 100644
--- a/src/main/cxx/util/helicorr.cxx
+++ b/src/main/cxx/util/helicorr.cxx
@@ -9,6 +9,7 @@
 #include "../core/base.h"
 #include "../core/dataio.h"
 #include "../core/exitcodes.h"
+#include "../core/streams.h"
 
 using namespace std;
 
@@ -45,15 +46,14 @@ write_usage_message (ostream &os, const string &pname)
 int
 main (int argc, char *argv[])
 {
-  const string program_name (argv[0]);
-
-  if (argc == 1)
-    {
-      write_usage_message (cout, program_name);
-      return 0;
-    }
   try
     {
+      if (argc == 1)
+        {
+          write_usage_message (cout, string (argv[0]));
+          especia::verify_output (cout);
+          return 0;
+        }
       if (argc != 2 and argc != 3)
         {
           throw invalid_argument (
@@ -80,6 +80,7 @@ main (int argc, char *argv[])
               x *= 1.0 + especia::redshift (v);
             }
           especia::put (cout, x, y, z);
+          especia::verify_output (cout);
         }
       else
         {
diff --git a/src/main/cxx/util/vactoair.cxx b/src/main/cxx/util/vactoair.cxx
index 6746a7c..a3c6968 100644
--- a/src/main/cxx/util/vactoair.cxx
+++ b/src/main/cxx/util/vactoair.cxx
@@ -9,6 +9,7 @@
 #include "../core/dataio.h"
 #include "../core/equations.h"
 #include "../core/exitcodes.h"
+#include "../core/streams.h"
 
 using namespace std;
 
@@ -69,6 +70,7 @@ main (int argc, char *argv[])
               x[i] = real (10.0) / Equations::edlen66 (real (10.0) / x[i]);
             }
           especia::put (cout, x, y, z);
+          especia::verify_output (cout);
         }
       else
         {
-- 
2.43.0


From ab5aedeeba32c382e61321dc6c32a4a934301e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 04/23] fix: do not mistake an error reading standard input for
 its end

Analysis programs, extraction tools and utilities processed what they had
read before the error and succeeded.
---
 src/main/cxx/apps/ecom.cxx     |  6 ++++++
 src/main/cxx/apps/edat.cxx     |  6 ++++++
 src/main/cxx/apps/elog.cxx     |  6 ++++++
 src/main/cxx/apps/emes.cxx     |  6 ++++++
 src/main/cxx/apps/emod.cxx     |  6 ++++++
 src/main/cxx/core/runner.h     |  1 +
 src/main/cxx/core/streams.h    | 15 ++++++++++++++-
 src/main/cxx/util/airtovac.cxx |  1 +
 src/main/cxx/util/helicorr.cxx |  1 +
 src/main/cxx/util/vactoair.cxx |  1 +
 10 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/apps/ecom.cxx b/src/main/cxx/apps/ecom.cxx
index 98623db..081a61e 100644
--- a/src/main/cxx/apps/ecom.cxx
+++ b/src/main/cxx/apps/ecom.cxx
@@ -3,6 +3,7 @@
 /// @author Ralf Quast
 /// @date 2024
 /// @copyright MIT License
+#include <cstdio>
 #include <iostream>
 
 #include "../core/exitcodes.h"
@@ -33,6 +34,11 @@ main ()
         }
     }
 
+  if (cin.bad () or ferror (stdin))
+    {
+      cerr << "Error: an input error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
   if (not cout.flush ())
     {
       cerr << "Error: an output error occurred" << endl;
diff --git a/src/main/cxx/apps/edat.cxx b/src/main/cxx/apps/edat.cxx
index 513b3b3..de02253 100644
--- a/src/main/cxx/apps/edat.cxx
+++ b/src/main/cxx/apps/edat.cxx
@@ -3,6 +3,7 @@
 /// @author Ralf Quast
 /// @date 2024
 /// @copyright MIT License
+#include <cstdio>
 #include <iostream>
 
 #include "../core/exitcodes.h"
@@ -33,6 +34,11 @@ main ()
         }
     }
 
+  if (cin.bad () or ferror (stdin))
+    {
+      cerr << "Error: an input error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
   if (not cout.flush ())
     {
       cerr << "Error: an output error occurred" << endl;
diff --git a/src/main/cxx/apps/elog.cxx b/src/main/cxx/apps/elog.cxx
index a5ce97d..c8a39c7 100644
--- a/src/main/cxx/apps/elog.cxx
+++ b/src/main/cxx/apps/elog.cxx
@@ -3,6 +3,7 @@
 /// @author Ralf Quast
 /// @date 2024
 /// @copyright MIT License
+#include <cstdio>
 #include <iostream>
 
 #include "../core/exitcodes.h"
@@ -33,6 +34,11 @@ main ()
         }
     }
 
+  if (cin.bad () or ferror (stdin))
+    {
+      cerr << "Error: an input error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
   if (not cout.flush ())
     {
       cerr << "Error: an output error occurred" << endl;
diff --git a/src/main/cxx/apps/emes.cxx b/src/main/cxx/apps/emes.cxx
index cb87f66..ef0f399 100644
--- a/src/main/cxx/apps/emes.cxx
+++ b/src/main/cxx/apps/emes.cxx
@@ -3,6 +3,7 @@
 /// @author Ralf Quast
 /// @date 2024
 /// @copyright MIT License
+#include <cstdio>
 #include <iostream>
 
 #include "../core/exitcodes.h"
@@ -38,6 +39,11 @@ main ()
         }
     }
 
+  if (cin.bad () or ferror (stdin))
+    {
+      cerr << "Error: an input error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
   if (not cout.flush ())
     {
       cerr << "Error: an output error occurred" << endl;
diff --git a/src/main/cxx/apps/emod.cxx b/src/main/cxx/apps/emod.cxx
index 30e48eb..3f0968c 100644
--- a/src/main/cxx/apps/emod.cxx
+++ b/src/main/cxx/apps/emod.cxx
@@ -3,6 +3,7 @@
 /// @author Ralf Quast
 /// @date 2024
 /// @copyright MIT License
+#include <cstdio>
 #include <iostream>
 
 #include "../core/exitcodes.h"
@@ -38,6 +39,11 @@ main ()
         }
     }
 
+  if (cin.bad () or ferror (stdin))
+    {
+      cerr << "Error: an input error occurred" << endl;
+      return especia::Exit_Codes::runtime_error;
+    }
   if (not cout.flush ())
     {
       cerr << "Error: an output error occurred" << endl;
diff --git a/src/main/cxx/core/runner.h b/src/main/cxx/core/runner.h
index 59010cd..eaa2a26 100644
--- a/src/main/cxx/core/runner.h
+++ b/src/main/cxx/core/runner.h
@@ -178,6 +178,7 @@ public:
     const natural trace_modulus = parse_trace_modulus ();
 
     M model = M::parse (cin, cout);
+    verify_input ();
 
     const Optimizer optimizer
         = Optimizer::Builder ()
diff --git a/src/main/cxx/core/streams.h b/src/main/cxx/core/streams.h
index f392196..f4ac199 100644
--- a/src/main/cxx/core/streams.h
+++ b/src/main/cxx/core/streams.h
@@ -6,12 +6,25 @@
 #ifndef ESPECIA_STREAMS_H
 #define ESPECIA_STREAMS_H
 
-#include <ostream>
+#include <cstdio>
+#include <iostream>
 #include <stdexcept>
 
 namespace especia
 {
 
+/// Verifies that reading standard input did not stop because of an error.
+///
+/// @throw runtime_error if any input could not be read.
+inline void
+verify_input ()
+{
+  if (std::cin.bad () or std::ferror (stdin))
+    {
+      throw std::runtime_error ("Error: an input error occurred");
+    }
+}
+
 /// Flushes an output stream and verifies that all output has been written.
 ///
 /// @param os The output stream.
diff --git a/src/main/cxx/util/airtovac.cxx b/src/main/cxx/util/airtovac.cxx
index 74ac6c6..507faed 100644
--- a/src/main/cxx/util/airtovac.cxx
+++ b/src/main/cxx/util/airtovac.cxx
@@ -65,6 +65,7 @@ main (int argc, char *argv[])
 
       if (especia::get (cin, x, y, z, skip))
         {
+          especia::verify_input ();
           for (size_t i = 0; i < x.size (); ++i)
             {
               x[i] = real (10.0)
diff --git a/src/main/cxx/util/helicorr.cxx b/src/main/cxx/util/helicorr.cxx
index 13541b3..2ccf673 100644
--- a/src/main/cxx/util/helicorr.cxx
+++ b/src/main/cxx/util/helicorr.cxx
@@ -75,6 +75,7 @@ main (int argc, char *argv[])
 
       if (especia::get (cin, x, y, z, skip))
         {
+          especia::verify_input ();
           if (v != 0.0)
             {
               x *= 1.0 + especia::redshift (v);
diff --git a/src/main/cxx/util/vactoair.cxx b/src/main/cxx/util/vactoair.cxx
index a3c6968..30f8411 100644
--- a/src/main/cxx/util/vactoair.cxx
+++ b/src/main/cxx/util/vactoair.cxx
@@ -65,6 +65,7 @@ main (int argc, char *argv[])
 
       if (especia::get (cin, x, y, z, skip))
         {
+          especia::verify_input ();
           for (size_t i = 0; i < x.size (); ++i)
             {
               x[i] = real (10.0) / Equations::edlen66 (real (10.0) / x[i]);
-- 
2.43.0


From aeed8a7c7e2592f81dedfd8b462f345d05fbb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 05/23] fix: let ezip read the number of lines to skip from its
 third argument

---
 src/main/cxx/apps/ezip.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 27aacbc..b4422e0 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -66,7 +66,7 @@ main (int argc, char *argv[])
 
       if (argc == 4)
         {
-          skip = especia::convert<natural> (string (argv[2]));
+          skip = especia::convert<natural> (string (argv[3]));
         }
 
       valarray<real> x;
-- 
2.43.0


From baed35a638ef7b24f5e97d97dbf7af42476c2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 06/23] fix: reject data that mix rows with and without
 uncertainty

The uncertainties were attached to the wrong rows.
---
 src/main/cxx/core/dataio.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 4612c72..194322c 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -103,6 +103,14 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
                 w.push_back (c);
 
               ++n;
+
+              if (w.size () != 0 and w.size () != n)
+                {
+                  // Rows with and without uncertainty must not be mixed.
+                  is.setstate (ios_base::badbit | ios_base::failbit);
+
+                  return is;
+                }
             }
           else
             {
-- 
2.43.0


From 88c4e24d6f114fdb26ad12244f230cb6ece90b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 07/23] fix: do not mistake a lack of memory for the end or the
 lack of input

String streams swallow the exception thrown when memory is exhausted.
---
 src/main/cxx/core/base.h       | 1 +
 src/main/cxx/core/dataio.cxx   | 2 ++
 src/main/cxx/core/model.h      | 6 ++++++
 src/main/cxx/core/readline.h   | 1 +
 src/main/cxx/core/section.cxx  | 1 +
 src/main/cxx/util/airtovac.cxx | 2 --
 src/main/cxx/util/vactoair.cxx | 2 --
 7 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main/cxx/core/base.h b/src/main/cxx/core/base.h
index e0ed362..cf4e432 100644
--- a/src/main/cxx/core/base.h
+++ b/src/main/cxx/core/base.h
@@ -99,6 +99,7 @@ convert (const std::string &s)
   using std::istringstream;
 
   istringstream iss (s);
+  iss.exceptions (std::ios_base::badbit);
   T t;
 
   if (iss >> t)
diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 194322c..f9e4991 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -31,6 +31,7 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y, natural skip)
       if (skip <= 0)
         {
           istringstream ist (s);
+          ist.exceptions (ios_base::badbit);
           real a, b;
 
           if (ist >> a >> b)
@@ -93,6 +94,7 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
       if (skip <= 0)
         {
           istringstream ist (s);
+          ist.exceptions (ios_base::badbit);
           real a, b, c;
 
           if (ist >> a >> b)
diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index c714935..ebb9bfe 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -492,6 +492,10 @@ private:
     os << "<!--\n";
     os << "<model>\n";
 
+    // Do not mistake a lack of memory for the end of input.
+    ss.exceptions (ios_base::badbit);
+    st.exceptions (ios_base::badbit);
+
     // Read all lines and copy them to the output stream.
     while (readline (is, line))
       {
@@ -520,6 +524,7 @@ private:
           if (j != string::npos)
             {
               istringstream ist (line.substr (j + 1));
+              ist.exceptions (ios_base::badbit);
 
               string sid, pid, fn, s2;
               real a, b;
@@ -541,6 +546,7 @@ private:
                           if (s.get (ifs, a, b))
                             {
                               istringstream is2 (s2);
+                              is2.exceptions (ios_base::badbit);
                               while (is2 >> a >> b)
                                 s.mask (a, b);
 
diff --git a/src/main/cxx/core/readline.h b/src/main/cxx/core/readline.h
index 041c3da..5f1efad 100644
--- a/src/main/cxx/core/readline.h
+++ b/src/main/cxx/core/readline.h
@@ -400,6 +400,7 @@ read (std::istream &is, std::vector<A> &a, std::vector<B> &b,
       if (is >> aa >> bb >> cc >> dd and getline (is, ss, eol))
         {
           istringstream ist (ss);
+          ist.exceptions (ios_base::badbit);
 
           ist >> ss;
           if (!ist)
diff --git a/src/main/cxx/core/section.cxx b/src/main/cxx/core/section.cxx
index fc6f667..4007e61 100644
--- a/src/main/cxx/core/section.cxx
+++ b/src/main/cxx/core/section.cxx
@@ -265,6 +265,7 @@ especia::Section::get (std::istream &is, const real a, const real b)
         }
 
       istringstream ist (line);
+      ist.exceptions (ios_base::badbit);
       bool tw;
       real tx, ty, tz;
 
diff --git a/src/main/cxx/util/airtovac.cxx b/src/main/cxx/util/airtovac.cxx
index 507faed..9a98d90 100644
--- a/src/main/cxx/util/airtovac.cxx
+++ b/src/main/cxx/util/airtovac.cxx
@@ -42,8 +42,6 @@ main (int argc, char *argv[])
 {
   using especia::Equations;
 
-  const string program_name (argv[0]);
-
   try
     {
       if (argc != 1 and argc != 2)
diff --git a/src/main/cxx/util/vactoair.cxx b/src/main/cxx/util/vactoair.cxx
index 30f8411..c6924f6 100644
--- a/src/main/cxx/util/vactoair.cxx
+++ b/src/main/cxx/util/vactoair.cxx
@@ -42,8 +42,6 @@ main (int argc, char *argv[])
 {
   using especia::Equations;
 
-  const string pname (argv[0]);
-
   try
     {
       if (argc != 1 and argc != 2)
-- 
2.43.0


From 858af9eb13ba215715fda3a1b0f3ad444739ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 08/23] fix: reject a model definition that ends inside a
 section

The section was ignored.
---
 src/main/cxx/core/model.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index ebb9bfe..ea5e9db 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -638,6 +638,14 @@ private:
               return is;
             }
         }
+      else if (line.find (begin_of_section) != string::npos)
+        {
+          // The end of the section is missing.
+          is.setstate (ios_base::badbit | ios_base::failbit);
+          cerr << errmsg << synmsg << endl;
+
+          return is;
+        }
 
     if (!st.bad () and st.eof ())
       {
-- 
2.43.0


From d7d3f61eb1ea1a8f3dbddfee2ba362022247b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 09/23] fix: reject a model definition without any section

The program crashed.
---
 src/main/cxx/core/model.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index ea5e9db..5fca656 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -463,6 +463,7 @@ private:
     const char infmsg[] = "input failed";
     const char srfmsg[] = "self reference";
     const char synmsg[] = "syntax error";
+    const char nosmsg[] = "no section";
     const char rnfmsg[] = "reference not found";
 
     vector<especia::Section> sections;
@@ -647,6 +648,14 @@ private:
           return is;
         }
 
+    if (sections.empty ())
+      {
+        is.setstate (ios_base::badbit | ios_base::failbit);
+        cerr << errmsg << nosmsg << endl;
+
+        return is;
+      }
+
     if (!st.bad () and st.eof ())
       {
         // Index unique parameters
-- 
2.43.0


From de9308d1d8ba37532f701e971de0671bf3b0a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 10/23] fix: reject parameter references that form a cycle

The program never ended if the references of a parameter led into a cycle the
parameter is not part of.
---
 src/main/cxx/core/model.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 5fca656..4d5f702 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -680,6 +680,7 @@ private:
              i != section_name_map.end (); ++i)
           {
             const natural j = isc[i->second];
+            natural hops = 0;
 
             while (!ref[j].empty ())
               {
@@ -687,7 +688,7 @@ private:
                   {
                     const natural k = isc[section_name_map[ref[j]]];
 
-                    if (j != k)
+                    if (j != k and ++hops <= section_name_map.size ())
                       {
                         if (ref[k].empty ())
                           {
@@ -725,6 +726,7 @@ private:
           for (natural j = 0; j < Function::parameter_count (); ++j)
             {
               const natural k = i->second + j;
+              natural hops = 0;
 
               while (!ref[k].empty ())
                 {
@@ -733,7 +735,7 @@ private:
                     {
                       const natural l = profile_name_map[ref[k]] + j;
 
-                      if (k != l)
+                      if (k != l and ++hops <= profile_name_map.size ())
                         {
                           if (ref[l].empty ())
                             {
-- 
2.43.0


From ae58f9270e7c6347a1a5920423d844f60406ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 11/23] fix: reject a parent number that is zero or not less
 than the population size

The optimizer accessed memory beyond the end of its arrays.
---
 src/main/cxx/core/runner.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cxx/core/runner.h b/src/main/cxx/core/runner.h
index eaa2a26..c5cc614 100644
--- a/src/main/cxx/core/runner.h
+++ b/src/main/cxx/core/runner.h
@@ -177,6 +177,13 @@ public:
     const natural stop_generation = parse_stop_generation ();
     const natural trace_modulus = parse_trace_modulus ();
 
+    if (parent_number == 0 or population_size <= parent_number)
+      {
+        throw invalid_argument ("especia::Runner::run() Error: an invalid "
+                                "parent number or population size was "
+                                "supplied");
+      }
+
     M model = M::parse (cin, cout);
     verify_input ();
 
-- 
2.43.0


From f4407fc19efa429ab65305e3657d1e6123da4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 12/23] fix: keep a parameter constant if its lower and upper
 bounds are the same

The optimizer never found a parameter vector that satisfies the bounds.
---
 src/main/cxx/core/model.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 4d5f702..83b0599 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -658,6 +658,14 @@ private:
 
     if (!st.bad () and st.eof ())
       {
+        // A parameter without any freedom is constant
+        for (natural i = 0; i < msk.size (); ++i)
+          if (msk[i] and ref[i].empty () and lo[i] == up[i])
+            {
+              val[i] = lo[i];
+              msk[i] = false;
+            }
+
         // Index unique parameters
         for (natural i = 0, k = 0; i < msk.size (); ++i)
           if (msk[i] and ref[i].empty ())
-- 
2.43.0


From e48e7840e397f638951fe7e3f02dcb9c7318fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 13/23] fix: let foreach write the target next to the source
 file

The target was written to a file of the same name in the working directory,
which overwrote and removed any file of this name already there.
---
 src/main/scripts/foreach | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/scripts/foreach b/src/main/scripts/foreach
index a09e4a2..359edb0 100755
--- a/src/main/scripts/foreach
+++ b/src/main/scripts/foreach
@@ -18,7 +18,7 @@ shift
 for sourceFile in "${@}"
 do
     cp "${sourceFile}" "${sourceFile}.backup"
-    targetFile="$(basename "$sourceFile")"
+    targetFile="${sourceFile}.target"
     ${command} "${sourceFile}" "${targetFile}"
     mv "${targetFile}" "${sourceFile}"
 done
-- 
2.43.0


From 8d306539fad3bd2a32d7952af1d20b1fe32c4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 14/23] fix: do not let erun mistake an existing target for the
 result of the run

---
 src/main/scripts/erun | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/scripts/erun b/src/main/scripts/erun
index bc7d6df..62442ba 100755
--- a/src/main/scripts/erun
+++ b/src/main/scripts/erun
@@ -18,6 +18,8 @@ targetFile="$2"
 ecom=$(dirname "$0")/ecom
 emod=$(dirname "$0")/emod
 elog=$(dirname "$0")/elog
+# do not mistake an existing document for the result of this run
+: > "${targetFile}"
 # shellcheck disable=SC2094
 # shellcheck disable=SC2091
 ${emod} < "${resultFile}" | $(${ecom} < "${resultFile}") | tee "${targetFile}" | ${elog}
-- 
2.43.0


From abf859941c1716d910af7edda514d1af055026b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 15/23] fix: keep the recombined mean within the range of its
 parents

The rounded weighted mean of individuals which differ by a few units in
the last place only can lie outside the range of the individuals, and
thus outside the bounds of the constraint.
---
 src/main/cxx/core/optimize.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 6bfd00b..0b79fa1 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -199,6 +199,8 @@ optimize (const F &f, const Constraint &constraint, natural n,
 {
   using std::accumulate;
   using std::exp;
+  using std::max;
+  using std::min;
   using std::numeric_limits;
   using std::partial_sort;
   using std::sqrt;
@@ -272,9 +274,13 @@ optimize (const F &f, const Constraint &constraint, natural n,
       // Recombine the best individuals
       for (natural i = 0; i < n; ++i)
         {
+          real xmin = x[indexes[0]][i];
+          real xmax = xmin;
           uw[i] = vw[i] = xw[i] = 0.0;
           for (natural k = 0; k < parent_number; ++k)
             {
+              xmin = min (xmin, x[indexes[k]][i]);
+              xmax = max (xmax, x[indexes[k]][i]);
               uw[i] += w[k] * u[indexes[k]][i];
               vw[i] += w[k] * v[indexes[k]][i];
               xw[i] += w[k] * x[indexes[k]][i];
@@ -282,6 +288,8 @@ optimize (const F &f, const Constraint &constraint, natural n,
           uw[i] /= ws;
           vw[i] /= ws;
           xw[i] /= ws;
+          // Rounding must not move the mean outside the range of its parents
+          xw[i] = min (max (xw[i], xmin), xmax);
         }
 
       // Adapt the covariance matrix and the step size according to Hansen &
-- 
2.43.0


From 20cb902bddafce2cebf38ad9feeffd0421ce005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 16/23] fix: do not free an array twice when memory is lacking

valarray::resize releases the old elements before it allocates the new
ones and leaves a dangling pointer behind when the allocation fails.
---
 src/main/cxx/core/dataio.cxx    | 12 +++++++-----
 src/main/cxx/core/optimizer.cxx |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index f9e4991..2f2896f 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -56,8 +56,9 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y, natural skip)
 
   if (n > 0 and is.eof ())
     {
-      x.resize (n);
-      y.resize (n);
+      // not resized in place, which is not safe when memory is lacking
+      x = valarray<real> (n);
+      y = valarray<real> (n);
 
       copy (u.begin (), u.end (), &x[0]);
       copy (v.begin (), v.end (), &y[0]);
@@ -129,9 +130,10 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
 
   if (n > 0 and is.eof ())
     {
-      x.resize (n);
-      y.resize (n);
-      z.resize (n);
+      // not resized in place, which is not safe when memory is lacking
+      x = valarray<real> (n);
+      y = valarray<real> (n);
+      z = valarray<real> (n);
 
       copy (u.begin (), u.end (), &x[0]);
       copy (v.begin (), v.end (), &y[0]);
diff --git a/src/main/cxx/core/optimizer.cxx b/src/main/cxx/core/optimizer.cxx
index 56e12fb..38671eb 100644
--- a/src/main/cxx/core/optimizer.cxx
+++ b/src/main/cxx/core/optimizer.cxx
@@ -104,7 +104,8 @@ especia::Optimizer::Builder::with_strategy_parameters ()
   using std::min;
   using std::sqrt;
 
-  weights.resize (parent_number);
+  // not resized in place, which is not safe when memory is lacking
+  weights = std::valarray<real> (parent_number);
 
   for (natural i = 0; i < parent_number; ++i)
     {
-- 
2.43.0


From 14720a8f28cc694c79988d461cda28d4c2455cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 17/23] fix: do not succeed when a line of the output was
 dropped

---
 src/main/cxx/core/streams.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cxx/core/streams.h b/src/main/cxx/core/streams.h
index f4ac199..aee35e6 100644
--- a/src/main/cxx/core/streams.h
+++ b/src/main/cxx/core/streams.h
@@ -32,7 +32,8 @@ verify_input ()
 inline void
 verify_output (std::ostream &os)
 {
-  if (not os.flush ())
+  // A line buffered stream may drop a line and set its error indicator only
+  if (not os.flush () or std::ferror (stdout))
     {
       throw std::runtime_error ("Error: an output error occurred");
     }
-- 
2.43.0


From 490728b0636f832e3dc994832f17e87396e6bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 18/23] fix: do not convolute with a line spread function of
 non-positive resolution

---
 src/main/cxx/core/section.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cxx/core/section.h b/src/main/cxx/core/section.h
index 8982258..dcf90c2 100644
--- a/src/main/cxx/core/section.h
+++ b/src/main/cxx/core/section.h
@@ -139,6 +139,12 @@ public:
     using std::abs;
     using std::valarray;
 
+    if (not (r > 0.0))
+      {
+        // The model is undefined
+        return std::numeric_limits<real>::quiet_NaN ();
+      }
+
     valarray<real> opt (n);
     valarray<real> atm (n);
     valarray<real> cat (n);
@@ -186,6 +192,12 @@ public:
   Section &
   apply (const natural m, const real r, const Function &tau)
   {
+    if (not (r > 0.0))
+      {
+        throw std::runtime_error ("especia::Section::apply(): Error: the "
+                                  "spectral resolution is not positive");
+      }
+
     convolute (r, tau, opt, atm, cat);
     continuum (m, cat, cfl);
 
-- 
2.43.0


From f62c2106805e9677c2fe640baf6a0f32e2f478a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 19/23] fix: do not invent uncertainties for spectra without

---
 src/main/cxx/core/dataio.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 2f2896f..2693178 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -133,11 +133,12 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
       // not resized in place, which is not safe when memory is lacking
       x = valarray<real> (n);
       y = valarray<real> (n);
-      z = valarray<real> (n);
+      z = valarray<real> (w.size ()); // none, if there is no uncertainty
 
       copy (u.begin (), u.end (), &x[0]);
       copy (v.begin (), v.end (), &y[0]);
-      copy (w.begin (), w.end (), &z[0]);
+      if (not w.empty ())
+        copy (w.begin (), w.end (), &z[0]);
 
       is.clear (is.rdstate () & ~ios_base::failbit);
     }
-- 
2.43.0


From fc51cc9284276f9afcf9b6638bc58c93c9bb466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 20/23] fix: keep columns of spectra apart

---
 src/main/cxx/core/dataio.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 2693178..f89f760 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -169,10 +169,10 @@ especia::put (ostream &os, const valarray<real> &x, const valarray<real> &y,
           os.setf (ios_base::fixed, ios_base::floatfield);
           os << setw (w) << x[i];
           os.setf (ios_base::scientific, ios_base::floatfield);
-          os << setw (w) << y[i];
+          os << ' ' << setw (w - 1) << y[i];
           if (z.size () > 0)
             {
-              os << setw (w) << z[i];
+              os << ' ' << setw (w - 1) << z[i];
             }
           os << '\n';
         }
-- 
2.43.0


From c0ded7abdb343fe0c73d91c44301253be5a4f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 21/23] fix: keep columns of result data apart

---
 src/main/cxx/core/section.cxx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/main/cxx/core/section.cxx b/src/main/cxx/core/section.cxx
index 4007e61..e04b66e 100644
--- a/src/main/cxx/core/section.cxx
+++ b/src/main/cxx/core/section.cxx
@@ -362,19 +362,19 @@ especia::Section::put (std::ostream &os, const real a, const real b) const
             const real nfl = flx[i] / cfl[i];
             const real nun = unc[i] / cfl[i];
 
-            os << setw (w) << wav[i]; // 1
-            os << setw (w) << flx[i]; // 2
-            os << setw (w) << unc[i]; // 3
+            os << ' ' << setw (w - 1) << wav[i]; // 1
+            os << ' ' << setw (w - 1) << flx[i]; // 2
+            os << ' ' << setw (w - 1) << unc[i]; // 3
             os << setw (3) << msk[i]; // 4
-            os << setw (w) << opt[i]; // 5
-            os << setw (w) << atm[i]; // 6
-            os << setw (w) << cat[i]; // 7
-            os << setw (w) << cfl[i]; // 8
-            os << setw (w) << tfl[i]; // 9
-            os << setw (w) << fit[i]; // 10
-            os << setw (w) << res[i]; // 11
-            os << setw (w) << nfl;    // 12
-            os << setw (w) << nun;    // 13
+            os << ' ' << setw (w - 1) << opt[i]; // 5
+            os << ' ' << setw (w - 1) << atm[i]; // 6
+            os << ' ' << setw (w - 1) << cat[i]; // 7
+            os << ' ' << setw (w - 1) << cfl[i]; // 8
+            os << ' ' << setw (w - 1) << tfl[i]; // 9
+            os << ' ' << setw (w - 1) << fit[i]; // 10
+            os << ' ' << setw (w - 1) << res[i]; // 11
+            os << ' ' << setw (w - 1) << nfl;    // 12
+            os << ' ' << setw (w - 1) << nun;    // 13
 
             os << '\n';
           }
-- 
2.43.0


From 16aff86286dd16dfe996e230544f7d549fc5dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 22/23] fix: resolve broad and narrow profiles in the
 calculation of equivalent widths

---
 src/main/cxx/core/profiles.h | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/profiles.h b/src/main/cxx/core/profiles.h
index 44b3ef0..4da72b2 100644
--- a/src/main/cxx/core/profiles.h
+++ b/src/main/cxx/core/profiles.h
@@ -6,6 +6,7 @@
 #ifndef ESPECIA_PROFILES_H
 #define ESPECIA_PROFILES_H
 
+#include <algorithm>
 #include <cmath>
 #include <vector>
 
@@ -521,13 +522,43 @@ public:
   {
     using std::exp;
 
+    // The integrator resolves the infinite domain in the vicinity of unity
+    const real w = width (f);
     const real integral = integrator.integrate_positive_infinite (
-        [&f] (real x) -> real { return 1.0 - exp (-f (x + f.center ())); });
+        [&f, w] (real x) -> real {
+          return 1.0 - exp (-f (w * x + f.center ()));
+        });
 
-    return (2.0 / prefix) * integral / f.redshift_factor ();
+    return (2.0 / prefix) * w * integral / f.redshift_factor ();
   }
 
 private:
+  /// Returns the distance from the center where the wings of an optical depth
+  /// profile get insignificant, as a power of two (Angstrom).
+  ///
+  /// @tparam Function The profile function type.
+  ///
+  /// @param f The profile function.
+  /// @return the width of the profile.
+  template <class Function>
+  static real
+  width (const Function &f)
+  {
+    const real wing = 0.01 * std::min (1.0, f (f.center ()));
+
+    real w = 1.0;
+    while (w < 1.0E+06 and f (f.center () + w) > wing)
+      {
+        w *= 2.0;
+      }
+    while (w > 1.0E-06 and f (f.center () + 0.5 * w) <= wing)
+      {
+        w *= 0.5;
+      }
+
+    return w;
+  }
+
   /// The strategy to integrate the line profile.
   const Integrate integrator;
 };
-- 
2.43.0


From 39e4041467302b4cd842c836549c9ac2f0098a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 23/23] fix: evaluate the absorption in sections with less than
 three data points

---
 src/main/cxx/core/section.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cxx/core/section.h b/src/main/cxx/core/section.h
index dcf90c2..a4153dd 100644
--- a/src/main/cxx/core/section.h
+++ b/src/main/cxx/core/section.h
@@ -328,6 +328,13 @@ private:
               }
           }
       }
+    else
+      {
+        // There are too few data points for a convolution.
+        transform (begin (wav), end (wav), begin (opt), tau);
+        atm = exp (-opt);
+        cat = atm;
+      }
   }
 
   /// Evaluates the primitive functions of g(x) and x g(x), where g(x) is the
-- 
2.43.0

