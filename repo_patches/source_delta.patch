From 2cb878ed21f4f756c80466718b00313ec070e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 01/24] fix: diag: wrong number of arguments is an error
 (nonzero exit status)

---
 tools/diag/diag.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/diag/diag.cc b/tools/diag/diag.cc
index bf9a97d..9bf41a6 100644
--- a/tools/diag/diag.cc
+++ b/tools/diag/diag.cc
@@ -238,7 +238,8 @@ void run(int argc, char *argv[]) {
     return;
   }
 
-  usage();
+  usage(cerr);
+  exit(1);
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 1a94d5a9f21a0ca668cd54459ac02322e6d96f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 02/24] fix: hilb: wrong number of arguments is an error
 (nonzero exit status)

---
 tools/hilb/hilb.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 80f3039..7838074 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -498,6 +498,7 @@ class Hilb {
     }
     about();
     usage();
+    exit(EXIT_FAILURE);
   }
 
   public:
-- 
2.43.0


From 44f80a38b7da48cc2d92352e6951ad9ae2b1bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 03/24] fix: matrix: errors reported while parsing end in a
 nonzero exit status

---
 tools/matrix/parser.cc | 11 +++++++----
 tools/matrix/parser.yy | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 610dcc0..1b0eb69 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1421,7 +1421,7 @@ yyreduce:
 			if((yyvsp[-3].symp)->funcptr)
 				(yyval.dval) = ((yyvsp[-3].symp)->funcptr)((yyvsp[-1].dval));
 			else {
-				cerr << (yyvsp[-3].symp)->name << " not a function" << endl;
+				yyerror((string((yyvsp[-3].symp)->name) + " not a function").c_str());
 				(yyval.dval) = 0.0;
 			}
 		}
@@ -1434,7 +1434,7 @@ yyreduce:
 			if((yyvsp[-3].symp)->funcptr)
 				(yyval.dval) = ((yyvsp[-3].symp)->funcptr)((yyvsp[-1].dval));
 			else {
-			        cerr << (yyvsp[-3].symp)->name << " not a function" << endl;
+			        yyerror((string((yyvsp[-3].symp)->name) + " not a function").c_str());
 				(yyval.dval) = 0.0;
 			}
 		}
@@ -1970,6 +1970,8 @@ int yywrap(void)
 }
 }
 
+static bool failed = false; // set if an error has been reported while parsing
+
 int main(int argc, char *argv[])
 {
  cout << setprecision(18);
@@ -2002,7 +2004,7 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ const int status = yyparse();
 
   if (verbose) {
   cerr << "DONE!" << endl;
@@ -2010,7 +2012,7 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
-  return 0;
+  return status != 0 || failed ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
 void dump_vector(struct vec *dvec)
@@ -2138,5 +2140,6 @@ double coefV(int i, int j)
 
 void yyerror(const char *error)
 {
+  failed = true;
   cerr << error << endl;
 }
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b067ba3..3273fa9 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -116,7 +116,7 @@ expression:	expression '+' expression { $$ = $1 + $3; }
 			if($1->funcptr)
 				$$ = ($1->funcptr)($3);
 			else {
-				cerr << $1->name << " not a function" << endl;
+				yyerror((string($1->name) + " not a function").c_str());
 				$$ = 0.0;
 			}
 		}
@@ -124,7 +124,7 @@ expression:	expression '+' expression { $$ = $1 + $3; }
 			if($1->funcptr)
 				$$ = ($1->funcptr)($3);
 			else {
-			        cerr << $1->name << " not a function" << endl;
+			        yyerror((string($1->name) + " not a function").c_str());
 				$$ = 0.0;
 			}
 		}
@@ -369,6 +369,8 @@ int yywrap(void)
 }
 }
 
+static bool failed = false; // set if an error has been reported while parsing
+
 int main(int argc, char *argv[])
 {
  cout << setprecision(18);
@@ -401,7 +403,7 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ const int status = yyparse();
 
  if (verbose) {
   cerr << "DONE!" << endl;
@@ -409,7 +411,7 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
- return 0;
+ return status != 0 || failed ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
 void dump_vector(struct vec *dvec)
@@ -537,5 +539,6 @@ double coefV(int i, int j)
 
 void yyerror(const char *error)
 {
+  failed = true;
   cerr << error << endl;
 }
-- 
2.43.0


From a6df74c03264eb22a865a2a7927901f0b0bbc4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 04/24] fix: specmoments: reject Nz<1 also in release builds

---
 tools/specmoments/specmoments.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 40fc85c..9491577 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -104,7 +104,10 @@ void cmd_line(int argc, char *argv[]) {
   }
   name = string(argv[optind]);
   Nz   = atoi(argv[optind + 1]);
-  assert(Nz >= 1);
+  if (Nz < 1) {
+    cerr << "Error: Nz must be at least 1." << endl;
+    exit(1);
+  }
   if (verbose) cout << "Processing: " << name << " Nz=" << Nz << endl;
 }
 
-- 
2.43.0


From 739edfe65cedfdd931c700235531aef87b4beb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 05/24] fix: specmoments: reject files that do not contain a
 whole number of rows

---
 tools/specmoments/specmoments.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 9491577..016dbc7 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -151,7 +151,10 @@ void load(int i) {
   f.seekg(0, ios::end);
   const ios::pos_type end_pos = f.tellg();
   const long len              = end_pos - begin_pos;
-  assert(len % (rows * sizeof(double)) == 0);
+  if (len < 0 || len % (rows * sizeof(double)) != 0) {
+    cerr << "Error: " << filename << " does not contain a whole number of rows." << endl;
+    exit(1);
+  }
   const int nr = len / (rows * sizeof(double)); // number of lines
   if (verbose) cout << "len=" << len << " nr=" << nr << " data points" << endl;
   // Allocate the read buffer. The data will be kept in memory for the
-- 
2.43.0


From 6a737e244cca8ab81c9780fa60d06a31e876eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 06/24] fix: bw: write results with 16 significant digits

---
 tools/bw/bw.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/bw/bw.cc b/tools/bw/bw.cc
index 3c2c797..8758d4f 100644
--- a/tools/bw/bw.cc
+++ b/tools/bw/bw.cc
@@ -456,6 +456,7 @@ void save(const string filename0, const vec &mesh_, const vec &data, int iter =
     cerr << "Failed to open " << filename << " for writing." << endl;
     exit(1);
   }
+  F << setprecision(16);
 
   assert(mesh_.size() == data.size());
   int nr = mesh_.size();
-- 
2.43.0


From 72dae6ecd825944281ec0f0dff57d13f252e90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 07/24] fix: intavg: reject Nz<1 also in release builds

---
 tools/intavg/intavg.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index b1db08a..6e71e47 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -64,7 +64,10 @@ void cmd_line(int argc, char *argv[]) {
   }
   name = string(argv[optind]);   // Name of spectral density files
   Nz   = atoi(argv[optind + 1]); // Number of z-values
-  assert(Nz >= 1);
+  if (!(Nz >= 1)) {
+    cerr << "Error: Nz must be greater than or equal to 1." << endl;
+    exit(1);
+  }
 }
 
 string tostring(int i) {
-- 
2.43.0


From 80d149daaeb917124064a29a1557d79438b171e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 08/24] fix: bw: reject invalid mesh and broadening parameters
 also in release builds

---
 tools/bw/bw.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/bw/bw.cc b/tools/bw/bw.cc
index 8758d4f..c210b43 100644
--- a/tools/bw/bw.cc
+++ b/tools/bw/bw.cc
@@ -304,9 +304,6 @@ void combinations(const vec &mesh_, const vec &inta_, vec &intb_, vec &intc_) {
 
 // Create a mesh on which the output spectral function will be computed.
 void make_mesh(vec &mesh_) {
-  assert(broaden_min < broaden_max);
-  assert(broaden_ratio > 1.0);
-
   double z;
   for (z = broaden_min; z < broaden_max; z *= broaden_ratio) {
     mesh_.push_back(z);
@@ -641,13 +638,17 @@ void recalc_b(const vec &mesh_, const vec &bpos, const vec &bneg, vec &b_) {
 // Set default values which depend on the chosen values of other
 // parameters.
 void defaults() {
+  if (!(broaden_min > 0.0)) throw std::invalid_argument("The lower mesh limit must be greater than 0.");
+  if (!(broaden_min < broaden_max)) throw std::invalid_argument("The lower mesh limit must be less than the upper limit.");
+  if (!(broaden_ratio > 1.0)) throw std::invalid_argument("The mesh ratio must be greater than 1.");
+
   if (dyn_mesh > 0.0) {
     // Dynamic mesh
     if (bmin < 0.0) { bmin = 0.0; }
   } else {
     // Fixed mesh
     if (bmin < 0.0) { bmin = broaden_ratio - 1.0; }
-    assert(bmin <= b0);
+    if (!(bmin <= b0)) throw std::invalid_argument("The minimal broadening must be less than or equal to b0.");
   }
 
   if (trim < 0.0) { trim = broaden_min * 10; }
-- 
2.43.0


From b4328258a366fbd377177f05af4d2e3e9f06f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 09/24] fix: integ: reject temperatures that are not positive

---
 tools/integ/integ.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 6df8912..7c1d1eb 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -109,6 +109,11 @@ void cmd_line(int argc, char *argv[]) {
     exit(1);
   }
 
+  if (!(T > 0.0)) {
+    cerr << "Error: T must be greater than 0." << endl;
+    exit(1);
+  }
+
   inputfn = string(argv[optind]);
 }
 
-- 
2.43.0


From 568cb3b68e033d9e43dcc5333b128849d33538dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 10/24] fix: nrgchain: reject negative Nmax, mMAX and preccpp

---
 tools/nrgchain/nrgchain.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 9cdddbd..dd68b06 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -163,14 +163,17 @@ void set_parameters() {
   xmax = P("xmax", 30); // Interval [1..xmax]
   if (!(xmax >= 1.0)) throw std::invalid_argument("xmax must be greater than or equal to 1.");
 
-  Nmax = Pint("Nmax", 0); // Maximal site index in the Wilson chain
+  const int Nmax_ = Pint("Nmax", 0); // Maximal site index in the Wilson chain
+  if (!(Nmax_ >= 0)) throw std::invalid_argument("Nmax must be greater than or equal to 0.");
+  Nmax = Nmax_;
 
-  mMAX = Pint("mMAX", 2 * Nmax); // Maximal index of coefficients (e,f)
+  const int mMAX_ = Pint("mMAX", 2 * Nmax); // Maximal index of coefficients (e,f)
+  if (!(mMAX_ > 0)) throw std::invalid_argument("mMAX must be greater than 0.");
+  mMAX = mMAX_;
 
-  if (!(mMAX > 0)) throw std::invalid_argument("mMAX must be greater than 0.");
-
-  preccpp = Pint("preccpp", 2000); // Precision for GMP
-  if (!(preccpp > 10)) throw std::invalid_argument("preccpp must be greater than 10.");
+  const int preccpp_ = Pint("preccpp", 2000); // Precision for GMP
+  if (!(preccpp_ > 10)) throw std::invalid_argument("preccpp must be greater than 10.");
+  preccpp = preccpp_;
 
   band = Pstr("band", "adapt"); // Default: load FSOL*.dat
 
-- 
2.43.0


From ec69d698c6685adf55f0fd88eb390bbbbc011845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 11/24] fix: adapt: reject outputstep <= 0, which never
 terminates

---
 tools/adapt/adapt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/adapt/adapt.hpp b/tools/adapt/adapt.hpp
index 1e4d96a..4a7fe72 100644
--- a/tools/adapt/adapt.hpp
+++ b/tools/adapt/adapt.hpp
@@ -302,7 +302,7 @@ class Adapt {
      xfine = P.P("xfine", 5); // Fine stepsize integral [1..xfine]
      if (!(xfine > 1)) throw std::invalid_argument("xfine must be greater than 1.");
      output_step = P.P("outputstep", 1.0 / 64.0); // Stepsize for output file
-     if (!(output_step <= 1.0)) throw std::invalid_argument("outputstep must be less than or equal to 1.");
+     if (!(output_step > 0.0 && output_step <= 1.0)) throw std::invalid_argument("outputstep must be greater than 0 and less than or equal to 1.");
      dx_fine       = P.P("dx_fine", 1e-5);        // Integration stepsize in [1..xfine]
      dx_fast       = P.P("dx_fast", 1e-4);        // Integration stepsize in [xfine..xmax]
      allowed_error = P.P("allowed_error", 1e-10); // error control for adaptable stepsize
-- 
2.43.0


From 979da278131645a79c834275b599e6553e6e020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 12/24] fix: hilb: report failures to set up the interpolation
 (too few or repeated points)

---
 tools/hilb/hilb.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 7838074..7c5b40c 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -129,21 +129,25 @@ class interpolator {
   double oob_value;                // out-of-boundary value
   std::unique_ptr<gsl_interp_accel, gsl_accel_deleter> acc; // workspace
   std::unique_ptr<gsl_spline, gsl_spline_deleter> spline;   // spline data
+  void init_spline() {
+    acc.reset(gsl_interp_accel_alloc());
+    if (!acc) throw std::runtime_error("Failed to allocate GSL interpolation accelerator.");
+    spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
+    if (!spline) throw std::runtime_error("Failed to allocate GSL spline (at least three data points are required).");
+    if (const auto status = gsl_spline_init(spline.get(), X.data(), Y.data(), len); status != 0)
+      throw std::runtime_error(std::string("Failed to initialize GSL spline: ") + gsl_strerror(status));
+  }
   public:
   interpolator(const std::vector<double> &_X, const std::vector<double> &_Y, const double _oob_value = 0.0) : X{_X}, Y{_Y}, oob_value{_oob_value} {
     assert(std::is_sorted(X.begin(), X.end()));
     assert(X.size() == Y.size());
-    acc.reset(gsl_interp_accel_alloc());
-    len    = X.size();
-    spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
-    gsl_spline_init(spline.get(), X.data(), Y.data(), len);
+    len = X.size();
+    init_spline();
     Xmin = X.front();
     Xmax = X.back();
   }
   interpolator(const interpolator &I) : len{I.len}, X{I.X}, Y{I.Y}, Xmin{I.Xmin}, Xmax{I.Xmax}, oob_value{I.oob_value} {
-    acc.reset(gsl_interp_accel_alloc());
-    spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
-    gsl_spline_init(spline.get(), X.data(), Y.data(), len);
+    init_spline();
   }
   interpolator(interpolator &&I) = default;
   interpolator &operator=(const interpolator &I) {
@@ -154,9 +158,7 @@ class interpolator {
     Xmin      = I.Xmin;
     Xmax      = I.Xmax;
     oob_value = I.oob_value;
-    acc.reset(gsl_interp_accel_alloc());
-    spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
-    gsl_spline_init(spline.get(), X.data(), Y.data(), len);
+    init_spline();
     return *this;
   }
   interpolator &operator=(interpolator &&I) = default;
-- 
2.43.0


From 7d8c4d3ef3ebd933acbd58fb115a00d4dc2d7195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 13/24] fix: hilb: an integrator owns its workspace when copied
 or assigned, allocation failures are reported

---
 tools/hilb/hilb.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 7c5b40c..d5b6b1e 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -22,6 +22,7 @@
 #include <map>
 #include <optional>
 #include <memory>
+#include <stdexcept>
 #include <ctime>
 #include <cmath>
 #include <cstdlib>
@@ -63,17 +64,22 @@ class integrator {
   bool throw_on_error;                        // if true, integration error will trigger a hard error
   gsl_integration_workspace *work = nullptr; // work space
   gsl_function F;                            // GSL function struct for evaluation of the integrand
+  static gsl_integration_workspace *alloc_workspace(const size_t size) {
+    auto *workspace = gsl_integration_workspace_alloc(size);
+    if (!workspace) throw std::runtime_error("Failed to allocate GSL integration workspace.");
+    return workspace;
+  }
   public:
   void initF() noexcept {
     F.function = &unwrap; // the actual function (lambda expression) will be provided as an argument to operator()
     F.params   = nullptr;
   }
   integrator(size_t _limit = 1000, bool _throw_on_error = false) : limit{_limit}, throw_on_error{_throw_on_error} {
-    work = gsl_integration_workspace_alloc(limit);
+    work = alloc_workspace(limit);
     initF();
   }
   integrator(const integrator &X) : limit{X.limit}, throw_on_error{X.throw_on_error} {
-    // keep the same workspace
+    work = alloc_workspace(limit); // each integrator owns its workspace
     initF();
   }
   integrator(integrator &&X) : limit{X.limit}, throw_on_error{X.throw_on_error} {
@@ -83,14 +89,17 @@ class integrator {
   }
   integrator &operator=(const integrator &X) {
     if (this == &X) return *this;
+    auto *new_work = alloc_workspace(X.limit);
+    if (work) { gsl_integration_workspace_free(work); }
+    work           = new_work;
     limit          = X.limit;
     throw_on_error = X.throw_on_error;
-    // keep the same workspace
     initF();
     return *this;
   }
   integrator &operator=(integrator &&X) {
     if (this == &X) return *this;
+    if (work) { gsl_integration_workspace_free(work); }
     limit          = X.limit;
     throw_on_error = X.throw_on_error;
     work           = X.work; // steal workspace
-- 
2.43.0


From 7f7a1a11d87cd1fae50d9e2f19f020bf74aab24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 14/24] fix: intavg: sort the tabulated data before
 interpolating

---
 tools/intavg/intavg.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 6e71e47..3d97b4b 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -109,6 +109,7 @@ Vec load(int i) {
     cerr << "At least two data points required in file " << filename << endl;
     exit(1);
   }
+  sort(data.begin(), data.end()); // required for interpolation
 
   return data;
 }
-- 
2.43.0


From df506a1f68b8655e3b92e4fa0224d9d6e837e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 15/24] fix: adapt, nrgchain: sort the tables loaded from GSOL
 and FSOL files before interpolating

---
 tools/common/tabulated.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/common/tabulated.hpp b/tools/common/tabulated.hpp
index 73473cf..770a13a 100644
--- a/tools/common/tabulated.hpp
+++ b/tools/common/tabulated.hpp
@@ -47,6 +47,7 @@ auto load_pairs(Stream &input, NextLine next_line) {
   }
   if (vec.empty())
     throw std::runtime_error("No data found.");
+  std::sort(vec.begin(), vec.end()); // required for interpolation
   return vec;
 }
 
-- 
2.43.0


From ad884caeb6045276bb5b1c35c9607f9d6575c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 16/24] fix: adapt, nrgchain: reject bandrescale <= 0

---
 tools/adapt/adapt.hpp      | 1 +
 tools/nrgchain/nrgchain.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tools/adapt/adapt.hpp b/tools/adapt/adapt.hpp
index 4a7fe72..5937a4a 100644
--- a/tools/adapt/adapt.hpp
+++ b/tools/adapt/adapt.hpp
@@ -297,6 +297,7 @@ class Adapt {
      hardgap  = P.Pbool("hardgap", false); // Exclude an interval around omega=0 ?
      boundary = P.P("boundary", 0.0);      // The boundary of the exclusion interval.
      bandrescale = P.P("bandrescale", 1.0); // band rescaling parameter
+     if (!(bandrescale > 0.0)) throw std::invalid_argument("bandrescale must be greater than 0.");
      xmax = P.P("xmax", 30); // Integrate over [1..xmax]
      if (!(xmax > 1)) throw std::invalid_argument("xmax must be greater than 1.");
      xfine = P.P("xfine", 5); // Fine stepsize integral [1..xfine]
diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index dd68b06..42f29b1 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -158,6 +158,7 @@ void set_parameters() {
   adapt = Pbool("adapt", false); // Enable adaptable g(x)? Default is false!!
 
   bandrescale = P("bandrescale", 1.0);
+  if (!(bandrescale > 0.0)) throw std::invalid_argument("bandrescale must be greater than 0.");
   rescalexi   = Pbool("rescalexi", false);
 
   xmax = P("xmax", 30); // Interval [1..xmax]
-- 
2.43.0


From e4e89e5c8d061bc074a04611c5681b1c94067869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 17/24] fix: matrix: accept the documented option -V

---
 tools/matrix/parser.cc | 2 +-
 tools/matrix/parser.yy | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 1b0eb69..796b316 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1809,7 +1809,7 @@ void usage()
 void parse_param(int argc, char *argv[])
 {
   int c;
-  while ((c = getopt(argc, argv, "hc:vpPs")) != -1) {
+  while ((c = getopt(argc, argv, "hc:vVpPs")) != -1) {
   switch (c) {
     case 'h':
       usage();
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 3273fa9..fdd6aba 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -208,7 +208,7 @@ void usage()
 void parse_param(int argc, char *argv[])
 {
   int c;
-  while ((c = getopt(argc, argv, "hc:vpPs")) != -1) {
+  while ((c = getopt(argc, argv, "hc:vVpPs")) != -1) {
   switch (c) {
     case 'h':
       usage();
-- 
2.43.0


From b7380696dc0e34930b45019f9eed3a7e97bd9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 18/24] fix: intavg: -V prints the data that is read

---
 tools/intavg/intavg.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 3d97b4b..763410c 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -102,6 +102,7 @@ Vec load(int i) {
 
       assert(std::isfinite(x) && std::isfinite(y));
       data.push_back(make_pair(x, y));
+      if (veryverbose) { cout << x << " " << y << endl; }
     }
   }
 
-- 
2.43.0


From b319b3980bd5a4a24890e6cbd416b1f6dc6cc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 19/24] fix: diag: a failed workspace query ends the run in
 release builds too

---
 tools/diag/diag.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/diag/diag.cc b/tools/diag/diag.cc
index 9bf41a6..e0ea222 100644
--- a/tools/diag/diag.cc
+++ b/tools/diag/diag.cc
@@ -66,7 +66,10 @@ void diagonalize(unsigned int dim, DVEC &d) {
   // Step 1: determine optimal LWORK
   LAPACK_dsyev(&jobz, &UPLO, &NN, ham, &LDA, eigenvalues.data(), WORK0.data(), &LWORK0, &INFO);
 
-  assert(INFO == 0);
+  if (INFO != 0) {
+    cerr << "eigensolver workspace query failed. INFO=" << INFO << endl;
+    abort();
+  }
 
   lapack_int LWORK = lapack_int(WORK0[0]);
   if (verbose) { cout << "LWORK=" << LWORK << endl; }
-- 
2.43.0


From 3fe20ac36ee5aa5e17a032047a3dfde36e9484a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 20/24] fix: params: an unknown recalculation strategy is
 rejected

---
 c++/params.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/params.hpp b/c++/params.hpp
index 6be825a..87ddaf0 100644
--- a/c++/params.hpp
+++ b/c++/params.hpp
@@ -636,6 +636,8 @@ class Params {
     discretization = std::string(discretization, 0, 1);
     if (discretization != "Y"s && discretization != "C"s && discretization != "Z"s)
       throw std::invalid_argument(fmt::format("Unsupported discretization scheme: {}", discretization.value()));
+    if (strategy != "kept"s && strategy != "all"s)
+      throw std::invalid_argument(fmt::format("Unsupported recalculation strategy: {}", strategy.value()));
     if (chitp_ratio > 0.0) chitp = chitp_ratio / betabar;
   }
 
-- 
2.43.0


From 345f28de9322a1462a14a791addade2dba3d450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 21/24] fix: symmetry: an unknown projection is rejected by
 symmetries without projections

---
 c++/symmetry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/symmetry.hpp b/c++/symmetry.hpp
index 1657b1a..44ab63d 100644
--- a/c++/symmetry.hpp
+++ b/c++/symmetry.hpp
@@ -135,8 +135,9 @@ class Symmetry {
    [[nodiscard]] virtual bool Invar_allowed([[maybe_unused]] const Invar &I) const { return true; }
 
    // Project the states before taking measurements. String p defines what kind of projection is performed.
-   virtual bool project_subspace([[maybe_unused]] const Invar &I, [[maybe_unused]] const std::string &p) const {
-     return true; // by default retain all (i.e., no projection)
+   virtual bool project_subspace([[maybe_unused]] const Invar &I, const std::string &p) const {
+     if (p == ""s || p == "trivial"s) return true; // by default retain all (i.e., no projection)
+     throw std::runtime_error(fmt::format("Unknown projection type {} for this symmetry.", p));
    }
    virtual DiagInfo<S> project(const DiagInfo<S> &diag, const std::string &p) const {
      my_assert(p != ""s); // for performance reasons, this should never be called if the projection is not specified explicitly
-- 
2.43.0


From d64119ccca23d1f911111c690a2b2d9f16900d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 22/24] fix: params: an unknown word in keepall is rejected

---
 c++/params.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/params.hpp b/c++/params.hpp
index 87ddaf0..d216f24 100644
--- a/c++/params.hpp
+++ b/c++/params.hpp
@@ -638,6 +638,8 @@ class Params {
       throw std::invalid_argument(fmt::format("Unsupported discretization scheme: {}", discretization.value()));
     if (strategy != "kept"s && strategy != "all"s)
       throw std::invalid_argument(fmt::format("Unsupported recalculation strategy: {}", strategy.value()));
+    if (keepall != "even"s && keepall != "odd"s && keepall.value().find_first_not_of("0123456789,") != std::string::npos)
+      throw std::invalid_argument(fmt::format("Unsupported value of keepall: {}", keepall.value()));
     if (chitp_ratio > 0.0) chitp = chitp_ratio / betabar;
   }
 
-- 
2.43.0


From 4be5b6b0a9bb61c644463a0779ff45b03ed2c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:55 +0000
Subject: [PATCH 23/24] fix: reject T=nan instead of running into a
 floating-point exception

---
 c++/params.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/params.hpp b/c++/params.hpp
index d216f24..7793ece 100644
--- a/c++/params.hpp
+++ b/c++/params.hpp
@@ -620,7 +620,7 @@ class Params {
   }
 
   void validate() {
-    if (T <= 0.0) throw std::invalid_argument("T must be greater than 0.");
+    if (!(T > 0.0)) throw std::invalid_argument("T must be greater than 0.");
     my_assert(keep > 1);
     if (keepenergy > 0.0) my_assert(keepmin <= keep);
     if (dm_flags()) dm = true;
-- 
2.43.0


From 9bb3428c4df7beaf9dd1b9fb980dcc9ec72ad008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:16 +0000
Subject: [PATCH 24/24] fix: nrgchain: look up the setting nrgchain_tridiag
 under its name

---
 tools/nrgchain/nrgchain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 42f29b1..23c7787 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -180,7 +180,7 @@ void set_parameters() {
 
   nrgchain_tables_save = Pbool("nrgchain_tables_save", false);
   nrgchain_tables_load = Pbool("nrgchain_tables_load", false);
-  nrgchain_tridiag     = Pbool("nrgchains_tridiag", true);
+  nrgchain_tridiag     = Pbool("nrgchain_tridiag", Pbool("nrgchains_tridiag", true)); // the second spelling was used in earlier versions
 
   cout << "# Lambda=" << Lambda;
   cout << " bandrescale=" << bandrescale;
-- 
2.43.0

