From 83d31c99e40df8404abf7b2ecd4b2c7412b1c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 1/9] fix: adding to a sum whose constant cancels no longer
 panics

---
 src/model/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model/node.rs b/src/model/node.rs
index 01d0a99..f3507b9 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -172,6 +172,9 @@ macro_rules! impl_node_add_node {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }        
@@ -214,6 +217,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
@@ -251,6 +257,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
-- 
2.43.0


From 7e53ad2ed47e05f74f5d14a9703db9ccc882cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 2/9] fix: derivative of a quotient whose numerator and
 denominator are the same node

---
 src/model/function/div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 691c445..8bc1257 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -33,7 +33,10 @@ impl NodeBase for FunctionDiv {
     }
 
     fn partial(&self, arg: &Node) -> Node { 
-        if self.args.0 == *arg {
+        if self.args.0 == *arg && self.args.1 == *arg {
+            return ConstantScalar::new(0.);
+        }
+        else if self.args.0 == *arg {
             return 1./&self.args.1;
         }
         else if self.args.1 == *arg {
-- 
2.43.0


From 799345ce4d1507d29893f03bc2e40190936727ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 3/9] fix: products and quotients by a variable-free non-affine
 expression are not affine

---
 src/model/function/div.rs | 2 +-
 src/model/function/mul.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 8bc1257..6345b7b 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -58,7 +58,7 @@ impl NodeStd for FunctionDiv {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = p0.affine && p1.a.is_empty();
+        let affine = p0.affine && p1.affine && p1.a.is_empty();
         let b = p0.b/p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
diff --git a/src/model/function/mul.rs b/src/model/function/mul.rs
index 29d4c37..d70bfe6 100644
--- a/src/model/function/mul.rs
+++ b/src/model/function/mul.rs
@@ -55,8 +55,8 @@ impl NodeStd for FunctionMul {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = (p0.affine && p1.a.is_empty()) || 
-                     (p1.affine && p0.a.is_empty());
+        let affine = p0.affine && p1.affine &&
+                     (p0.a.is_empty() || p1.a.is_empty());
         let b = p0.b*p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
-- 
2.43.0


From 08d23d66b6872be8fd437832438c04988050ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 4/9] fix: solution file naming an unknown variable or row is
 an error, not a panic

---
 src/solver/cbc_cmd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9f7d8f8..81efa60 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -123,6 +123,9 @@ impl SolverCbcCmd {
 
             // Variable
              if dtype == "x" {
+                if index >= solution.x.len() {
+                    return Err(e);
+                }
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -134,6 +137,9 @@ impl SolverCbcCmd {
 
             // Constraint
             else if dtype == "c" {
+                if index >= solution.lam.len() {
+                    return Err(e);
+                }
                 solution.lam[index] = mul;
             }
             else {
-- 
2.43.0


From 46dc492ac9272c0328ee3c1dd5d32e274cd31db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 5/9] fix: cbc and clp leave no problem file behind when
 logLevel is unavailable

---
 src/solver/cbc_cmd.rs | 12 ++++++------
 src/solver/clp_cmd.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 81efa60..b4d03f6 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -165,6 +165,12 @@ impl Solver for SolverCbcCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("cbc")
@@ -195,12 +201,6 @@ impl Solver for SolverCbcCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Cbc command
         match Command::new("cbc")
                       .args(&[&input_filename,
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 0d4b58e..c3f361f 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -52,6 +52,12 @@ impl Solver for SolverClpCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("clp")
@@ -82,12 +88,6 @@ impl Solver for SolverClpCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Clp command
         match Command::new("clp")
                       .stdout(if *log_level == 0 { Stdio::null() } else { Stdio::inherit() })
-- 
2.43.0


From 0bb9b7554f469412d4d1f85b37346483805274b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 6/9] fix: free the native ipopt problem when setting its
 options fails

---
 src/solver/ipopt.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 328ee71..954a534 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -91,16 +91,28 @@ impl Solver for SolverIpopt {
         // Parameter print_level
         let print_level: &i32 = match self.get_param("print_level") {
             Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+            _ => {
+                unsafe { cipopt::FreeIpoptProblem(cprob) };
+                return Err(SimpleError::new("unable to get parameter print_level"))
+            }
         };
-        unsafe { add_int_option(cprob, "print_level", *print_level)? };
+        if let Err(e) = unsafe { add_int_option(cprob, "print_level", *print_level) } {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
 
         // Parameter sb
         let sb: &str = match self.get_param("sb") {
             Some(SolverParam::StrParam(s)) => s.as_ref(),
-            _ => return Err(SimpleError::new("unable to get parameter sb"))
+            _ => {
+                unsafe { cipopt::FreeIpoptProblem(cprob) };
+                return Err(SimpleError::new("unable to get parameter sb"))
+            }
         };
-        unsafe { add_str_option(cprob, "sb", sb)? };
+        if let Err(e) = unsafe { add_str_option(cprob, "sb", sb) } {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
         
         // Buffers
         let mut x: Vec<f64> = vec![0.;p.nx()];
-- 
2.43.0


From e084f1e4b401640358bbfec492423cc48f21a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 7/9] fix: an ipopt string option containing a nul byte is an
 error, not a panic

---
 src/solver/ipopt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 954a534..6e23e7f 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -396,7 +396,10 @@ unsafe fn add_str_option(cprob: cipopt::IpoptProblem,
                          val: &str) 
                          -> Result<(), SimpleError> {
     let ckey = CString::new(key).unwrap();
-    let cval = CString::new(val).unwrap();
+    let cval = match CString::new(val) {
+        Ok(c) => c,
+        Err(_e) => return Err(SimpleError::new(format!("unable to set parameter {}", key)))
+    };
     match cipopt::AddIpoptStrOption(cprob, 
                                     ckey.as_ptr() as *const c_char, 
                                     cval.as_ptr() as *const c_char) {
-- 
2.43.0


From f81928315097459e18c9b75338d9d4ee77bced2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 8/9] fix: ipopt Hessian callback always delivers the values
 for the multipliers passed in

---
 src/solver/ipopt.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 6e23e7f..ae411bf 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -310,7 +310,7 @@ extern fn eval_h_cb(n: c_int,
                     obj_factor: c_double, 
                     m: c_int,
                     lambda: *const c_double,
-                    new_lambda: c_int,
+                    _new_lambda: c_int,
                     nele_hess: c_int,
                     irow: *mut c_int,
                     jcol: *mut c_int,
@@ -356,23 +356,19 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if new_lambda == cipopt::TRUE {
-                if lambda.is_null() {
-                    return cipopt::FALSE;
-                }
-                p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
+            if lambda.is_null() {
+                return cipopt::FALSE;
+            }
+            p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
+            let mut k: usize = 0;
+            for (_row, _col, val) in p.hphi().iter() {
+                *values.add(k) = obj_factor*(*val); 
+                k += 1;
+            }
+            for (_row, _col, val) in p.hcomb().iter() {
+                *values.add(k) = *val; 
+                k += 1;
             }
-            if new_x == cipopt::TRUE || new_lambda == cipopt::TRUE {
-                let mut k: usize = 0;
-                for (_row, _col, val) in p.hphi().iter() {
-                    *values.add(k) = obj_factor*(*val); 
-                    k += 1;
-                }
-                for (_row, _col, val) in p.hcomb().iter() {
-                    *values.add(k) = *val; 
-                    k += 1;
-                }
-            }   
         }
     };
     cipopt::TRUE
-- 
2.43.0


From 79d93c83e5030f6343c3b99d05133a8214a3a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 9/9] fix: problem constructors check the lengths of the
 objective gradient and initial point

---
 src/problem/milp.rs  | 1 +
 src/problem/minlp.rs | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/problem/milp.rs b/src/problem/milp.rs
index 0bf57e8..76fbdb8 100644
--- a/src/problem/milp.rs
+++ b/src/problem/milp.rs
@@ -54,6 +54,7 @@ impl ProblemMilp {
             gphi.copy_from_slice(&c);
         });
         let nx = a.cols();
+        assert_eq!(cc.len(), nx);
         let base = ProblemMinlp::new(CooMat::from_nnz((nx, nx), 0), // Hphi
                                      a, 
                                      b,
diff --git a/src/problem/minlp.rs b/src/problem/minlp.rs
index bbd6c3e..d94b653 100644
--- a/src/problem/minlp.rs
+++ b/src/problem/minlp.rs
@@ -75,6 +75,10 @@ impl ProblemMinlp {
 
         assert_eq!(p.len(), nx);
 
+        if let Some(xx) = &x0 {
+            assert_eq!(xx.len(), nx);
+        }
+
         let mut k: usize = 0;
         let hcomb_nnz = h.iter().map(|h| h.nnz()).sum();
         let mut hcomb = CooMat::from_nnz((nx, nx), hcomb_nnz);
-- 
2.43.0

