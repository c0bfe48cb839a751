From 71bf39d3c675ab15efe9be129698bfb9dd1a674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:26 +0000
Subject: [PATCH 01/31] fix: find_lk must not read beyond the tables if k_max
 is zero

---
 pydsge/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 990141c..e395212 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -291,6 +291,10 @@ def find_lk(bmat, bterm, x_bar, q):
             loop_type = False
 
             while True:
+                if k == k_max - 1:
+                    # set error flag 'no solution + k_max reached'
+                    flag = 2
+                    break
                 k += 1
                 if not loop_type:
                     # first iterate until r < r_bar
@@ -298,10 +302,6 @@ def find_lk(bmat, bterm, x_bar, q):
                 elif check_cnst(bmat, bterm, 4, 0, k, q) - x_bar > 0:
                     # then iterate until r > r_bar again
                     break
-                if k == k_max - 1:
-                    # set error flag 'no solution + k_max reached'
-                    flag = 2
-                    break
     else:
         l = 0
 
-- 
2.43.0


From 5e0aa8c9581fcf9e1cea95d32fff882b3d7d9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:26 +0000
Subject: [PATCH 02/31] fix: sign of lagged variables and scaling of shocks in
 the constraint equation

---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 456947a..6230187 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -249,6 +249,8 @@ def gen_sys(
     # y-space is the space of the original variables augmented by the shocks
     c_arg = list(vv0).index(str(self.const_var))
     fc0 = -fc0 / fb0[c_arg]
+    if fd0 is not None:
+        fd0 = -fd0 / fb0[c_arg]
     fb0 = -fb0 / fb0[c_arg]
 
     # create auxiliary vars for those both in A & C
@@ -291,7 +293,7 @@ def gen_sys(
     CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
     fb0 = np.pad(fb0, (0, dimeps))
     if fd0 is not None:
-        fc0 = -np.hstack((fc0, fd0))
+        fc0 = np.hstack((fc0, fd0))
     else:
         fc0 = np.pad(fc0, (0, dimeps))
 
-- 
2.43.0


From e43b33a9e08d4ae99c17c3a6439f93723c71f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:26 +0000
Subject: [PATCH 03/31] fix: lags of forward-looking variables in the
 constraint need an auxiliary variable

---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 6230187..3d3b562 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -261,7 +261,7 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
 
-    inall = ~fast0(AA0, 0) & ~fast0(CC0, 0)
+    inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
         hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
@@ -283,6 +283,8 @@ def gen_sys(
         BB0[-sum(inall):, : -sum(inall)][:, inall] = -np.eye(sum(inall))
         CC0[:, -sum(inall):] = CC0[:, : -sum(inall)][:, inall]
         CC0[:, : -sum(inall)][:, inall] = 0
+        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
+        fc0[: -sum(inall)][inall] = 0
 
     if verbose > 1:
         print("[gen_sys:]".ljust(15, " ") + f" {sum(inall)} auxiliary variables have been added", flush=True)
-- 
2.43.0


From 3e5726ccd5857509c8e7c24d37f2df38ebe8b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 04/31] fix: chain the auxiliary variables for leads of three
 periods and more

---
 pydsge/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9797a5c..8a3b545 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -863,7 +863,10 @@ class DSGE(Model):
             for i in np.arange(2, abs(max_lead_endo[v]) + 1):
                 var_l = Variable(v.name + "_LEAD" + str(i - 1))
 
-                var_l_1 = v(+1)
+                if i == 2:
+                    var_l_1 = v(+1)
+                else:
+                    var_l_1 = Variable(v.name + "_LEAD" + str(i - 2), date=+1)
 
                 subs_dict[Variable(v.name, date=+i)] = var_l(+1)
                 var_ordering.append(var_l)
-- 
2.43.0


From fdb6f882cce399b6c15829e68c5769628ba9948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 05/31] fix: traj must use the regime (l,k) it reports

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e8278e..bdc70ce 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -513,7 +513,7 @@ def traj(self, state, l=None, k=None, verbose=True):
 
     tmat, tterm = self.precalc_tmat
 
-    return tmat[:, l, k - 1] @ state + tterm[:, l, k - 1]
+    return tmat[:, l, k] @ state + tterm[:, l, k]
 
 
 def k_map(self, state, l=None, k=None, verbose=True):
-- 
2.43.0


From b03bcdc401979eaa1f5462b1fa67f4391c74a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 06/31] fix: drop cached trajectory matrices when the system is
 recompiled

---
 pydsge/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index e395212..55dc373 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -193,6 +193,10 @@ def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=
         PU, MU, PR, MR, gg, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max
     )
 
+    # trajectories of a previous parametrization are no longer valid
+    if hasattr(self, "precalc_tmat"):
+        del self.precalc_tmat
+
     if verbose:
         print(
             "[preprocess:]".ljust(15, " ")
-- 
2.43.0


From 61a40633ce8943c03635d39e6a5a46860ff4a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 07/31] fix: set_par must not take the name of a parameter set
 for a vector

---
 pydsge/mpile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index cc2be92..371ee5e 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -315,9 +315,9 @@ def set_par(
             par = get_par(
                 self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args
             )
-        elif len(dummy) == len(self.par_fix):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.par_fix):
             par = dummy
-        elif len(dummy) == len(self.prior_arg):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.prior_arg):
             par[self.prior_arg] = dummy
         else:
             par = get_par(
-- 
2.43.0


From 1249a3de0c91748e1baa8b26fbaa07c8482b05ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 08/31] fix: load_rdict must find what save_rdict stored under
 the same name

---
 pydsge/clsmethods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 34a8df6..396b90e 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -182,10 +182,10 @@ def load_rdict(self, path=None, suffix=""):
     if path is None:
         path = self.name + "_res"
 
-    path += suffix
+    if path[-4:] == ".npz":
+        path = path[:-4]
 
-    if path[-4] != ".npz":
-        path += ".npz"
+    path += suffix + ".npz"
 
     if not os.path.isabs(path):
         path = os.path.join(self.path, path)
-- 
2.43.0


From c517fd34479e28fb834884cf6a88e9b600ca0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 09/31] fix: do not reuse a cached model that was parsed with a
 functions file that is gone

---
 pydsge/parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 8a3b545..ea32520 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -31,8 +31,7 @@ def crawl_cached_models(mtxt, ftxt):
 
             use_cached = cached_models[i].fdict["yaml_raw"] == mtxt
 
-            if ftxt is not None:
-                use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
+            use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
 
             if use_cached:
                 processed_raw_model = cached_models[i]
@@ -577,7 +576,7 @@ class DSGE(Model):
         fdict = dict(np.load(npzfile, allow_pickle=True))
 
         mtxt = str(fdict["yaml_raw"])
-        ftxt = str(fdict.get("ffile_raw"))
+        ftxt = str(fdict["ffile_raw"]) if "ffile_raw" in fdict else None
 
         try:
             if force_parse:
-- 
2.43.0


From 0ef29ce9e064bbe5c2e8a3959c043ee1a3401d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 10/31] fix: a model taken from the cache belongs to the folder
 it was read from

---
 pydsge/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index ea32520..1728555 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -516,6 +516,7 @@ class DSGE(Model):
             if verbose:
                 print("[DSGE:]".ljust(15, " ") + " Model is already parsed, reusing parsed model")
             pmodel = deepcopy(processed_raw_model)
+            pmodel.path = os.path.dirname(mfile)
 
         else:
 
-- 
2.43.0


From 9354dd4052927be372edcb4c250df4e04fafc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 11/31] fix: simulate without source if parameters, residuals
 and init are given

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index bdc70ce..091e41b 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -465,7 +465,7 @@ def simulate(
     res = wrap(
         self.mapper(runner, zip(*sample)),
         unit=" sample(s)",
-        total=len(source["pars"]),
+        total=len(pars),
         dynamic_ncols=True,
     )
 
-- 
2.43.0


From 32acc24d6e569f08ca2b37146fd760b91953916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 12/31] fix: get_sample must draw from the most recent part of
 the given chain

---
 pydsge/clsmethods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 396b90e..6081407 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -333,14 +333,14 @@ def load_data(self, df, start=None, end=None):
 def get_sample(self, size, chain=None):
     """Get a (preferably recent) sample from the chain"""
 
-    chain = None or self.get_chain()
+    chain = self.get_chain() if chain is None else chain
     clen, nwalks, npar = chain.shape
-    recent = int(np.ceil(60 / nwalks))
+    recent = int(np.ceil(size / nwalks))
 
     if recent > clen:
         raise Exception("Requested sample size is larger than chain")
 
-    sample = chain[:, -recent, :].reshape(-1, npar)
+    sample = chain[-recent:].reshape(-1, npar)
     res = np.random.choice(np.arange(recent * nwalks), size, False)
 
     return sample[res]
-- 
2.43.0


From 3f68d5164e56a3d2a8f2c094e8e0b57135642af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 13/31] fix: post_mean of a given chain

---
 pydsge/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 7f0ae45..79939ee 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -265,7 +265,7 @@ def post_mean(self, chain=None, tune=None):
     """Calculate the mean of the posterior distribution"""
 
     tune = tune or self.get_tune
-    chain = chain or self.get_chain()[-tune:]
+    chain = self.get_chain()[-tune:] if chain is None else chain
 
     return chain.reshape(-1, chain.shape[-1]).mean(axis=0)
 
-- 
2.43.0


From e63be82640496f4fe3211d155a3c2d1d147b2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 14/31] fix: allow for model dicts without observables

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 3d3b562..4f4e8e2 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -240,7 +240,7 @@ def gen_sys(
 
     # start
     vv0 = self.vv
-    ZZ0 = None if not len(ZZ0) else ZZ0
+    ZZ0 = None if ZZ0 is None or not len(ZZ0) else ZZ0
 
     # z-space is the space of the original variables
     dimx = len(vv0)
-- 
2.43.0


From 7dc2178ffa5514ac8d74648f33588fb3a5fc5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 15/31] fix: mcmc with default tune must find the mode

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 734adc7..305d312 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -162,8 +162,8 @@ def mcmc(
 
     if temp == 1:
 
-        log_probs = sampler.get_log_prob()[-tune:]
-        chain = sampler.get_chain()[-tune:]
+        log_probs = sampler.get_log_prob()[-self.tune:]
+        chain = sampler.get_chain()[-self.tune:]
         chain = chain.reshape(-1, chain.shape[-1])
 
         arg_max = log_probs.argmax()
-- 
2.43.0


From cec17a4a314487ff286de1a01424f6be696c5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 16/31] fix: the mode must be stored in terms of the model
 parameters if a prior transform is used

---
 pydsge/mcmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 305d312..d8e7934 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -169,6 +169,8 @@ def mcmc(
         arg_max = log_probs.argmax()
         mode_f = log_probs.flat[arg_max]
         mode_x = chain[arg_max].flatten()
+        if self.bptrans:
+            mode_x = self.bptrans(mode_x)
 
         self.fdict["mode_x"] = mode_x
         self.fdict["mode_f"] = mode_f
-- 
2.43.0


From e160483b4220b2e858dcaa87680a60a67c62b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 17/31] fix: one starting point per walker if mcmc is called
 without p0

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index d8e7934..da6d03b 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -110,12 +110,12 @@ def mcmc(
                 "prior_mean",
                 asdict=False,
                 full=False,
-                nsample=nwalks,
+                nsamples=nwalks,
                 verbose=verbose > 1,
             )
         else:
             p0 = get_par(
-                self, "best", asdict=False, full=False, nsample=nwalks, verbose=verbose > 1
+                self, "best", asdict=False, full=False, nsamples=nwalks, verbose=verbose > 1
             )
     elif not resume:
         nwalks = p0.shape[0]
-- 
2.43.0


From 5778c21e939e90b19a5ee62ac5d1be3815d357a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 18/31] fix: models prepared without a pool must be usable

---
 pydsge/estimation.py | 4 ++--
 pydsge/filtering.py  | 2 +-
 pydsge/mcmc.py       | 2 +-
 pydsge/mpile.py      | 2 +-
 pydsge/tools.py      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 87225ad..fa265e1 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -250,7 +250,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 
     import pathos
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         ncores = ncores or self.pool.ncpus
         self.pool.close()
     else:
@@ -281,7 +281,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 @property
 def mapper(self):
 
-    if hasattr(self, "pool") and not self.debug:
+    if getattr(self, "pool", None) and not self.debug:
         return self.pool.imap
     else:
         return map
diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 519c53c..483d61d 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -357,7 +357,7 @@ def extract(
     fname = self.filter.name
     verbose = max(verbose, debug)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index da6d03b..81539f2 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -79,7 +79,7 @@ def mcmc(
 
         self.pool = None
 
-    elif hasattr(self, "pool"):
+    elif getattr(self, "pool", None):
 
         from .estimation import create_pool
 
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 371ee5e..b12cb22 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -73,7 +73,7 @@ def prior_sampler(
 
     self.debug |= debug
 
-    if not debug and hasattr(self, "pool"):
+    if not debug and getattr(self, "pool", None):
 
         from .estimation import create_pool
         create_pool(self)
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 091e41b..de6ccfc 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -208,7 +208,7 @@ def irfs(
     if not hasattr(self, "par"):
         gen_sys(self, verbose=verbose, **args)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
@@ -416,7 +416,7 @@ def simulate(
 
     self.debug |= debug
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
-- 
2.43.0


From bdba1192077dcd011c5f6a7c4b262a73d997bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 19/31] fix: intervals of observables must use their standard
 deviation

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index de6ccfc..736fe16 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -151,7 +151,8 @@ def o_func(self, state, covs=None, pars=None):
     std = np.sqrt(var)
     iv95 = np.stack((state - 1.96 * std, state, state + 1.96 * std))
 
-    std_obs = (np.hstack((self.hx[0], self.hx[1])) @ std.T).T
+    hx = np.hstack((self.hx[0], self.hx[1]))
+    std_obs = np.sqrt(np.diagonal(hx @ covs @ hx.T, axis1=1, axis2=2))
     iv95_obs = np.stack((obs - 1.96 * std_obs, obs, obs + 1.96 * std_obs))
 
     return iv95_obs, iv95
-- 
2.43.0


From f0a19106dd0b5459db786d2dfe59b10f0406ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:39 +0000
Subject: [PATCH 20/31] fix: functions files that are changed within a second
 must be read again

---
 pydsge/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 1728555..2026a36 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -390,7 +390,9 @@ class DSGE(Model):
 
             spec = iu.spec_from_file_location("module", self.func_file)
             module = iu.module_from_spec(spec)
-            spec.loader.exec_module(module)
+            # not via the loader, which would use outdated bytecode if the file was changed within a second
+            with open(self.func_file) as ff:
+                exec(compile(ff.read(), self.func_file, "exec"), module.__dict__)
 
             funcs_list = [
                 o for o in inspect.getmembers(module) if inspect.isroutine(o[1])
-- 
2.43.0


From cd6e24a4b6c4e8b3c0c90aa1bafe174c7a2a2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:39 +0000
Subject: [PATCH 21/31] fix: load_rdict must find results that were stored with
 a suffix that ends with the extension

---
 pydsge/clsmethods.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 6081407..d8d38c9 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -185,11 +185,14 @@ def load_rdict(self, path=None, suffix=""):
     if path[-4:] == ".npz":
         path = path[:-4]
 
-    path += suffix + ".npz"
-
     if not os.path.isabs(path):
         path = os.path.join(self.path, path)
 
+    path += suffix
+
+    if path[-4:] != ".npz":
+        path += ".npz"
+
     return dict(np.load(path, allow_pickle=True))
 
 
-- 
2.43.0


From 9687bece46b5e65c8029c67007b994a377b74291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:39 +0000
Subject: [PATCH 22/31] fix: the Kalman filter must not transform the shock
 covariance twice

---
 pydsge/filtering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 483d61d..7fec9b6 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -181,12 +181,14 @@ def run_filter(
         self.filter.F = F
         self.filter.H = np.hstack((self.hx[0], self.hx[1])), self.hx[2]
 
-        if self.filter.Q.shape[0] == self.neps:
+        # the shape alone does not tell if there are as many variables as shocks
+        if self.filter.Q.shape[0] == self.neps and self.filter.Q is not getattr(self.filter, "Q_full", None):
             E = np.vstack(
                 (pmat[1, 0][:, -self.neps:], qmat[1, 0]
                  [: -self.neps, -self.neps:])
             )
             self.filter.Q = E @ self.filter.Q @ E.T
+            self.filter.Q_full = self.filter.Q
 
         if self.filter.init_cov is None:
             p4 = sl.solve_discrete_lyapunov(
-- 
2.43.0


From e6139264aae421347f5d361371136c75cee197e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:23 +0000
Subject: [PATCH 23/31] fix: a set of parameters that does not exist must not
 reset the current parameters

---
 pydsge/mpile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index b12cb22..621bfa0 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -190,10 +190,9 @@ def get_par(
                 )
 
         else:
-            old_par = self.par
             pars = self.par_fix
-            self.par = self.par_fix
             if dummy == "prior":
+                self.par = self.par_fix
                 par_cand = prior_sampler(
                     self, nsamples=nsamples, verbose=verbose, debug=debug, **args
                 )
@@ -239,10 +238,11 @@ def get_par(
                         par_cand[i] = self.par_fix[self.prior_arg][i]
 
             else:
-                self.par = old_par
                 raise KeyError(
                     "Parameter or parametrization '%s' does not fit/exist." % dummy
                 )
+
+            self.par = self.par_fix
     if full:
         if isinstance(dummy, str) and dummy in ("prior", "post", "posterior"):
             par = np.tile(pars, (nsamples, 1))
-- 
2.43.0


From b1e92802356c6dd73a52e201f48a60b2c46bac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:19 +0000
Subject: [PATCH 24/31] fix: load_data must select the right rows if the index
 is numeric

---
 pydsge/clsmethods.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index d8d38c9..19a0a7f 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -315,11 +315,13 @@ def load_data(self, df, start=None, end=None):
 
         d = df[self.observables]
 
-    if start is not None:
-        start = str(start)
+    # labels of a numeric index must not be compared as text
+    if not pd.api.types.is_numeric_dtype(d.index):
+        if start is not None:
+            start = str(start)
 
-    if end is not None:
-        end = str(end)
+        if end is not None:
+            end = str(end)
 
     d = d.loc[start:end]
 
-- 
2.43.0


From 8ee0aaf633894885bc4f2bbf085b28f55de9f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:22 +0000
Subject: [PATCH 25/31] fix: keep variables that only enter the constraint
 contemporaneously

The control variables were collected from the model equations alone, such that a variable that is part
of nothing but the constraint was dropped and the system could not be assembled.
---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 4f4e8e2..e0c84ce 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -303,7 +303,7 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" {dimeps} shocks have been added", flush=True)
 
     inq = ~fast0(CC0, 0) | ~fast0(fc0)
-    inp = (~fast0(AA0, 0) | ~fast0(BB0, 0)) & ~inq
+    inp = (~fast0(AA0, 0) | ~fast0(BB0, 0) | ~fast0(fb0)) & ~inq
 
     # check dimensionality
     dimq = sum(inq)
-- 
2.43.0


From b700eea38279aa2e57e343e12034f678ce830f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 26/31] fix: transitions of models without endogenous state
 variables

If there is no lagged variable then dimq equals dimeps, and the slice of the last zero entries of the
state vector was the full vector.
---
 pydsge/stats.py | 2 +-
 pydsge/tools.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 79939ee..cd39ad9 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -184,7 +184,7 @@ def nhd(self, eps_dict, linear=False, **args):
                 eps = np.zeros(self.dimeps)
                 eps[s] = resid[s]
 
-                v = np.hstack((hd[i, s, t, -self.dimq + self.dimeps:], eps))
+                v = np.hstack((hd[i, s, t, hd.shape[-1] - self.dimq + self.dimeps:], eps))
                 p = pmat[l, k] @ v
                 q = qmat[l, k] @ v
                 hd[i, s, t + 1, :] = np.hstack((p, q))
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 736fe16..1d8a4ee 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -81,7 +81,7 @@ def t_func(
         bterm,
         x_bar,
         *self.hx,
-        state[-dimq + dimeps:],
+        state[len(state) - dimq + dimeps:],
         shocks,
         set_l,
         set_k,
@@ -272,7 +272,7 @@ def irfs(
                 set_k_eff = (l - 1, k) if l else (l, max(k - 1, 0))
 
                 _, (l_endo, k_endo), flag = pelf.t_func(
-                    st_vec[-(pelf.dimq - pelf.dimeps):],
+                    st_vec[len(st_vec) - pelf.dimq + pelf.dimeps:],
                     shk_vec,
                     set_k=None,
                     linear=linear,
@@ -310,7 +310,7 @@ def irfs(
                     )
 
             st_vec, (l, k), flag = pelf.t_func(
-                st_vec[-(pelf.dimq - pelf.dimeps):],
+                st_vec[len(st_vec) - pelf.dimq + pelf.dimeps:],
                 shk_vec,
                 set_k=set_k_eff,
                 linear=linear,
-- 
2.43.0


From 68be3bdfd8daaadfd010f8e83b5f801671b32acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:21 +0000
Subject: [PATCH 27/31] fix: preprocessing of models without control variables

The condition number is not defined for an empty matrix.
---
 pydsge/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 55dc373..6efdf49 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -50,7 +50,7 @@ def preprocess_jittable(S, T, V, W, h, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_
     k_max += 1
 
     T22 = T[dimq:, dimq:]
-    if nl.cond(T22) > 1 / si_eps:
+    if dimp and nl.cond(T22) > 1 / si_eps:
         print(
             "[preprocess:]".ljust(15, " ")
             + " WARNING: at least one control indetermined"
-- 
2.43.0


From 7c187241c535d51a6f542a16a1b6431d1aa0d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:18 +0000
Subject: [PATCH 28/31] fix: lagged variables in observables must not be
 dropped

Only current variables of an observation equation were collected, and lagged ones were silently set to
zero. They are now carried by the same auxiliary variables as longer lags in the model equations.
---
 pydsge/parser.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 2026a36..26dd578 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -839,6 +839,19 @@ class DSGE(Model):
             except Exception as ex:
                 raise SyntaxError("While parsing variable '%s': %s" % (v, ex))
 
+        # lags in the observables need one auxiliary variable more, which carries the lagged variable
+        context["sum"] = np.sum
+        context["range"] = range
+        for obs in obs_equations.items():
+            obs_equations[obs[0]] = sympy.sympify(eval(obs[1], context))
+
+        obs_dict = {}
+        for v in it(list(eq.atoms(Variable)) for eq in obs_equations.values()):
+            if v.date < 0:
+                v0 = v(-v.date)
+                max_lag_endo[v0] = min(max_lag_endo[v0], v.date - 1)
+                obs_dict[v] = Variable(v.name + "_LAG" + str(-v.date))
+
         # ------------------------------------------------------------
         # arbitrary lags/leads of exogenous shocks
         subs_dict = {}
@@ -875,6 +888,7 @@ class DSGE(Model):
                 equations.append(Equation(var_l, var_l_1))
 
         equations = [eq.subs(subs_dict) for eq in equations]
+        obs_equations = {o: eq.subs(obs_dict) for o, eq in obs_equations.items()}
 
         cov = cal["covariances"]
 
@@ -920,11 +934,6 @@ class DSGE(Model):
                     HH[indi, indj] = eval(value, context)
                     HH[indj, indi] = HH[indi, indj]
 
-        context["sum"] = np.sum
-        context["range"] = range
-        for obs in obs_equations.items():
-            obs_equations[obs[0]] = eval(obs[1], context)
-
         calibration = model_yaml["calibration"]["parameters"]
 
         if "parafunc" not in cal:
-- 
2.43.0


From 383cb598dcda530a045123fde9bc06f6f2374612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:24 +0000
Subject: [PATCH 29/31] fix: get_par('best') returned the non-estimated
 parameters as currently set, not as calibrated like the other sets

---
 pydsge/mpile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 621bfa0..ada9a37 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -188,6 +188,7 @@ def get_par(
                 par_cand = get_par(
                     self, "init", asdict=False, full=False, verbose=verbose, **args
                 )
+            pars = self.par_fix
 
         else:
             pars = self.par_fix
-- 
2.43.0


From 412bd2b401cc1dae96b310569a072093117303f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:43 +0000
Subject: [PATCH 30/31] fix: simulate compared the ordering of variables with
 itself, so that a changed ordering went unnoticed

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 1d8a4ee..3491365 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -435,8 +435,9 @@ def simulate(
             eps = np.where(np.isnan(mask), eps, operation(np.array(mask), eps))
 
         if pelf.set_par is not None:
+            vv0 = getattr(pelf, "vv", None)
             _, vv = pelf.set_par(par, return_vv=True, **args)
-            if not np.all(vv == pelf.vv):
+            if vv0 is not None and not np.array_equal(vv, vv0):
                 raise Exception(
                     "The ordering of variables has changed given different parameters."
                 )
-- 
2.43.0


From 3afe3f99a6b0b745ec59f15baa3a1196a67405f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:50 +0000
Subject: [PATCH 31/31] fix: irfs with parameters that change the ordering of
 variables were silently mislabelled

---
 pydsge/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 3491365..ff0862a 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -240,6 +240,7 @@ def irfs(
         L = np.empty(T)
 
         if np.any(par):
+            vv0 = pelf.vv
             try:
                 pelf.set_par(par, **args)
             except ValueError:
@@ -247,6 +248,10 @@ def irfs(
                 K[:] = np.nan
                 L[:] = np.nan
                 return X, K, L, 4, 4
+            if not np.array_equal(pelf.vv, vv0):
+                raise Exception(
+                    "The ordering of variables has changed given different parameters."
+                )
 
         st_vec = state if state is not None else np.zeros(nstates)
 
-- 
2.43.0

