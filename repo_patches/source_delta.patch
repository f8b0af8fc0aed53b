From 2795aa44603f31350fa93aea7aa8ebdf135bf2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 1/5] fix: missing array placeholder is NaN whatever the dtype
 of the mimicked array

---
 src/kalmankit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/utils.py b/src/kalmankit/utils.py
index f386b5b..e9c1839 100644
--- a/src/kalmankit/utils.py
+++ b/src/kalmankit/utils.py
@@ -30,7 +30,7 @@ def check_none_and_broadcast(
         Array with np.nan values or original array if is not None.
     """
     if arr is None:
-        arr = np.full_like(broad_to, np.nan)
+        arr = np.full_like(broad_to, np.nan, dtype=float)
 
     return arr
 
-- 
2.43.0


From de45fa059583d85ff7ef20f4bd7ac096b9568f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 2/5] fix: KalmanFilter.predict accepts None for Bk or uk, as
 documented

---
 src/kalmankit/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index c930a92..627fd86 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -176,7 +176,8 @@ class KalmanFilter:
             Prior value of state covariance.
         """
         # project state ahead
-        if is_nan_all(Bk) or is_nan_all(uk):
+        no_control = Bk is None or uk is None
+        if no_control or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
             xk_prior = Ak @ xk + Bk @ uk
-- 
2.43.0


From d5ecfde179a4a0aeba298e52d755d6b3d3eb0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 3/5] fix: a failing git rev-list or git show no longer breaks
 importing the package

---
 src/kalmankit/_version.py |  9 ++++++---
 versioneer.py             | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index f60db0f..c03c35a 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -404,12 +404,15 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[
-        0
-    ].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
diff --git a/versioneer.py b/versioneer.py
index 1e3753e..ff1e07d 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -882,10 +882,15 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%%ci", "HEAD"], cwd=root)[0].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
@@ -1413,10 +1418,15 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[0].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
-- 
2.43.0


From 6d7c4397231f2cf4c720b7a1683bfeb204833113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 4/5] fix: a branch or tag name that is not UTF-8 no longer
 breaks importing the package

---
 src/kalmankit/_version.py | 2 +-
 versioneer.py             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index c03c35a..fe4bd6d 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -121,7 +121,7 @@ def run_command(
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
diff --git a/versioneer.py b/versioneer.py
index ff1e07d..914b845 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -496,7 +496,7 @@ def run_command(
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -623,7 +623,7 @@ def run_command(
         if verbose:
             print("unable to find command, tried %%s" %% (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %%s (error)" %% dispcmd)
-- 
2.43.0


From 05004139b97625e21e2dc0e4ebdcd839b0bcfdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:35 +0000
Subject: [PATCH 5/5] fix: a correction that fails after computing its gain no
 longer leaves that gain in the log

---
 src/kalmankit/extended.py | 4 +++-
 src/kalmankit/standard.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index f6a84ea..ecfd4dc 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -235,7 +235,6 @@ class ExtendedKalmanFilter:
 
         # optimal kalman gain
         Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T
-        self.kalman_gains.append(Kk)
 
         # update estimate via zk
         xk_posterior = xk + Kk @ np.atleast_1d((zk - self.h(xk)))
@@ -243,6 +242,9 @@ class ExtendedKalmanFilter:
         # update error covariance
         Pk_posterior = (self.__I - Kk @ Hk) @ Pk
 
+        # log the gain only once its observation has been processed
+        self.kalman_gains.append(Kk)
+
         return xk_posterior, Pk_posterior
 
     def filter(
diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index 627fd86..f04a454 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -240,7 +240,6 @@ class KalmanFilter:
 
         # optimal kalman gain
         Kk = np.linalg.solve(Sk.T, Hk @ Pk.T).T
-        self.kalman_gains.append(Kk)
 
         # update estimate via zk
         xk_posterior = xk + Kk @ np.atleast_1d((zk - Hk @ xk))
@@ -248,6 +247,9 @@ class KalmanFilter:
         # update error covariance
         Pk_posterior = (self.__I - Kk @ Hk) @ Pk
 
+        # log the gain only once its observation has been processed
+        self.kalman_gains.append(Kk)
+
         return xk_posterior, Pk_posterior
 
     def filter(
-- 
2.43.0

